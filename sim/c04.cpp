// C04: copies and moved-to objects are faithful and independent
#include "hosttest.hpp"

#include <type_traits>

using namespace kit;

namespace
{
// A user's signal, which can be assigned (most stock ones cannot)
template <typename S>
class UserSignal : public hart::Signal<S>
{
public:
    using SampleType = S;
    uint64_t salt;
    size_t pos = 0;
    explicit UserSignal (uint64_t s) : salt (s) {}
    void prepare (double, size_t, size_t) override {}
    void reset() override { pos = 0; }
    void represent (std::ostream& s) const override { s << "UserSignal()"; }

    void renderNextBlock (hart::AudioBuffer<S>& out) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t n = 0; n < out.getNumFrames(); ++n)
                out[c][n] = (S) contentAt (salt, c, pos + n);

        pos += out.getNumFrames();
    }

    HART_SIGNAL_DEFINE_COPY_AND_MOVE (UserSignal);
};

template <typename S> struct Obj
{
    std::unique_ptr<hart::Signal<S>> sig;
    std::unique_ptr<hart::DSP<S>> dsp;
    std::unique_ptr<hart::Envelope> env;
    std::unique_ptr<hart::Matcher<S>> mat;
};

template <typename S> using Step = std::function<void (Obj<S>&)>;
template <typename S> using Recipe = std::vector<Step<S>>;

template <typename S> Obj<S> recreate (const Recipe<S>& r)
{
    Obj<S> o;

    for (auto& f : r)
        f (o);

    return o;
}

enum Kind { signalBox, dspBox, envBox, matcherBox };

template <typename S> struct Box
{
    std::string name;
    Kind kind = signalBox;
    Obj<S> real, shadow;             // the shadow has lived the same life, but was never copied, moved or assigned
    Recipe<S> recipe;
    double sr = 44100;
    size_t ch = 1, block = 0;        // 0: to be prepared
    bool automated = false, userSignal = false, failed = false;
    bool anyChannels = true;
    uint64_t input = 0;

    void apply (const Step<S>& f)
    {
        f (real);
        f (shadow);
        recipe.push_back (f);
    }
};

template <typename T, typename B> typename std::enable_if<std::is_copy_assignable<T>::value, bool>::type tryAssign (B& dst, B& src, bool move)
{
    T* d = dynamic_cast<T*> (&dst);
    T* s = dynamic_cast<T*> (&src);

    if (d == nullptr || s == nullptr)
        return false;

    if (move)
        *d = std::move (*s);
    else
        *d = *s;

    return true;
}

template <typename T, typename B> typename std::enable_if<! std::is_copy_assignable<T>::value, bool>::type tryAssign (B&, B&, bool) { return false; }

template <typename S> bool assign (Box<S>& d, Box<S>& s, bool move)
{
    if (d.kind != s.kind)
        return false;

    switch (d.kind)
    {
        case signalBox:
            return tryAssign<UserSignal<S>> (*d.real.sig, *s.real.sig, move) || tryAssign<hart::Silence<S>> (*d.real.sig, *s.real.sig, move)
                || tryAssign<hart::WhiteNoise<S>> (*d.real.sig, *s.real.sig, move) || tryAssign<hart::SineWave<S>> (*d.real.sig, *s.real.sig, move)
                || tryAssign<hart::SineSweep<S>> (*d.real.sig, *s.real.sig, move) || tryAssign<hart::WavFile<S>> (*d.real.sig, *s.real.sig, move);
        case dspBox:
            return tryAssign<hart::GainDb<S>> (*d.real.dsp, *s.real.dsp, move) || tryAssign<hart::GainLinear<S>> (*d.real.dsp, *s.real.dsp, move)
                || tryAssign<hart::HardClip<S>> (*d.real.dsp, *s.real.dsp, move);
        case envBox:
            return tryAssign<hart::SegmentedEnvelope> (*d.real.env, *s.real.env, move);
        default:
            return tryAssign<hart::EqualsTo<S>> (*d.real.mat, *s.real.mat, move) || tryAssign<hart::PeaksAt<S>> (*d.real.mat, *s.real.mat, move)
                || tryAssign<hart::PeaksBelow<S>> (*d.real.mat, *s.real.mat, move);
    }
}

template <typename S> double tolerance() { return sizeof (S) == 4 ? 2e-6 : 1e-9; }
template <typename S> bool same (double a, double b) { return a == b || (std::isnan (a) && std::isnan (b)) || std::abs (a - b) <= tolerance<S>() * (1 + std::abs (b)); }

template <typename S> void compare (const Box<S>& x, const hart::AudioBuffer<S>& a, const hart::AudioBuffer<S>& b)
{
    for (size_t c = 0; c < a.getNumChannels(); ++c)
        for (size_t n = 0; n < a.getNumFrames(); ++n)
            if (! same<S> ((double) a[c][n], (double) b[c][n]))
                sim::violation ("not-faithful", "%s (%s): channel %zu frame %zu of the block is %.9g, an object with the same life that was never copied, moved or assigned gives %.9g",
                                x.name.c_str(), typeName<S>(), c, n, (double) a[c][n], (double) b[c][n]);

    sim::mixState (hashOf (a));
}

template <typename S> struct World
{
    std::vector<std::unique_ptr<Box<S>>> boxes;
    size_t made = 0;
    double sr;
    size_t ch;

    World() : sr (genSampleRate (true)), ch (1 + pick (2)) {}

    Box<S>& any() { return *boxes[pick (boxes.size())]; }

    Box<S>* anyOf (Kind k)
    {
        std::vector<Box<S>*> v;

        for (auto& b : boxes)
            if (b->kind == k)
                v.push_back (b.get());

        return v.empty() ? nullptr : v[pick (v.size())];
    }

    Box<S>& add (Kind k)
    {
        boxes.emplace_back (new Box<S>);
        Box<S>& b = *boxes.back();
        b.kind = k;
        b.name = fmt ("%s%zu", k == signalBox ? "signal" : k == dspBox ? "dsp" : k == envBox ? "env" : "matcher", made++);
        b.sr = sr;
        b.ch = ch;
        return b;
    }

    void make()
    {
        Box<S>& b = add ((Kind) pick (4));
        GenOptions o;
        o.sr = sr;
        o.channels = ch;
        o.frames = 400;

        switch (b.kind)
        {
            case signalBox:
                if (chance (1, 3))
                {
                    const uint64_t salt = pick (10);
                    b.userSignal = true;
                    logf ("%s = UserSignal(%d)", b.name.c_str(), (int) salt);
                    b.apply ([salt] (Obj<S>& x) { x.sig.reset (new UserSignal<S> (salt)); });
                }
                else
                {
                    const SignalSpec s = genSignal (o);
                    b.automated = s.hasEnv();
                    logf ("%s = %s", b.name.c_str(), s.text().c_str());
                    b.apply ([s] (Obj<S>& x) { x.sig = s.build<S>(); });
                }
                break;

            case dspBox:
            {
                const DspSpec d = genDsp (true, 0.01);
                b.automated = d.hasEnv;
                logf ("%s = %s", b.name.c_str(), d.text().c_str());
                b.apply ([d] (Obj<S>& x) { x.dsp = d.build<S>(); });
                break;
            }

            case envBox:
            {
                const EnvSpec e = genEnv (-1, 2, 0.02);
                logf ("%s = %s", b.name.c_str(), e.text().c_str());
                b.apply ([e] (Obj<S>& x) { x.env.reset (new hart::SegmentedEnvelope (e.build())); });
                break;
            }

            default:
            {
                CheckSpec c;
                c.kind = (CheckSpec::Kind) pick (3);
                c.level = realIn (-20, 3);
                c.tol = oneOf<double> ({ 1e-3, 0.3 });

                if (c.kind == CheckSpec::equals)
                    c.ref = genSignal (o);

                b.automated = c.ref.hasEnv();
                logf ("%s = %s", b.name.c_str(), c.text().c_str());
                b.apply ([c] (Obj<S>& x) { x.mat = c.build<S>(); });
                break;
            }
        }
    }

    // dst lives on as src would have
    void inherit (Box<S>& dst, const Box<S>& src)
    {
        dst.recipe = src.recipe;
        dst.shadow = recreate (dst.recipe);
        dst.sr = src.sr;
        dst.ch = src.ch;
        dst.block = src.block;
        dst.automated = src.automated;
        dst.userSignal = src.userSignal;
        dst.failed = src.failed;
        dst.input = src.input;
    }

    void copyOrMove (bool move)
    {
        Box<S>& src = any();

        if (src.kind == envBox && move)
            return;

        Box<S>& dst = add (src.kind);
        logf ("%s = %s of %s", dst.name.c_str(), move ? "move" : "copy", src.name.c_str());

        switch (src.kind)
        {
            case signalBox: dst.real.sig = move ? src.real.sig->move() : src.real.sig->copy(); break;
            case dspBox: dst.real.dsp = move ? src.real.dsp->move() : src.real.dsp->copy(); break;
            case envBox: dst.real.env = src.real.env->copy(); break;
            default: dst.real.mat = move ? src.real.mat->move() : src.real.mat->copy(); break;
        }

        inherit (dst, src);
        look (dst);

        if (move)
            destroy (src);
    }

    void destroy (Box<S>& b)
    {
        logf ("destroy %s", b.name.c_str());

        for (size_t i = 0; i < boxes.size(); ++i)
            if (boxes[i].get() == &b)
            {
                boxes.erase (boxes.begin() + (long) i);
                return;
            }
    }

    void assignSome()
    {
        Box<S>& dst = any();
        Box<S>& src = any();
        const bool move = chance (1, 3) && &dst != &src;

        if (! assign (dst, src, move))
            return;

        logf ("%s = %s%s", dst.name.c_str(), move ? "std::move " : "", src.name.c_str());
        sim::probe (&dst == &src ? "self-assignment" : move ? "move assignment" : "copy assignment");
        const std::string keep = dst.name;

        if (&dst != &src)
            inherit (dst, src);

        look (dst);

        if (move)
            destroy (src);
    }

    void prepare (Box<S>& b)
    {
        const size_t block = 1 + pick (120), c = b.ch;
        const double rate = b.sr;
        b.block = block;
        b.apply ([=] (Obj<S>& x)
        {
            if (x.sig) x.sig->prepareWithDSPChain (rate, c, block);
            if (x.dsp) x.dsp->prepareWithEnvelopes (rate, c, c, block);
            if (x.env) x.env->prepare (rate, block);
            if (x.mat) x.mat->prepare (rate, c, block);
        });
        logf ("prepare %s for blocks of %zu", b.name.c_str(), block);
    }

    void render (Box<S>& b)
    {
        if (b.block == 0)
            prepare (b);

        const size_t n = chance (1, 4) ? 1 + pick (b.block) : b.block;
        logf ("render %zu frames of %s", n, b.name.c_str());
        sim::simulatedFrames ((double) n, b.sr);

        switch (b.kind)
        {
            case signalBox:
            {
                hart::AudioBuffer<S> a (b.ch, n), w (b.ch, n);
                poison (a);
                b.real.sig->renderNextBlockWithDSPChain (a);
                b.shadow.sig->renderNextBlockWithDSPChain (w);
                compare (b, a, w);
                const size_t c = b.ch;
                b.recipe.push_back ([=] (Obj<S>& x) { hart::AudioBuffer<S> t (c, n); x.sig->renderNextBlockWithDSPChain (t); });
                break;
            }

            case dspBox:
            {
                hart::AudioBuffer<S> in (b.ch, n), a (b.ch, n), w (b.ch, n);

                for (size_t c = 0; c < b.ch; ++c)
                    for (size_t i = 0; i < n; ++i)
                        in[c][i] = (S) contentAt (b.input, c, i);

                poison (a);
                b.real.dsp->processWithEnvelopes (in, a);
                b.shadow.dsp->processWithEnvelopes (in, w);
                compare (b, a, w);
                const size_t c = b.ch;
                b.recipe.push_back ([=] (Obj<S>& x) { hart::AudioBuffer<S> t (c, n), u (c, n); x.dsp->processWithEnvelopes (t, u); });
                break;
            }

            case envBox:
            {
                std::vector<double> a (n, 7e8), w (n, 0.0);
                b.real.env->renderNextBlock (n, a);
                b.shadow.env->renderNextBlock (n, w);

                for (size_t i = 0; i < n; ++i)
                    if (! same<double> (a[i], w[i]))
                        sim::violation ("not-faithful", "%s: value %zu of the block is %.9g, an object with the same life that was never copied gives %.9g", b.name.c_str(), i, a[i], w[i]);

                sim::mixState (hashOf (a.data(), n * sizeof (double)));
                b.recipe.push_back ([=] (Obj<S>& x) { std::vector<double> t (n); x.env->renderNextBlock (n, t); });
                break;
            }

            default:
            {
                const uint64_t salt = pick (3);
                const double gain = oneOf<double> ({ 0, 0.1, 1, 3 });
                const size_t c = b.ch;
                auto audio = [=]
                {
                    hart::AudioBuffer<S> t (c, n);

                    for (size_t k = 0; k < c; ++k)
                        for (size_t i = 0; i < n; ++i)
                            t[k][i] = (S) (gain * contentAt (salt, k, i));

                    return t;
                };
                const auto t = audio();
                const bool x = b.real.mat->match (t), y = b.shadow.mat->match (t);

                if (x != y)
                    sim::violation ("not-faithful", "%s says %d, an object with the same life that was never copied or moved says %d", b.name.c_str(), x, y);

                b.failed = ! x;
                look (b);
                sim::mixState ((uint64_t) x + 2 * n);
                b.recipe.push_back ([audio] (Obj<S>& o) { o.mat->match (audio()); });
                break;
            }
        }
    }

    // What can be asked without changing anything
    void look (Box<S>& b)
    {
        if (b.kind == matcherBox && b.failed)
        {
            const auto d = b.real.mat->getFailureDetails(), e = b.shadow.mat->getFailureDetails();

            if (d.frame != e.frame || d.channel != e.channel || d.description != e.description)
                sim::violation ("not-faithful", "%s gives other failure details than an object with the same life that was never copied or moved: ch %zu frame %zu %s / ch %zu frame %zu %s", b.name.c_str(),
                                d.channel, d.frame, d.description.c_str(), e.channel, e.frame, e.description.c_str());
        }

        if (b.kind == dspBox)
        {
            const double v = b.real.dsp->getValue (0), w = b.shadow.dsp->getValue (0);

            if (! same<S> (v, w) || b.real.dsp->hasEnvelopeFor (0) != b.shadow.dsp->hasEnvelopeFor (0))
                sim::violation ("not-faithful", "%s has value %g%s, an object with the same life that was never copied or moved has %g%s", b.name.c_str(), v, b.real.dsp->hasEnvelopeFor (0) ? ", automated" : "", w, b.shadow.dsp->hasEnvelopeFor (0) ? ", automated" : "");
        }

        std::ostringstream t, u;
        if (b.real.sig) { t << *b.real.sig; u << *b.shadow.sig; }
        if (b.real.dsp) { t << *b.real.dsp; u << *b.shadow.dsp; }
        if (b.real.mat) { t << *b.real.mat; u << *b.shadow.mat; }

        if (t.str() != u.str())
            sim::violation ("not-faithful", "%s is %s, an object with the same life that was never copied or moved is %s", b.name.c_str(), t.str().c_str(), u.str().c_str());
    }

    void change (Box<S>& b)
    {
        switch (b.kind)
        {
            case signalBox:
            {
                Box<S>* d = chance (1, 2) ? anyOf (dspBox) : nullptr;
                const int way = (int) pick (3);

                if (d != nullptr)
                {
                    // The effect is copied (or moved) into the chain in the state it is in
                    logf ("%s followed by %s%s", b.name.c_str(), d->name.c_str(), way == 2 ? " (moved)" : "");
                    sim::probe ("used effect copied into a chain");
                    const Recipe<S> r = d->recipe;
                    b.recipe.push_back ([r] (Obj<S>& x) { x.sig->followedBy (std::move (recreate (r).dsp)); });
                    b.shadow.sig->followedBy (std::move (recreate (r).dsp));
                    b.automated |= d->automated;

                    if (way == 0)
                        b.real.sig->followedBy (static_cast<const hart::DSP<S>&> (*d->real.dsp));
                    else if (way == 1)
                        b.real.sig->followedBy (d->real.dsp->copy());
                    else
                    {
                        if (auto* p = dynamic_cast<hart::GainDb<S>*> (d->real.dsp.get())) b.real.sig->followedBy (std::move (*p));
                        else if (auto* q = dynamic_cast<hart::GainLinear<S>*> (d->real.dsp.get())) b.real.sig->followedBy (std::move (*q));
                        else b.real.sig->followedBy (std::move (dynamic_cast<hart::HardClip<S>&> (*d->real.dsp)));

                        destroy (*d);
                    }
                }
                else
                {
                    const DspSpec s = genDsp (true, 0.01);
                    logf ("%s followed by %s", b.name.c_str(), s.text().c_str());
                    b.automated |= s.hasEnv;
                    b.apply ([s] (Obj<S>& x) { x.sig->followedBy (s.build<S>()); });
                }

                b.block = 0;
                break;
            }

            case dspBox:
            {
                if (chance (1, 2))
                {
                    const double v = realIn (-3, 3);
                    logf ("%s value %g", b.name.c_str(), v);
                    b.apply ([v] (Obj<S>& x) { x.dsp->setValue (0, v); });
                    break;
                }

                if (! b.real.dsp->supportsEnvelopeFor (0))
                    break;

                Box<S>* e = chance (1, 2) ? anyOf (envBox) : nullptr;
                b.automated = true;
                b.block = 0;

                if (e != nullptr)
                {
                    logf ("%s automated with %s", b.name.c_str(), e->name.c_str());
                    sim::probe ("used envelope attached");
                    const Recipe<S> r = e->recipe;
                    auto f = [r] (Obj<S>& x) { x.dsp->withEnvelope (0, std::move (*recreate (r).env)); };
                    b.recipe.push_back (f);
                    f (b.shadow);

                    if (chance (1, 2))
                        b.real.dsp->withEnvelope (0, static_cast<const hart::Envelope&> (*e->real.env));
                    else
                    {
                        b.real.dsp->withEnvelope (0, std::move (*e->real.env));
                        destroy (*e);
                    }
                }
                else
                {
                    const EnvSpec s = genEnv (-1, 2, 0.02);
                    logf ("%s automated with %s", b.name.c_str(), s.text().c_str());
                    b.apply ([s] (Obj<S>& x) { x.dsp->withEnvelope (0, s.build()); });
                }
                break;
            }

            case envBox:
            {
                const double target = realIn (-1, 2), dur = realIn (0, 0.01);
                const bool hold = chance (1, 2);
                logf ("%s gets another segment", b.name.c_str());
                b.apply ([=] (Obj<S>& x)
                {
                    auto& e = dynamic_cast<hart::SegmentedEnvelope&> (*x.env);
                    hold ? e.hold (dur) : e.rampTo (target, dur);
                });
                break;
            }

            default: break;
        }
    }

    // Components passed to the host by reference must come out as they went in
    void host()
    {
        Box<S>* s = anyOf (signalBox);
        Box<S>* d = anyOf (dspBox);
        Box<S>* m = anyOf (matcherBox);

        if (s == nullptr || d == nullptr)
            return;

        const size_t block = 1 + pick (100), frames = 1 + pick (200);
        logf ("host: %s through %s, checked by %s", s->name.c_str(), d->name.c_str(), m != nullptr ? m->name.c_str() : "nothing");
        sim::probe ("components passed to the host by reference");
        observe ([&]
        {
            hart::AudioTestBuilder<S> h (*d->real.dsp);
            h.withSampleRate (sr).withInputChannels (ch).withOutputChannels (ch).withBlockSize (block).withDuration ((double) frames / sr).withInputSignal (*s->real.sig).withValue (0, realIn (-2, 2));

            if (m != nullptr)
            {
                if (auto* e = dynamic_cast<hart::EqualsTo<S>*> (m->real.mat.get())) h.expectTrue (*e);
                if (auto* p = dynamic_cast<hart::PeaksAt<S>*> (m->real.mat.get())) h.expectTrue (*p);
                if (auto* b = dynamic_cast<hart::PeaksBelow<S>*> (m->real.mat.get())) h.expectTrue (*b);
            }

            h.process();
        });
    }

    void step()
    {
        if (boxes.empty())
            return make();

        switch (pick (boxes.size() > 7 ? 11 : 12))
        {
            case 0: case 1: case 2: return render (any());
            case 3: case 4: return copyOrMove (false);
            case 5: return copyOrMove (true);
            case 6: return assignSome();
            case 7: return change (any());
            case 8:
            {
                Box<S>& b = any();
                logf ("reset %s", b.name.c_str());
                return b.apply ([] (Obj<S>& x)
                {
                    if (x.sig) x.sig->resetWithDSPChain();
                    if (x.dsp) x.dsp->resetWithEnvelopes();
                    if (x.env) x.env->reset();
                    if (x.mat) x.mat->reset();
                });
            }
            case 9: return boxes.size() > 1 ? destroy (any()) : make();
            case 10: return host();
            default: return make();
        }
    }
};

template <typename S> void runTyped()
{
    World<S> w;
    logf ("world<%s> %g Hz, %zu ch", typeName<S>(), w.sr, w.ch);
    const size_t steps = 8 + pick (40);
    sim::nontrivial();

    for (size_t i = 0; i < steps; ++i)
        w.step();

    // All that are left still behave
    for (auto& b : w.boxes)
        w.look (*b);

    for (auto& b : w.boxes)
        w.render (*b);
}

void run()
{
    setOptions ({});

    if (chance (1, 2))
        runTyped<float>();
    else
        runTyped<double>();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C04", run, 8000, 200000,
    "8-48 random steps on a pool of signals (stock and user-defined, with chains), effects, envelopes and matchers: copy, move, copy- and move-assign, render, prepare, reset, look at, set values, attach envelopes, append effects "
    "(used ones as well), destroy, pass to a host by reference; every object is compared with a shadow that has lived the same life without ever being copied, moved or assigned. Non-trivial: every run.",
    "signals, effects, envelopes, matchers, AudioTestBuilder", "disk (simulated)", 60
};
