// C15: running out of memory is reported and leaves nothing broken
#include "hosttest.hpp"

#include <type_traits>

using namespace kit;

namespace
{
struct Result
{
    enum Kind { returned, assertion, exception } kind = returned;
    uint64_t hash = 0;              // of what it produced
    size_t messages = 0;
    uint64_t texts = 0;             // of the messages
    bool operator== (const Result& o) const { return kind == o.kind && hash == o.hash && messages == o.messages && texts == o.texts; }
    const char* name() const { return kind == returned ? "returned normally" : kind == assertion ? "failed an assertion" : "ended with an exception"; }
};

// Work that can be done again and again, starting from the same state and giving the same result
struct Op
{
    const char* name = "";
    virtual ~Op() {}
    virtual void setUp() {}                     // makes what exists before
    virtual uint64_t work() = 0;                // runs out of memory
    virtual uint64_t others() { return 0; }     // is everything else as before? (result must not depend on what happened)
    virtual void use() { others(); }            // what existed before, after a failure
    virtual void tearDown() {}
};

Result attempt (Op& op)
{
    Result r;

    // Faults end with the work, so that they do not hit the observer
    struct Disarm { ~Disarm() { sim::AllocFaults::disarm(); } };

    try { Disarm d; r.hash = op.work(); }
    catch (const hart::TestAssertException& e) { r.kind = Result::assertion; r.texts = hashOf (e.what(), strlen (e.what())); }
    catch (const std::exception&) { r.kind = Result::exception; }

    auto& m = hart::ExpectationFailureMessages::get();
    r.messages = m.size();

    for (auto& s : m)
        r.texts = hashOf (s.data(), s.size(), r.texts + 1);

    std::vector<std::string>().swap (m);
    return r;
}

template <typename S> uint64_t renderAll (hart::Signal<S>& s, size_t ch, size_t block, size_t frames)
{
    uint64_t h = 7;

    for (size_t done = 0; done < frames; done += block)
    {
        hart::AudioBuffer<S> b (ch, std::min (block, frames - done));
        s.renderNextBlockWithDSPChain (b);
        h = h * 31 + hashOf (b);
    }

    return h;
}

template <typename S> uint64_t processAll (hart::DSP<S>& d, size_t ch, size_t block, size_t frames)
{
    uint64_t h = 7;

    for (size_t done = 0; done < frames; done += block)
    {
        hart::AudioBuffer<S> in (ch, std::min (block, frames - done)), out (ch, in.getNumFrames());

        for (size_t c = 0; c < ch; ++c)
            for (size_t n = 0; n < in.getNumFrames(); ++n)
                in[c][n] = (S) contentAt (3, c, done + n);

        d.processWithEnvelopes (in, out);
        h = h * 31 + hashOf (out);
    }

    return h;
}

uint64_t fileHash (const std::string& path)
{
    if (path.empty() || ! sim::fs::exists (path))
        return 1;

    const std::string s = sim::fs::getFile (path);
    return hashOf (s.data(), s.size());
}

// ------------------------------------------------------------------------------------------------
// A complete test
template <typename S>
struct HostOp : Op
{
    HostSpec t;
    bool prepared;                              // the host exists before
    std::unique_ptr<hart::AudioTestBuilder<S>> host;

    HostOp (const HostSpec& spec, bool p) : t (spec), prepared (p) { name = prepared ? "processing a test that is set up" : "a whole test"; }

    void setUp() override
    {
        if (! t.wavPath.empty()) sim::fs::putFile (t.wavPath, "");
        if (! t.plotPath.empty()) sim::fs::putFile (t.plotPath, "");

        if (prepared)
        {
            host.reset (new hart::AudioTestBuilder<S> (t.host<S>()));
            t.configure<S> (*host);
        }
    }

    uint64_t work() override
    {
        if (prepared)
        {
            auto d = host->process();
            return d == nullptr ? 0 : 5 + result();
        }

        hart::AudioTestBuilder<S> h (t.host<S>());
        t.configure<S> (h);
        auto d = h.process();
        return d == nullptr ? 0 : 5 + result();
    }

    uint64_t result() { sim::Pause p; sim::simulatedFrames ((double) t.frames, t.sr); return fileHash (t.wavPath) * 3 + fileHash (t.plotPath); }
    void tearDown() override { host.reset(); }
};

// A setting of a host
template <typename S>
struct ConfigureOp : Op
{
    HostSpec t;
    CheckSpec extra;
    SignalSpec other;
    int what;
    bool byMove;
    std::unique_ptr<hart::AudioTestBuilder<S>> host;

    ConfigureOp (const HostSpec& spec, const CheckSpec& e, const SignalSpec& o, int w, bool m) : t (spec), extra (e), other (o), what (w), byMove (m)
    {
        const char* names[] = { "attaching a check", "setting a label", "setting an input signal", "choosing an output file", "choosing a plot file", "setting a value" };
        name = names[what];
    }

    void setUp() override
    {
        host.reset (new hart::AudioTestBuilder<S> (t.host<S>()));
        t.configure<S> (*host);
    }

    uint64_t work() override
    {
        switch (what)
        {
            case 0: extra.attach (*host, byMove); break;
            case 1: host->withLabel ("a label which is long enough not to fit into the string itself"); break;
            case 2: host->withInputSignal (*other.build<S>()); break;
            case 3: host->saveOutputTo ("/simfs/out/a_path_which_is_long_enough_not_to_fit_into_the_string.wav", hart::Save::whenFails); break;
            case 4: host->savePlotTo ("/simfs/out/a_path_which_is_long_enough_not_to_fit_into_the_string.svg", hart::Save::whenFails); break;
            default: host->withValue (0, -1.5);
        }

        return 1;
    }

    // What a test with the setting, made once, gives
    uint64_t others() override
    {
        Outcome o = observe ([&] { host->process(); });
        const std::string s = o.all();
        uint64_t h = hashOf (s.data(), s.size());

        if (what == 3 || what == 4)
        {
            const char* path = what == 3 ? "/simfs/out/a_path_which_is_long_enough_not_to_fit_into_the_string.wav" : "/simfs/out/a_path_which_is_long_enough_not_to_fit_into_the_string.svg";
            h += fileHash (path);
            sim::fs::putFile (path, "");
        }

        return h;
    }

    void tearDown() override { host.reset(); }
};

// ------------------------------------------------------------------------------------------------
// All the ways of attaching an effect. Those that take it over get their own copy, made before
template <typename S, typename D> void attachAs (hart::Signal<S>& s, hart::DSP<S>& d, int way)
{
    D& own = dynamic_cast<D&> (d);

    switch (way)
    {
        case 0: s.followedBy (std::move (own)); break;
        case 1: s >> std::move (own); break;
        case 2: s.followedBy (static_cast<const hart::DSP<S>&> (own)); break;
        default: s >> static_cast<const hart::DSP<S>&> (own);
    }
}

template <typename S>
struct SignalOp : Op
{
    SignalSpec spec;
    std::vector<DspSpec> fx;
    std::vector<int> ways;
    std::vector<std::unique_ptr<hart::DSP<S>>> made;
    int what;                                   // 0: render, 1: copy and render the copy, 2: attach an effect, 3: make
    double sr;
    size_t ch, block, frames, before;
    std::unique_ptr<hart::Signal<S>> s;
    size_t attached = 0;

    void setUp() override
    {
        attached = 0;
        made.clear();

        if (what == 3)
            return;

        s = spec.build<S>();

        if (what == 2)
            for (auto& f : fx)
                made.push_back (f.build<S>());

        if (what == 1)
        {
            start (*s);
            renderAll (*s, ch, block, before);
        }
    }

    void start (hart::Signal<S>& x)
    {
        x.resetWithDSPChain();
        x.prepareWithDSPChain (sr, ch, block);
    }

    uint64_t work() override
    {
        switch (what)
        {
            case 0: start (*s); return renderAll (*s, ch, block, frames);
            case 1: { auto c = s->copy(); return renderAll (*c, ch, block, frames); }

            case 2:
                for (; attached < fx.size(); ++attached)
                    attach (attached);
                return 1;

            default: { auto x = spec.build<S>(); start (*x); return renderAll (*x, ch, block, frames); }
        }
    }

    void attach (size_t i)
    {
        auto& d = made[i];

        // What was moved from must not be used again
        if (ways[i] < 2 && d == nullptr) { s->followedBy (fx[i].build<S>()); return; }

        struct Spent { std::unique_ptr<hart::DSP<S>>& p; bool yes; ~Spent() { if (yes) p.reset(); } } spent { d, ways[i] < 2 };

        switch (ways[i])
        {
            case 0: case 1: case 2: case 3:
                switch (fx[i].kind)
                {
                    case DspSpec::gainDb: attachAs<S, hart::GainDb<S>> (*s, *d, ways[i]); break;
                    case DspSpec::gainLin: attachAs<S, hart::GainLinear<S>> (*s, *d, ways[i]); break;
                    default: attachAs<S, hart::HardClip<S>> (*s, *d, ways[i]); break;
                }
                break;

            case 4: s->followedBy (fx[i].build<S>()); break;
            default: *s >> fx[i].build<S>();
        }
    }

    uint64_t others() override
    {
        if (what == 1)
            return renderAll (*s, ch, block, frames);    // goes on where it was

        if (what == 2)
        {
            start (*s);
            return renderAll (*s, ch, block, frames);
        }

        return 0;
    }

    void tearDown() override { s.reset(); made.clear(); }
};

template <typename T, typename B> typename std::enable_if<std::is_copy_assignable<T>::value, bool>::type tryAssign (B& dst, B& src)
{
    T* d = dynamic_cast<T*> (&dst);
    T* s = dynamic_cast<T*> (&src);

    if (d == nullptr || s == nullptr)
        return false;

    *d = *s;
    return true;
}

template <typename T, typename B> typename std::enable_if<! std::is_copy_assignable<T>::value, bool>::type tryAssign (B&, B&) { return false; }

template <typename S>
struct DspOp : Op
{
    DspSpec spec, other;
    EnvSpec env;
    int what;                                   // 0: process, 1: copy, 2: attach, 3: assign
    double sr;
    size_t ch, block, frames, before;
    std::unique_ptr<hart::DSP<S>> d, e;

    void start (hart::DSP<S>& x) { x.resetWithEnvelopes(); x.prepareWithEnvelopes (sr, ch, ch, block); }

    void setUp() override
    {
        d = spec.build<S>();

        if (what == 3)
            e = other.build<S>();

        if (what == 1 || what == 3)
        {
            start (*d);
            processAll (*d, ch, block, before);
        }
    }

    uint64_t work() override
    {
        switch (what)
        {
            case 0: start (*d); return processAll (*d, ch, block, frames);
            case 1: { auto c = d->copy(); return processAll (*c, ch, block, frames); }
            case 2: d->withEnvelope (0, env.build()); return 1;

            default:
                if (! (tryAssign<hart::GainDb<S>> (*e, *d) || tryAssign<hart::GainLinear<S>> (*e, *d) || tryAssign<hart::HardClip<S>> (*e, *d)))
                    return 2;
                return processAll (*e, ch, block, frames);
        }
    }

    uint64_t others() override
    {
        if (what == 1 || what == 3)
            return processAll (*d, ch, block, frames);

        if (what == 2)
        {
            start (*d);
            return processAll (*d, ch, block, frames) + d->hasEnvelopeFor (0);
        }

        return 0;
    }

    void use() override
    {
        others();

        if (what == 3)
        {
            start (*e);
            processAll (*e, ch, block, frames);
        }
    }

    void tearDown() override { d.reset(); e.reset(); }
};

template <typename S>
struct MatcherOp : Op
{
    CheckSpec spec;
    double sr;
    size_t ch, frames;
    bool copy;
    std::unique_ptr<hart::Matcher<S>> m;
    std::unique_ptr<hart::AudioBuffer<S>> audio;

    void setUp() override
    {
        m = spec.build<S>();
        audio.reset (new hart::AudioBuffer<S> (ch, frames));

        for (size_t c = 0; c < ch; ++c)
            for (size_t n = 0; n < frames; ++n)
                (*audio)[c][n] = (S) contentAt (4, c, n);
    }

    uint64_t judge (hart::Matcher<S>& x)
    {
        x.prepare (sr, ch, frames);
        x.reset();
        const bool ok = x.match (*audio);
        uint64_t h = ok;

        if (! ok)
        {
            const hart::MatcherFailureDetails d = x.getFailureDetails();
            h += 2 * d.frame + 1000 * d.channel;
        }

        return h;
    }

    uint64_t work() override
    {
        if (! copy)
            return judge (*m);

        auto c = m->copy();
        return judge (*c);
    }

    uint64_t others() override { return judge (*m); }
    void tearDown() override { m.reset(); audio.reset(); }
};

struct EnvelopeOp : Op
{
    EnvSpec spec;
    double sr;
    size_t frames;

    uint64_t work() override
    {
        hart::SegmentedEnvelope e = spec.build();
        auto c = static_cast<const hart::Envelope&> (e).copy();
        c->prepare (sr, frames);
        c->reset();
        std::vector<double> v (frames);
        c->renderNextBlock (frames, v);
        return hashOf (v.data(), v.size() * sizeof (double));
    }
};

// ------------------------------------------------------------------------------------------------
template <typename S> std::unique_ptr<Op> make()
{
    HostOptions o;
    o.maxFrames = 200;
    HostSpec t = genHost (o);

    // Full audio of the wav samples would only take time
    if (chance (1, 2))
    {
        t.wavPath = "/simfs/out/saved.wav";
        t.wavMode = oneOf<hart::Save> ({ hart::Save::always, hart::Save::whenFails });
        t.format = oneOf<hart::WavFormat> ({ hart::WavFormat::float32, hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32 });
    }

    if (chance (1, 4))
    {
        t.plotPath = "/simfs/out/saved.svg";
        t.plotMode = oneOf<hart::Save> ({ hart::Save::always, hart::Save::whenFails });
    }

    const double seconds = t.seconds();

    switch (pick (9))
    {
        case 0: case 1: logf ("test %s", t.text().c_str()); return std::unique_ptr<Op> (new HostOp<S> (t, false));
        case 2: logf ("prepared test %s", t.text().c_str()); return std::unique_ptr<Op> (new HostOp<S> (t, true));

        case 3:
        {
            const CheckSpec extra = genCheck (t, o);
            GenOptions g;
            g.sr = t.sr;
            g.channels = std::max (t.inCh, t.outCh);
            g.frames = t.frames;
            const SignalSpec other = genSignal (g);
            const int what = (int) pick (6);
            const bool byMove = chance (1, 2);
            logf ("setting %d, check %s, signal %s, of test %s", what, extra.text().c_str(), other.text().c_str(), t.text().c_str());
            return std::unique_ptr<Op> (new ConfigureOp<S> (t, extra, other, what, byMove));
        }

        case 4: case 5:
        {
            std::unique_ptr<SignalOp<S>> s (new SignalOp<S>());
            const char* names[] = { "rendering", "copying a signal and rendering the copy", "attaching an effect", "making and rendering a signal" };
            s->what = (int) pick (4);
            s->name = names[s->what];
            s->spec = t.input;
            const size_t effects = s->what == 2 ? 1 + pick (6) : 0;

            for (size_t i = 0; i < effects; ++i)
            {
                s->fx.push_back (genDsp (true, seconds));
                s->ways.push_back ((int) pick (6));
                logf ("attaches %s (way %d)", s->fx.back().text().c_str(), s->ways.back());
            }

            s->sr = t.sr;
            s->ch = t.inCh;
            s->block = t.block;
            s->frames = t.frames;
            s->before = pick (t.frames);
            logf ("%s: %s, %zu ch, block %zu, %zu frames after %zu", s->name, s->spec.text().c_str(), s->ch, s->block, s->frames, s->before);
            return std::unique_ptr<Op> (s.release());
        }

        case 6:
        {
            std::unique_ptr<DspOp<S>> d (new DspOp<S>());
            const char* names[] = { "processing", "copying an effect and using the copy", "attaching an envelope", "assigning an effect" };
            d->what = (int) pick (4);
            d->name = names[d->what];
            d->spec = t.dsp;
            d->other = genDsp (true, seconds);

            if (d->what == 2 && d->spec.kind == DspSpec::clip)
                d->spec.kind = DspSpec::gainDb;

            if (d->what == 3)
            {
                d->other.kind = d->spec.kind;

                if (d->other.kind == DspSpec::clip)
                    d->other.hasEnv = false;
            }

            d->env = genEnv (-10.0, 2.0, seconds);
            d->sr = t.sr;
            d->ch = t.inCh;
            d->block = t.block;
            d->frames = t.frames;
            d->before = pick (t.frames);
            logf ("%s: %s, other %s, %s, %zu ch, block %zu, %zu frames", d->name, d->spec.text().c_str(), d->other.text().c_str(), d->env.text().c_str(), d->ch, d->block, d->frames);
            return std::unique_ptr<Op> (d.release());
        }

        case 7:
        {
            std::unique_ptr<MatcherOp<S>> m (new MatcherOp<S>());
            m->name = "matching";
            m->spec = genCheck (t, o);
            m->sr = t.sr;
            m->ch = std::min (t.inCh, t.outCh);
            m->frames = t.frames;
            m->copy = chance (1, 2);
            logf ("matching: %s, %zu ch, %zu frames", m->spec.text().c_str(), m->ch, m->frames);
            return std::unique_ptr<Op> (m.release());
        }

        default:
        {
            std::unique_ptr<EnvelopeOp> e (new EnvelopeOp());
            e->name = "making, copying and rendering an envelope";
            e->spec = genEnv (-2, 2, seconds);
            e->sr = t.sr;
            e->frames = t.frames;
            logf ("envelope %s", e->spec.text().c_str());
            return std::unique_ptr<Op> (e.release());
        }
    }
}

void runBoth (const HostSpec& h)
{
    auto one = h.host<float>();
    h.configure<float> (one);
    one.process();
    auto other = h.host<double>();
    h.configure<double> (other);
    other.process();
}

void run()
{
    const bool isFloat = chance (1, 2);
    std::unique_ptr<Op> op = isFloat ? make<float>() : make<double>();
    Result expected;
    uint64_t expectedOthers = 0, total = 0;

    // The first time may set up things that stay
    {
        HostSpec h;
        h.input.kind = SignalSpec::sine;
        h.frames = 3;
        h.checks.resize (1);
        h.checks[0].kind = CheckSpec::equals;
        h.checks[0].ref = h.input;
        h.checks[0].ref.kind = SignalSpec::silence;
        observe ([&] { runBoth (h); });
        op->setUp();
        observe ([&] { op->use(); });
        op->tearDown();
        std::vector<std::string>().swap (hart::ExpectationFailureMessages::get());
    }

    // With enough memory
    for (int i = 0; i < 2; ++i)
    {
        op->setUp();
        sim::AllocFaults::armNth (~0ull);
        expected = attempt (*op);
        total = sim::AllocFaults::countSinceArm();
        expectedOthers = expected.kind == Result::returned ? op->others() : 0;
        op->tearDown();
        std::vector<std::string>().swap (hart::ExpectationFailureMessages::get());
    }

    if (total == 0)
        return;

    const size_t rounds = 1 + pick (4);

    for (size_t i = 0; i < rounds; ++i)
    {
        const int64_t before = sim::AllocFaults::live();
        op->setUp();
        const bool all = chance (1, 3);
        const uint64_t k = pick (total);
        all ? sim::AllocFaults::armFrom (k) : sim::AllocFaults::armNth (k);
        const Result r = attempt (*op);
        const uint64_t fired = sim::AllocFaults::firedSinceArm();
        logf ("allocation %llu of %llu fails%s: %s, %zu messages", (unsigned long long) k, (unsigned long long) total, all ? ", and all after it" : "", r.name(), r.messages);

        if (fired > 0)
            sim::nontrivial();

        if (sim::fs::openHandles() != 0)
            sim::violation ("handle", "%s: a file was left open when allocation %llu failed", op->name, (unsigned long long) k);

        // Either the failure is reported, or the result is right
        const bool reported = r.kind == Result::exception;

        if (! reported && ! (r == expected))
            sim::violation ("wrong", "%s without memory %s (%zu messages), with memory it %s (%zu messages)%s", op->name, r.name(), r.messages, expected.name(), expected.messages,
                            r.kind != expected.kind || r.messages != expected.messages ? "" : r.texts != expected.texts ? "; the texts are different" : "; what it produced is different");

        if (! reported && fired > 0)
            sim::probe ("completed although an allocation failed");

        // Can it be done again?
        const bool abandoned = reported && chance (1, 4);

        if (abandoned && expected.kind == Result::returned)
        {
            sim::probe ("used after the failure");
            op->use();
        }

        if (reported && ! abandoned)
        {
            sim::probe (all ? "no memory at all" : "one allocation failed");
            const Result again = attempt (*op);

            if (! (again == expected))
                sim::violation ("again", "%s %s (%zu messages) when it was done again after running out of memory at allocation %llu of %llu%s, otherwise it %s (%zu messages)%s", op->name, again.name(), again.messages,
                                (unsigned long long) k, (unsigned long long) total, all ? " and all after it" : "", expected.name(), expected.messages,
                                again.kind != expected.kind || again.messages != expected.messages ? "" : again.texts != expected.texts ? "; the texts are different" : "; what it produced is different");
        }

        if (expected.kind == Result::returned && ! abandoned && op->others() != expectedOthers)
            sim::violation ("others", "%s has run out of memory at allocation %llu of %llu%s; what else existed is not as it would be otherwise", op->name, (unsigned long long) k, (unsigned long long) total, all ? " and all after it" : "");

        op->tearDown();
        std::vector<std::string>().swap (hart::ExpectationFailureMessages::get());
        sim::mixState (k * 2 + (uint64_t) all);

        if (sim::AllocFaults::live() != before)
            sim::violation ("leak", "%s: %lld allocations are left after everything was destroyed (allocation %llu of %llu failed%s)", op->name, (long long) (sim::AllocFaults::live() - before), (unsigned long long) k,
                            (unsigned long long) total, all ? ", and all after it" : "");
    }
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C15", run, 20000, 800000,
    "one random operation (a whole test incl. saving, processing a prepared test, a setting of a test, rendering, copying, attaching, assigning, matching, envelopes) is done with enough memory, and then 1-4 times with the k-th "
    "allocation (or all from the k-th on) failing for random k within the operation; it must be reported or give the same result, doing it again must give the same result, other objects must be unaffected, and nothing may leak. "
    "Non-trivial: at least one allocation failed.",
    "all components (also dr_wav's allocations)", "heap (failing allocations), disk (simulated)", 60
};
