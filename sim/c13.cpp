// C13: automation is accurate in seconds and the last attached curve wins
#include "hosttest.hpp"

#include <set>
#include <type_traits>

using namespace kit;

namespace
{
// A user's curve: follows the time since the last reset at the sample rate it was prepared with
class UserEnvelope : public hart::Envelope
{
public:
    double a, b, sr = 0;
    size_t frames = 0;
    UserEnvelope (double start, double perSecond) : a (start), b (perSecond) {}
    void prepare (double sampleRateHz, size_t) override { sr = sampleRateHz; }
    void reset() override { frames = 0; }
    std::unique_ptr<hart::Envelope> copy() const override { return std::unique_ptr<hart::Envelope> (new UserEnvelope (*this)); }

    void renderNextBlock (size_t n, std::vector<double>& out) override
    {
        out.resize (n);

        for (auto& v : out)
            v = a + b * ((double) ++frames / sr);
    }
};

struct Curve
{
    bool user = false;
    EnvSpec env;
    double a = 0, b = 0;

    Iv at (double t) const
    {
        if (! user)
            return env.at (t);

        const double v = a + b * t;
        return Iv { v, v, 1e-7 * std::abs (v) + 1e-9 };
    }

    std::string text() const { return user ? fmt ("user envelope %g + %g/s", a, b) : env.text(); }
};

struct Seen { size_t frames; std::map<int, std::vector<double>> env; };
typedef std::vector<Seen> Log;

template <typename S>
class Recorder : public hart::DSP<S>
{
public:
    using SampleType = S;
    std::set<int> ids;
    std::shared_ptr<Log> log;

    explicit Recorder (std::set<int> i) : ids (i), log (std::make_shared<Log>()) {}
    Recorder (const Recorder&) = default;
    Recorder (Recorder&&) = default;
    Recorder& operator= (const Recorder&) = default;
    Recorder& operator= (Recorder&&) = default;

    void prepare (double, size_t, size_t, size_t) override {}
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int id) const override { return -1000.0 - id; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    bool supportsEnvelopeFor (int id) const override { return ids.count (id) > 0; }
    void represent (std::ostream& s) const override { s << "Recorder()"; }

    void process (const hart::AudioBuffer<S>& in, hart::AudioBuffer<S>& out, const hart::EnvelopeBuffers& env) override
    {
        sim::Pause p;
        Seen s { in.getNumFrames(), {} };

        for (auto& e : env)
            s.env[e.first] = e.second;

        log->push_back (s);

        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t n = 0; n < out.getNumFrames(); ++n)
                out[c][n] = in[c % in.getNumChannels()][n];
    }

    HART_DSP_DEFINE_COPY_AND_MOVE (Recorder);
};

template <typename S>
class Ones : public hart::Signal<S>
{
public:
    using SampleType = S;
    void prepare (double, size_t, size_t) override {}
    void reset() override {}
    void represent (std::ostream& s) const override { s << "Ones()"; }

    void renderNextBlock (hart::AudioBuffer<S>& out) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            std::fill (out[c], out[c] + out.getNumFrames(), (S) 1);
    }

    HART_SIGNAL_DEFINE_COPY_AND_MOVE (Ones);
};

template <typename S>
struct Slot
{
    int kind = 0;                       // 0: recorder, 1: GainDb, 2: GainLinear, 3: HardClip
    double value = 0;
    std::set<int> ids;
    std::map<int, Curve> curves;
    std::unique_ptr<hart::DSP<S>> dsp;

    void shape (const Slot& o) { kind = o.kind; value = o.value; ids = o.ids; curves = o.curves; }
    Recorder<S>* recorder() const { return kind == 0 ? dynamic_cast<Recorder<S>*> (dsp.get()) : nullptr; }
};

template <typename T, typename B> typename std::enable_if<std::is_copy_assignable<T>::value, bool>::type tryAssign (B& dst, B& src, bool move)
{
    T* d = dynamic_cast<T*> (&dst);
    T* s = dynamic_cast<T*> (&src);

    if (d == nullptr || s == nullptr)
        return false;

    if (move) *d = std::move (*s);
    else *d = *s;

    return true;
}

template <typename T, typename B> typename std::enable_if<! std::is_copy_assignable<T>::value, bool>::type tryAssign (B&, B&, bool) { return false; }

template <typename S> struct World
{
    std::vector<Slot<S>> slots;
    double sr = 44100;
    size_t ch = 1, block = 64, frames = 100;

    Slot<S> make()
    {
        Slot<S> s;
        s.kind = (int) (chance (1, 2) ? 0 : pick (4));

        if (s.kind == 0)
        {
            const size_t n = pick (5);

            for (size_t i = 0; i < n; ++i)
                s.ids.insert ((int) pick (6) - 1);

            s.dsp.reset (new Recorder<S> (s.ids));
        }
        else
        {
            s.value = s.kind == 2 ? realIn (-1, 1) : realIn (-30, 0);

            if (s.kind != 3)
                s.ids.insert (0);

            if (s.kind == 1) s.dsp.reset (new hart::GainDb<S> (s.value));
            if (s.kind == 2) s.dsp.reset (new hart::GainLinear<S> (s.value));
            if (s.kind == 3) s.dsp.reset (new hart::HardClip<S> (s.value));
        }

        return s;
    }

    std::string name (const Slot<S>& s) const
    {
        const char* n[] = { "recorder", "GainDb", "GainLinear", "HardClip" };
        return fmt ("%s #%zu", n[s.kind], (size_t) (&s - slots.data()));
    }

    void checkFlags (const Slot<S>& s, const char* after)
    {
        for (int id = -2; id < 7; ++id)
            if (s.dsp->hasEnvelopeFor (id) != (s.curves.count (id) > 0))
                sim::violation ("attached", "%s: after %s hasEnvelopeFor (%d) is %d", name (s).c_str(), after, id, (int) ! s.curves.count (id));
    }

    void attach (Slot<S>& s)
    {
        const int id = s.kind == 0 || chance (1, 4) ? (int) pick (7) - 1 : 0;
        Curve c;
        const double seconds = (double) frames / sr;
        c.user = chance (1, 5);

        if (c.user)
        {
            c.a = realIn (-10, 10);
            c.b = realIn (-100, 100);
            if (s.kind == 1) { c.b = -std::abs (c.b); }
        }
        else
            c.env = s.kind == 1 ? kit::genGainEnv (seconds) : kit::genEnv (-1.0, 2.0, seconds);

        const bool supported = s.ids.count (id) > 0, byMove = chance (1, 2);
        bool threw = false;
        logf ("%s: attach %s to parameter %d%s", name (s).c_str(), c.text().c_str(), id, supported ? "" : ", which is not supported");
        auto built = c.user ? nullptr : std::unique_ptr<hart::SegmentedEnvelope> (new hart::SegmentedEnvelope (c.env.build()));
        UserEnvelope user (c.a, c.b);

        // A curve that has been used before is attached at its beginning after the host has reset it
        if (chance (1, 6))
        {
            sim::probe ("attached a used curve");
            c.user ? user.prepare (1000, 10) : built->prepare (1000, 10);
            std::vector<double> v (10);
            c.user ? user.renderNextBlock (10, v) : built->renderNextBlock (10, v);
        }

        hart::Envelope& e = c.user ? (hart::Envelope&) user : (hart::Envelope&) *built;

        try { byMove ? s.dsp->withEnvelope (id, std::move (e)) : s.dsp->withEnvelope (id, (const hart::Envelope&) e); }
        catch (const std::exception&) { threw = true; }

        if (threw == supported)
            sim::violation (threw ? "refused" : "accepted", "%s: attaching to parameter %d %s", name (s).c_str(), id, threw ? "threw" : "returned normally");

        // Later changes of the curve it was made from are another matter
        if (! byMove && ! c.user && chance (1, 3))
            built->rampTo (99.0, 0.0).hold (1.0);

        if (supported)
        {
            if (s.curves.count (id))
                sim::probe ("curve replaced");

            s.curves[id] = c;
        }
        else
            sim::probe ("attachment rejected");

        checkFlags (s, "attaching");
    }

    // The expected gain of a stock effect at a time
    Iv gainAt (const Slot<S>& s, double t) const
    {
        DspSpec d;
        d.kind = s.kind == 1 ? DspSpec::gainDb : s.kind == 2 ? DspSpec::gainLin : DspSpec::clip;
        d.value = s.value;
        Iv one { 1, 1, 0 };

        if (! s.curves.empty())
        {
            const Curve& c = s.curves.begin()->second;
            const Iv v = c.at (t);

            if (s.kind == 1)
            {
                Iv g { refDbToRatio (v.lo), refDbToRatio (v.hi), 0 };
                g.err = g.hi * (0.12 * v.err + relErr<S>()) + (v.lo - v.err < -119.999 ? 1.1e-6 : 0.0);
                return times<S> (one, g);
            }

            return times<S> (one, v);
        }

        return d.template apply<S> (one, t);
    }

    void checkLog (const Slot<S>& s, const Log& log, size_t total, const char* how)
    {
        size_t pos = 0;

        for (auto& b : log)
        {
            for (auto& e : b.env)
                if (! s.curves.count (e.first))
                    sim::violation ("foreign", "%s, %s: received automation of parameter %d, to which nothing is attached", name (s).c_str(), how, e.first);

            for (auto& c : s.curves)
            {
                auto i = b.env.find (c.first);

                if (i == b.env.end())
                    sim::violation ("missing", "%s, %s: received no automation of parameter %d", name (s).c_str(), how, c.first);

                if (i->second.size() < b.frames)
                    sim::violation ("missing", "%s, %s: received %zu values of parameter %d for a block of %zu frames", name (s).c_str(), how, i->second.size(), c.first, b.frames);

                for (size_t n = 0; n < b.frames; ++n)
                {
                    const Iv e = c.second.at ((double) (pos + n + 1) / sr);

                    if (! inside (i->second[n], e))
                        sim::violation ("value", "%s, %s at %g Hz: parameter %d is %.9g in frame %zu (block of %zu from %zu), the curve %s is %.9g..%.9g there", name (s).c_str(), how, sr, c.first, i->second[n], pos + n,
                                        b.frames, pos, c.second.text().c_str(), e.lo, e.hi);
                }
            }

            pos += b.frames;
        }

        if (pos != total)
            sim::violation ("frames", "%s, %s: %zu frames were processed instead of %zu", name (s).c_str(), how, pos, total);
    }

    void checkOutput (const Slot<S>& s, const Planes<S>& out, const char* how)
    {
        for (size_t c = 0; c < out.size(); ++c)
        {
            if (out[c].size() != frames)
                sim::violation ("frames", "%s, %s: %zu frames were produced instead of %zu", name (s).c_str(), how, out[c].size(), frames);

            for (size_t n = 0; n < frames; ++n)
            {
                const Iv e = gainAt (s, (double) (n + 1) / sr);

                if (! inside ((double) out[c][n], e))
                    sim::violation ("gain", "%s, %s at %g Hz: channel %zu frame %zu is %.9g, the curve %s gives %.9g..%.9g", name (s).c_str(), how, sr, c, n, (double) out[c][n],
                                    s.curves.empty() ? "(none)" : s.curves.begin()->second.text().c_str(), e.lo, e.hi);
            }
        }
    }

    void newLog (Slot<S>& s)
    {
        if (auto r = s.recorder())
            r->log = std::make_shared<Log>();
    }

    void runIt (Slot<S>& s)
    {
        sr = genSampleRate();
        block = oneOf<size_t> ({ 64, 16, 100, 7, 1 }) + pick (3);
        frames = 1 + pick (chance (1, 2) ? 300 : 3 * block);
        ch = outsized() ? 3 + pick (60) : 1 + pick (2);

        if (ch < 3 && outsized())
        {
            frames = 3000 + pick (80000);
            block = frames / (1 + pick (40)) + pick (100);
        }
        const size_t how = pick (6);
        newLog (s);
        auto log = s.recorder() ? s.recorder()->log : nullptr;
        Planes<S> out;
        const char* names[] = { "run by hand", "run by the host", "run by the host and returned", "in the chain of the input signal", "in the chain of a reference", "in the chain of a signal rendered by hand" };
        logf ("%s %s: %g Hz, block %zu, %zu frames", name (s).c_str(), names[how], sr, block, frames);
        sim::simulatedFrames ((double) frames, sr);
        sim::nontrivial();
        auto shared = std::make_shared<typename GlitchDsp<S>::Shared>();

        auto configure = [&] (hart::AudioTestBuilder<S>& h) -> hart::AudioTestBuilder<S>&
        {
            return h.withSampleRate (sr).withBlockSize (block).withDuration ((double) frames / sr).withInputChannels (ch).withOutputChannels (ch);
        };

        switch (how)
        {
            case 0:
            {
                s.dsp->resetWithEnvelopes();
                s.dsp->prepareWithEnvelopes (sr, ch, ch, block);

                for (size_t done = 0; done < frames; done += block)
                {
                    hart::AudioBuffer<S> in (ch, std::min (block, frames - done)), o (ch, in.getNumFrames());

                    for (size_t c = 0; c < ch; ++c)
                        std::fill (in[c], in[c] + in.getNumFrames(), (S) 1);

                    if (chance (1, 3))   // in place
                    {
                        s.dsp->processWithEnvelopes (in, in);
                        appendPlanes (out, in);
                    }
                    else
                    {
                        s.dsp->processWithEnvelopes (in, o);
                        appendPlanes (out, o);
                    }
                }
                break;
            }

            case 1: case 2:
            {
                // What is produced is seen by a reference to compare with, and by a matcher
                const char* path = "/simfs/out/automation.wav";
                hart::AudioTestBuilder<S> h (how == 1 ? s.dsp->copy() : std::move (s.dsp));
                configure (h).withInputSignal (Ones<S>()).saveOutputTo (path, hart::Save::always, hart::WavFormat::float32);
                auto back = h.process();

                if (how == 2)
                {
                    if (back == nullptr)
                        sim::violation ("not-returned", "process() returned no DSP");

                    s.dsp = std::move (back);
                }

                const ParsedWav w = parseWav (sim::fs::getFile (path));

                for (auto& c : w.data)
                    out.push_back (std::vector<S> (c.begin(), c.end()));
                break;
            }

            case 3:
            {
                hart::AudioTestBuilder<S> h { GlitchDsp<S> (shared) };
                Ones<S> ones;
                ones.followedBy (s.dsp->copy());
                configure (h).withInputSignal (ones).process();
                out = shared->out;
                break;
            }

            case 4:
            {
                hart::AudioTestBuilder<S> h { GlitchDsp<S> (shared) };
                Ones<S> ones;
                ones.followedBy (s.dsp->copy());
                const bool inverted = chance (1, 2);
                configure (h).withInputSignal (Ones<S>());
                hart::EqualsTo<S> m (ones, 1e6);

                if (inverted)
                {
                    // In one piece
                    h.expectFalse (m).process();
                    hart::ExpectationFailureMessages::clear();
                    sim::probe ("reference in one piece");
                }
                else
                    h.expectTrue (m).process();

                if (s.kind != 0)
                    return;    // nothing was observed
                break;
            }

            default:
            {
                Ones<S> ones;
                ones.followedBy (s.dsp->copy());
                ones.resetWithDSPChain();
                ones.prepareWithDSPChain (sr, ch, block);

                for (size_t done = 0; done < frames; done += block)
                {
                    hart::AudioBuffer<S> o (ch, std::min (block, frames - done));
                    poison (o);
                    ones.renderNextBlockWithDSPChain (o);
                    appendPlanes (out, o);
                }
            }
        }

        if (s.kind == 0)
            checkLog (s, *log, frames, names[how]);
        else
            checkOutput (s, out, names[how]);

        sim::mixState (how + 10 * s.curves.size() + 100 * (uint64_t) s.kind + 1000 * (uint64_t) block);

        if (s.curves.size() > 1)
            sim::probe ("several automated parameters");

        if (s.dsp != nullptr)
            checkFlags (s, names[how]);
    }

    void run()
    {
        const size_t n = 1 + pick (3);
        slots.reserve (8);

        for (size_t i = 0; i < n; ++i)
            slots.push_back (make());

        const size_t ops = 2 + pick (10);

        for (size_t i = 0; i < ops; ++i)
        {
            Slot<S>& s = slots[pick (slots.size())];
            Slot<S>& o = slots[pick (slots.size())];

            switch (pick (10))
            {
                case 0: case 1: case 2: case 3: attach (s); break;
                case 4: case 5: case 6: runIt (s); break;

                case 7:
                    if (slots.size() < 8)
                    {
                        const bool moved = chance (1, 2);
                        logf ("#%zu: %s of %s", slots.size(), moved ? "moved copy" : "copy", name (s).c_str());
                        Slot<S> c;
                        c.shape (s);
                        c.dsp = s.dsp->copy();

                        if (moved)
                            c.dsp = c.dsp->move();

                        slots.push_back (std::move (c));
                        checkFlags (slots.back(), "copying");
                    }
                    break;

                case 8:
                {
                    const bool move = &s != &o && chance (1, 3);
                    std::unique_ptr<hart::DSP<S>> source;

                    if (move)
                        source = o.dsp->copy();

                    hart::DSP<S>& from = move ? *source : *o.dsp;

                    if (tryAssign<Recorder<S>> (*s.dsp, from, move) || tryAssign<hart::GainDb<S>> (*s.dsp, from, move) || tryAssign<hart::GainLinear<S>> (*s.dsp, from, move)
                        || tryAssign<hart::HardClip<S>> (*s.dsp, from, move))
                    {
                        logf ("%s assigned from %s%s", name (s).c_str(), name (o).c_str(), move ? " (moved copy)" : "");
                        const auto ids = o.ids;
                        const auto curves = o.curves;
                        s.value = o.value;
                        s.ids = ids;
                        s.curves = curves;
                        checkFlags (s, "assignment");
                        sim::probe ("assignment");
                    }
                    break;
                }

                default:
                    // Used for a while and left in the middle
                    logf ("%s is used for a while", name (s).c_str());
                    newLog (s);
                    s.dsp->prepareWithEnvelopes (8000, 1, 1, 16);
                    {
                        hart::AudioBuffer<S> in (1, 16), out (1, 16);
                        const size_t k = pick (4);

                        for (size_t j = 0; j < k; ++j)
                            s.dsp->processWithEnvelopes (in, out);
                    }
            }
        }

        runIt (slots[pick (slots.size())]);
    }
};

void run()
{
    if (chance (1, 2)) { World<float> w; w.run(); }
    else { World<double> w; w.run(); }
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C13", run, 16000, 400000,
    "histories of 2-11 operations (attach, replace, attach to an unsupported parameter, copy, move, assign, use and leave) over up to 8 effects (one that records what it receives, and the stock ones) with random segmented and "
    "user-defined curves, and runs by hand, by the host, in chains of input and reference signals at random rates, block sizes and lengths, each compared with the curves a model says are attached. Non-trivial: at least one run.",
    "DSP, SegmentedEnvelope, GainDb, GainLinear, HardClip, Signal chains, EqualsTo, AudioTestBuilder", "disk (simulated)", 60
};
