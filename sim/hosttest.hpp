// Complete random tests run through the host, and their observable outcome.
#pragma once

#include "kit.hpp"

namespace kit
{

// What a matcher object has been used for before it is attached
struct MatcherUse
{
    size_t blocks = 0, frames = 0, ch = 1;
    double sr = 44100, level = 0;
    bool asked = false;

    template <typename S> void apply (hart::Matcher<S>& m) const
    {
        if (blocks == 0)
            return;

        m.prepare (sr, ch, frames);
        m.reset();

        for (size_t b = 0; b < blocks; ++b)
        {
            hart::AudioBuffer<S> a (ch, frames);

            // The last block ends with something loud on the last channel
            if (b + 1 == blocks)
                for (size_t n = frames / 2; n < frames; ++n)
                    a[ch - 1][n] = (S) level;

            const bool matched = m.match (a);

            if (! matched && asked)
                m.getFailureDetails();
        }
    }
};

inline MatcherUse genMatcherUse (double sr, size_t ch, size_t maxFrames)
{
    MatcherUse u;

    if (chance (2, 3))
        return u;

    u.blocks = 1 + pick (3);
    u.frames = 1 + pick (std::min<size_t> (maxFrames, 200));
    u.ch = 1 + pick (ch);
    u.sr = sr;
    u.level = oneOf<double> ({ 100, -100, 1, 0 });
    u.asked = chance (1, 2);
    sim::probe ("matcher used before");
    return u;
}

struct CheckSpec
{
    enum Kind { equals, peaksAt, peaksBelow } kind = peaksBelow;
    SignalSpec ref;
    double level = 0, tol = 1e-3;
    bool inverted = false, assertion = false;

    std::string text() const
    {
        return fmt ("%s%s ", assertion ? "assert" : "expect", inverted ? "False" : "True")
            + (kind == equals ? "EqualsTo(" + ref.text() + fmt (", %g)", tol) : fmt ("%s(%g dB, %g)", kind == peaksAt ? "PeaksAt" : "PeaksBelow", level, tol));
    }

    template <typename S> std::unique_ptr<hart::Matcher<S>> build() const
    {
        switch (kind)
        {
            case equals: return std::unique_ptr<hart::Matcher<S>> (new hart::EqualsTo<S> (*ref.build<S>(), tol));
            case peaksAt: return std::unique_ptr<hart::Matcher<S>> (new hart::PeaksAt<S> (level, tol));
            default: return std::unique_ptr<hart::Matcher<S>> (new hart::PeaksBelow<S> (level, tol));
        }
    }

    template <typename S, typename M> void attachOne (hart::AudioTestBuilder<S>& h, M m, bool byMove) const
    {
        if (byMove)
            assertion ? (inverted ? h.assertFalse (std::move (m)) : h.assertTrue (std::move (m)))
                      : (inverted ? h.expectFalse (std::move (m)) : h.expectTrue (std::move (m)));
        else
            assertion ? (inverted ? h.assertFalse (m) : h.assertTrue (m))
                      : (inverted ? h.expectFalse (m) : h.expectTrue (m));
    }

    template <typename S, typename M> void attachUsed (hart::AudioTestBuilder<S>& h, M m, bool byMove, const MatcherUse* use) const
    {
        if (use != nullptr)
            use->apply<S> (m);

        attachOne<S> (h, std::move (m), byMove);
    }

    template <typename S> void attach (hart::AudioTestBuilder<S>& h, bool byMove = false, const MatcherUse* use = nullptr) const
    {
        switch (kind)
        {
            case equals: attachUsed<S> (h, hart::EqualsTo<S> (*ref.build<S>(), tol), byMove, use); break;
            case peaksAt: attachUsed<S> (h, hart::PeaksAt<S> (level, tol), byMove, use); break;
            default: attachUsed<S> (h, hart::PeaksBelow<S> (level, tol), byMove, use); break;
        }
    }
};

struct Outcome
{
    enum Kind { passed, assertion, exception } kind = passed;
    std::string text;                           // of the exception
    std::vector<std::string> messages;
    bool badAlloc = false;

    std::string summary() const
    {
        return (kind == passed ? "returned" : kind == assertion ? "assertion" : "exception: " + text) + fmt (", %zu messages", messages.size());
    }

    bool operator== (const Outcome& o) const { return kind == o.kind && text == o.text && messages == o.messages; }

    std::string all() const
    {
        std::string s = summary() + " [" + text + "]";

        for (auto& m : messages)
            s += " {" + m + "}";

        for (auto& c : s)
            if (c == '\n')
                c = '|';

        return s;
    }
};

struct HostSpec
{
    double sr = 44100;
    size_t inCh = 1, outCh = 1, block = 64, frames = 200;
    SignalSpec input;
    DspSpec dsp;
    std::vector<std::pair<int, double>> values;
    std::vector<CheckSpec> checks;
    std::string label, wavPath, plotPath;
    hart::Save wavMode = hart::Save::never, plotMode = hart::Save::never;
    hart::WavFormat format = hart::WavFormat::float32;
    int moves = 0, handing = 0;

    double seconds() const { return (double) frames / sr; }

    std::string text() const
    {
        std::string s = fmt ("%g Hz, %zu->%zu ch, block %zu, %zu frames, ", sr, inCh, outCh, block, frames) + input.text() + " | " + dsp.text();

        for (auto& v : values)
            s += fmt (" value %d=%g", v.first, v.second);

        for (auto& c : checks)
            s += "; " + c.text();

        if (wavMode != hart::Save::never)
            s += fmt ("; wav %s%s", wavPath.c_str(), wavMode == hart::Save::always ? "" : " when fails");

        if (plotMode != hart::Save::never)
            s += fmt ("; plot %s%s", plotPath.c_str(), plotMode == hart::Save::always ? "" : " when fails");

        return s;
    }

    // The test, with the DSP handed over in one of the possible ways, but nothing else set
    template <typename S> hart::AudioTestBuilder<S> host() const
    {
        std::unique_ptr<hart::DSP<S>> d = dsp.build<S>();

        switch (handing)
        {
            case 0: return hart::AudioTestBuilder<S> (std::move (d));
            case 1: return hart::AudioTestBuilder<S> (*d);
            case 2: return hart::AudioTestBuilder<S> (std::move (*d));
            case 3: return hart::processAudioWith (*d);
            case 4: return hart::processAudioWith (std::move (*d));
            default: return hart::processAudioWith (std::move (d));
        }
    }

    // Everything but handing over the DSP
    template <typename S> void configure (hart::AudioTestBuilder<S>& h) const
    {
        h.withSampleRate (sr).withBlockSize (block).withDuration (seconds()).withInputChannels (inCh).withOutputChannels (outCh);
        h.withInputSignal (*input.build<S>());

        for (auto& v : values)
            h.withValue (v.first, v.second);

        size_t i = 0;

        for (auto& c : checks)
            c.attach (h, ((moves >> (i++ % 8)) & 1) != 0);

        if (! label.empty())
            h.withLabel (label);

        if (wavMode != hart::Save::never)
            h.saveOutputTo (wavPath, wavMode, format);

        if (plotMode != hart::Save::never)
            h.savePlotTo (plotPath, plotMode);
    }
};

// Runs f the way a test body is run
template <typename F> Outcome observe (F f)
{
    Outcome o;

    // Faults end with f, so that they do not hit the observer
    struct Disarm { ~Disarm() { sim::AllocFaults::disarm(); } };

    try { Disarm d; f(); }
    catch (const hart::TestAssertException& e) { o.kind = Outcome::assertion; o.text = e.what(); }
    catch (const std::bad_alloc& e) { o.kind = Outcome::exception; o.text = e.what(); o.badAlloc = true; }
    catch (const std::exception& e) { o.kind = Outcome::exception; o.text = e.what(); }
    catch (const PlannedOddity&) { o.kind = Outcome::exception; o.text = "PlannedOddity"; }

    o.messages = hart::ExpectationFailureMessages::get();
    hart::ExpectationFailureMessages::clear();
    return o;
}

struct HostOptions
{
    size_t maxFrames = 1500;
    size_t maxChecks = 4;
    bool wavInput = true;
    bool noise = true;
    bool env = true;
    bool assertions = true;
    bool outsize = true;
};

// A check that is about as likely to hold as not
inline CheckSpec genCheck (const HostSpec& h, const HostOptions& o)
{
    CheckSpec c;
    c.kind = (CheckSpec::Kind) pick (3);
    c.inverted = chance (1, 4);
    c.assertion = o.assertions && chance (1, 5);

    if (c.kind == CheckSpec::equals)
    {
        c.ref = h.input;
        c.tol = oneOf<double> ({ 1e-5, 1e-3, 0.1, 1.0 });

        if (! chance (1, 3))
        {
            DspSpec d = h.dsp;

            for (auto& v : h.values)
                if (v.first == 0)
                    d.value = v.second;

            c.ref.chain.push_back (d);
        }
    }
    else
    {
        c.level = realIn (-30.0, 6.0);
        c.tol = oneOf<double> ({ 1e-3, 0.1, 0.5, 1.0 });
    }

    return c;
}

inline HostSpec genHost (const HostOptions& o)
{
    HostSpec h;
    h.sr = genSampleRate();
    h.block = oneOf<size_t> ({ 64, 16, 100, 1024, 7 }) + pick (3);
    h.frames = 1 + pick (chance (1, 2) ? o.maxFrames : 3 * h.block < o.maxFrames ? 3 * h.block : o.maxFrames);
    h.inCh = 1 + pick (3);

    if (o.outsize && outsized())
    {
        if (chance (1, 2))
        {
            h.inCh = 4 + pick (60);
            h.frames = 1 + h.frames % 40;
        }
        else
        {
            h.frames = o.maxFrames + pick (20 * o.maxFrames);
            h.block = std::max (h.block, h.frames / 50);
        }
    }

    h.dsp = genDsp (o.env, h.seconds());
    h.outCh = h.inCh == 1 && h.dsp.kind != DspSpec::clip && chance (1, 4) ? 1 + pick (3) : h.inCh;
    GenOptions g;
    g.sr = h.sr;
    g.channels = std::max (h.inCh, h.outCh);
    g.frames = h.frames;
    g.wav = o.wavInput;
    g.noise = o.noise;
    g.env = o.env;
    g.maxChain = 2;
    h.input = genSignal (g);

    if (! h.dsp.hasEnv && chance (1, 3))
    {
        const size_t n = 1 + pick (2);

        for (size_t i = 0; i < n; ++i)
        {
            const int id = chance (1, 5) ? 7 : 0;
            h.values.emplace_back (id, h.dsp.kind == DspSpec::gainLin ? realIn (-2.0, 2.0) : realIn (-30.0, 6.0));
        }
    }

    const size_t n = pick (o.maxChecks + 1);

    for (size_t i = 0; i < n; ++i)
        h.checks.push_back (genCheck (h, o));

    if (chance (1, 3))
        h.label = "label of the test";

    h.moves = (int) pick (256);
    h.handing = (int) pick (6);
    return h;
}

// The parts of a failure report. Everything but the kind and the condition is optional.
struct Report
{
    bool assertion = false, inverted = false, known = false;
    std::string label, condition;
    bool hasChannel = false, hasTime = false, hasValue = false, hasExpected = false, hasPeak = false;
    double channel = 0, time = 0, value = 0, valueDb = 0, expected = 0, expectedDb = 0, difference = 0, peakDb = 0;

    static bool number (const std::string& s, const char* key, double& v, size_t from = 0, size_t* end = nullptr)
    {
        const size_t i = s.find (key, from);

        if (i == std::string::npos)
            return false;

        const char* p = s.c_str() + i + strlen (key);
        char* e = nullptr;
        v = strtod (p, &e);

        if (end != nullptr)
            *end = (size_t) (e - s.c_str());

        return e != p;
    }

    explicit Report (const std::string& s)
    {
        for (int a = 0; a < 2; ++a)
            for (int f = 0; f < 2; ++f)
                if (s.find (std::string (a ? "assert" : "expect") + (f ? "False" : "True")) == 0)
                {
                    known = true;
                    assertion = a;
                    inverted = f;
                }

        const size_t c = s.find ("\nCondition: ");

        if (c != std::string::npos)
        {
            condition = s.substr (c + 12, s.find ('\n', c + 12) - c - 12);
            const size_t q = s.find ('"');

            if (q < c)
                label = s.substr (q + 1, s.rfind ('"', c) - q - 1);
        }

        const size_t from = c == std::string::npos ? 0 : c + 12 + condition.size();
        size_t end = 0;
        hasChannel = number (s, "Channel: ", channel, from);
        hasTime = number (s, "Timestamp: ", time, from);
        hasValue = number (s, "Sample value: ", value, from, &end) && number (s, " (", valueDb, end);
        hasExpected = number (s, "Expected sample value: ", expected, from, &end) && number (s, " (", expectedDb, end) && number (s, "difference: ", difference, end);
        hasPeak = number (s, "peaks at at least ", peakDb, from) || number (s, "peaks at ", peakDb, from);
    }
};

template <typename S> std::string conditionText (const CheckSpec& c)
{
    sim::Pause p;
    std::ostringstream s;
    s << *c.build<S>();
    return s.str();
}

// The DSP under test whose output is known: x * gain, except for planned samples. Records what it produced.
struct Glitch { size_t ch, frame; double value; const char* what; };

template <typename S>
class GlitchDsp : public hart::DSP<S>
{
public:
    using SampleType = S;

    struct Shared
    {
        double gain = 1;
        std::vector<Glitch> glitches;
        Planes<S> out;
        std::function<void (size_t)> onBlock;
    };

    std::shared_ptr<Shared> shared;
    size_t pos = 0;

    explicit GlitchDsp (std::shared_ptr<Shared> s) : shared (s) {}

    void prepare (double, size_t, size_t, size_t) override {}
    void reset() override { pos = 0; sim::Pause p; shared->out.clear(); }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "GlitchDsp()"; }

    void process (const hart::AudioBuffer<S>& in, hart::AudioBuffer<S>& out, const hart::EnvelopeBuffers&) override
    {
        sim::Pause p;

        if (shared->onBlock)
            shared->onBlock (pos);

        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t n = 0; n < out.getNumFrames(); ++n)
                out[c][n] = (S) (in[c % in.getNumChannels()][n] * (S) shared->gain);

        for (auto& g : shared->glitches)
            if (g.ch < out.getNumChannels() && g.frame >= pos && g.frame < pos + out.getNumFrames())
            {
                out[g.ch][g.frame - pos] = (S) g.value;
                sim::faultFired (g.what);
            }

        appendPlanes (shared->out, out);
        pos += out.getNumFrames();
    }

    HART_DSP_DEFINE_COPY_AND_MOVE (GlitchDsp);
};

}  // namespace kit
