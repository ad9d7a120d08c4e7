// C07: a failure report points at the sample that failed
#include "glitch.hpp"

using namespace kit;

namespace
{
bool close (double a, double b, double tol) { return a == b || (std::isnan (a) && std::isnan (b)) || std::abs (a - b) <= tol; }

double levelDb (double v) { v = std::abs (v); return v < 1e-6 ? -120.0 : 20 * std::log10 (v); }

bool closeDb (double reported, double value)
{
    if (std::isnan (value))
        return true;

    if (std::isinf (value))
        return std::isinf (reported);

    // Around the floor rounding decides
    return std::abs (value) < 1.1e-6 ? reported < -119.0 : std::abs (reported - levelDb (value)) < 2e-3 + (std::abs (value) < 1e-4 ? 0.1 : 0.0);
}

template <typename S> void runTyped()
{
    GlitchTest<S> t;
    t.generate (3, true, true);
    const int moves = (int) pick (8);
    const bool again = chance (1, 2);
    std::vector<MatcherUse> uses;

    for (size_t i = 0; i < t.checks.size(); ++i)
        uses.push_back (genMatcherUse (t.sr, t.ch, t.block));

    const Outcome o = observe ([&]
    {
        hart::AudioTestBuilder<S> h ((GlitchDsp<S> (t.dsp)));
        t.configure (h);

        for (size_t i = 0; i < t.checks.size(); ++i)
            t.checks[i].attach (h, ((moves >> i) & 1) != 0, &uses[i]);

        try
        {
            h.process();
        }
        catch (const hart::TestAssertException&)
        {
            if (! again)
                throw;

            // Once more, which must be as good
            sim::probe ("processed again");
            hart::ExpectationFailureMessages::clear();
            h.process();
        }
    });
    logf ("outcome: %s", o.summary().c_str());
    sim::simulatedFrames ((double) t.frames, t.sr);
    const Planes<S> out = t.dsp->out;

    if (o.kind == Outcome::exception)
        sim::violation ("unexpected-exception", "the test ended with %s", o.text.c_str());

    std::vector<std::string> texts = o.messages;

    if (o.kind == Outcome::assertion)
        texts.push_back (o.text);

    double peak = 0;

    for (auto& c : out)
        for (S v : c)
            peak = std::isnan (peak) || std::isnan (v) ? peak : std::max (peak, (double) std::abs (v));

    for (auto& text : texts)
    {
        const Report r (text);
        std::string oneLine = text;

        for (auto& c : oneLine)
            if (c == '\n')
                c = '|';

        logf ("report: %s", oneLine.c_str());

        if (! r.known)
            sim::violation ("unknown-report", "a report of no check: %s", oneLine.c_str());

        // Which check is it?
        std::vector<size_t> candidates;

        for (size_t i = 0; i < t.checks.size(); ++i)
            if (t.checks[i].assertion == r.assertion && t.checks[i].inverted == r.inverted && conditionText<S> (t.checks[i]) == r.condition)
                candidates.push_back (i);

        if (candidates.empty())
            sim::violation ("unknown-report", "a report of no check: %s", oneLine.c_str());

        if (r.inverted)
            continue;   // nothing to point at: it is all of the audio that satisfies the condition

        sim::nontrivial();

        if (! r.hasChannel || ! r.hasTime || ! r.hasValue)
            sim::violation ("incomplete-report", "no channel, timestamp or sample value: %s", oneLine.c_str());

        const double frame = r.time * t.sr;
        const size_t n = (size_t) std::llround (std::max (0.0, frame)), c = (size_t) r.channel;

        if (c >= out.size() || n >= out[0].size() || std::abs (frame - (double) n) > 0.01)
            sim::violation ("wrong-place", "channel %g, %.9g s (frame %.6g) is not in the audio: %s", r.channel, r.time, frame, oneLine.c_str());

        const double x = (double) out[c][n];
        bool reportedRight = close (r.value, x, 2e-9 + 2e-7 * std::abs (x)) && closeDb (r.valueDb, x);

        if (! reportedRight)
            sim::violation ("wrong-value", "the sample at channel %zu, frame %zu is %.9g (%.6g dB), reported: %s", c, n, x, levelDb (x), oneLine.c_str());

        bool any = false;
        std::string why;

        for (size_t i : candidates)
        {
            const CheckSpec& k = t.checks[i];
            bool ok = t.bad (i, x, c, n, peak) != Tri::no;

            if (! ok)
                why = fmt ("the sample at channel %zu, frame %zu (%.9g) is fine", c, n, x);

            if (ok && k.kind == CheckSpec::equals)
            {
                const double e = t.refs[i][c][n];

                if (! r.hasExpected || ! close (r.expected, e, 1e-6 + 1e-6 * std::abs (e)) || ! closeDb (r.expectedDb, r.expected) || ! close (r.difference, std::abs (x - e), 3e-6 + 1e-6 * (std::abs (e) + std::abs (x))))
                {
                    ok = false;
                    why = fmt ("expected %.9g, difference %.9g at channel %zu, frame %zu", e, std::abs (x - e), c, n);
                }
            }

            if (ok && k.kind == CheckSpec::peaksAt && ! std::isnan (x) && (! r.hasPeak || ! closeDb (r.peakDb, peak)))
            {
                ok = false;
                why = fmt ("the peak is at %.6g dB", levelDb (peak));
            }

            if (ok && k.kind == CheckSpec::peaksBelow && ! std::isnan (x) && (! r.hasPeak || ! closeDb (r.peakDb, x)))
            {
                ok = false;
                why = fmt ("the sample is at %.6g dB", levelDb (x));
            }

            any |= ok;
        }

        if (! any)
            sim::violation ("wrong-report", "%s, reported: %s", why.c_str(), oneLine.c_str());

        sim::probe (n >= t.block ? "failure after the first block" : "failure in the first block");
        sim::mixState (c + 16 * n + 100000 * t.block);
    }
}

void run()
{
    setOptions ({ "--sec-decimals", "12", "--lin-decimals", "12", "--db-decimals", "6" });

    if (chance (1, 2))
        runTyped<float>();
    else
        runTyped<double>();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C07", run, 20000, 500000,
    "as C05 (signals through a DSP that corrupts samples, checked by 1-3 stock matchers, also with assertions); every report is parsed, and the channel, time and value in it are looked up in the recorded output, "
    "the expected value in the reference. Non-trivial: at least one report that points at a sample.",
    "AudioTestBuilder, stock matchers, signals", "tested DSP (instrumented, injects bad samples), disk (simulated)", 60
};
