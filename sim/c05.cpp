// C05: a check passes exactly when the audio satisfies its condition
#include "glitch.hpp"

using namespace kit;

namespace
{
const char* triName (Tri t) { return t == Tri::yes ? "holds" : t == Tri::no ? "does not hold" : "is too close to call"; }

template <typename S> void runTyped()
{
    GlitchTest<S> t;
    t.generate (3, false, true);
    const bool single = t.checks.size() == 1 && chance (1, 3);

    if (single)
        t.checks[0].assertion = true;

    const int moves = (int) pick (8);
    const bool again = chance (1, 2);
    std::vector<MatcherUse> uses;

    for (size_t i = 0; i < t.checks.size(); ++i)
        uses.push_back (genMatcherUse (t.sr, t.ch, t.block));

    const Outcome o = observe ([&]
    {
        hart::AudioTestBuilder<S> h ((GlitchDsp<S> (t.dsp)));
        t.configure (h);

        for (size_t i = 0; i < t.checks.size(); ++i)
            t.checks[i].attach (h, ((moves >> i) & 1) != 0, &uses[i]);

        try
        {
            h.process();
        }
        catch (const hart::TestAssertException&)
        {
            if (! again)
                throw;

            // Once more, which must be as good
            sim::probe ("processed again");
            hart::ExpectationFailureMessages::clear();
            h.process();
        }
    });
    logf ("outcome: %s", o.summary().c_str());
    sim::simulatedFrames ((double) t.frames, t.sr);
    const Planes<S> out = t.dsp->out;

    if (o.kind == Outcome::exception)
        sim::violation ("unexpected-exception", "the test ended with %s", o.text.c_str());

    if (! (single && o.kind == Outcome::assertion) && (out.size() != t.ch || out[0].size() != t.frames))
        sim::violation ("wrong-duration", "the DSP has processed another duration than asked for");

    if (single && o.kind == Outcome::assertion && out[0].size() != t.frames)
    {
        // Ended early: the part that was processed must not satisfy the condition
        const Tri c = t.holds (0, out, 0, out[0].size());

        if ((c == Tri::yes) != t.checks[0].inverted && c != Tri::unsure)
            sim::violation ("wrong-verdict", "%s ended the test early, but its condition %s for that part", t.checks[0].text().c_str(), triName (c));

        sim::nontrivial();
        return;
    }

    size_t sureFailures = 0, unsure = 0;
    std::string which;

    for (size_t i = 0; i < t.checks.size(); ++i)
    {
        const Tri c = t.holds (i, out, 0, t.frames);
        logf ("%s: condition %s", t.checks[i].text().c_str(), triName (c));
        which += t.checks[i].text() + ": condition " + triName (c) + "; ";

        if (c == Tri::unsure)
            ++unsure;
        else if ((c == Tri::yes) == t.checks[i].inverted)
            ++sureFailures;

        sim::mixState ((uint64_t) c + 3 * (uint64_t) t.checks[i].kind + 9 * (uint64_t) t.checks[i].inverted + 100 * t.frames);
    }

    if (unsure < t.checks.size())
        sim::nontrivial();

    if (sureFailures > 0)
        sim::probe ("check that must fail");
    if (sureFailures + unsure < t.checks.size())
        sim::probe ("check that must pass");

    const size_t failures = o.messages.size() + (o.kind == Outcome::assertion ? 1 : 0);

    if (failures < sureFailures)
        sim::violation ("failure-missed", "%zu checks failed, but %zu must: %s", failures, sureFailures, which.c_str());

    if (failures > sureFailures + unsure)
        sim::violation ("false-failure", "%zu checks failed, but only %zu may: %s", failures, sureFailures + unsure, which.c_str());
}

void run()
{
    setOptions ({});

    if (chance (1, 2))
        runTyped<float>();
    else
        runTyped<double>();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C05", run, 20000, 500000,
    "a stock signal through a DSP that corrupts 0-3 samples (offset around the tolerance, sign flip, dropout, NaN, infinity, other level; at the first, last or block-edge frames or anywhere, on any channel), checked by "
    "1-3 stock matchers (expect/assert, inverted or not) with levels around the actual peak; the verdicts are compared with the conditions evaluated on the recorded output. Non-trivial: at least one condition "
    "is not within rounding of its limit.",
    "AudioTestBuilder, stock matchers, signals", "tested DSP (instrumented, injects bad samples), disk (simulated)", 60
};
