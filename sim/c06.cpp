// C06: every failed check is reported once and never hides another one
#include "hosttest.hpp"
#include "probes.hpp"

using namespace kit;

namespace
{
struct Planned
{
    std::string condition, what;
    bool inverted = false, assertion = false, fails = false;
    size_t phase = 0;            // block in which it fails, or the number of blocks: at the end
    Cfg cfg;                     // instrumented matcher, or
    CheckSpec stock;             // a stock one
};

template <typename S> struct PlannedTest
{
    std::string label;
    size_t block = 16, frames = 16, blocks = 1;
    bool silence = false;
    std::shared_ptr<typename GlitchDsp<S>::Shared> dsp = std::make_shared<typename GlitchDsp<S>::Shared>();
    std::vector<Planned> checks;
};

template <typename S> PlannedTest<S> plan (size_t number, size_t& names, std::vector<CheckSpec>& earlier)
{
    PlannedTest<S> t;
    t.block = 1 + pick (40);
    t.blocks = outsized() ? 1 + pick (200) : 1 + pick (6);
    t.frames = t.block * (t.blocks - 1) + 1 + pick (t.block);
    t.label = chance (1, 3) ? std::string() : fmt ("run %zu", number);
    const size_t badBlock = pick (t.blocks + 1);

    if (badBlock < t.blocks)
        t.dsp->glitches.push_back ({ 0, std::min (t.frames - 1, badBlock * t.block + (size_t) pick (t.block)), 50.0, "bad-sample:level" });

    const size_t n = outsized() ? 7 + pick (40) : pick (7);

    for (size_t i = 0; i < n; ++i)
    {
        Planned p;
        p.inverted = chance (1, 4);
        p.assertion = chance (1, 6);

        if (chance (2, 5))
        {
            p.cfg = probeCfg (fmt ("probe%zu", names++), nullptr);
            p.cfg->recordAudio = false;
            p.cfg->perBlock = chance (1, 2);
            const bool full = p.inverted || ! p.cfg->perBlock;
            const size_t bad = pick (t.blocks + 2);
            const bool again = chance (1, 2);   // keeps failing afterwards

            for (size_t b = 0; b < std::max<size_t> (8, t.blocks + 1); ++b)
                p.cfg->verdicts.push_back (! (b == bad || (again && b > bad)));

            if (full)
            {
                p.cfg->verdicts.assign (1, chance (1, 2));
                p.fails = (p.cfg->verdicts[0] != 0) == p.inverted;
                p.phase = t.blocks;
            }
            else
            {
                p.fails = bad < t.blocks;
                p.phase = bad;
            }

            p.condition = "ProbeMatcher (" + p.cfg->name + ")";
        }
        else
        {
            const bool same = ! earlier.empty() && chance (1, 3);    // looks just like another check, of this test or an earlier one
            p.stock = same ? earlier[pick (earlier.size())] : CheckSpec();

            if (! same)
            {
                p.stock.kind = (CheckSpec::Kind) pick (3);
                p.stock.tol = 0.5 + 1e-4 * (double) names++;         // makes it unique
                p.stock.level = p.stock.kind == CheckSpec::peaksBelow ? 12 : chance (1, 2) ? 26 : 33.9794;   // about 4; 20: never, 50: with the bad sample
                earlier.push_back (p.stock);
            }

            p.stock.inverted = p.inverted;
            p.stock.assertion = p.assertion;
            bool holds = true;

            switch (p.stock.kind)
            {
                case CheckSpec::equals:
                    p.stock.ref.kind = SignalSpec::sine;
                    p.stock.ref.freq = 1000;
                    holds = badBlock >= t.blocks;
                    p.phase = badBlock;
                    break;

                case CheckSpec::peaksBelow:
                    holds = badBlock >= t.blocks;
                    p.phase = badBlock;
                    break;

                default:
                    holds = p.stock.level > 30 && badBlock < t.blocks;
                    p.phase = t.blocks;
                    break;
            }

            if (p.inverted)
                p.phase = t.blocks;

            p.fails = holds == p.inverted;
            p.condition = conditionText<S> (p.stock);
        }

        p.what = std::string (p.assertion ? "assert" : "expect") + (p.inverted ? "False " : "True ") + p.condition + (p.fails ? fmt (" fails in block %zu of %zu", p.phase, t.blocks) : std::string (" holds"));
        logf ("test %zu: %s", number, p.what.c_str());
        t.checks.push_back (p);
    }

    logf ("test %zu: label \"%s\", block %zu, %zu frames", number, t.label.c_str(), t.block, t.frames);
    return t;
}

template <typename S> void attach (hart::AudioTestBuilder<S>& h, const Planned& p, bool byMove, const MatcherUse& use)
{
    if (! p.cfg)
        return p.stock.attach (h, byMove, &use);

    ProbeMatcher<S> m (p.cfg);
    p.stock.attachOne (h, m, byMove);
}

template <typename S> void runTyped()
{
    const size_t numTests = outsized() ? 3 + pick (20) : 1 + pick (3);
    size_t names = 0;
    std::vector<CheckSpec> earlier;
    std::vector<PlannedTest<S>> tests;

    for (size_t i = 0; i < numTests; ++i)
        tests.push_back (plan<S> (i, names, earlier));

    const int moves = (int) pick (128), files = (int) pick (3);
    std::vector<MatcherUse> uses;

    for (size_t i = 0; i < 8; ++i)
        uses.push_back (genMatcherUse (44100, 1, 100));

    const size_t macro = pick (8);   // a failing macro in between
    size_t done = 0;
    bool macroFailed = false;

    const Outcome o = observe ([&]
    {
        for (auto& t : tests)
        {
            if (macro == done)
            {
                macroFailed = true;
                HART_EXPECT_TRUE (macro == done + 1);
            }

            hart::AudioTestBuilder<S> h ((GlitchDsp<S> (t.dsp)));
            h.withBlockSize (t.block).withDuration ((double) t.frames / 44100.0).withInputSignal (hart::SineWave<S> (1000));

            for (size_t i = 0; i < t.checks.size(); ++i)
            {
                Planned p = t.checks[i];
                p.stock.inverted = p.inverted;
                p.stock.assertion = p.assertion;
                attach (h, p, ((moves >> i) & 1) != 0, uses[i % uses.size()]);
            }

            if (! t.label.empty())
                h.withLabel (t.label);

            if (files == 1)
                h.saveOutputTo ("/simfs/out/f.wav", hart::Save::whenFails);
            else if (files == 2)
                h.saveOutputTo ("/simfs/out/f.wav");

            h.process();
            ++done;
        }
    });

    logf ("outcome: %s, %zu tests completed", o.summary().c_str(), done);
    sim::simulatedFrames ((double) tests[0].frames, 44100);
    sim::nontrivial();

    if (o.kind == Outcome::exception)
        sim::violation ("unexpected-exception", "ended with %s", o.text.c_str());

    // The reports, one by one
    std::map<std::string, size_t> seen;
    size_t macroSeen = 0;
    auto key = [] (const std::string& label, bool assertion, bool inverted, const std::string& condition)
    {
        return std::string (assertion ? "assert" : "expect") + (inverted ? "False" : "True") + "|" + label + "|" + condition;
    };

    for (auto& m : o.messages)
    {
        const Report r (m);

        if (m.find ("HART_EXPECT_TRUE") == 0)
            ++macroSeen;
        else
            ++seen[key (r.label, r.assertion, r.inverted, r.condition)];
    }

    if (macroSeen != (macroFailed ? 1u : 0u))
        sim::violation ("macro", "%zu messages of HART_EXPECT_TRUE() instead of %d", macroSeen, (int) macroFailed);

    const size_t last = o.kind == Outcome::assertion ? done : done - 1;   // the last test that has run

    // Checks that look the same are told apart by their number
    struct Wanted { size_t required = 0, allowed = 0; std::string what; };
    std::map<std::string, Wanted> wanted;

    for (size_t i = 0; i <= last && i < tests.size(); ++i)
    {
        auto& t = tests[i];
        const bool cut = o.kind == Outcome::assertion && i == done;
        const Planned* ending = nullptr;
        size_t endingIndex = 0;
        bool mustEnd = false;

        for (size_t c = 0; c < t.checks.size(); ++c)
        {
            auto& p = t.checks[c];

            if (p.assertion && p.fails)
            {
                mustEnd = true;
                const Report r (o.text);

                if (cut && ending == nullptr && key (r.label, r.assertion, r.inverted, r.condition) == key (t.label, true, p.inverted, p.condition))
                {
                    ending = &p;
                    endingIndex = c;
                }
            }
        }

        if (mustEnd && ! cut)
            sim::violation ("assertion-ignored", "an assertion of test %zu has failed, but the test returned", i);

        if (cut && ending == nullptr)
            sim::violation ("wrong-assertion", "test %zu ended with an assertion exception that belongs to no failed assertion: %s", i, o.text.c_str());

        for (size_t c = 0; c < t.checks.size(); ++c)
        {
            auto& p = t.checks[c];

            if (p.assertion)
                continue;

            Wanted& w = wanted[key (t.label, false, p.inverted, p.condition)];
            const bool required = p.fails && (! cut || p.phase < ending->phase || (p.phase == ending->phase && c < endingIndex));
            w.required += required;
            w.allowed += p.fails;
            w.what += (w.what.empty() ? "" : "; ") + fmt ("test %zu, ", i) + p.what + (p.fails && ! required && cut ? " (after " + ending->what + ")" : std::string());

            if (cut && p.fails)
                sim::probe ("failed expectation next to a failed assertion");
        }
    }

    for (auto& w : wanted)
    {
        const size_t n = seen[w.first];
        seen[w.first] = 0;

        if (w.second.allowed == 0 && n > 0)
            sim::violation ("false-report", "%s, but was reported", w.second.what.c_str());

        if (n > w.second.allowed)
            sim::violation ("double-report", "%s, reported %zu times instead of %zu", w.second.what.c_str(), n, w.second.allowed);

        if (n < w.second.required)
            sim::violation ("lost-report", "%s, reported %zu times instead of %zu", w.second.what.c_str(), n, w.second.required);

        if (w.second.required > 1)
            sim::probe ("checks that look the same failed");
    }

    for (auto& s : seen)
        if (s.second > 0)
            sim::violation ("unknown-report", "%zu reports of no check: %s", s.second, s.first.c_str());

    for (auto& t : tests)
        for (auto& p : t.checks)
            sim::mixState ((uint64_t) p.fails + 2 * p.inverted + 4 * p.assertion + 8 * p.phase + 128 * (p.cfg != nullptr));
}

void run()
{
    setOptions ({ "--lin-decimals", "9" });

    if (chance (1, 2))
        runTyped<float>();
    else
        runTyped<double>();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C06", run, 20000, 500000,
    "1-3 host runs in one test body, each with 0-6 checks (instrumented matchers with scripted verdicts per block, and stock ones; expect/assert, inverted or not; any order), a possibly corrupted block, labels, output files and "
    "failing macros in between; messages and exception are compared with a small model of which check fails when. Non-trivial: every run.",
    "AudioTestBuilder, stock matchers, failure messages", "tested DSP and part of the matchers (instrumented), disk (simulated)", 60
};
