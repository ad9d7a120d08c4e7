// C08: the runner runs every test once, isolated, and reports it truthfully
#include "program.hpp"

using namespace kit;

namespace
{
size_t occurrences (const std::string& s, const std::string& what)
{
    size_t n = 0;

    for (size_t i = s.find (what); i != std::string::npos; i = s.find (what, i + what.size()))
        ++n;

    return n;
}

const char* aloneFile = "/simfs/alone";

std::string describe (const std::string& name, bool passed, const BodyRecord& r)
{
    std::string s = name + (passed ? " passed" : " failed") + (r.threw ? " threw " + r.what : "");

    for (auto& m : r.messages)
        s += " {" + m + "}";

    return s;
}

bool hasFaults (const BodyPlan& b)
{
    for (auto& a : b.actions)
        if (a.kind == Action::hostNoMemory || a.kind == Action::hostDiskFault)
            return true;

    return false;
}

std::string judgeAlone (const Program& p, bool generators)
{
    std::vector<size_t> c;

    for (size_t i = 0; i < p.bodies.size(); ++i)
    {
        // A disk fault may leave the disk full for the others
        for (auto& a : p.bodies[i].actions)
            if (a.kind == Action::hostDiskFault)
                return "";

        if (p.bodies[i].generator == generators && ! hasFaults (p.bodies[i]))
            c.push_back (i);
    }

    if (c.empty())
        return "";

    const BodyPlan b = p.bodies[c[pick (c.size())]];

    const int code = sim::inProcess ([&]
    {
        Program one;
        one.bodies.push_back (b);

        if (generators)
            one.args.push_back ("-g");

        const int e = runProgram (one);

        if (one.records.size() == 1)
            sim::fs::putFile (aloneFile, describe (b.name, e == 0, one.records[0]));

        return 0;
    });

    if (code != 0 || ! sim::fs::exists (aloneFile))
        sim::violation ("alone", "%s alone: the program ended with code %d", b.name.c_str(), code);

    return sim::fs::getFile (aloneFile);
}

// Very many tests: what the operating system makes of the exit code
size_t manyCalls;
void manyPassing() { ++manyCalls; }
void manyFailing() { ++manyCalls; hart::ExpectationFailureMessages::get().emplace_back ("failed"); }

void runMany()
{
    const size_t failing = chance (3, 4) ? 256 * (1 + pick (2)) + (chance (1, 4) ? pick (3) - 1 : 0) : pick (300), passing = pick (5);
    logf ("%zu failing and %zu passing tests", failing, passing);

    const int code = sim::inProcess ([&]
    {
        manyCalls = 0;

        for (size_t i = 0; i < failing + passing; ++i)
            hart::TestRegistry::getInstance().add (fmt ("test-%zu", i), "", hart::TaskCategory::test, i < failing ? manyFailing : manyPassing);

        const char* argv[] = { "program", nullptr };
        const int c = entryPoint (1, argv);

        if (manyCalls == failing + passing)
            sim::fs::putFile (aloneFile, "all");

        return c;
    });

    sim::nontrivial();
    sim::probe ("hundreds of tests");
    logf ("exit code %d", code);

    if (! sim::fs::exists (aloneFile) && failing + passing > 0)
        sim::violation ("wrong-tasks", "not every one of %zu tests was run once", failing + passing);

    if (code < 0 || ((code & 0xff) != 0) != (failing > 0))
        sim::violation ("exit-code", "the process ended with exit code %d, %zu of %zu tests failed", code & 0xff, failing, failing + passing);
}

void run()
{
    if (chance (1, 40))
        return runMany();

    Program p = genProgram (ProgramOptions());
    const bool generators = chance (1, 3), shuffle = chance (1, 4);

    if (generators) p.args.push_back (oneOf<const char*> ({ "-g", "--run-generators" }));
    if (shuffle) p.args.push_back ("--shuffle");
    if (chance (1, 2)) { p.args.push_back ("--seed"); p.args.push_back (fmt ("%d", (int) pick (1000))); }

    std::vector<std::string> expected;
    std::string extraName;

    for (auto& b : p.bodies)
        if (b.generator == generators)
            expected.push_back (b.name);

    // How one of the bodies is judged when it is the only one
    const std::string alone = expected.empty() || ! chance (1, 3) ? "" : judgeAlone (p, generators);

    // A rejected registration changes nothing
    if (chance (1, 4))
    {
        const BodyPlan& b = p.bodies[pick (p.bodies.size())];
        extraName = b.name + "x";
        hart::TestRegistry::getInstance().add (extraName, "", hart::TaskCategory::test, [] { sim::Pause pause; currentProgram()->records.emplace_back(); currentProgram()->records.back().name = "extra"; });
        bool threw = false;
        try { hart::TestRegistry::getInstance().add (extraName, "tag", hart::TaskCategory::test, [] { sim::violation ("duplicate-run", "a test with a duplicate name was run"); }); }
        catch (const std::exception&) { threw = true; }

        if (! threw)
            sim::violation ("duplicate-accepted", "two tests with the same name were registered");

        if (! generators)
            expected.insert (expected.begin(), "extra");

        sim::probe ("duplicate registration");
    }

    std::string args;

    for (auto& a : p.args)
        args += " " + a;

    logf ("arguments:%s", args.c_str());
    sim::resetCapturedStdout();
    int code = -1;

    try { code = runProgram (p); }
    catch (const std::exception& e) { sim::violation ("run-aborted", "an exception has ended the whole run: %s", e.what()); }
    catch (...) { sim::violation ("run-aborted", "an exception has ended the whole run"); }

    const std::string out = sim::capturedStdout();
    logf ("exit code %d, %zu bodies executed", code, p.records.size());

    if (expected.empty())
    {
        if (! p.records.empty() || code != 0)
            sim::violation ("nothing-to-run", "%zu bodies were executed, exit code %d, but there is nothing to run", p.records.size(), code);

        return;
    }

    sim::nontrivial();

    // Once each, in order
    std::vector<std::string> executed;

    for (auto& r : p.records)
        executed.push_back (r.name);

    std::vector<std::string> a = executed, b = expected;

    if (shuffle)
    {
        std::sort (a.begin(), a.end());
        std::sort (b.begin(), b.end());
    }

    if (a != b)
    {
        std::string x, y;
        for (auto& s : executed) x += s + " ";
        for (auto& s : expected) y += s + " ";
        sim::violation ("wrong-tasks", "executed: %s, registered: %s%s", x.c_str(), y.c_str(), shuffle ? "(shuffled)" : "");
    }

    // Reports
    std::vector<std::pair<size_t, size_t>> sections;   // of the records: begin and end in the output
    size_t passed = 0, failed = 0;

    for (auto& r : p.records)
    {
        const std::string name = r.name == "extra" ? extraName : r.name;
        const size_t ok = occurrences (out, name + " - passed"), bad = occurrences (out, name + " - failed");
        const bool shouldPass = ! r.threw && r.messages.empty();
        (shouldPass ? passed : failed)++;
        logf ("%s: %s, %zu messages", r.name.c_str(), r.threw ? "threw" : "returned", r.messages.size());

        if (ok + bad != 1)
            sim::violation ("not-reported-once", "%s was reported %zu times as passed and %zu times as failed", r.name.c_str(), ok, bad);

        if ((ok == 1) != shouldPass)
            sim::violation (shouldPass ? "false-alarm" : "false-pass", "%s %s, with %zu failed expectations%s%s, but was reported as %s", r.name.c_str(), r.threw ? "threw" : "returned", r.messages.size(),
                            r.what.empty() ? "" : ": ", r.what.c_str(), ok ? "passed" : "failed");

        const size_t at = out.find (name + (ok ? " - passed" : " - failed"));
        sections.emplace_back (at, out.size());

        if (sections.size() > 1 && sections[sections.size() - 2].first < out.size())
            sections[sections.size() - 2].second = at;

        if (r.messagesBefore > 0)
            sim::violation ("not-isolated", "there were already %zu failed expectations when %s began", r.messagesBefore, name.c_str());

        if (! alone.empty() && alone.compare (0, name.size() + 1, name + " ") == 0)
        {
            sim::probe ("compared with the body run alone");
            const std::string d = describe (name, ok == 1, r);

            if (d != alone)
                sim::violation ("influenced", "judged alone: %s; among others: %s", alone.c_str(), d.c_str());
        }

        sim::mixState ((uint64_t) r.threw + 2 * r.threwStd + 4 * r.messages.size() + 64 * r.name.back());
    }

    for (size_t i = 0; i < p.records.size(); ++i)
    {
        auto& r = p.records[i];

        const std::string section = out.substr (sections[i].first, sections[i].second - sections[i].first);
        std::map<std::string, size_t> texts;

        for (auto& m : r.messages)
            ++texts[m];

        if (r.threwAssertion)
            ++texts[r.what];

        texts.erase ("");

        for (auto& t : texts)
            if (occurrences (section, t.first) != t.second)
                sim::violation ("messages", "the report of %s has a message %zu times instead of %zu times: %s", r.name.c_str(), occurrences (section, t.first), t.second, t.first.c_str());

        // Not those of others
        for (auto& body : p.bodies)
            for (auto& action : body.actions)
                if (body.name != r.name && ! action.tag.empty() && section.find (action.tag) != std::string::npos && (body.generator == generators))
                    sim::violation ("foreign-message", "the report of %s has a message of %s", r.name.c_str(), body.name.c_str());
    }

    if (((code & 0xff) != 0) != (failed > 0))
        sim::violation ("exit-code", "exit code %d with %zu failed of %zu", code, failed, p.records.size());

    if (out.find (fmt ("[ PASSED ] %zu/%zu", passed, passed + failed)) == std::string::npos)
        sim::violation ("totals", "%zu of %zu passed, which is not what the summary says", passed, passed + failed);

    const std::string failedLine = fmt ("[ FAILED ] %zu/%zu", failed, passed + failed);

    if ((out.find ("[ FAILED ]") != std::string::npos) != (failed > 0) || (failed > 0 && out.find (failedLine) == std::string::npos))
        sim::violation ("totals", "%zu of %zu failed, which is not what the summary says", failed, passed + failed);

    if (failed > 0 && passed > 0)
        sim::probe ("passed and failed tests in one run");
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C08", run, 12000, 250000,
    "a random program of 1-6 tests and 0-3 generators run by the real entry point with random arguments; bodies fail expectations, assertions, macros, throw anything, run host tests with failing allocations (one or all from "
    "some point on), disk faults and throwing matchers, or catch such exceptions; or hundreds of failing tests in a process of their own; execution, report text, totals and exit code are compared with what the bodies have recorded from inside. Non-trivial: at least one body was run.",
    "TestRegistry, CLI, ExpectationFailureMessages, AudioTestBuilder, WavWriter, plot", "disk (simulated), allocator (faults), stdout (captured)", 60
};
