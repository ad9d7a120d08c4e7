// Complete random test programs: tests and generators registered with the real registry and run by the real entry point.
#pragma once

#include "hosttest.hpp"
#include "probes.hpp"

namespace kit
{

struct Action
{
    enum Kind { host, message, expectMacro, assertMacro, failMacro, throws, hostNoMemory, hostDiskFault, hostThrowingMatcher, floatHost } kind = host;
    HostSpec test;
    int type = 0;             // of the exception
    uint64_t k = 0;           // which allocation fails
    bool persistent = false;  // all the following as well
    bool swallow = false;     // the body catches what the action throws and goes on
    sim::fs::Fault fault {};
    std::string tag;
};

struct BodyPlan
{
    std::string name;
    bool generator = false;
    std::vector<Action> actions;
};

// What really happened in a body, as seen from inside
struct BodyRecord
{
    std::string name;
    unsigned executions = 0;
    bool threw = false, threwAssertion = false, threwStd = false;
    std::string what;
    std::vector<std::string> messages;
    size_t messagesBefore = 0;           // of other bodies, when it began
};

struct Program
{
    std::vector<BodyPlan> bodies;
    std::vector<std::string> args;
    std::vector<BodyRecord> records;     // in the order of execution
    std::vector<std::string> files;      // that may be written
};

inline Program*& currentProgram() { static Program* p = nullptr; return p; }

inline void throwSomething (int type, const std::string& tag)
{
    switch (type)
    {
        case 0: throw std::runtime_error ("runtime error of " + tag);
        case 1: throw hart::SampleRateError ("sample rate error of " + tag);
        case 2: throw PlannedOddity { 7 };
        case 3: throw 42;
        case 4: throw "text";
        case 5: throw std::bad_alloc();
        case 6: throw hart::ConfigurationError ("configuration error of " + tag);
        case 7: throw std::string ("string of " + tag);
        case 8: throw hart::StateError ("state error of " + tag);
        case 9: throw hart::TestAssertException ("assertion of " + tag);

        // Nothing to say
        case 10: throw hart::ConfigurationError ("");
        case 11: throw std::runtime_error ("");
        case 12: throw std::string();
        default: throw hart::TestAssertException ("");
    }
}

template <typename S> void runHost (const HostSpec& t)
{
    hart::AudioTestBuilder<S> h (t.host<S>());
    t.configure<S> (h);
    h.process();
    sim::simulatedFrames ((double) t.frames, t.sr);
}

inline void perform (const Action& a)
{
    struct Disarm { ~Disarm() { sim::AllocFaults::disarm(); sim::fs::armFaults (false); } } disarm;

    switch (a.kind)
    {
        case Action::host: runHost<double> (a.test); break;
        case Action::floatHost: runHost<float> (a.test); break;
        case Action::message: hart::ExpectationFailureMessages::get().emplace_back (a.type >= 12 ? "" : "message of " + a.tag); break;
        case Action::expectMacro: HART_EXPECT_TRUE (a.tag.empty()); break;
        case Action::assertMacro: HART_ASSERT_TRUE (a.tag.empty()); break;
        case Action::failMacro: HART_FAIL_TEST_MSG ((a.type >= 12 ? std::string() : a.tag));
        case Action::throws: throwSomething (a.type, a.tag); break;

        case Action::hostNoMemory:
            a.persistent ? sim::AllocFaults::armFrom (a.k) : sim::AllocFaults::armNth (a.k);
            runHost<double> (a.test);
            break;

        case Action::hostDiskFault:
            sim::fs::addFault (a.fault);
            sim::fs::armFaults (true);
            runHost<double> (a.test);
            break;

        case Action::hostThrowingMatcher:
        {
            Cfg c = probeCfg ("matcher of " + a.tag, nullptr);
            c->recordAudio = false;
            c->throws = true;
            c->throwType = a.type % 4;
            c->throwCall = Call::audio;
            hart::AudioTestBuilder<double> h (a.test.host<double>());
            a.test.configure<double> (h);
            h.expectTrue (ProbeMatcher<double> (c));
            h.process();
            break;
        }
    }
}

inline void runBody (size_t index)
{
    Program& p = *currentProgram();
    const BodyPlan& plan = p.bodies[index];
    BodyRecord* r = nullptr;
    {
        sim::Pause pause;
        p.records.emplace_back();
        r = &p.records.back();
        r->name = plan.name;
        r->executions = 1;
        r->messagesBefore = hart::ExpectationFailureMessages::get().size();
    }

    auto note = [&] (bool assertion, bool std, const char* what)
    {
        sim::Pause pause;
        r->threw = true;
        r->threwAssertion = assertion;
        r->threwStd = std;
        r->what = what;
        r->messages = hart::ExpectationFailureMessages::get();
    };

    try
    {
        for (auto& a : plan.actions)
        {
            if (a.swallow)
            {
                try { perform (a); }
                catch (...) {}
            }
            else
                perform (a);
        }
    }
    catch (const hart::TestAssertException& e) { note (true, true, e.what()); throw; }
    catch (const std::exception& e) { note (false, true, e.what()); throw; }
    catch (...) { note (false, false, ""); throw; }

    sim::Pause pause;
    r->messages = hart::ExpectationFailureMessages::get();
}

template <size_t N> void body() { runBody (N); }
constexpr size_t maxBodies = 48;

template <size_t N> struct BodyTable
{
    static void (*get (size_t i)) () { return i == N ? &body<N> : BodyTable<N - 1>::get (i); }
};

template <> struct BodyTable<0>
{
    static void (*get (size_t)) () { return &body<0>; }
};

inline int entryPoint (int argc, const char** argv)
{
    HART_RUN_ALL_TESTS (argc, argv);
    return 100;
}

// Registers everything and runs it like main() would; the exit code
inline int runProgram (Program& p)
{
    currentProgram() = &p;
    p.records.reserve (2 * maxBodies);

    for (size_t i = 0; i < p.bodies.size(); ++i)
        hart::TestRegistry::getInstance().add (p.bodies[i].name, "", p.bodies[i].generator ? hart::TaskCategory::generate : hart::TaskCategory::test, BodyTable<maxBodies - 1>::get (i));

    std::vector<const char*> argv { "program" };

    for (auto& a : p.args)
        argv.push_back (a.c_str());

    return entryPoint ((int) argv.size(), argv.data());
}

struct ProgramOptions
{
    bool faults = true;          // failing allocations and disk
    bool noiseByDefaultSeed = false;
};

inline Action genAction (const std::string& tag, const ProgramOptions& o)
{
    Action a;
    a.tag = tag;
    HostOptions h;
    h.maxFrames = 300;
    h.maxChecks = 3;
    const size_t kind = pick (o.faults ? 12 : 9);
    const Action::Kind kinds[] = { Action::host, Action::host, Action::floatHost, Action::expectMacro, Action::message, Action::assertMacro, Action::failMacro, Action::throws, Action::hostThrowingMatcher,
                                   Action::hostNoMemory, Action::hostNoMemory, Action::hostDiskFault };
    a.kind = kinds[kind];
    a.type = (int) pick (14);
    a.swallow = chance (1, 6);
    a.test = genHost (h);
    a.test.label = tag;

    if (chance (1, 3) || a.kind == Action::hostDiskFault)
    {
        a.test.wavMode = a.kind == Action::hostDiskFault || chance (1, 2) ? hart::Save::always : hart::Save::whenFails;
        a.test.wavPath = "/simfs/out/" + tag + ".wav";
        a.test.format = oneOf ({ hart::WavFormat::pcm24, hart::WavFormat::pcm16, hart::WavFormat::pcm32, hart::WavFormat::float32 });
    }

    if (chance (1, 6))
    {
        a.test.plotMode = chance (1, 2) ? hart::Save::always : hart::Save::whenFails;
        a.test.plotPath = "/simfs/out/" + tag + ".svg";
    }

    if (a.kind == Action::hostNoMemory)
    {
        a.k = pick (300);
        a.persistent = chance (1, 3);
    }

    if (a.kind == Action::hostDiskFault)
    {
        a.fault.op = oneOf ({ sim::fs::Op::write, sim::fs::Op::open, sim::fs::Op::close, sim::fs::Op::read });
        a.fault.index = pick (4);
        a.fault.effect = oneOf ({ sim::fs::Effect::enospc, sim::fs::Effect::eio });
        a.fault.keep = 0;
    }

    return a;
}

inline std::string actionText (const Action& a)
{
    const char* n[] = { "host", "message", "expect macro", "assert macro", "fail macro", "throws", "host without memory", "host with disk fault", "host with throwing matcher", "float host" };
    std::string s = n[a.kind];

    if (a.kind == Action::throws || a.kind == Action::hostThrowingMatcher) s += fmt (" (type %d)", a.type);
    if (a.kind == Action::hostNoMemory) s += fmt (" (allocation %d%s)", (int) a.k, a.persistent ? "+" : "");
    if (a.kind == Action::hostDiskFault) s += " (" + sim::fs::describe (a.fault) + ")";
    if (a.kind == Action::host || a.kind >= Action::hostNoMemory) s += ": " + a.test.text();
    return s + (a.swallow ? " [swallowed]" : "");
}

inline Program genProgram (const ProgramOptions& o)
{
    Program p;
    const bool many = chance (1, 20);
    const size_t n = many ? 8 + pick (30) : 1 + pick (6), g = pick (many ? 10 : 4);
    std::string prefix;

    if (many)
        sim::probe ("dozens of tests");

    // Long names that differ at the end only
    if (chance (1, 8))
        for (size_t i = 0, length = pick (300); i < length; ++i)
            prefix += "The.long_name/of:a,test("[i % 24];

    if (! prefix.empty())
        sim::probe ("long names");

    for (size_t i = 0; i < n + g; ++i)
    {
        BodyPlan b;
        b.generator = i >= n;
        b.name = prefix + fmt ("%s-%c", b.generator ? "generator" : "test", (char) ('A' + (b.generator ? i - n : i)));

        if (b.generator && chance (1, 4))
        {
            b.name = prefix + fmt ("test-%c", (char) ('A' + i - n));   // the same name as a test's
            sim::probe ("generator with the name of a test");
        }

        const size_t actions = pick (many ? 2 : 3);

        for (size_t k = 0; k < actions; ++k)
            b.actions.push_back (genAction (fmt ("body%zu-%zu.", i, k), o));

        std::string s = b.name + ":";

        for (auto& a : b.actions)
            s += " {" + actionText (a) + "}";

        logf ("%s", s.c_str());
        p.bodies.push_back (b);
    }

    // Registration order mixes tests and generators
    for (size_t i = p.bodies.size(); i > 1; --i)
        std::swap (p.bodies[i - 1], p.bodies[i - 1 - pick (i)]);

    return p;
}

}  // namespace kit
