// C21: the command line is obeyed for the whole run, or refused as a whole
#include "program.hpp"

using namespace kit;

namespace
{
struct Expected
{
    std::string root = ".";
    uint64_t seed = 0;
    bool generators = false, shuffle = false;
    int lin = 6, db = 1, sec = 3, hz = 1, rad = 1;
    bool help = false, invalid = false;
    std::string args;

    bool simulatedRoot() const { return root.compare (0, 7, "/simfs/") == 0; }
    std::string below (const std::string& f) const { return root + (root.back() == '/' ? "" : "/") + f; }
};

enum Probe { noise, saves, plots, loads, decimals, requires_, numProbes };

struct Task { bool generator; std::vector<Probe> probes; bool isFloat; std::string name; };

Expected want;
std::vector<Task> tasks;
std::vector<size_t> executed;
WavSpec wanted;
const size_t wavFrames = 20;

template <typename S> hart::AudioBuffer<S> rendered (hart::Signal<S>& s, size_t frames)
{
    s.prepare (44100, 1, frames);
    s.reset();
    hart::AudioBuffer<S> b (1, frames);
    s.renderNextBlock (b);
    return b;
}

// The value with as many decimals?
void shows (const std::string& what, const std::string& text, double value, int places)
{
    if (text.find (fmt ("%.*f", places, value)) == std::string::npos)
        sim::violation ("decimals", "%s should be shown as %.*f, but is shown as %s, with arguments: %s", what.c_str(), places, value, text.c_str(), want.args.c_str());
}

template <typename F> std::string shown (F f) { std::ostringstream s; f (s); return s.str(); }

template <typename S> void runProbe (Probe p, size_t task)
{
    switch (p)
    {
        case noise:
        {
            hart::WhiteNoise<S> a, b ((uint_fast32_t) want.seed);
            const auto x = rendered (a, 16), y = rendered (b, 16);

            for (size_t n = 0; n < 16; ++n)
                if (x[0][n] != y[0][n])
                    sim::violation ("seed", "noise without a seed differs from noise with the seed %llu, with arguments: %s", (unsigned long long) want.seed, want.args.c_str());
            break;
        }

        case saves: case plots:
        {
            if (! want.simulatedRoot())
                break;

            const std::string name = fmt ("task%zu.%s", task, p == saves ? "wav" : "svg");
            const size_t before = sim::fs::list().size();
            const bool existed = sim::fs::exists (want.below (name));
            hart::AudioTestBuilder<S> h ((hart::GainDb<S> (-6.0)));
            h.withDuration (0.001).withInputSignal (hart::SineWave<S> (1000));
            p == saves ? h.saveOutputTo (name) : h.savePlotTo (name);
            h.process();

            if (! sim::fs::exists (want.below (name)) || sim::fs::list().size() != before + (existed ? 0 : 1))
            {
                std::string all;
                for (auto& f : sim::fs::list()) all += f + " ";
                sim::violation ("data-root", "%s should have been written, but there is only: %s, with arguments: %s", want.below (name).c_str(), all.c_str(), want.args.c_str());
            }
            break;
        }

        case loads:
        {
            if (! want.simulatedRoot())
                break;

            std::unique_ptr<hart::WavFile<S>> w;

            try { w.reset (new hart::WavFile<S> ("in/file.wav")); }
            catch (const std::exception& e) { sim::violation ("data-root", "in/file.wav was not found below %s (%s), with arguments: %s", want.root.c_str(), e.what(), want.args.c_str()); }

            const auto x = rendered (*w, wavFrames);

            for (size_t n = 0; n < wavFrames; ++n)
                if (std::abs ((double) x[0][n] - wanted.data[0][n]) > 1e-4)
                    sim::violation ("data-root", "another file than the one in %s was played, with arguments: %s", want.root.c_str(), want.args.c_str());
            break;
        }

        case decimals:
            shows ("a linear value", shown ([] (std::ostream& s) { s << hart::linPrecision << 0.123456789012345; }), 0.123456789012345, want.lin);
            shows ("a level", shown ([] (std::ostream& s) { s << hart::dbPrecision << -1.123456789012345; }), -1.123456789012345, want.db);
            shows ("a time", shown ([] (std::ostream& s) { s << hart::secPrecision << 2.123456789012345; }), 2.123456789012345, want.sec);
            shows ("a frequency", shown ([] (std::ostream& s) { s << hart::hzPrecision << 123.123456789012345; }), 123.123456789012345, want.hz);
            shows ("an angle", shown ([] (std::ostream& s) { s << hart::radPrecision << 1.123456789012345; }), 1.123456789012345, want.rad);
            shows ("a tolerance", shown ([] (std::ostream& s) { s << hart::PeaksAt<S> (-3.25, 0.0625); }), 0.0625, want.lin);
            shows ("a gain", shown ([] (std::ostream& s) { s << hart::GainDb<S> (-3.03125); }), -3.03125, want.db);
            break;

        default:
        {
            bool refused = false;

            try
            {
                bool through = false;
                [&] { HART_REQUIRES_DATA_PATH_ARG; through = true; }();
                refused = ! through;
            }
            catch (const hart::ConfigurationError&) { refused = true; }

            if (refused)
                sim::violation ("data-root", "a test that requires the data root does not get it, with arguments: %s", want.args.c_str());
            break;
        }
    }
}

void taskBody (size_t i)
{
    sim::AllocFaults::disarm();
    executed.push_back (i);

    if (want.help || want.invalid)
        sim::violation ("run-anyway", "%s was run, with arguments: %s", tasks[i].name.c_str(), want.args.c_str());

    if (tasks[i].generator != want.generators)
        sim::violation ("category", "%s was run, with arguments: %s", tasks[i].name.c_str(), want.args.c_str());

    for (Probe p : tasks[i].probes)
        tasks[i].isFloat ? runProbe<float> (p, i) : runProbe<double> (p, i);
}

template <size_t N> void task() { taskBody (N); }
void (*const bodies[]) () = { task<0>, task<1>, task<2>, task<3>, task<4>, task<5>, task<6>, task<7>, task<8>, task<9>, task<10>, task<11>, task<12>, task<13>, task<14>, task<15> };

// "--name value" and the like
void addValue (std::vector<std::vector<std::string>>& groups, const char* longName, const char* shortName, const std::string& value)
{
    const std::string l = longName;

    switch (pick (shortName != nullptr ? 4 : 2))
    {
        case 0: groups.push_back ({ l, value }); break;
        case 1: groups.push_back ({ l + "=" + value }); break;
        case 2: groups.push_back ({ shortName, value }); break;
        default: groups.push_back ({ shortName + value }); break;
    }
}

std::vector<std::string> genArguments()
{
    std::vector<std::vector<std::string>> groups;

    if (chance (1, 2))
    {
        want.seed = chance (1, 4) ? oneOf<uint64_t> ({ 0, 1, 0xffffffffull, 0x80000000ull, 2147483647ull }) : pick (100000);
        addValue (groups, "--seed", "-s", std::to_string (want.seed));
    }

    if (chance (2, 3))
    {
        want.root = oneOf<const char*> ({ "/simfs/root", "/simfs/data/", "/simfs/my data", "/simfs/a=b", "/simfs/r\xc3\xb6ot", "/simfs/deep/er/root" });
        addValue (groups, "--data-root-path", "-d", want.root);
    }

    if (chance (1, 3))
    {
        want.generators = true;
        groups.push_back ({ oneOf<const char*> ({ "-g", "--run-generators" }) });
    }

    if (chance (1, 3))
    {
        want.shuffle = true;
        groups.push_back ({ "--shuffle" });
    }

    if (chance (1, 6))
        addValue (groups, "--tags", "-t", "[tag]");

    auto places = [&] (const char* name, int& to)
    {
        if (chance (1, 3))
        {
            to = (int) pick (13);
            addValue (groups, name, nullptr, std::to_string (to));
        }
    };
    places ("--lin-decimals", want.lin);
    places ("--db-decimals", want.db);
    places ("--sec-decimals", want.sec);
    places ("--hz-decimals", want.hz);
    places ("--rad-decimals", want.rad);

    // Something that must end it
    if (chance (1, 3))
    {
        auto has = [&] (const char* l, const char* s)
        {
            for (auto& g : groups)
                if (g[0].compare (0, strlen (l), l) == 0 || (s != nullptr && g[0].compare (0, 2, s) == 0))
                    return true;

            return false;
        };
        static const char* const numeric[] = { "--seed", "--lin-decimals", "--db-decimals", "--sec-decimals", "--hz-decimals", "--rad-decimals" };
        const char* option = numeric[pick (6)];
        const bool usable = ! has (option, option == numeric[0] ? "-s" : nullptr);
        const size_t kind = pick (usable ? 8 : 4);
        want.invalid = kind != 0;

        switch (kind)
        {
            case 0: want.help = true; groups.push_back ({ oneOf<const char*> ({ "--help", "-h" }) }); break;
            case 1: groups.push_back ({ oneOf<const char*> ({ "--sead", "--no-such-option", "--verbose", "--lin_decimals", "--seeds=3", "-x", "--Seed=1" }) }); break;
            case 2: groups.push_back ({ oneOf<const char*> ({ "stray", "test-0", "7", "./" }) }); break;
            case 3:
                if (want.shuffle && want.generators)
                    groups.push_back ({ "--no-such-option" });
                else
                    groups.push_back ({ std::string (want.shuffle ? "--run-generators" : "--shuffle") + oneOf<const char*> ({ "=maybe", "=x", "=2x" }) });
                break;
            case 4: case 5: groups.push_back ({ std::string (option) + "=" + oneOf<const char*> ({ "abc", "1x", "1.5.2", "", "-", "x1", "seven" }) }); break;
            case 6: groups.push_back ({ option, oneOf<const char*> ({ "99999999999999999999999999", "abc", "1e", "five" }) }); break;
            default: groups.push_back ({ option }); break;
        }

        if (kind == 7)
        {
            // The value is missing at the very end
            std::vector<std::string> args;

            for (size_t i = 0; i + 1 < groups.size(); ++i)
                args.insert (args.end(), groups[i].begin(), groups[i].end());

            args.push_back (option);
            return args;
        }
    }

    for (size_t i = groups.size(); i > 1; --i)
        std::swap (groups[i - 1], groups[i - 1 - pick (i)]);

    std::vector<std::string> args;

    for (auto& g : groups)
        args.insert (args.end(), g.begin(), g.end());

    return args;
}

void run()
{
    want = Expected();
    tasks.clear();
    executed.clear();
    const std::vector<std::string> args = genArguments();

    for (auto& a : args)
        want.args += " '" + a + "'";

    logf ("arguments:%s", want.args.c_str());

    // Wav files of the same relative name in several places
    const char* const roots[] = { "/simfs/root", "/simfs/data", "/simfs/my data", "/simfs/a=b", "/simfs/r\xc3\xb6ot", "/simfs/deep/er/root", "/simfs", "/simfs/in" };
    size_t salt = 1;

    for (const char* r : roots)
    {
        WavSpec w;
        w.frames = wavFrames;
        const std::string bytes = encodeWav (w, salt++);
        w.path = std::string (r) + "/in/file.wav";
        sim::fs::putFile (w.path, bytes);

        if (want.root == r || want.root == std::string (r) + "/")
            wanted = w;
    }

    const bool many = chance (1, 8);
    const size_t n = many ? 12 + pick (5) : 1 + pick (6);
    size_t expected = 0;

    for (size_t i = 0; i < n; ++i)
    {
        Task t;
        t.generator = many ? chance (1, 16) != want.generators : chance (1, 3);
        t.isFloat = chance (1, 2);
        t.name = fmt ("%s-%zu", t.generator ? "generator" : "test", i);
        const size_t probes = 1 + pick (4);
        std::string s = t.name + ":";

        for (size_t k = 0; k < probes; ++k)
        {
            t.probes.push_back ((Probe) pick (numProbes));
            s += fmt (" %d", (int) t.probes.back());
        }

        logf ("%s", s.c_str());
        tasks.push_back (t);
        expected += t.generator == want.generators;
        hart::TestRegistry::getInstance().add (t.name, "", t.generator ? hart::TaskCategory::generate : hart::TaskCategory::test, bodies[i]);
    }

    std::vector<const char*> argv { "program" };

    for (auto& a : args)
        argv.push_back (a.c_str());

    // Things done before the command line is known, e.g. by objects made before main()
    if (chance (1, 3))
    {
        sim::probe ("used before the command line was parsed");
        const int early = 1 + (int) pick (31);
        logf ("early: %d", early);

        if (early & 1)
        {
            hart::AudioTestBuilder<float> h ((hart::GainDb<float> (-6.0)));
            h.saveOutputTo ("early.wav").savePlotTo ("early.svg");
        }

        if (early & 2)
        {
            try { hart::WavFile<float> w ("in/file.wav"); } catch (const std::exception&) {}
        }

        if (early & 4)
        {
            hart::WhiteNoise<float> n;
            rendered (n, 8);
        }

        if (early & 8)
            shown ([] (std::ostream& s) { s << hart::PeaksAt<float> (-3.25, 0.0625) << hart::SineWave<float> (100, 1) << hart::SineSweep<float>(); });

        if (early & 16)
        {
            try { [] { HART_REQUIRES_DATA_PATH_ARG; }(); } catch (const std::exception&) {}
        }
    }

    const bool fault = chance (1, 6);
    int code = -1;
    bool escaped = false;
    sim::resetCapturedStdout();

    if (fault)
        sim::AllocFaults::armNth (pick (600));

    try { struct Disarm { ~Disarm() { sim::AllocFaults::disarm(); } } disarm; code = entryPoint ((int) argv.size(), argv.data()); }
    catch (const std::exception& e) { escaped = true; sim::Pause p; logf ("exception: %s", e.what()); }

    const bool fired = fault && sim::AllocFaults::firedSinceArm() > 0;
    logf ("exit code %d, %zu of %zu executed%s", code, executed.size(), tasks.size(), fired ? ", out of memory" : "");
    sim::nontrivial();
    sim::mixState (hashOf (want.args.data(), want.args.size()) % 100000);

    if (escaped)
    {
        // Out of memory while starting up: the process would end, with nothing run
        if (! fired)
            sim::violation ("escaped", "an exception has ended the program, with arguments: %s", want.args.c_str());

        sim::faultFired ("out of memory at start-up");

        if (! executed.empty())
            sim::violation ("half-run", "an exception has ended the program after %zu tasks, with arguments: %s", executed.size(), want.args.c_str());

        return;
    }

    if (want.help || want.invalid)
    {
        sim::probe (want.help ? "help" : "invalid arguments");

        if (! executed.empty())
            sim::violation ("run-anyway", "%zu tasks were run, with arguments: %s", executed.size(), want.args.c_str());

        if (! fired && ((code & 0xff) != 0) != want.invalid)
            sim::violation ("exit-code", "exit code %d, with arguments: %s", code, want.args.c_str());

        return;
    }

    // (CLI11 turns memory it does not get into an error of its own at places)
    if (fired && code != 0 && executed.empty())
    {
        sim::faultFired ("out of memory at start-up");
        return;
    }

    const std::string out = sim::capturedStdout();

    if (executed.size() != expected)
        sim::violation ("wrong-tasks", "%zu tasks were run instead of %zu, with arguments: %s", executed.size(), expected, want.args.c_str());

    if (! want.shuffle && ! std::is_sorted (executed.begin(), executed.end()))
        sim::violation ("wrong-order", "the order was changed without --shuffle, with arguments: %s", want.args.c_str());

    // (Never with 11 tasks or more, for all practical purposes)
    if (want.shuffle && expected >= 11 && std::is_sorted (executed.begin(), executed.end()))
        sim::violation ("not-shuffled", "%zu tasks are in order in spite of --shuffle, with arguments: %s", expected, want.args.c_str());

    if (code != 0)
        sim::violation ("exit-code", "exit code %d, with arguments: %s; output: %s", code, want.args.c_str(), out.c_str());

    sim::probe (want.generators ? "generators" : "tests");
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C21", run, 6000, 150000,
    "a program of 1-16 tests and generators run by the real entry point with a random command line (options in every spelling and order, or with one thing that cannot be understood, or asking for help), possibly without enough "
    "memory to start up; from inside the bodies it is checked what default-seeded noise plays, where relative paths are read and written (with files of the same name below other directories), how many decimals are shown, and "
    "which bodies run at all. Non-trivial: every run.",
    "CLIConfig, CLI11, TestRegistry, path resolution, WhiteNoise, WavFile, WavWriter, plot, precision manipulators", "disk (simulated), allocator (faults), stdout (captured)", 60
};
