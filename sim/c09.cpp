// C09: a run is a pure function of its inputs and seed
#include "program.hpp"

#include <cstdlib>
#include <ctime>
#include <random>

using namespace kit;

namespace
{
const char* resultFile = "/simfs/result";

struct Env
{
    uint64_t seed = 0;                  // clock and entropy
    uint8_t fill = 0xa5;
    std::vector<size_t> held;           // sizes of blocks allocated before, of which some are freed again
    int activity = 0;                   // what the process has done before
    HostSpec earlier;

    std::string text() const
    {
        return fmt ("environment %llu, fill %02x, %zu blocks, activity %d", (unsigned long long) seed, fill, held.size(), activity);
    }
};

Env genEnv()
{
    Env e;
    e.seed = pick (1u << 20);
    e.fill = oneOf<uint8_t> ({ 0x00, 0xff, 0xa5, 0x7f, 0x3f }) ^ (uint8_t) pick (2);
    const size_t n = pick (40);

    for (size_t i = 0; i < n; ++i)
        e.held.push_back (1 + pick (chance (1, 4) ? 5000 : 200));

    e.activity = (int) pick (64);
    HostOptions h;
    h.maxFrames = 100;
    h.maxChecks = 2;
    e.earlier = genHost (h);
    return e;
}

void live (const Env& e, std::vector<std::unique_ptr<char[]>>& keep)
{
    sim::setEnvironment (e.seed);

    if (e.seed != 1)
    {
        sim::faultFired ("clock-and-entropy-changed");
        sim::faultFired (fmt ("heap-contents:%02x", e.fill).c_str());
        if (! e.held.empty()) sim::faultFired ("heap-layout-changed");
        if (e.activity != 0) sim::faultFired ("earlier-activity");
    }

    sim::AllocFaults::setFill (e.fill);

    for (size_t i = 0; i < e.held.size(); ++i)
    {
        std::unique_ptr<char[]> p (new char[e.held[i]]);
        memset (p.get(), e.fill, e.held[i]);

        if (i % 3 != 0)
            keep.push_back (std::move (p));
    }

    if (e.activity & 1)
        observe ([&] { runHost<double> (e.earlier); });

    if (e.activity & 2)
        observe ([&] { runHost<float> (e.earlier); });

    if (e.activity & 4)
    {
        srand ((unsigned) e.seed);

        for (int i = 0; i < (int) (e.seed % 7); ++i)
            (void) rand();
    }

    if (e.activity & 8)
    {
        std::random_device d;
        volatile auto x = d() + (unsigned) time (nullptr);
        (void) x;
    }

    if (e.activity & 16)
    {
        hart::WhiteNoise<double> n (3);
        n.prepare (44100, 2, 32);
        hart::AudioBuffer<double> b (2, 32);
        n.renderNextBlock (b);
    }

    if (e.activity & 32)
    {
        // A long one
        hart::SineWave<float> sine (440);
        hart::SineWave<double> sineD (44);
        hart::SineSweep<double> sweep (0.3);
        hart::SineSweep<float> sweepF (0.2, 30, 3000, hart::SineSweep<float>::SweepType::linear, hart::SineSweep<float>::Loop::yes);
        hart::WhiteNoise<float> noise;
        auto play = [&] (auto& s, auto sample)
        {
            s.followedBy (hart::GainDb<decltype (sample)> (-3)).followedBy (hart::HardClip<decltype (sample)> (-6));
            s.prepareWithDSPChain (44100, 2, 1024);
            hart::AudioBuffer<decltype (sample)> b (2, 1024);

            for (int i = 0; i < 80; ++i)
                s.renderNextBlockWithDSPChain (b);
        };
        play (sine, 0.f); play (sineD, 0.0); play (sweep, 0.0); play (sweepF, 0.f); play (noise, 0.f);
    }
}

void removeOutput()
{
    for (auto& f : sim::fs::list())
        if (f.compare (0, 11, "/simfs/out/") == 0 || f == resultFile)
            std::remove (f.c_str());
}

struct Result
{
    int code = 0;
    std::string output;
    std::map<std::string, std::string> files;
    std::vector<std::string> executed;
};

Result runIn (const Env& e, const Program& p)
{
    removeOutput();
    logf ("run with %s", e.text().c_str());

    const int code = sim::inProcess ([&]
    {
        Program mine = p;
        std::vector<std::unique_ptr<char[]>> keep;
        live (e, keep);
        removeOutput();
        sim::resetCapturedStdout();
        const int c = runProgram (mine);
        std::string s = fmt ("%d\n", c);

        for (auto& r : mine.records)
            s += r.name + " ";

        sim::fs::putFile (resultFile, s + "\n" + sim::capturedStdout());
        return 0;
    });

    if (code != 0 || ! sim::fs::exists (resultFile))
        sim::violation ("died", "the program ended with code %d in %s", code, e.text().c_str());

    Result r;
    std::istringstream s (sim::fs::getFile (resultFile));
    std::string names, name;
    s >> r.code;
    s.get();
    std::getline (s, names);
    r.output = s.str().substr ((size_t) s.tellg());
    std::istringstream n (names);

    while (n >> name)
        r.executed.push_back (name);

    for (auto& f : sim::fs::list())
        if (f.compare (0, 11, "/simfs/out/") == 0)
            r.files[f] = sim::fs::getFile (f);

    logf ("exit code %d, %zu bodies, %zu files, output %016llx", r.code, r.executed.size(), r.files.size(), (unsigned long long) hashOf (r.output.data(), r.output.size()));
    return r;
}

std::string firstDifference (const std::string& a, const std::string& b)
{
    size_t i = 0;

    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;

    const size_t from = i > 30 ? i - 30 : 0;
    auto show = [&] (const std::string& s)
    {
        std::string t = from < s.size() ? s.substr (from, 80) : "";

        for (auto& c : t)
            if (c < 32 || c > 126)
                c = '.';

        return t;
    };

    return fmt ("at byte %zu: \"%s\" / \"%s\"", i, show (a).c_str(), show (b).c_str());
}

void compare (const Result& a, const Result& b, const char* cls, const char* what)
{
    if (a.executed != b.executed)
        sim::violation (cls, "%s: the order of the tasks differs", what);

    if (a.code != b.code)
        sim::violation (cls, "%s: exit code %d / %d", what, a.code, b.code);

    if (a.output != b.output)
        sim::violation (cls, "%s: the printed reports differ %s", what, firstDifference (a.output, b.output).c_str());

    for (auto& f : a.files)
    {
        auto i = b.files.find (f.first);

        if (i == b.files.end())
            sim::violation (cls, "%s: %s was written only once", what, f.first.c_str());

        if (f.second != i->second)
            sim::violation (cls, "%s: %s differs %s", what, f.first.c_str(), firstDifference (f.second, i->second).c_str());
    }

    if (a.files.size() != b.files.size())
        sim::violation (cls, "%s: %zu / %zu files were written", what, a.files.size(), b.files.size());
}

uint32_t genSeed()
{
    switch (pick (4))
    {
        case 0: return (uint32_t) pick (1000);
        case 3: return oneOf<uint32_t> ({ 0, 0, 1, 0x7fffffffu, 0x80000000u });
        case 1: return (uint32_t) pick (1ull << 32);
        default: return 0xffffffffu - (uint32_t) pick (16);
    }
}

void run()
{
    ProgramOptions o;
    o.faults = false;
    Program p = genProgram (o);
    const bool seedGiven = chance (2, 3);
    const uint32_t seed = seedGiven ? genSeed() : 0;

    // Noise seeded by the option
    struct Noise { std::string path; size_t ch, frames; double sr; };
    std::vector<Noise> noises;

    for (size_t i = 0; i < p.bodies.size(); ++i)
    {
        if (! chance (1, 3))
            continue;

        Action a;
        a.kind = Action::host;
        a.tag = fmt ("noise%zu", i);
        HostOptions h;
        h.maxFrames = 200;
        h.maxChecks = 0;
        a.test = genHost (h);
        a.test.input = SignalSpec();
        a.test.input.kind = SignalSpec::noise;
        a.test.input.seed = seed;
        a.test.input.defaultSeed = true;
        a.test.dsp = DspSpec();
        a.test.dsp.kind = DspSpec::gainLin;
        a.test.dsp.value = 1;
        a.test.values.clear();
        a.test.inCh = a.test.outCh;

        if (chance (1, 2))
        {
            CheckSpec c;
            c.kind = CheckSpec::equals;
            c.ref = a.test.input;
            c.ref.defaultSeed = chance (1, 2);
            c.inverted = chance (1, 2);   // fails: its report has samples
            a.test.checks.push_back (c);
        }

        a.test.wavMode = hart::Save::always;
        a.test.wavPath = fmt ("/simfs/out/noise%zu.wav", i);
        logf ("%s also: %s", p.bodies[i].name.c_str(), a.test.text().c_str());
        p.bodies[i].actions.insert (p.bodies[i].actions.begin(), a);
        noises.push_back ({ a.test.wavPath, a.test.outCh, a.test.frames, a.test.sr });
    }

    if (seedGiven) { p.args.push_back (oneOf<const char*> ({ "--seed", "-s" })); p.args.push_back (fmt ("%u", seed)); }

    const bool generators = chance (1, 5), shuffle = chance (1, 2);

    if (shuffle) p.args.push_back ("--shuffle");
    if (generators) p.args.push_back ("-g");
    if (chance (1, 4)) { p.args.push_back (oneOf<const char*> ({ "--lin-decimals", "--db-decimals", "--sec-decimals", "--hz-decimals" })); p.args.push_back (fmt ("%d", (int) pick (12))); }

    std::string args;
    for (auto& a : p.args) args += " " + a;
    logf ("arguments:%s", args.c_str());

    const Env plain = { 1, 0xa5, {}, 0, HostSpec() }, other = genEnv();
    const Result a = runIn (plain, p), b = runIn (other, p);
    compare (a, b, "not-repeatable", other.text().c_str());
    sim::mixState (hashOf (a.output.data(), a.output.size()));

    if (! a.executed.empty())
        sim::nontrivial();

    // By chance, that many tasks stay where they are once in millions of runs
    if (shuffle && a.executed.size() >= 11)
    {
        std::vector<std::string> registered;

        for (auto& body : p.bodies)
            if (body.generator == generators)
                registered.push_back (body.name);

        if (registered == a.executed)
            sim::violation ("never-shuffled", "%zu tasks were executed in the order of their registration, although they were to be shuffled", registered.size());

        sim::probe ("order compared with that of the registration");
    }

    // Default-seeded noise is the noise of that seed
    size_t checked = 0;

    for (auto& n : noises)
    {
        auto f = a.files.find (n.path);

        if (f == a.files.end())
            continue;

        const ParsedWav w = parseWav (f->second);
        hart::WhiteNoise<double> ref (seed);
        ref.prepare (n.sr, n.ch, n.frames);
        ref.reset();
        hart::AudioBuffer<double> e (n.ch, n.frames);
        ref.renderNextBlock (e);

        if (! w.ok || w.frames != n.frames || w.ch != n.ch)
            continue;   // C10

        for (size_t c = 0; c < n.ch; ++c)
            for (size_t i = 0; i < n.frames; ++i)
                if (std::abs (w.data[c][i] - e[c][i]) > 1e-6)
                    sim::violation ("seed-option", "noise made with the default seed is not that of seed %u: channel %zu frame %zu is %.9g, expected %.9g", seed, c, i, w.data[c][i], e[c][i]);

        ++checked;
    }

    if (checked > 0)
        sim::probe ("default-seeded noise compared with the noise of the seed");

    if (! chance (1, 3))
        return;

    // Another seed
    Program q = p;
    const uint32_t seed2 = chance (1, 2) ? seed ^ (1u << pick (32)) : seed + 1 + (uint32_t) pick (5);
    q.args.push_back ("--seed");
    q.args.push_back (fmt ("%u", seed2));

    if (seedGiven)
        q.args.erase (q.args.begin(), q.args.begin() + 2);

    const Result c = runIn (plain, q);
    std::vector<std::string> x = a.executed, y = c.executed;

    if (! shuffle && x != y)
        sim::violation ("order", "the order of the tasks depends on the seed, but is not shuffled");

    std::sort (x.begin(), x.end());
    std::sort (y.begin(), y.end());

    if (x != y)
        sim::violation ("not-a-permutation", "shuffling has changed which tasks are executed");

    for (auto& n : noises)
    {
        auto f = a.files.find (n.path), g = c.files.find (n.path);

        if (f != a.files.end() && g != c.files.end() && n.frames * n.ch >= 4 && f->second == g->second)
            sim::violation ("seed-ignored", "default-seeded noise is the same for seeds %u and %u", seed, seed2);
    }

    if (! shuffle || a.executed.size() < 3)
        return;

    // The order follows the seed: with 3 or more tasks, 14 seeds that all give one order mean it does not
    bool differs = x.size() > 1 && a.executed != c.executed;

    for (uint32_t s = 0; s < 14 && ! differs; ++s)
    {
        Program r = p;

        for (auto& body : r.bodies)
            body.actions.clear();

        r.args = { "--shuffle", "--seed", fmt ("%u", 1000 + s) };

        if (generators)
            r.args.push_back ("-g");

        differs = runIn (plain, r).executed != a.executed;
    }

    if (! differs)
        sim::violation ("never-shuffled", "the order of %zu tasks is the same for 15 seeds", a.executed.size());

    sim::probe ("order compared for several seeds");
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C09", run, 6000, 150000,
    "a random program (as for C08, with default-seeded noise and saved files) run by the real entry point with the same command line in two processes that differ in clock, entropy, heap contents and layout and earlier activity; "
    "exit code, task order, every printed byte and every byte of every file must be equal; other seeds must permute the tasks and change default-seeded noise. Non-trivial: at least one body was run.",
    "TestRegistry, CLI, AudioTestBuilder, WavWriter, plot, WhiteNoise", "disk (simulated), clock and entropy (simulated), heap contents (chosen), stdout (captured)", 60
};
