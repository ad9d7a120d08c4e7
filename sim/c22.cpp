// C22: a recorded reference passes its own regression test, and nothing else does
#include "program.hpp"

using namespace kit;

namespace
{
const size_t maxCases = 4;

struct Change
{
    enum Kind { none, block, sampleType, value, glitch, longer, shorter, fewerChannels, moreChannels, rate, otherSeed, input, loopedTwice, numKinds } kind = none;
    double amount = 0;
    size_t at = 0, channel = 0;
    size_t blockSize = 64;
};

const char* const changeNames[] = { "unchanged", "other block size", "other sample type", "other value", "one sample", "longer", "shorter", "fewer channels", "more channels", "other rate", "other seed", "other input", "loop of the reference" };

// What a case plays at some point of the history
struct Version
{
    HostSpec test;
    bool isFloat = false;
    int number = 0;
};

struct Case
{
    std::string file;                 // relative or absolute
    std::string below;                // the same, absolute
    Version version;
    bool everRecorded = false;
};

// A phase is one process
struct CheckPlan { bool used = false, swapped = false, assertion = false, absolute = false; Change change; double tol = 1e-5; HostSpec test; bool isFloat = false; };
struct Phase
{
    bool recording = false, shuffle = false;
    uint32_t seed = 0;
    bool faulty = false;
    sim::fs::Fault fault {};
    std::vector<bool> records;        // which cases are recorded
    std::vector<CheckPlan> checks;
    std::vector<std::string> args;
};

std::vector<Case> cases;
Phase phase;

std::string captureOf (size_t i) { return fmt ("/simfs/state/capture%zu", i); }
std::string beginOf (size_t i) { return fmt ("/simfs/state/begin%zu", i); }
std::string verdictOf (size_t i) { return fmt ("/simfs/state/verdict%zu", i); }

std::string encode (const Planes<double>& p)
{
    std::string s;

    for (auto& c : p)
        s.append ((const char*) c.data(), c.size() * sizeof (double));

    return s;
}

Planes<double> decode (const std::string& s, size_t ch)
{
    const size_t n = s.size() / sizeof (double) / ch;
    Planes<double> p (ch, std::vector<double> (n));

    for (size_t c = 0; c < ch; ++c)
        memcpy (p[c].data(), s.data() + c * n * sizeof (double), n * sizeof (double));

    return p;
}

template <typename S> Planes<double> captured (const Journal& j)
{
    for (auto& e : j.events)
        if (e.call == Call::audio)
            return e.in;

    return Planes<double>();
}

template <typename S> void addCapture (hart::AudioTestBuilder<S>& h, Journal& j)
{
    Cfg c = probeCfg ("capture", &j);
    c->perBlock = false;
    h.expectTrue (ProbeMatcher<S> (c));
}

template <typename S> void recordCase (size_t i)
{
    const Case& c = cases[i];
    sim::fs::putFile (beginOf (i), "");
    Journal j;
    hart::AudioTestBuilder<S> h (c.version.test.host<S>());
    c.version.test.configure<S> (h);
    addCapture (h, j);
    h.saveOutputTo (c.file, hart::Save::always, c.version.test.format);
    h.process();
    sim::simulatedFrames ((double) c.version.test.frames, c.version.test.sr);
    sim::Pause p;
    sim::fs::putFile (captureOf (i), encode (captured<S> (j)));
}

template <typename S> void checkCase (size_t i)
{
    const Case& c = cases[i];
    const CheckPlan& k = phase.checks[i];
    const HostSpec& t = k.test;
    Journal j;
    std::string verdict = "threw";
    struct Store { size_t i; std::string& v; Journal& j; ~Store() { sim::Pause p; sim::fs::putFile (verdictOf (i), v + "\n" + encode (captured<S> (j))); } } store { i, verdict, j };

    const hart::WavFile<S> recording (k.absolute ? c.below : c.file, k.change.kind == Change::loopedTwice ? hart::WavFile<S>::Loop::yes : hart::WavFile<S>::Loop::no);

    // At first without the check, to see what it is that will be checked
    for (int dry = 1; dry >= 0; --dry)
    {
        hart::AudioTestBuilder<S> h = k.swapped ? hart::AudioTestBuilder<S> (hart::GainLinear<S> (1.0)) : t.host<S>();
        std::unique_ptr<hart::Signal<S>> live = t.input.build<S>();

        if (k.swapped)
        {
            // The recording is played, and what used to be tested is the reference
            h.withSampleRate (t.sr).withBlockSize (t.block).withDuration (t.seconds()).withInputChannels (t.inCh).withOutputChannels (t.outCh).withInputSignal (recording);
            DspSpec d = t.dsp;

            for (auto& v : t.values)
                if (v.first == 0)
                    d.value = v.second;

            live->followedBy (d.build<S>());
        }
        else
        {
            t.configure<S> (h);

            if (k.change.kind == Change::glitch)
            {
                auto shared = std::make_shared<typename GlitchDsp<S>::Shared>();
                shared->glitches.push_back ({ k.change.channel, k.change.at, k.change.amount, "changed-sample" });
                live->followedBy (GlitchDsp<S> (shared));
                h.withInputSignal (*live);
            }
        }

        if (dry)
            addCapture (h, j);
        else
        {
            hart::EqualsTo<S> same = k.swapped ? hart::EqualsTo<S> (*live, k.tol) : hart::EqualsTo<S> (recording, k.tol);
            k.assertion ? h.assertTrue (same) : h.expectTrue (same);
        }

        try { h.process(); }
        catch (const hart::TestAssertException&) { verdict = "asserted"; throw; }
    }

    sim::simulatedFrames ((double) t.frames, t.sr);
    verdict = hart::ExpectationFailureMessages::get().empty() ? "passed" : "failed";
}

template <size_t N> void recordTask() { cases[N].version.isFloat ? recordCase<float> (N) : recordCase<double> (N); }
template <size_t N> void checkTask() { phase.checks[N].isFloat ? checkCase<float> (N) : checkCase<double> (N); }
void (*const recordTasks[]) () = { recordTask<0>, recordTask<1>, recordTask<2>, recordTask<3> };
void (*const checkTasks[]) () = { checkTask<0>, checkTask<1>, checkTask<2>, checkTask<3> };

Version genVersion (uint32_t seed, int number)
{
    HostOptions o;
    o.maxChecks = 0;
    o.maxFrames = 600;
    Version v;
    v.number = number;
    v.isFloat = chance (1, 2);
    v.test = genHost (o);
    v.test.block = std::max (v.test.block, v.test.frames / 200);
    v.test.sr = oneOf<double> ({ 44100, 48000, 96000, 8000, 192000 });
    v.test.format = oneOf ({ hart::WavFormat::pcm24, hart::WavFormat::float32, hart::WavFormat::pcm16, hart::WavFormat::pcm32 });
    v.test.label = fmt ("case version %d", number);
    GenOptions g;
    g.sr = v.test.sr;
    g.channels = std::max (v.test.inCh, v.test.outCh);
    g.frames = v.test.frames;
    g.wav = chance (1, 3);
    g.env = true;
    g.maxChain = 2;
    v.test.input = genSignal (g);

    if (v.test.input.kind == SignalSpec::noise && chance (1, 2))
    {
        v.test.input.defaultSeed = true;
        v.test.input.seed = seed;
    }

    return v;
}

void genCheck (size_t i)
{
    CheckPlan& k = phase.checks[i];
    const Case& c = cases[i];
    k.used = chance (5, 6);
    k.test = c.version.test;
    k.isFloat = c.version.isFloat;
    k.assertion = chance (1, 3);
    k.absolute = chance (1, 4);
    k.tol = k.test.format == hart::WavFormat::pcm16 ? oneOf<double> ({ 1e-4, 1e-3 }) : oneOf<double> ({ 1e-5, 1e-4, 1e-2 });
    k.test.handing = (int) pick (6);
    k.change.kind = chance (1, 3) ? Change::none : (Change::Kind) pick (Change::numKinds);
    const bool noise = k.test.input.kind == SignalSpec::noise;

    switch (k.change.kind)
    {
        case Change::block:
            k.test.block = std::max<size_t> (1 + pick (chance (1, 3) ? 3000 : 100), k.test.frames / 400);
            break;

        case Change::sampleType:
            if (noise)
                k.change.kind = Change::none;   // other noise
            else
                k.isFloat = ! k.isFloat;
            break;

        case Change::value:
            if (k.test.dsp.hasEnv)
                k.change.kind = Change::none;
            else
                k.test.values.emplace_back (0, realIn (-20.0, 0.5));
            break;

        case Change::glitch:
            k.change.channel = pick (k.test.inCh);
            k.change.at = pick (3) == 0 ? (chance (1, 2) ? k.test.frames - 1 : 0) : pick (k.test.frames);
            k.change.amount = realIn (-1.0, 1.0);
            break;

        case Change::longer: k.test.frames += 1 + pick (300); break;
        case Change::shorter: k.test.frames = 1 + pick (k.test.frames); break;

        case Change::fewerChannels: case Change::moreChannels:
        {
            const bool fewer = k.change.kind == Change::fewerChannels;

            // (with other channels, noise is another one)
            if (noise || (fewer && k.test.outCh == 1) || k.test.input.kind == SignalSpec::wav)
                k.change.kind = Change::none;
            else if (k.test.inCh == 1 && k.test.outCh != 1)
                k.test.outCh += fewer ? -1 : 1;
            else
                k.test.inCh = k.test.outCh = fewer ? 1 + pick (k.test.outCh - 1) : k.test.outCh + 1;
            break;
        }

        case Change::rate:
            if (k.test.input.kind == SignalSpec::wav)
                k.change.kind = Change::none;
            else
                k.test.sr = k.test.sr == 44100 ? 48000 : 44100;
            break;

        case Change::input:
        {
            DspSpec d;
            d.kind = DspSpec::gainDb;
            d.value = realIn (-3.0, 3.0);
            k.test.input.chain.push_back (d);
            break;
        }

        case Change::loopedTwice: k.test.frames += 1 + pick (2 * k.test.frames); break;
        default: break;
    }

    k.test.block = std::max (k.test.block, k.test.frames / 200);
    k.swapped = k.change.kind == Change::none && k.test.inCh == k.test.outCh && chance (1, 3);
}

std::string verdictText (const std::string& name, const std::string& console)
{
    const bool passed = console.find (name + " - passed") != std::string::npos, failed = console.find (name + " - failed") != std::string::npos;
    return passed && ! failed ? "passed" : failed && ! passed ? "failed" : "nothing";
}

int runPhase()
{
    return sim::inProcess ([&]
    {
        sim::resetCapturedStdout();

        for (size_t i = 0; i < cases.size(); ++i)
        {
            if (phase.records[i])
                hart::TestRegistry::getInstance().add (fmt ("Case <%zu>", i), "", hart::TaskCategory::generate, recordTasks[i]);

            if (phase.checks[i].used)
                hart::TestRegistry::getInstance().add (fmt ("Case <%zu>", i), "", hart::TaskCategory::test, checkTasks[i]);
        }

        std::vector<const char*> argv { "program" };

        for (auto& a : phase.args)
            argv.push_back (a.c_str());

        if (phase.faulty)
        {
            sim::fs::addFault (phase.fault);
            sim::fs::armFaults (true);
        }

        const int code = entryPoint ((int) argv.size(), argv.data());
        sim::fs::armFaults (false);
        sim::fs::putFile ("/simfs/state/console", sim::capturedStdout());
        return code & 0xff;
    });
}

void forget (const std::string& f) { if (sim::fs::exists (f)) std::remove (f.c_str()); }

double resolution (hart::WavFormat f)
{
    switch (f)
    {
        case hart::WavFormat::pcm16: return 2.0 / 32768;
        case hart::WavFormat::pcm24: return 2.0 / 8388608;
        case hart::WavFormat::pcm32: return 2.0 / 2147483648.0;
        default: return 0;
    }
}

size_t bytesOf (hart::WavFormat f) { return f == hart::WavFormat::pcm16 ? 2 : f == hart::WavFormat::pcm24 ? 3 : 4; }

struct Recording
{
    enum State { missing, good, damaged, unknown } state = missing;
    Planes<double> data;
    Version version;
};

// What the check must say
void judge (size_t i, const Recording& r, const std::string& console)
{
    const CheckPlan& k = phase.checks[i];
    const HostSpec& t = k.test;
    const std::string shown = verdictText (fmt ("Case <%zu>", i), console);

    if (! sim::fs::exists (verdictOf (i)))
        sim::violation ("not-run", "case %zu was not checked", i);

    const std::string stored = sim::fs::getFile (verdictOf (i));
    const size_t eol = stored.find ('\n');
    const std::string verdict = stored.substr (0, eol);
    const bool passed = verdict == "passed";

    if (shown != (passed ? "passed" : "failed"))
        sim::violation ("misreported", "the check of case %zu %s, but is shown as: %s", i, verdict.c_str(), shown.c_str());

    logf ("case %zu, %s%s: %s", i, changeNames[k.change.kind], k.swapped ? ", swapped" : "", verdict.c_str());
    auto mustFail = [&] (const char* why) { if (passed) sim::violation ("passed", "case %zu (%s) has passed, although %s", i, changeNames[k.change.kind], why); };

    if (r.state == Recording::unknown)
        return;

    if (r.state == Recording::missing)
        return mustFail ("nothing was ever recorded");

    const Planes<double> out = decode (stored.substr (eol + 1), t.outCh);
    const bool complete = ! out.empty() && out[0].size() == t.frames;

    if (passed && ! complete)
        sim::violation ("passed", "case %zu has passed without playing %zu frames", i, t.frames);

    if (verdict == (k.assertion ? "failed" : "asserted"))
        sim::violation ("assertion", "an %s of case %zu has ended as: %s", k.assertion ? "assertion" : "expectation", i, verdict.c_str());

    if (r.state == Recording::damaged)
    {
        sim::probe ("check against a damaged recording");

        if (! passed || k.swapped)
            return;

        const std::string file = sim::fs::exists (cases[i].below) ? sim::fs::getFile (cases[i].below) : std::string();
        const size_t frames = file.size() / (bytesOf (r.version.test.format) * r.version.test.outCh);

        if (k.change.kind != Change::loopedTwice)
            for (auto& c : out)
                for (size_t n = frames; n < c.size(); ++n)
                    if (std::abs (c[n]) > k.tol * 1.001 + 1e-4)
                        sim::violation ("passed", "case %zu has passed, although frame %zu was not recorded and is %.9g", i, n, c[n]);
        return;
    }

    const HostSpec& was = r.version.test;

    if (t.sr != was.sr || t.outCh > was.outCh)
        return mustFail (t.sr != was.sr ? "the sample rate is another one" : "there are more channels than in the recording");

    double worst = 0, slack = 0, loudest = 0;
    bool mustDiffer = false, maySame = true;
    std::string where;
    const bool pcm = was.format != hart::WavFormat::float32;

    // The recording itself, against what is played now
    for (size_t c = 0; c < t.outCh && complete; ++c)
        for (size_t n = 0; n < t.frames; ++n)
        {
            const size_t len = r.data[c].size();
            const bool inside = n < len || k.change.kind == Change::loopedTwice;
            double e = inside ? r.data[c][n % len] : 0.0;

            if (pcm)
                e = std::min (1.0, std::max (-1.0, e));

            if (k.swapped)
            {
                // What is observed is the recording, what is expected was the recorded
                slack = resolution (was.format) + 3e-7 * (std::abs (e) + std::abs (r.data[c][n]));
                const double d = std::abs (e - r.data[c][n]);

                if (! (std::abs (out[c][n] - e) <= slack))
                    sim::violation ("played-wrong", "case %zu, channel %zu frame %zu: the recording of %.9g is played as %.9g", i, c, n, e, out[c][n]);

                mustDiffer = mustDiffer || d > k.tol * (1 + 1e-6) + slack;
                maySame = maySame && d <= k.tol * (1 - 1e-6) - slack;
                continue;
            }

            slack = (inside ? resolution (was.format) : 0) + 3e-7 * (std::abs (e) + std::abs (out[c][n]));
            const double d = std::abs (out[c][n] - e);
            loudest = std::max (loudest, std::abs (e));

            if (d > k.tol * (1 + 1e-6) + slack && ! mustDiffer)
            {
                mustDiffer = true;
                where = fmt ("channel %zu frame %zu is %.9g, recorded: %.9g", c, n, out[c][n], e);
            }

            maySame = maySame && d <= k.tol * (1 - 1e-6) - slack;
            worst = std::max (worst, d);
        }

    if (! complete)
    {
        sim::violation ("incomplete", "case %zu (%s) did not play %zu frames: %s", i, changeNames[k.change.kind], t.frames, console.c_str());
    }

    if (verdict == "threw")
        sim::violation ("threw", "case %zu (%s) could not be checked: %s", i, changeNames[k.change.kind], console.c_str());

    if (mustDiffer)
    {
        sim::probe ("change that must be noticed");
        mustFail (where.c_str());
    }
    else if (maySame && ! passed)
        sim::violation ("failed", "case %zu (%s) has failed, although it differs by no more than %.9g from the recording (tolerance %.9g)", i, changeNames[k.change.kind], worst, k.tol);
    else if (maySame)
        sim::probe ("unchanged audio has passed");
}

void run()
{
    cases.clear();
    phase = Phase();
    const std::string root = oneOf<const char*> ({ "/simfs/root", "/simfs/data/", "/simfs/a b" });
    const size_t n = 1 + pick (maxCases);
    const bool seeded = chance (1, 2);
    uint32_t seed = seeded ? (uint32_t) pick (1000) : 0;
    int number = 0;

    for (size_t i = 0; i < n; ++i)
    {
        Case c;
        const bool absolute = chance (1, 4);
        const std::string name = fmt (chance (1, 2) ? "ref %zu.wav" : "sub/ref%zu.wav", i);
        c.below = root + (root.back() == '/' ? "" : "/") + name;
        c.file = absolute ? c.below : name;
        c.version = genVersion (seed, number++);
        logf ("case %zu: %s: %s", i, c.file.c_str(), c.version.test.text().c_str());
        cases.push_back (c);
    }

    std::vector<Recording> recordings (n);
    const size_t phases = 2 + pick (4);

    for (size_t p = 0; p < phases; ++p)
    {
        phase = Phase();
        phase.recording = p == 0 ? ! chance (1, 10) : chance (1, 3);
        phase.shuffle = chance (1, 3);
        phase.records.assign (n, false);
        phase.checks.assign (n, CheckPlan());

        for (size_t i = 0; i < n; ++i)
        {
            // The program has generators and tests in either case
            phase.records[i] = ! phase.recording || p == 0 ? chance (9, 10) : chance (1, 2);

            if (phase.recording && phase.records[i] && p > 0 && chance (1, 2))
            {
                cases[i].version = genVersion (seed, number++);
                logf ("case %zu is now: %s", i, cases[i].version.test.text().c_str());
            }

            genCheck (i);
        }

        uint32_t used = seed;

        if (! phase.recording && chance (1, 8))
            used = seed + 1 + (uint32_t) pick (3);

        // Default-seeded noise follows
        for (size_t i = 0; i < n; ++i)
        {
            if (phase.checks[i].test.input.defaultSeed)
            {
                phase.checks[i].test.input.seed = used;
                phase.checks[i].swapped = phase.checks[i].swapped && used == seed;
            }

            if (cases[i].version.test.input.defaultSeed)
                cases[i].version.test.input.seed = used;
        }

        if (used != 0 || chance (1, 4))
            phase.args = { "--seed", fmt ("%u", used) };

        phase.args.push_back ("-d");
        phase.args.push_back (root);

        if (phase.recording) phase.args.push_back (oneOf<const char*> ({ "-g", "--run-generators" }));
        if (phase.shuffle) phase.args.push_back ("--shuffle");

        phase.faulty = phase.recording && chance (1, 4);

        if (phase.faulty)
        {
            phase.fault.op = oneOf ({ sim::fs::Op::write, sim::fs::Op::open, sim::fs::Op::close, sim::fs::Op::seek });
            phase.fault.index = pick (6);
            phase.fault.effect = oneOf ({ sim::fs::Effect::enospc, sim::fs::Effect::eio, sim::fs::Effect::shortThenEnospc, sim::fs::Effect::crash, sim::fs::Effect::lostAtClose });
            phase.fault.keep = (uint32_t) pick (256);
        }

        logf ("process %zu: %s%s%s", p, phase.recording ? "records" : "checks", phase.shuffle ? ", shuffled" : "", phase.faulty ? (", " + sim::fs::describe (phase.fault)).c_str() : "");

        for (size_t i = 0; i < n; ++i)
        {
            forget (captureOf (i));
            forget (beginOf (i));
            forget (verdictOf (i));
        }

        forget ("/simfs/state/console");
        const int code = runPhase();
        const bool crashed = code == sim::crashExitCode;
        sim::fs::armFaults (false);
        sim::fs::setCapacity (~(uint64_t) 0);   // space again

        if (crashed && ! phase.faulty)
            sim::violation ("died", "the program has died");

        if (! crashed && ! sim::fs::exists ("/simfs/state/console"))
            sim::violation ("died", "the program ended with code %d", code);

        const std::string console = crashed ? std::string() : sim::fs::getFile ("/simfs/state/console");

        if (phase.recording)
        {
            bool anyFailed = false;

            for (size_t i = 0; i < n; ++i)
            {
                if (! phase.records[i])
                    continue;

                const bool begun = sim::fs::exists (beginOf (i)), done = sim::fs::exists (captureOf (i));

                if (! begun && ! crashed)
                    sim::violation ("not-run", "case %zu was not recorded", i);

                if (! done && begun)
                {
                    if (! phase.faulty)
                        sim::violation ("not-recorded", "recording case %zu has failed: %s", i, console.c_str());

                    // The previous recording may still be there, if the file could not be opened
                    recordings[i].state = recordings[i].state == Recording::missing || recordings[i].state == Recording::damaged ? Recording::damaged : Recording::unknown;
                    recordings[i].version = cases[i].version;
                    anyFailed = true;
                    sim::probe ("recording has failed");
                }
                else if (done)
                {
                    recordings[i].state = Recording::good;
                    recordings[i].data = decode (sim::fs::getFile (captureOf (i)), cases[i].version.test.outCh);
                    recordings[i].version = cases[i].version;
                }

                if (! crashed && verdictText (fmt ("Case <%zu>", i), console) != (done ? "passed" : "failed"))
                    sim::violation ("misreported", "recording case %zu has %s, but is not shown so", i, done ? "succeeded" : "failed");
            }

            if (! crashed && (code != 0) != anyFailed)
                sim::violation ("exit-code", "exit code %d, although %s", code, anyFailed ? "a recording has failed" : "everything was recorded");

            logf ("recorded, exit code %d", code);
            continue;
        }

        bool anyFailed = false;

        for (size_t i = 0; i < n; ++i)
            if (phase.checks[i].used)
            {
                judge (i, recordings[i], console);
                anyFailed = anyFailed || verdictText (fmt ("Case <%zu>", i), console) == "failed";
                sim::nontrivial();
            }

        if ((code != 0) != anyFailed)
            sim::violation ("exit-code", "exit code %d, although %s", code, anyFailed ? "a check has failed" : "no check has failed");
    }
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C22", run, 8000, 200000,
    "histories of 2-5 processes of one program with 1-4 cases that record their output (random settings, input, effects, automation, wav format) as references below the data root when run as generators, and compare with them when "
    "run as tests: unchanged, or with another block size, sample type, value, sample, length, number of channels, rate, seed or input; recordings are repeated with other contents, or end with a failing disk or a crash. Every verdict, "
    "on the console and in the exit code, is compared with the audio that was really played at recording and at checking. Non-trivial: something was checked.",
    "TestRegistry, CLI, AudioTestBuilder, signals, effects, envelopes, WavWriter, WavFile, EqualsTo, dr_wav", "disk (simulated), stdout (captured), recording matcher (instrumented)", 60
};
