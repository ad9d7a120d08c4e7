// C11: output files are written exactly when requested
#include "hosttest.hpp"
#include "pattern.hpp"
#include "probes.hpp"

using namespace kit;

namespace
{
struct Verdict
{
    bool inverted = false, assertion = false, full = false;
    size_t failsAt = 0;     // block, or none if beyond the last one
    bool fails = false;
};

struct Target
{
    hart::Save mode = hart::Save::never;
    std::string given, resolved;
    bool refused = false;    // cannot be opened
};

std::string root = ".";

struct Test
{
    double sr = 44100;
    size_t ch = 1, block = 64, frames = 100;
    hart::WavFormat format = hart::WavFormat::pcm24;
    Pattern pattern;
    std::vector<Verdict> checks;
    Target wav, plot;
    bool dspThrows = false;
    int changed = 0;
    size_t throwAt = 0;

    size_t blocks() const { return (frames + block - 1) / block; }

    bool anyFails() const
    {
        for (auto& c : checks)
            if (c.fails)
                return true;

        return false;
    }
};

std::string resolve (const std::string& p) { return p[0] == '/' ? p : root + "/" + p; }

Target genTarget (const char* extension, int number)
{
    Target t;
    t.mode = oneOf ({ hart::Save::never, hart::Save::always, hart::Save::whenFails });
    std::string name = fmt ("file%d%s", (int) pick (3), extension);

    if (chance (1, 5))
        name = fmt ("no extension %d", number);

    if (chance (1, 10))
    {
        std::string s;

        for (size_t i = 0, length = pick (180); i < length; ++i)
            s += "a long (name), with + and & "[i % 28];

        name = s + name;
    }

    switch (pick (6))
    {
        case 0: case 1: t.given = "/simfs/out/" + name; break;
        case 2: t.given = name; break;
        case 3: t.given = "sub/dir/" + name; break;
        case 4: t.given = "./" + name; break;
        default: t.given = "/simfs/other dir/" + name; break;
    }

    if (chance (1, 10))
    {
        t.given = chance (1, 2) ? "/simfs/missing-dir/" + name : "missing-dir/../missing-dir/" + name;
        t.refused = true;
    }

    t.resolved = resolve (t.given);
    return t;
}

const char* modeName (hart::Save m) { return m == hart::Save::never ? "never" : m == hart::Save::always ? "always" : "when fails"; }

Test genTest (int number)
{
    Test t;
    t.sr = genSampleRate();
    t.ch = outsized() ? 4 + pick (60) : 1 + pick (3);
    t.block = oneOf<size_t> ({ 64, 16, 100, 1024 }) + pick (3);
    t.frames = 1 + pick (chance (1, 2) ? 300 : 3 * t.block);
    t.frames = std::min<size_t> (t.frames, t.ch > 3 ? 60 : 1200);
    t.format = oneOf ({ hart::WavFormat::pcm24, hart::WavFormat::pcm16, hart::WavFormat::pcm32, hart::WavFormat::float32 });
    t.pattern.salt = pick (1000);
    t.pattern.specials = false;
    const size_t n = outsized() ? 4 + pick (16) : pick (4);

    for (size_t i = 0; i < n; ++i)
    {
        Verdict v;
        v.inverted = chance (1, 4);
        v.assertion = chance (1, 3);
        v.full = v.inverted || chance (1, 3);
        v.fails = chance (1, 3);
        v.failsAt = v.full ? 0 : pick (t.blocks());
        t.checks.push_back (v);
    }

    t.wav = genTarget (".wav", 2 * number);
    t.plot = genTarget (".svg", 2 * number + 1);

    if (t.wav.resolved == t.plot.resolved)
    {
        t.plot.given += "2";
        t.plot.resolved = resolve (t.plot.given);
    }

    if (chance (1, 4))
        t.changed = (int) pick (64);

    if (chance (1, 12))
    {
        t.dspThrows = true;
        t.throwAt = pick (t.blocks());
    }

    std::string s = fmt ("test %d: %g Hz, %zu ch, block %zu, %zu frames, wav \"%s\" %s, plot \"%s\" %s", number, t.sr, t.ch, t.block, t.frames, t.wav.given.c_str(), modeName (t.wav.mode), t.plot.given.c_str(), modeName (t.plot.mode));

    for (auto& c : t.checks)
        s += fmt ("; %s%s %s", c.assertion ? "assert" : "expect", c.inverted ? "False" : "True", c.full ? "full" : "block-wise") + (c.fails ? fmt (" fails in block %zu", c.failsAt) : "");

    logf ("%s%s", s.c_str(), ((t.changed & 3 ? fmt ("; other files requested first (%d)", t.changed) : "") + (t.dspThrows ? fmt ("; DSP throws in block %zu", t.throwAt) : "")).c_str());
    return t;
}

template <typename S>
class ThrowingPattern : public PatternDsp<S>
{
public:
    using SampleType = S;
    Cfg cfg;
    ThrowingPattern (Pattern p, Cfg c) : PatternDsp<S> (p), cfg (c) {}

    void process (const hart::AudioBuffer<S>& in, hart::AudioBuffer<S>& out, const hart::EnvelopeBuffers& env) override
    {
        Event e = makeEvent (*cfg, 0, Call::audio);
        maybeThrow (*cfg, Call::audio, e);
        PatternDsp<S>::process (in, out, env);
    }

    HART_DSP_DEFINE_COPY_AND_MOVE (ThrowingPattern);
};

template <typename S> void configure (const Test& t, hart::AudioTestBuilder<S>& h)
{
    h.withSampleRate (t.sr).withBlockSize (t.block).withDuration ((double) t.frames / t.sr).withInputChannels (t.ch).withOutputChannels (t.ch).withInputSignal (hart::SineWave<S> (440.0));

    for (auto& c : t.checks)
    {
        Cfg p = probeCfg ("check", nullptr);
        p->recordAudio = false;
        p->perBlock = ! c.full || c.inverted;
        p->verdicts.assign (c.full ? 1 : t.blocks(), (char) ! c.inverted);

        if (c.fails)
            p->verdicts[c.failsAt] = (char) c.inverted;

        ProbeMatcher<S> m (p);
        c.assertion ? (c.inverted ? h.assertFalse (m) : h.assertTrue (m)) : (c.inverted ? h.expectFalse (m) : h.expectTrue (m));
    }

    auto wav = [&] { h.saveOutputTo (t.wav.given, t.wav.mode, t.format); };
    auto plot = [&] { h.savePlotTo (t.plot.given, t.plot.mode); };

    // Asked for differently before; the last request is the one that counts
    if (t.changed & 1) h.saveOutputTo (t.changed & 4 ? "/simfs/out/first.wav" : t.wav.given, t.changed & 8 ? hart::Save::always : hart::Save::whenFails);
    if (t.changed & 2) h.savePlotTo (t.changed & 16 ? "/simfs/out/first.svg" : t.plot.given, t.changed & 32 ? hart::Save::always : hart::Save::whenFails);

    if (t.pattern.salt & 1) { wav(); plot(); }
    else { plot(); wav(); }
}

typedef std::map<std::string, std::string> Snapshot;

Snapshot snapshot()
{
    Snapshot s;

    for (auto& f : sim::fs::list())
        s[f] = sim::fs::getFile (f);

    return s;
}

// The name under which the disk lists a path
std::string listed (const std::string& path)
{
    const bool was = sim::fs::exists (path);
    const std::string old = sim::fs::getFile (path);
    const auto before = sim::fs::list();
    (void) before;

    if (! was)
        sim::fs::putFile (path, "x");

    std::string name;
    const std::string marker = "unique marker of this path";
    const std::string now = sim::fs::getFile (path);
    sim::fs::putFile (path, marker);

    for (auto& f : sim::fs::list())
        if (sim::fs::getFile (f) == marker)
            name = f;

    sim::fs::putFile (path, now);

    if (was)
        sim::fs::putFile (path, old);
    else
        std::remove (path.c_str());

    return name;
}

bool plotLooksRight (const std::string& s)
{
    const size_t end = s.rfind ("</svg>");
    return s.find ("<svg") != std::string::npos && end != std::string::npos && s.find_first_not_of (" \n\r\t", end + 6) == std::string::npos;
}

template <typename S> void runTest (const Test& t)
{
    const std::string wavName = listed (t.wav.resolved), plotName = listed (t.plot.resolved);
    const Snapshot before = snapshot();
    Cfg cfg = probeCfg ("dsp", nullptr);
    cfg->throws = t.dspThrows;
    cfg->throwAt = (unsigned) t.throwAt;
    hart::AudioTestBuilder<S> h { ThrowingPattern<S> (t.pattern, cfg) };
    configure<S> (t, h);
    const uint64_t modifications = sim::fs::modifications(), fired = sim::fs::firedCount();

    if (snapshot() != before)
        sim::violation ("written-early", "a file has changed before the test was run");

    const Outcome o = observe ([&] { h.process(); });
    sim::fs::armFaults (false);
    const bool faults = sim::fs::firedCount() != fired;
    const Snapshot after = snapshot();
    logf ("process(): %s%s", o.summary().c_str(), faults ? ", with disk faults" : "");
    sim::simulatedFrames ((double) t.frames, t.sr);

    // When does a check fail for the first time?
    size_t assertAt = t.blocks() + 1;
    bool anyFails = false;

    for (auto& c : t.checks)
    {
        if (! c.fails)
            continue;

        anyFails = true;

        if (c.assertion)
            assertAt = std::min (assertAt, c.full ? t.blocks() : c.failsAt);
    }

    const bool assertion = assertAt <= t.blocks();
    const bool due[] = { t.wav.mode == hart::Save::always || (t.wav.mode == hart::Save::whenFails && anyFails), t.plot.mode == hart::Save::always || (t.plot.mode == hart::Save::whenFails && anyFails) };
    const Target* target[] = { &t.wav, &t.plot };
    const std::string name[] = { wavName, plotName };
    const char* what[] = { "wav", "plot" };
    // The run ends early: unspecified what becomes of files that are due
    const bool endsEarly = t.dspThrows && cfg->fired;
    const bool refused = (due[0] && t.wav.refused) || (due[1] && t.plot.refused);
    sim::mixState ((uint64_t) due[0] + 2 * due[1] + 4 * anyFails + 8 * assertion + 16 * refused + 32 * faults + 64 * endsEarly + 128 * (uint64_t) o.kind + 512 * (uint64_t) t.wav.mode + 2048 * (uint64_t) t.plot.mode + 8192 * t.checks.size());

    if (due[0] || due[1] || anyFails)
        sim::nontrivial();

    // Nothing else is touched
    for (auto& f : after)
    {
        auto i = before.find (f.first);
        const bool changed = i == before.end() || i->second != f.second;
        const bool allowed = (due[0] && f.first == name[0]) || (due[1] && f.first == name[1]);

        if (changed && ! allowed)
            sim::violation ("not-requested", "%s was written (wav \"%s\" %s, plot \"%s\" %s, %s)", f.first.c_str(), t.wav.given.c_str(), modeName (t.wav.mode), t.plot.given.c_str(), modeName (t.plot.mode),
                            anyFails ? "a check failed" : "no check failed");
    }

    for (auto& f : before)
        if (after.find (f.first) == after.end() && ! ((due[0] && f.first == name[0]) || (due[1] && f.first == name[1])))
            sim::violation ("removed", "%s was removed", f.first.c_str());

    if (! due[0] && ! due[1] && sim::fs::modifications() != modifications)
        sim::violation ("touched", "a file was opened for writing or changed, although none is to be saved");

    if (sim::fs::openHandles() != 0)
        sim::violation ("left-open", "a file was left open");

    if (endsEarly)
    {
        if (o.kind == Outcome::passed)
            sim::violation ("exception-lost", "the DSP threw, but process() returned normally");

        return;
    }

    // Outcome
    if ((refused || assertion) && o.kind == Outcome::passed)
        sim::violation ("failure-lost", "%s, but process() returned normally", refused ? "a file cannot be opened" : "an assertion failed");

    if (! refused && ! faults && o.kind != (assertion ? Outcome::assertion : Outcome::passed))
        sim::violation ("false-alarm", "the outcome is: %s", o.summary().c_str());

    const bool complete = o.kind == Outcome::passed || (o.kind == Outcome::assertion && ! refused && ! faults);

    for (int k = 0; k < 2; ++k)
    {
        if (! due[k] || ! complete)
            continue;

        auto i = after.find (name[k]);

        if (i == after.end())
            sim::violation ("not-written", "the %s \"%s\" was not written (%s, %s)", what[k], target[k]->given.c_str(), modeName (target[k]->mode), anyFails ? "a check failed" : "no check failed");

        if (k == 1)
        {
            if (! plotLooksRight (i->second))
                sim::violation ("bad-plot", "the plot \"%s\" is not a complete svg file", target[k]->given.c_str());

            continue;
        }

        // An assertion may end the run early, what is there by then is saved
        std::string p = savedProblem<S> (i->second, t.pattern, t.sr, t.ch, t.frames, t.format, ! assertion);

        if (assertion && p.empty())
        {
            const ParsedWav w = parseWav (i->second);

            if (! w.ok)
                p = "not a valid wav file: " + w.problem;
            else if (w.frames < std::min (t.frames, (assertAt + 1) * t.block))
                p = fmt ("%u frames, of which the assertion saw more", w.frames);
        }

        if (! p.empty())
            sim::violation ("bad-wav", "the wav \"%s\" is wrong: %s", target[k]->given.c_str(), p.c_str());
    }
}

void run()
{
    const size_t roots = pick (4);
    root = roots == 0 ? "." : roots == 1 ? "/simfs/root" : roots == 2 ? "/simfs/root with spaces/deep/" : "relative/root";

    if (roots != 0)
        setOptions ({ chance (1, 2) ? "-d" : "--data-root-path", root });

    logf ("data root %s", root.c_str());

    // Files that have nothing to do with it, and old ones in the way
    sim::fs::putFile ("/simfs/out/unrelated.txt", "unrelated");
    sim::fs::putFile (root + "/unrelated.wav", "unrelated");

    if (chance (1, 2))
        for (const char* n : { "/simfs/out/file0.wav", "/simfs/out/file1.svg" })
            sim::fs::putFile (n, std::string (pick (20000), 'o'));

    if (chance (1, 2))
        for (const char* n : { "file0.wav", "file0.svg", "sub/dir/file1.wav" })
            sim::fs::putFile (root + "/" + n, std::string (pick (20000), 'o'));

    const size_t n = 1 + pick (3);

    for (size_t i = 0; i < n; ++i)
    {
        const Test t = genTest ((int) i);

        if (chance (1, 4))
        {
            sim::fs::Fault f {};
            f.op = oneOf ({ sim::fs::Op::write, sim::fs::Op::write, sim::fs::Op::open, sim::fs::Op::close, sim::fs::Op::seek });
            f.index = pick (f.op == sim::fs::Op::write ? 8 : 2);
            f.effect = oneOf ({ sim::fs::Effect::eio, sim::fs::Effect::enospc, sim::fs::Effect::shortThenEnospc, sim::fs::Effect::lostAtClose });
            f.keep = (uint32_t) pick (256);
            logf ("fault planned: %s", sim::fs::describe (f).c_str());
            sim::fs::addFault (f);
            sim::fs::armFaults (true);
        }

        chance (1, 2) ? runTest<float> (t) : runTest<double> (t);

        if (sim::fs::firedCount() > 0)
            return;    // the disk may be full from now on
    }
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C11", run, 16000, 400000,
    "1-3 tests in one process with random save modes and paths (absolute, relative to a random data root, not writable, existing) for wav and plot, checks failing at a random block (expect or assert, block-wise, full or inverted), "
    "a DSP that throws, and disk faults; afterwards every file of the simulated disk is compared with what was requested, and the contents of the requested ones are checked. Non-trivial: a file is due or a check fails.",
    "AudioTestBuilder, WavWriter, plot, path resolution, CLI", "disk (simulated, below stdio and fstream)", 60
};
