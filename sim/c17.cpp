// C17: the last accepted setting is in force, rejected ones change nothing
#include "probes.hpp"
#include "pattern.hpp"

using namespace kit;

namespace
{
struct Target { std::string path; hart::Save mode = hart::Save::never; hart::WavFormat format = hart::WavFormat::pcm24; };

template <typename S>
struct World
{
    Journal journal;
    std::vector<Cfg> cfgs;
    Cfg dspCfg;
    std::unique_ptr<hart::AudioTestBuilder<S>> host;

    // What is in force
    double sr = 44100, seconds = 0.1;
    size_t block = 1024, in = 1, out = 1;
    int signal = -1;
    std::string label;
    std::vector<std::pair<int, double>> values;
    Target wav, plot;
    struct Attached { Cfg cfg; bool fails, inverted; };
    std::vector<Attached> checks;
    std::vector<std::string> files;
    int signals = 0;
    bool sinceSignal = false;

    template <typename F> void call (const std::string& what, bool valid, F f)
    {
        bool threw = false;
        logf ("%s", what.c_str());
        const size_t before = journal.events.size();

        try { f(); }
        catch (const std::exception&) { threw = true; }

        if (threw == valid)
            sim::violation (valid ? "rejected" : "accepted", "%s %s", what.c_str(), valid ? "was rejected" : "was accepted");

        for (size_t i = before; i < journal.events.size(); ++i)
            if (journal.events[i].call == Call::audio)
                sim::violation ("premature", "%s called %s of %s", what.c_str(), callName (journal.events[i].call), journal.events[i].name.c_str());

        if (! valid)
            sim::probe ("rejected setting");
    }

    // A valid call, during which an allocation may fail: returns whether the setting was accepted
    template <typename F> bool callShortOfMemory (const std::string& what, F f)
    {
        if (! chance (1, 3))
        {
            call (what, true, f);
            return true;
        }

        const uint64_t k = pick (12);
        const bool all = chance (1, 2);
        logf ("%s, allocation %d fails%s", what.c_str(), (int) k, all ? ", and all after it" : "");
        bool threw = false;
        all ? sim::AllocFaults::armFrom (k) : sim::AllocFaults::armNth (k);

        try { f(); }
        catch (const std::exception&) { threw = true; }

        const bool fired = sim::AllocFaults::firedSinceArm() > 0;
        sim::AllocFaults::disarm();

        if (threw && ! fired)
            sim::violation ("rejected", "%s was rejected", what.c_str());

        if (threw)
            sim::probe ("no memory for a setting");

        return ! threw;
    }

    size_t frames() const { return (size_t) std::floor (sr * seconds + 0.5); }

    void setChannels (int which, size_t n)
    {
        if (which & 1) in = n;
        if (which & 2) out = n;
    }

    void step()
    {
        auto& h = *host;
        const size_t kind = pick (14);

        switch (kind)
        {
            case 0:
            {
                const double v = chance (1, 3) ? oneOf<double> ({ 0.0, -1.0, -44100.0, 384000.0, -1e-9 }) : oneOf<double> ({ 48000, 8000, 44100, 96000, 22050, 1000 });
                const bool ok = v > 0 && v <= dspCfg->maxRate;
                call (fmt ("withSampleRate (%g)", v), ok, [&] { h.withSampleRate (v); });
                if (ok) sr = v;
                break;
            }

            case 1:
            {
                const size_t v = chance (1, 4) ? 0 : chance (1, 8) ? oneOf<size_t> ({ 8192, 10000, 32768, 65536, 200000, 1000000 }) - pick (2) : oneOf<size_t> ({ 64, 256, 1000, 1024, 4096, 31 }) + pick (2);
                call (fmt ("withBlockSize (%zu)", v), v > 0, [&] { h.withBlockSize (v); });
                if (v > 0) block = v;
                break;
            }

            case 2:
            {
                const double v = chance (1, 3) ? oneOf<double> ({ -1.0, -1e-6, -0.001 }) : chance (1, 8) ? 0.0 : chance (1, 4) ? ((double) pick (3000) + oneOf<double> ({ 0.49, 0.495, 0.505, 0.51, 0.999, 0.3 })) / sr : oneOf<double> ({ 0.01, 0.05, 0.0123, 0.1, 0.2 });
                call (fmt ("withDuration (%g)", v), v >= 0, [&] { h.withDuration (v); });
                if (v >= 0) seconds = v;
                break;
            }

            case 3: case 4:
            {
                const size_t v = chance (1, 3) ? oneOf<size_t> ({ 0, 129, 1000, ~(size_t) 0 }) : chance (1, 10) ? oneOf<size_t> ({ 128, 127 }) : 1 + pick (4);
                const bool ok = v >= 1 && v <= 128;
                call (fmt ("with%sChannels (%zu)", kind == 3 ? "Input" : "Output", v), ok, [&] { kind == 3 ? h.withInputChannels (v) : h.withOutputChannels (v); });
                if (ok) setChannels (kind == 3 ? 1 : 2, v);
                break;
            }

            case 5:
            {
                const char* names[] = { "withMonoInput", "withMonoOutput", "inMono", "withStereoInput", "withStereoOutput", "inStereo" };
                const int w = (int) pick (6);
                call (names[w], true, [&]
                {
                    switch (w)
                    {
                        case 0: h.withMonoInput(); break;
                        case 1: h.withMonoOutput(); break;
                        case 2: h.inMono(); break;
                        case 3: h.withStereoInput(); break;
                        case 4: h.withStereoOutput(); break;
                        default: h.inStereo();
                    }
                });
                setChannels (w % 3 + 1, w < 3 ? 1 : 2);
                break;
            }

            case 6: addSignal(); break;

            case 7:
            {
                const std::string v = chance (1, 5) ? "" : fmt ("label %d", (int) pick (100));
                call ("withLabel (\"" + v + "\")", true, [&] { h.withLabel (v); });
                label = v;
                break;
            }

            case 8: case 9:
            {
                const bool isWav = kind == 8;
                Target t;
                t.path = chance (1, 4) ? "" : fmt ("/simfs/out/file%d.%s", (int) pick (3), isWav ? "wav" : "svg");
                t.mode = oneOf<hart::Save> ({ hart::Save::always, hart::Save::whenFails, hart::Save::never });
                t.format = oneOf<hart::WavFormat> ({ hart::WavFormat::pcm24, hart::WavFormat::pcm16, hart::WavFormat::float32, hart::WavFormat::pcm32 });
                const int defaults = (int) pick (3);   // leaves out that many of the arguments

                if (defaults > 0) t.format = hart::WavFormat::pcm24;
                if (defaults > 1) t.mode = hart::Save::always;

                call (fmt ("%s (\"%s\", mode %d, format %d)", isWav ? "saveOutputTo" : "savePlotTo", t.path.c_str(), (int) t.mode, (int) t.format), true, [&]
                {
                    if (isWav)
                        defaults == 0 ? h.saveOutputTo (t.path, t.mode, t.format) : defaults == 1 ? h.saveOutputTo (t.path, t.mode) : h.saveOutputTo (t.path);
                    else
                        defaults < 2 ? h.savePlotTo (t.path, t.mode) : h.savePlotTo (t.path);
                });

                if (! t.path.empty())
                {
                    (isWav ? wav : plot) = t;
                    files.push_back (t.path);
                }
                else
                    sim::probe ("empty path");
                break;
            }

            case 10: case 11:
            {
                const int id = (int) pick (4) - 1;
                const double v = realIn (-10, 10);
                if (callShortOfMemory (fmt ("withValue (%d, %g)", id, v), [&] { h.withValue (id, v); }))
                    values.emplace_back (id, v);
                break;
            }

            case 12:
            {
                Attached a;
                a.inverted = chance (1, 3);
                a.fails = chance (1, 3);
                a.cfg = probeCfg (fmt ("matcher%zu", checks.size()), &journal);
                a.cfg->perBlock = chance (1, 2);
                a.cfg->recordAudio = false;
                a.cfg->verdicts.assign (1, (char) (a.fails == a.inverted));
                ProbeMatcher<S> m (a.cfg);
                if (callShortOfMemory ("check " + a.cfg->name + (a.inverted ? " inverted" : "") + (a.fails ? " fails" : ""), [&] { a.inverted ? h.expectFalse (m) : h.expectTrue (m); }))
                    checks.push_back (a);
                break;
            }

            default:
                // A run that cannot start
                if (signal >= 0 && frames() > 0)
                {
                    if (! chance (1, 2))
                        break;

                    // The DSP does not want it (any more)
                    const bool rate = chance (1, 2);
                    (rate ? dspCfg->acceptRate : dspCfg->acceptLayout) = false;
                    call ("process() with a DSP that rejects it", false, [&] { h.process(); });
                    dspCfg->acceptRate = dspCfg->acceptLayout = true;
                }
                else
                {
                    call (fmt ("process() with %s", frames() == 0 ? "nothing to process" : "no input signal"), false, [&] { h.process(); });
                    sim::probe (frames() == 0 ? "nothing to process" : "no input signal");
                }

                if (! hart::ExpectationFailureMessages::get().empty())
                    sim::violation ("messages", "a run that could not start has reported a failed check");

                for (auto& f : files)
                    if (sim::fs::exists (f))
                        sim::violation ("file", "a run that could not start has written %s", f.c_str());
        }
    }

    void addSignal()
    {
        const int k = signals++;
        Cfg c = probeCfg (fmt ("signal%d", k), &journal);
        c->recordAudio = false;
        cfgs.push_back (c);
        ProbeSignal<S> s (c, [k] (size_t ch, size_t n) { return 0.1 + 0.01 * k + 0.001 * (double) ch + 1e-6 * (double) (n % 1000); });
        if (callShortOfMemory (fmt ("withInputSignal (signal%d)", k), [&] { host->withInputSignal (s); }))
            signal = k;
    }

    void expect (bool ok, const char* what, const std::string& got, const std::string& expected)
    {
        if (! ok)
            sim::violation (what, "the run was made with %s %s instead of %s", what, got.c_str(), expected.c_str());
    }

    void same (const char* what, double got, double expected) { expect (got == expected, what, fmt ("%.9g", got), fmt ("%.9g", expected)); }

    void run()
    {
        dspCfg = probeCfg ("dsp", &journal);
        dspCfg->maxRate = 200000;
        dspCfg->recordAudio = false;
        ProbeDsp<S> dsp (dspCfg);
        host.reset (new hart::AudioTestBuilder<S> (dsp));
        const size_t n = 1 + pick (14);

        for (size_t i = 0; i < n; ++i)
            step();

        // The rest of what it takes to run
        while (signal < 0)
            addSignal();

        if (frames() == 0 || frames() * (in + out) > 60000 || frames() / block > 200)
        {
            const double v = (double) (1 + pick (std::max<size_t> (1, std::min<size_t> (60000 / (in + out), 200 * block)) - 1)) / sr;
            call (fmt ("withDuration (%.9g)", v), true, [&] { host->withDuration (v); });
            seconds = v;
        }

        journal.events.clear();
        const double exact = sr * seconds;
        const bool tie = std::abs (exact - std::floor (exact) - 0.5) < 1e-6;
        bool anyFails = false;

        for (auto& c : checks)
            anyFails |= c.fails;

        std::unique_ptr<hart::DSP<S>> back;

        try { back = host->process(); }
        catch (const std::exception& e) { sim::violation ("run", "process() threw: %s", e.what()); }

        if (back == nullptr)
            sim::violation ("run", "process() has returned no DSP");

        sim::nontrivial();
        size_t total = 0, largest = 0;
        std::vector<std::pair<int, double>> given;
        std::map<std::string, int> prepared;

        for (auto& e : journal.events)
        {
            if (e.name == "dsp" && e.call == Call::audio)
            {
                total += e.b;
                largest = std::max (largest, e.b);
            }

            if (e.name == "dsp" && e.call == Call::setValue)
                given.emplace_back ((int) e.a, e.x);

            if (e.name == "dsp" && e.call == Call::prepare)
            {
                ++prepared["dsp"];
                same ("sample rate", e.x, sr);
                same ("input channels", (double) e.a, (double) in);
                same ("output channels", (double) e.b, (double) out);
                same ("block size", (double) e.c, (double) block);
            }

            if (e.name.compare (0, 6, "signal") == 0 && (e.call == Call::prepare || e.call == Call::audio))
                expect (e.name == fmt ("signal%d", signal), "input signal", e.name, fmt ("signal%d", signal));

            if (e.name.compare (0, 6, "signal") == 0 && e.call == Call::prepare)
            {
                ++prepared["signal"];
                same ("sample rate of the signal", e.x, sr);
                same ("channels of the signal", (double) e.a, (double) in);
                same ("block size of the signal", (double) e.c, (double) block);
            }

            if (e.name.compare (0, 7, "matcher") == 0 && e.call == Call::prepare)
            {
                ++prepared[e.name];
                same ("sample rate of a matcher", e.x, sr);
                same ("channels of a matcher", (double) e.a, (double) out);
            }
        }

        const size_t wanted = frames();

        if (! (total == wanted || (tie && (total + 1 == wanted || total == wanted + 1))))
            sim::violation ("duration", "%zu frames were processed instead of %g s at %g Hz = %zu", total, seconds, sr, wanted);

        same ("largest block", (double) largest, (double) std::min (block, total));

        if (prepared["dsp"] == 0 || prepared["signal"] == 0)
            sim::violation ("run", "the %s was not prepared", prepared["dsp"] == 0 ? "DSP" : "signal");

        for (auto& c : checks)
            if (prepared[c.cfg->name] == 0)
                sim::violation ("run", "%s was not prepared", c.cfg->name.c_str());

        if (given != values)
        {
            std::string a, b;

            for (auto& v : given) a += fmt (" %d=%g", v.first, v.second);
            for (auto& v : values) b += fmt (" %d=%g", v.first, v.second);

            sim::violation ("values", "the initial values given to the DSP were%s instead of%s", a.c_str(), b.c_str());
        }

        // Reports carry the label
        const auto& messages = hart::ExpectationFailureMessages::get();
        size_t failing = 0;

        for (auto& c : checks)
            failing += c.fails;

        if (messages.size() != failing)
            sim::violation ("messages", "%zu failed checks were reported instead of %zu", messages.size(), failing);

        for (auto& m : messages)
        {
            const std::string head = m.substr (0, m.find ('\n'));
            const bool has = head.find ('"') != std::string::npos;

            if (has == label.empty() || (has && head.find ("\"" + label + "\"") == std::string::npos))
                sim::violation ("label", "the report \"%s\" does not carry the label \"%s\"", head.c_str(), label.c_str());
        }

        // Files
        const bool saveWav = wav.mode == hart::Save::always || (wav.mode == hart::Save::whenFails && anyFails);
        const bool savePlot = plot.mode == hart::Save::always || (plot.mode == hart::Save::whenFails && anyFails);

        for (auto& f : files)
        {
            const bool should = (saveWav && f == wav.path) || (savePlot && f == plot.path);

            if (sim::fs::exists (f) != should)
                sim::violation ("file", should ? "%s was not saved" : "%s was saved, although it is not the one that was asked for last", f.c_str());
        }

        if (saveWav)
        {
            sim::probe ("wav saved");
            const ParsedWav w = parseWav (sim::fs::getFile (wav.path));
            const uint32_t bits = wav.format == hart::WavFormat::pcm16 ? 16 : wav.format == hart::WavFormat::pcm24 ? 24 : 32;
            const uint32_t tag = wav.format == hart::WavFormat::float32 ? 3 : 1;

            if (! w.ok)
                sim::violation ("wav", "%s is not a valid file: %s", wav.path.c_str(), w.problem.c_str());

            same ("sample rate of the file", w.sr, sr);
            same ("channels of the file", w.ch, (double) out);
            same ("frames of the file", w.frames, (double) total);
            same ("bits of the file", w.bits, bits);
            same ("format tag of the file", w.tag, tag);
        }

        sim::simulatedFrames ((double) total, sr);
        sim::mixState (hashOf (&sr, 8) + block * 7 + in * 131 + out * 1031 + total * 100003);
        hart::ExpectationFailureMessages::clear();

        if (! chance (1, 3))
            return;

        // The DSP has been given back, so there is nothing to run any more
        try { if (chance (1, 2)) host->withSampleRate (48000); }
        catch (const std::exception& e) { logf ("withSampleRate() after the run: %s", e.what()); }

        call ("process() when the DSP has been returned already", false, [&] { host->process(); });

        if (! hart::ExpectationFailureMessages::get().empty())
            sim::violation ("messages", "a run that could not start has reported a failed check");

        // It is still usable
        hart::AudioTestBuilder<S> next (std::move (back));
        next.withSampleRate (sr).withInputChannels (1).withOutputChannels (1).withDuration (10 / sr).withInputSignal (hart::Silence<S>());

        try { back = next.process(); }
        catch (const std::exception& e) { sim::violation ("run", "a test of the returned DSP threw: %s", e.what()); }

        sim::probe ("run again after the DSP was returned");
    }
};

void run()
{
    if (chance (1, 2)) { World<float> w; w.run(); }
    else { World<double> w; w.run(); }
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C17", run, 16000, 600000,
    "histories of 1-14 configuration calls (valid, invalid, rejected by the DSP, repeated, with default arguments) and attempts to run that cannot start, some of them short of memory, then a run whose recorded callbacks, reports and files are compared with "
    "a model of the settings in force. Non-trivial: every history that ended in a run.",
    "AudioTestBuilder, WavWriter, Plot", "disk (simulated), heap (failing allocations), DSP, signal and matchers (recording)", 60
};
