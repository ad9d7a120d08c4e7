// C10: a wav file reported as saved is complete and correct on disk
#include "hosttest.hpp"
#include "pattern.hpp"
#include "probes.hpp"

using namespace kit;

namespace
{
const char* path = "/simfs/out/saved.wav";

template <typename S>
struct Test
{
    double sr = 44100;
    size_t ch = 1, block = 64, frames = 100;
    hart::WavFormat format = hart::WavFormat::pcm24;
    Pattern pattern;
    bool whenFails = false;

    void generate()
    {
        sr = genSampleRate();
        ch = chance (1, 4) ? 1 + pick (128) : 1 + pick (4);
        frames = 1 + pick (ch > 8 ? 60 : chance (1, 3) ? 6000 / ch : 300);

        if (chance (1, 40))
            frames = 1 + pick (200000 / ch);

        block = chance (1, 8) ? frames : oneOf<size_t> ({ 64, 16, 100, 1024, 5 }) + pick (3);

        if (frames * ch > 7000)
            block = std::max<size_t> (block, frames / 8);      // what is kept grows by copying

        format = oneOf ({ hart::WavFormat::pcm24, hart::WavFormat::pcm16, hart::WavFormat::pcm32, hart::WavFormat::float32 });
        pattern.salt = pick (1000);
        pattern.range = oneOf<double> ({ 1, 0.01, 2, 1e-5 });
        pattern.specials = chance (1, 2);
        pattern.nans = chance (1, 8);
        whenFails = chance (1, 4);
        logf ("%s: %g Hz, %zu ch, block %zu, %zu frames, %s, %s%s", typeName<S>(), sr, ch, block, frames, formatName (format), pattern.text().c_str(), whenFails ? ", saved because a check fails" : "");
    }

    std::unique_ptr<hart::AudioTestBuilder<S>> build() const
    {
        std::unique_ptr<hart::AudioTestBuilder<S>> h (new hart::AudioTestBuilder<S> (PatternDsp<S> (pattern)));
        h->withSampleRate (sr).withBlockSize (block).withDuration ((double) frames / sr).withInputChannels (ch).withOutputChannels (ch).withInputSignal (hart::Silence<S>());

        if (whenFails)
        {
            Cfg c = probeCfg ("failing matcher", nullptr);
            c->verdicts = { 0 };
            c->recordAudio = false;
            h->expectTrue (ProbeMatcher<S> (c)).saveOutputTo (path, hart::Save::whenFails, format);
        }
        else
            h->saveOutputTo (path, hart::Save::always, format);

        return h;
    }

    std::string problem (bool complete) const { return savedProblem<S> (sim::fs::getFile (path), pattern, sr, ch, frames, format, complete); }
};

sim::fs::Fault genFault (bool crash, size_t writes)
{
    using sim::fs::Op;
    using sim::fs::Effect;
    sim::fs::Fault f {};
    f.op = oneOf ({ Op::write, Op::write, Op::write, Op::write, Op::seek, Op::close, Op::open });
    f.index = f.op == Op::write ? pick (writes) : f.op == Op::seek ? pick (4) : 0;
    f.keep = (uint32_t) pick (256);
    f.effect = crash ? Effect::crash : oneOf ({ Effect::enospc, Effect::eio, Effect::shortThenEnospc, Effect::shortThenOk, Effect::lostAtClose });

    if (f.op == Op::close && ! crash)
        f.effect = oneOf ({ Effect::eio, Effect::lostAtClose });

    return f;
}

template <typename S> void runFor()
{
    Test<S> t;
    t.generate();
    const size_t bytes = t.frames * t.ch * formatBits (t.format) / 8 + 44;
    sim::simulatedFrames ((double) t.frames, t.sr);

    // What is there before
    std::string old;

    if (chance (1, 3))
    {
        WavSpec w;
        w.path = "old";
        w.sr = 44100;
        w.ch = 2;
        w.frames = (uint32_t) (chance (1, 2) ? 10 : bytes / 2);
        w.format = 16;
        old = chance (1, 4) ? std::string (bytes + 100, 'o') : encodeWav (w, 5);
        sim::fs::putFile (path, old);
        logf ("the file exists, with %zu bytes", old.size());
    }

    const size_t kind = pick (8);
    const size_t writes = 3 + std::min<size_t> (bytes, 60000) / 3000;

    if (kind >= 6)
    {
        // The process crashes while saving
        const sim::fs::Fault f = genFault (true, writes);
        logf ("crash at %s", sim::fs::describe (f).c_str());
        sim::fs::addFault (f);

        const int code = sim::inProcess ([&]
        {
            auto h = t.build();
            sim::fs::armFaults (true);
            observe ([&] { h->process(); });
            return 0;
        });

        sim::fs::armFaults (false);

        if (code != 0 && code != sim::crashExitCode)
            sim::violation ("died", "saving ended the process with code %d", code);

        const std::string now = sim::fs::getFile (path);
        logf ("exit code %d, %zu bytes on disk", code, now.size());
        sim::mixState (hashOf (now.data(), std::min<size_t> (now.size(), 44), (uint64_t) code));

        if (code == 0)
        {
            const std::string p = t.problem (true);

            if (! p.empty())
                sim::violation ("incomplete", "nothing went wrong, but the file is %s", p.c_str());

            return;
        }

        sim::nontrivial();
        sim::probe ("crashed while saving");

        if (now == old)
            return;

        const std::string p = t.problem (false);

        if (! p.empty())
            sim::violation ("garbage", "after a crash while saving, the file holds other audio: %s", p.c_str());

        // As HART sees it
        std::unique_ptr<hart::WavFile<S>> w;
        try { w.reset (new hart::WavFile<S> (path)); }
        catch (const std::exception&) { sim::probe ("file is rejected after a crash"); return; }

        const double sr = (double) parseWav (now).sr;
        const size_t present = parseWav (now).frames;
        w->prepareWithDSPChain (sr, t.ch, t.frames);
        w->resetWithDSPChain();
        hart::AudioBuffer<S> b (t.ch, t.frames);
        w->renderNextBlockWithDSPChain (b);
        const double scale = t.format == hart::WavFormat::pcm16 ? 32768.0 : t.format == hart::WavFormat::pcm24 ? 8388608.0 : 2147483648.0;
        sim::probe ("file can be loaded after a crash");

        for (size_t c = 0; c < t.ch; ++c)
            for (size_t n = 0; n < t.frames; ++n)
            {
                const double v = (double) b[c][n], x = (double) t.pattern.template at<S> (c, n);

                if (n >= present ? v != 0.0 : ! storedRight (x, t.format == hart::WavFormat::float32 ? v : v * scale, t.format) && std::abs (v - std::max (-1.0, std::min (1.0, x))) > 1e-4)
                    sim::violation ("garbage", "after a crash while saving, the file plays %.9g at channel %zu frame %zu of %zu instead of %.9g", v, c, n, present, x);
            }

        return;
    }

    bool forbidden = false;

    if (kind >= 2)
    {
        const size_t what = pick (8);

        if (what == 0)
        {
            const uint64_t room = old.size() + pick (bytes + 40);
            logf ("the disk has room for %llu bytes", (unsigned long long) room);
            sim::fs::setCapacity (room);
        }
        else if (what == 1)
        {
            logf ("the file may not be opened");
            sim::fs::forbid (path);
            forbidden = true;
            sim::faultFired ("disk-open:forbidden");
        }
        else
        {
            const size_t n = 1 + pick (2);

            for (size_t i = 0; i < n; ++i)
            {
                const sim::fs::Fault f = genFault (false, writes);
                logf ("fault planned: %s", sim::fs::describe (f).c_str());
                sim::fs::addFault (f);
            }
        }
    }

    auto h = t.build();
    sim::fs::armFaults (true);
    const Outcome o = observe ([&] { h->process(); });
    sim::fs::armFaults (false);
    logf ("process(): %s", o.summary().c_str());
    sim::nontrivial();

    if (sim::fs::openHandles() != 0)
        sim::violation ("left-open", "the file was left open");

    if (o.kind == Outcome::assertion)
        sim::violation ("assertion", "an assertion failed, but there is none: %s", o.text.c_str());

    sim::mixState ((uint64_t) o.kind + 4 * sim::fs::opCount (sim::fs::Op::write));

    if (o.kind == Outcome::passed)
    {
        if (! sim::fs::exists (path))
            sim::violation ("not-saved", "process() returned normally, but there is no file");

        const std::string p = t.problem (true);

        if (! p.empty())
            sim::violation ("incomplete", "process() returned normally, but the file is %s", p.c_str());

        if (sim::fs::firedCount() > 0)
            sim::probe ("saved in spite of a fault");

        // The file can be used as a signal
        const ParsedWav parsed = parseWav (sim::fs::getFile (path));

        if (chance (1, 3))
        {
            sim::fs::setCapacity (~0ull);
            hart::WavFile<S> w (path);
            w.prepareWithDSPChain ((double) parsed.sr, t.ch, t.frames);
            w.resetWithDSPChain();
            hart::AudioBuffer<S> b (t.ch, t.frames);
            w.renderNextBlockWithDSPChain (b);

            for (size_t c = 0; c < t.ch; ++c)
                for (size_t n = 0; n < t.frames; ++n)
                {
                    const double x = (double) t.pattern.template at<S> (c, n), y = t.format == hart::WavFormat::float32 ? (double) (float) x : std::max (-1.0, std::min (1.0, x));

                    if (! std::isnan (x) && ! (y == (double) b[c][n]) && ! (std::abs ((double) b[c][n] - y) <= 7e-5 + 2e-7 * std::abs (y)))
                        sim::violation ("reload", "the saved file plays %.9g at channel %zu frame %zu instead of %.9g", (double) b[c][n], c, n, y);
                }

            sim::probe ("saved file was loaded again");
        }

        return;
    }

    // An exception
    if (sim::fs::firedCount() == 0 && ! forbidden)
        sim::violation ("false-alarm", "nothing is wrong with the disk, but process() threw: %s", o.text.c_str());

    sim::probe ("failure to save was reported");

    // Later there is room again, and the same test can be run
    if (! forbidden && chance (1, 2))
    {
        sim::fs::setCapacity (~0ull);
        const Outcome again = observe ([&] { t.build()->process(); });

        if (again.kind != Outcome::passed)
            sim::violation ("still-failing", "saving fails after the disk has recovered: %s", again.summary().c_str());

        const std::string p = t.problem (true);

        if (! p.empty())
            sim::violation ("incomplete", "saved after an earlier failure, the file is %s", p.c_str());
    }
}

void run()
{
    chance (1, 2) ? runFor<float>() : runFor<double>();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C10", run, 16000, 400000,
    "a random test (type, rate, layout, length, block size, audio incl. full scale, clipping, denormal and non-finite samples) that saves its output in a random format over an absent, shorter, longer or corrupt file; disk faults at "
    "random operations (open, write, seek, close: error, no space, short, lost at close), a disk of limited capacity, or a crash of the process at an operation; a normal return needs a complete and right file by an independent parser "
    "and when loaded again, after a crash only leading frames may be loaded, and saving works again later. Non-trivial: the output was saved, refused or cut short.",
    "AudioTestBuilder, WavWriter, dr_wav, C library stdio, WavFile", "disk (simulated, below stdio)", 60
};
