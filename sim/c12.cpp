// C12: a wav file is played exactly or rejected
#include "hosttest.hpp"

using namespace kit;

namespace
{
const char* path = "/simfs/in/the file.wav";
const char* readFault = "";

struct Play
{
    WavSpec file;
    size_t wanted = 1;                  // channels
    bool loop = false;
    size_t present = 0;                 // whole frames that are really there
    bool mayReject = false, mustReject = false;
};

std::string damage (Play& p, std::string bytes)
{
    const size_t dataEnd = p.file.dataOffset + (size_t) p.file.bytesPerFrame() * p.file.frames;

    switch (pick (8))
    {
        case 0: case 1: case 2: case 3:
        {
            // Cut short: anywhere, or close to a border
            size_t n = pick (bytes.size());
            const size_t k = pick (4);

            if (k == 1) n = p.file.dataOffset + pick (p.file.bytesPerFrame() * std::min<size_t> (p.file.frames, 4) + 1);
            if (k == 2) n = pick (p.file.dataOffset + 1);
            if (k == 3) n = dataEnd - std::min<size_t> (dataEnd, pick (2 * p.file.bytesPerFrame() + 1));

            n = std::min (n, bytes.size() - 1);
            bytes.resize (n);
            p.mayReject = true;
            p.present = n < p.file.dataOffset ? 0 : std::min<size_t> (p.file.frames, (n - p.file.dataOffset) / p.file.bytesPerFrame());
            logf ("cut short to %zu bytes, %zu frames are there", n, p.present);
            sim::faultFired ("file:truncated");
            break;
        }

        case 4: bytes[pick (4)] ^= 0x21; p.mustReject = true; logf ("no RIFF header"); sim::faultFired ("file:bad-magic"); break;
        case 5: bytes[8 + pick (4)] ^= 0x21; p.mustReject = true; logf ("not a WAVE file"); sim::faultFired ("file:bad-type"); break;

        case 6:
        {
            const char* id = chance (1, 2) ? "fmt " : "data";
            const size_t i = bytes.find (std::string (id, 4), 12);
            bytes[i] = 'z';
            p.mustReject = true;
            logf ("no %s chunk", id);
            sim::faultFired ("file:missing-chunk");
            break;
        }

        default:
        {
            const size_t n = pick (200);
            std::string text;

            while (text.size() < n)
                text += "This is not a wav file.\n";

            text.resize (n);
            p.mustReject = true;
            bytes = text;
            logf ("%zu bytes of text", n);
            sim::faultFired ("file:not-a-wav");
        }
    }

    return bytes;
}

template <typename S> double expected (const Play& p, size_t ch, size_t frame)
{
    if (p.present == 0 || (! p.loop && frame >= p.present))
        return 0.0;

    return p.file.data[ch][frame % p.present];
}

template <typename S> void checkBlock (const Play& p, const hart::AudioBuffer<S>& b, size_t pos, const char* where)
{
    for (size_t c = 0; c < b.getNumChannels(); ++c)
        for (size_t n = 0; n < b.getNumFrames(); ++n)
        {
            const double e = expected<S> (p, c, pos + n), v = (double) b[c][n];
            const bool silent = p.present == 0 || (! p.loop && pos + n >= p.present);

            if (! (std::abs (v - e) <= (silent ? 0.0 : std::abs (e) > 1 ? 1e-6 * std::abs (e) : 3.2e-5)))
                sim::violation ("wrong-audio", "%s: channel %zu frame %zu is %.9g, expected %.9g (%zu frames in the file%s)", where, c, pos + n, v, e, p.present, p.loop ? ", looping" : "");
        }
}

template <typename S> void play (Play& p, hart::WavFile<S>& w, double sr)
{
    bool supported = w.supportsNumChannels (p.wanted);

    if (supported != (p.wanted <= p.file.ch))
        sim::violation ("channels", "supportsNumChannels (%zu) is %d for a file with %u channels", p.wanted, (int) supported, p.file.ch);

    const bool wrongRate = sr != (double) p.file.sr;
    const size_t block = 1 + pick (200);
    bool threw = false;

    try { w.prepareWithDSPChain (sr, p.wanted, block); }
    catch (const std::exception& e) { threw = true; logf ("prepare: %s", e.what()); }

    if (threw != (wrongRate || ! supported))
        sim::violation (threw ? "false-alarm" : "accepted", "preparing for %g Hz and %zu channels %s, the file has %u Hz and %u channels", sr, p.wanted, threw ? "threw" : "returned normally", p.file.sr, p.file.ch);

    if (threw)
    {
        // It can still be used as it should be
        sr = (double) p.file.sr;
        p.wanted = 1 + pick (p.file.ch);
        w.prepareWithDSPChain (sr, p.wanted, block);
        sim::probe ("rejected rate or channel count");
    }

    w.resetWithDSPChain();
    size_t pos = 0;
    const size_t blocks = 1 + pick (8);

    for (size_t i = 0; i < blocks; ++i)
    {
        if (i > 0 && chance (1, 10))
        {
            w.resetWithDSPChain();
            pos = 0;
        }

        // Up to and over the end of the file
        size_t n = chance (1, 4) ? block : 1 + pick (block);
        const size_t left = p.present > 0 ? p.present - pos % p.present : 0;

        if (left > 0 && left <= block && chance (1, 3))
            n = left;

        hart::AudioBuffer<S> b (p.wanted, n);
        poison (b);
        w.renderNextBlockWithDSPChain (b);
        checkBlock<S> (p, b, pos, "rendered directly");
        pos += n;
        sim::simulatedFrames ((double) n, sr);

        if (pos > p.present)
            sim::probe (p.loop ? "played past the loop point" : "played past the end");
    }

    sim::mixState (pos * 31 + p.present + 7 * p.wanted);
}

template <typename S> void playInHost (const Play& p, hart::WavFile<S>& w, double sr)
{
    auto shared = std::make_shared<typename GlitchDsp<S>::Shared>();
    const size_t frames = 1 + pick (p.present * 2 + 50), block = std::max<size_t> (1 + pick (200), frames / 400);
    hart::AudioTestBuilder<S> h { GlitchDsp<S> (shared) };
    h.withSampleRate (sr).withBlockSize (block).withDuration ((double) frames / sr).withInputChannels (p.wanted).withOutputChannels (p.wanted);
    chance (1, 2) ? h.withInputSignal (w) : h.withInputSignal (std::move (w));
    const Outcome o = observe ([&] { h.process(); });
    const bool fits = sr == (double) p.file.sr && p.wanted <= p.file.ch;
    logf ("%zu frames at %g Hz in blocks of %zu: %s", frames, sr, block, o.summary().c_str());

    if ((o.kind == Outcome::passed) != fits)
        sim::violation (fits ? "false-alarm" : "accepted", "a run with %g Hz and %zu channels: %s; the file has %u Hz and %u channels", sr, p.wanted, o.summary().c_str(), p.file.sr, p.file.ch);

    if (! fits)
        return;

    hart::AudioBuffer<S> b (p.wanted, frames);

    for (size_t c = 0; c < p.wanted; ++c)
        std::copy (shared->out[c].begin(), shared->out[c].end(), b[c]);

    checkBlock<S> (p, b, 0, "through the host");
    sim::probe ("played through the host");
}

WavSpec genFile()
{
    Play p;
    p.file.path = path;
    p.file.sr = oneOf<uint32_t> ({ 44100, 48000, 8000, 96000, 192000, 1 });
    p.file.ch = (uint16_t) (chance (1, 6) ? 1 + pick (40) : 1 + pick (4));
    if (outsized())
        p.file.ch = (uint16_t) (1 + pick (128));    // a run with more is rejected

    p.file.frames = (uint32_t) (p.file.ch < 5 && outsized() ? 4000 + pick (130000 / p.file.ch) : p.file.ch > 40 ? 1 + pick (50) : chance (1, 10) ? pick (3) : 1 + pick (chance (1, 3) ? 4000 / p.file.ch : 300));
    p.file.format = oneOf<int> ({ 16, 24, 32, -32, 8, -64, 106, 107 });
    p.file.level = chance (1, 3) ? oneOf<float> ({ 1.5f, 8, 0.001f, 1000 }) : 1.0f;
    p.file.extensible = chance (1, 5);
    p.file.rf64 = chance (1, 10);
    p.file.extraChunks = (int) pick (8);
    return p.file;
}

template <typename S> std::unique_ptr<hart::WavFile<S>> open (const std::string& given, bool loop)
{
    return std::unique_ptr<hart::WavFile<S>> (new hart::WavFile<S> (given, loop ? hart::WavFile<S>::Loop::yes : hart::WavFile<S>::Loop::no));
}

template <typename S> void use (Play& p, hart::WavFile<S>& w)
{
    double sr = (double) p.file.sr;

    if (chance (1, 8))
        switch (pick (4))
        {
            case 0: sr += 100; break;
            case 1: sr *= 2; break;
            case 2: sr /= 2; break;
            default: sr = sr > 8000 ? 8000 : 44100; break;
        }


    if (chance (1, 4))
        playInHost<S> (p, w, sr);
    else
        play<S> (p, w, sr);
}

// Another file takes its place, maybe while the first one is still used
template <typename S> void replace (const Play& first, const std::string& given, std::unique_ptr<hart::WavFile<S>> w)
{
    Play q, p = first;
    q.file = chance (1, 2) ? genFile() : p.file;
    q.present = q.file.frames;
    q.loop = chance (1, 2);
    q.wanted = 1 + pick (q.file.ch);
    std::string bytes = encodeWav (q.file, 5000 + pick (1000));
    logf ("replaced by %s%s", q.file.text().c_str(), q.loop ? " looping" : "");
    sim::faultFired ("file:replaced");

    if (chance (1, 3))
        w.reset();

    std::unique_ptr<hart::WavFile<S>> early;

    if (w != nullptr && chance (1, 2))
        early.reset (new hart::WavFile<S> (*w));     // a copy made before

    sim::fs::putFile (path, bytes);
    std::unique_ptr<hart::WavFile<S>> second;
    const Outcome o = observe ([&] { second = open<S> (given, q.loop); });

    if (o.kind != Outcome::passed)
        sim::violation ("false-alarm", "the file that replaced another one was rejected: %s", o.text.c_str());

    use (q, *second);

    if (w != nullptr)
    {
        sim::probe ("played after its file was replaced");
        use (p, *w);
    }

    if (early != nullptr)
    {
        w.reset();
        Play r = first;
        use (r, *early);
    }
}

template <typename S> void runFor()
{
    Play p;
    p.file = genFile();
    p.loop = chance (1, 2);
    p.wanted = 1 + pick (p.file.ch);

    if (chance (1, 10))
        p.wanted = p.file.ch + 1 + pick (3);

    std::string bytes = encodeWav (p.file, pick (1000));
    p.present = p.file.frames;
    logf ("%s: %s%s, %zu channels wanted", typeName<S>(), p.file.text().c_str(), p.loop ? " looping" : "", p.wanted);

    if (chance (2, 5))
        bytes = damage (p, bytes);

    // Where it is
    std::string given = path;

    if (chance (1, 4))
    {
        given = "the file.wav";
        setOptions ({ "--data-root-path", "/simfs/in" });
    }

    if (chance (1, 15))
    {
        p.mustReject = true;
        given = chance (1, 2) ? "/simfs/in/another file.wav" : "/simfs/missing-dir/file.wav";
        logf ("the file does not exist");
        sim::faultFired ("file:missing");
    }
    else if (chance (1, 15))
    {
        sim::fs::forbid (path);
        p.mustReject = true;
        logf ("the file may not be opened");
        sim::faultFired ("file:forbidden");
    }

    sim::fs::putFile (path, bytes);
    bool faulty = false, onlyShort = true;

    if (chance (1, 3))
    {
        faulty = true;
        const size_t n = 1 + pick (3);

        for (size_t i = 0; i < n; ++i)
        {
            sim::fs::Fault f {};
            f.op = oneOf ({ sim::fs::Op::read, sim::fs::Op::read, sim::fs::Op::read, sim::fs::Op::read, sim::fs::Op::seek, sim::fs::Op::open, sim::fs::Op::close });
            f.index = pick (f.op == sim::fs::Op::open || f.op == sim::fs::Op::close ? 1 : 4 + bytes.size() / 3000);
            f.effect = f.op == sim::fs::Op::read && chance (1, 2) ? sim::fs::Effect::shortThenOk : sim::fs::Effect::eio;
            f.keep = (uint32_t) pick (256);

            if (f.effect != sim::fs::Effect::shortThenOk)
                onlyShort = false;

            logf ("fault planned: %s", sim::fs::describe (f).c_str());
            sim::fs::addFault (f);
        }

        sim::fs::armFaults (true);
    }

    std::unique_ptr<hart::WavFile<S>> w;
    const Outcome o = observe ([&] { w = open<S> (given, p.loop); });
    sim::fs::armFaults (false);
    const uint64_t fired = sim::fs::firedCount();
    logf ("opening: %s", o.summary().c_str());
    sim::nontrivial();
    sim::mixState ((uint64_t) o.kind + 2 * p.mustReject + 4 * p.mayReject + 8 * fired);

    if (sim::fs::openHandles() != 0)
        sim::violation ("left-open", "the file was left open");

    if (o.kind == Outcome::passed)
    {
        if (p.mustReject)
            sim::violation ("accepted", "opening returned normally");
    }
    else
    {
        if (! p.mustReject && ! p.mayReject && (fired == 0 || onlyShort))
            sim::violation ("false-alarm", "an intact file was rejected: %s", o.text.c_str());

        if (! p.mustReject && ! p.mayReject)
        {
            sim::probe ("read error was reported");

            // Later the disk works
            const Outcome again = observe ([&] { w = open<S> (given, p.loop); });

            if (again.kind != Outcome::passed)
                sim::violation ("still-failing", "the file cannot be opened after the disk has recovered: %s", again.text.c_str());
        }
        else
            return;
    }

    if (p.mayReject)
        sim::probe ("file cut short was accepted");

    if (fired > 0 && ! onlyShort && o.kind == Outcome::passed)
        sim::probe ("opened in spite of a fault");

    // What happens to the file from now on does not matter
    switch (pick (6))
    {
        case 5: replace<S> (p, given, std::move (w)); return;

        case 1: std::remove (path); break;
        case 2: sim::fs::putFile (path, std::string (bytes.size(), 'x')); break;
        case 3: sim::fs::forbid (path); break;
    }

    use (p, *w);
}

void run()
{
    chance (1, 2) ? runFor<float>() : runFor<double>();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C12", run, 24000, 600000,
    "a random wav file (integer and float formats, A-law, mu-law, extensible headers, extra chunks, RF64, 1-40 channels, 0-4000 frames), intact, cut short at a random byte, without magic, chunk or existence, opened while reads, seeks "
    "or the open fail or are short; then played directly in random blocks with resets, or through the host, with matching or other rates and channel counts, while the file on disk is changed or replaced by another one that is opened as well; compared with the contents. "
    "Non-trivial: always.",
    "WavFile, dr_wav, C library stdio, AudioTestBuilder, path resolution", "disk (simulated, below stdio)", 60
};
