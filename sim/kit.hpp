// Workload generation and independent reference models shared by the scenarios.
#pragma once

#include "hart.hpp"
#include "sim.hpp"

#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace kit
{
using hart::DSP;        // the HART_*_DEFINE_COPY_AND_MOVE macros need them unqualified
using hart::Signal;
using hart::Matcher;

// Something that is not a std::exception
struct PlannedOddity { int n; };

using sim::pick;
using sim::chance;
using sim::range;
using sim::oneOf;
using sim::logf;

// Choices of a type that must not be drawn inside function arguments (unspecified order)
inline double realIn (double lo, double hi) { return sim::real (lo, hi); }

inline std::string fmt (const char* f, ...) __attribute__ ((format (printf, 1, 2)));
inline std::string fmt (const char* f, ...)
{
    char b[1024];
    va_list a;
    va_start (a, f);
    vsnprintf (b, sizeof (b), f, a);
    va_end (a);
    return b;
}

// Now and then, something is far larger than usual
inline bool outsized()
{
    if (! chance (1, 40))
        return false;

    sim::probe ("outsized");
    return true;
}

template <typename S> const char* typeName() { return sizeof (S) == 4 ? "float" : "double"; }

// ------------------------------------------------------------------------------------------------
// Values with an interval (discontinuities) and an error bound (rounding)
struct Iv { double lo, hi, err; };

template <typename S> double baseErr() { return sizeof (S) == 4 ? 1e-5 : 1e-6; }
template <typename S> double relErr()  { return sizeof (S) == 4 ? 1e-5 : 1e-7; }

template <typename S> Iv source (double v) { return Iv { v, v, v == 0.0 ? 0.0 : baseErr<S>() }; }

template <typename S> Iv times (Iv x, Iv g)
{
    const double p[] = { x.lo * g.lo, x.lo * g.hi, x.hi * g.lo, x.hi * g.hi };
    Iv r { p[0], p[0], 0 };

    for (double v : p)
    {
        r.lo = std::min (r.lo, v);
        r.hi = std::max (r.hi, v);
    }

    const double ga = std::max (std::abs (g.lo), std::abs (g.hi)), xa = std::max (std::abs (x.lo), std::abs (x.hi));
    r.err = x.err * (ga + g.err) + xa * g.err + std::max (std::abs (r.lo), std::abs (r.hi)) * relErr<S>();
    return r;
}

inline bool inside (double v, const Iv& x) { return v >= x.lo - x.err - 1e-12 && v <= x.hi + x.err + 1e-12; }

inline double refDbToRatio (double db) { return db < -120.0 ? 0.0 : std::exp (db * (std::log (10.0) / 20.0)); }

// ------------------------------------------------------------------------------------------------
// Automation curves
struct EnvSeg { bool hold; double dur; double target; int shape; };

struct EnvSpec
{
    double start = 0;
    std::vector<EnvSeg> segs;

    double pointAt (double t) const
    {
        double begin = start;

        for (auto& s : segs)
        {
            if (t < s.dur)
            {
                const double p = s.hold ? 0.0 : t / s.dur;

                if (s.hold)
                    return begin;

                switch (s.shape)
                {
                    case 0: return begin * (1 - p) + s.target * p;
                    case 1: return begin * std::pow (s.target / begin, p);
                    default: return begin + (s.target - begin) * (3 * p * p - 2 * p * p * p);
                }
            }

            t -= s.dur;

            if (! s.hold)
                begin = s.target;
        }

        return begin;
    }

    // At a jump, rounding decides which side a frame is on
    Iv at (double t) const
    {
        const double a = pointAt (t), b = pointAt (t - 1e-9), c = pointAt (t + 1e-9);
        const double m = std::max (std::abs (a), std::max (std::abs (b), std::abs (c)));
        return Iv { std::min (a, std::min (b, c)), std::max (a, std::max (b, c)), 1e-7 * m + 1e-9 };
    }

    hart::SegmentedEnvelope build() const
    {
        hart::SegmentedEnvelope e (start);

        for (auto& s : segs)
        {
            if (s.hold)
                e.hold (s.dur);
            else
                e.rampTo (s.target, s.dur, s.shape == 0 ? hart::SegmentedEnvelope::Shape::linear
                                         : s.shape == 1 ? hart::SegmentedEnvelope::Shape::exponential
                                                        : hart::SegmentedEnvelope::Shape::sCurve);
        }

        return e;
    }

    std::string text() const
    {
        std::string s = fmt ("env(%g", start);

        for (auto& x : segs)
            s += x.hold ? fmt (" hold %g", x.dur) : fmt (" %s->%g in %g", x.shape == 0 ? "lin" : x.shape == 1 ? "exp" : "s", x.target, x.dur);

        return s + ")";
    }
};

// lo..hi: values; positive ones also get exponential ramps
inline EnvSpec genEnv (double lo, double hi, double seconds)
{
    EnvSpec e;
    e.start = realIn (lo, hi);
    const size_t n = outsized() ? 5 + (size_t) pick (30) : (size_t) pick (5);
    double last = e.start;

    for (size_t i = 0; i < n; ++i)
    {
        EnvSeg s;
        s.hold = chance (1, 3);
        s.dur = chance (1, 10) ? 0.0 : realIn (0.0, seconds) / oneOf<double> ({ 1, 2, 5, 50 });
        s.target = last;
        s.shape = 0;

        if (! s.hold)
        {
            s.target = realIn (lo, hi);
            s.shape = (int) pick (3);

            if (s.shape == 1 && chance (1, 10))
                s.target = last * oneOf<double> ({ 1e-7, 1e-8, 1e-4 });
            else if (s.shape == 1 && ! (last * s.target > 1e-6))
                s.shape = 2;

            last = s.target;
        }

        e.segs.push_back (s);
    }

    return e;
}

// In dB
inline EnvSpec genGainEnv (double seconds)
{
    return chance (1, 12) ? genEnv (-130.0, 60.0, seconds) : genEnv (-50.0, 10.0, seconds);
}

// ------------------------------------------------------------------------------------------------
// Effects
struct DspSpec
{
    enum Kind { gainDb, gainLin, clip } kind = gainDb;
    double value = 0;
    bool hasEnv = false;
    EnvSpec env;

    std::string text() const
    {
        return fmt ("%s(%g)", kind == gainDb ? "GainDb" : kind == gainLin ? "GainLinear" : "HardClip", value) + (hasEnv ? "~" + env.text() : "");
    }

    template <typename S> Iv apply (Iv x, double t) const
    {
        if (kind == clip)
        {
            const double thr = refDbToRatio (value);
            x.lo = std::min (std::max (x.lo, -thr), thr);
            x.hi = std::min (std::max (x.hi, -thr), thr);
            x.err = std::min (x.err + thr * relErr<S>(), 2 * thr + 1e-9);
            return x;
        }

        Iv g { value, value, 0 };

        if (hasEnv)
            g = env.at (t);

        if (kind == gainDb)
        {
            const Iv d = g;
            g.lo = refDbToRatio (d.lo);
            g.hi = refDbToRatio (d.hi);
            g.err = g.hi * (0.12 * d.err + relErr<S>()) + (d.lo - d.err < -119.999 ? 1.1e-6 : 0.0);
        }

        g.err += std::max (std::abs (g.lo), std::abs (g.hi)) * relErr<S>();
        return times<S> (x, g);
    }

    template <typename S> std::unique_ptr<hart::DSP<S>> build() const
    {
        std::unique_ptr<hart::DSP<S>> d;

        switch (kind)
        {
            case gainDb: d.reset (new hart::GainDb<S> (value)); break;
            case gainLin: d.reset (new hart::GainLinear<S> (value)); break;
            case clip: d.reset (new hart::HardClip<S> (value)); break;
        }

        if (hasEnv)
            d->withEnvelope (0, env.build());

        return d;
    }
};

inline double genGainDb() { return chance (1, 8) ? oneOf<double> ({ -121.0, -119.5, -200.0, 0.0, -120.0 }) : realIn (-40.0, 12.0); }

inline DspSpec genDsp (bool allowEnv, double seconds)
{
    DspSpec d;
    d.kind = (DspSpec::Kind) pick (3);

    switch (d.kind)
    {
        case DspSpec::gainDb: d.value = genGainDb(); break;
        case DspSpec::gainLin: d.value = realIn (-2.0, 2.0); break;
        case DspSpec::clip: d.value = chance (1, 8) ? -121.0 : realIn (-40.0, 3.0); break;
    }

    if (allowEnv && d.kind != DspSpec::clip && chance (2, 5))
    {
        d.hasEnv = true;
        d.env = d.kind == DspSpec::gainDb ? genGainEnv (seconds) : genEnv (-1.0, 2.0, seconds);
    }

    return d;
}

// ------------------------------------------------------------------------------------------------
// Wav files, encoded independently of dr_wav
struct WavSpec
{
    std::string path;
    uint32_t sr = 44100;
    uint16_t ch = 1;
    uint32_t frames = 0;
    int format = 16;                      // 8, 16, 24, 32 (integers), -32, -64 (floats), 106 (A-law), 107 (mu-law)
    float level = 1;                      // of float formats
    bool rf64 = false;
    bool extensible = false;
    int extraChunks = 0;
    std::vector<std::vector<double>> data; // decoded values per channel
    uint32_t dataOffset = 0;               // of the first frame in the file

    uint32_t bits() const { return format > 100 ? 8u : (uint32_t) std::abs (format); }
    uint32_t bytesPerFrame() const { return bits() / 8 * ch; }
    std::string text() const { return fmt ("wav(%s %u Hz %u ch %u frames fmt %d%s%s)", path.c_str(), sr, ch, frames, format, extensible ? " ext" : "", rf64 ? " RF64" : ""); }
};

inline void put16 (std::string& s, uint32_t v) { s += (char) (v & 255); s += (char) ((v >> 8) & 255); }
inline void put32 (std::string& s, uint32_t v) { put16 (s, v & 0xffff); put16 (s, v >> 16); }
inline uint32_t get16 (const std::string& s, size_t i) { return (uint8_t) s[i] | ((uint32_t) (uint8_t) s[i + 1] << 8); }
inline uint32_t get32 (const std::string& s, size_t i) { return get16 (s, i) | (get16 (s, i + 2) << 16); }

// Cheap deterministic contents: every sample of the file is different from its neighbours
inline double contentAt (uint64_t salt, size_t ch, size_t frame)
{
    uint64_t z = salt * 0x9e3779b97f4a7c15ull + ch * 0xbf58476d1ce4e5b9ull + frame * 0x94d049bb133111ebull + 77;
    z = (z ^ (z >> 31)) * 0xd6e8feb86659fd93ull;
    z ^= z >> 32;
    return (double) (int64_t) (z % 200001) / 100000.0 - 1.0;
}

// G.711
inline int muLaw (uint8_t u)
{
    u = (uint8_t) ~u;
    const int t = (((u & 15) << 3) + 0x84) << ((u & 0x70) >> 4);
    return (u & 0x80) ? 0x84 - t : t - 0x84;
}

inline int aLaw (uint8_t a)
{
    a ^= 0x55;
    const int seg = (a & 0x70) >> 4;
    int t = ((a & 15) << 4) + (seg == 0 ? 8 : 0x108);

    if (seg > 1)
        t <<= seg - 1;

    return (a & 0x80) ? t : -t;
}

inline std::string encodeWav (WavSpec& w, uint64_t salt)
{
    std::string fmtChunk, data;
    const bool isFloat = w.format < 0;
    const uint32_t bits = w.bits(), tag = w.format > 100 ? w.format - 100u : isFloat ? 3 : 1;
    put16 (fmtChunk, w.extensible ? 0xfffe : tag);
    put16 (fmtChunk, w.ch);
    put32 (fmtChunk, w.sr);
    put32 (fmtChunk, w.sr * w.bytesPerFrame());
    put16 (fmtChunk, w.bytesPerFrame());
    put16 (fmtChunk, bits);

    if (w.extensible)
    {
        put16 (fmtChunk, 22);
        put16 (fmtChunk, bits);
        put32 (fmtChunk, 0);
        put16 (fmtChunk, tag);
        const unsigned char guid[14] = { 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71 };
        fmtChunk.append ((const char*) guid, 14);
    }

    w.data.assign (w.ch, std::vector<double> (w.frames));

    for (uint32_t f = 0; f < w.frames; ++f)
    {
        for (uint16_t c = 0; c < w.ch; ++c)
        {
            double v = contentAt (salt, c, f);

            if (w.format < 0)
                v *= w.level;

            switch (w.format)
            {
                case 106: { const uint8_t x = (uint8_t) std::lround ((v + 1) * 127.5); data += (char) x; w.data[c][f] = aLaw (x) / 32768.0; break; }
                case 107: { const uint8_t x = (uint8_t) std::lround ((v + 1) * 127.5); data += (char) x; w.data[c][f] = muLaw (x) / 32768.0; break; }
                case 8: { const int x = (int) std::lround ((v + 1) * 127.5); data += (char) x; w.data[c][f] = x / 127.5 - 1; break; }
                case 16: { const int x = (int) std::lround (v * 32767); put16 (data, (uint32_t) x & 0xffff); w.data[c][f] = x / 32768.0; break; }
                case 24: { const int x = (int) std::lround (v * 8388607); put16 (data, (uint32_t) x & 0xffff); data += (char) ((x >> 16) & 255); w.data[c][f] = x / 8388608.0; break; }
                case 32: { const int32_t x = (int32_t) std::lround (v * 2147483647.0); put32 (data, (uint32_t) x); w.data[c][f] = x / 2147483648.0; break; }
                case -32: { const float x = (float) v; uint32_t u; memcpy (&u, &x, 4); put32 (data, u); w.data[c][f] = x; break; }
                default: { const double x = v; uint64_t u; memcpy (&u, &x, 8); put32 (data, (uint32_t) u); put32 (data, (uint32_t) (u >> 32)); w.data[c][f] = x; break; }
            }
        }
    }

    std::string body = "WAVE";

    if (w.rf64)
    {
        body += "ds64";
        put32 (body, 28);
        body += std::string (28, '\0');   // filled in below
    }

    auto chunk = [&] (const char* id, const std::string& b)
    {
        body += std::string (id, 4);
        put32 (body, w.rf64 && id[0] == 'd' ? 0xffffffffu : (uint32_t) b.size());
        body += b;

        if (b.size() & 1)
            body += '\0';
    };

    if (w.extraChunks & 1)
        chunk ("LIST", std::string ("INFOISFT\x04\0\0\0sim\0", 16));

    chunk ("fmt ", fmtChunk);

    if (w.extraChunks & 2)
        chunk ("junk", std::string (7, 'x'));

    if (isFloat || w.extensible)
    {
        std::string fact;
        put32 (fact, w.frames);
        chunk ("fact", fact);
    }

    w.dataOffset = (uint32_t) body.size() + 8 + 8;
    chunk ("data", data);

    if (w.extraChunks & 4)
        chunk ("note", std::string (5, 'y'));

    std::string out = w.rf64 ? "RF64" : "RIFF";
    put32 (out, w.rf64 ? 0xffffffffu : (uint32_t) body.size());

    if (w.rf64)
    {
        std::string d;
        put32 (d, (uint32_t) body.size());
        put32 (d, 0);
        put32 (d, (uint32_t) data.size());
        put32 (d, 0);
        put32 (d, w.frames);
        put32 (d, 0);
        put32 (d, 0);
        body.replace (12, 28, d);
    }

    return out + body;
}

// Reads what a wav file holds; independent of dr_wav. ok is false if it is not a complete, valid file.
struct ParsedWav
{
    bool header = false;   // a readable header with a data chunk
    bool ok = false;       // complete and consistent
    std::string problem;
    uint32_t tag = 0, ch = 0, sr = 0, bits = 0, declaredFrames = 0, frames = 0;
    std::vector<std::vector<double>> data;  // integer formats: raw integers
};

inline ParsedWav parseWav (const std::string& s)
{
    ParsedWav p;
    auto bad = [&] (const char* why) { p.problem = why; return p; };

    if (s.size() < 12 || s.compare (0, 4, "RIFF") != 0 || s.compare (8, 4, "WAVE") != 0)
        return bad ("no RIFF/WAVE header");

    const bool riffSizeRight = get32 (s, 4) + 8 == s.size() || get32 (s, 4) + 8 == s.size() + 1;
    size_t i = 12;
    bool haveFmt = false, haveData = false, dataComplete = false;
    size_t dataBytes = 0, dataAt = 0;

    while (i + 8 <= s.size() && ! haveData)
    {
        const std::string id = s.substr (i, 4);
        const uint32_t n = get32 (s, i + 4);
        i += 8;

        if (id == "fmt ")
        {
            if (n < 16 || i + n > s.size())
                return bad ("bad fmt chunk");

            p.tag = get16 (s, i);
            p.ch = get16 (s, i + 2);
            p.sr = get32 (s, i + 4);
            p.bits = get16 (s, i + 14);

            if (p.tag == 0xfffe && n >= 26)
                p.tag = get16 (s, i + 24);

            if (get16 (s, i + 12) != p.ch * p.bits / 8 || get32 (s, i + 8) != p.sr * p.ch * p.bits / 8)
                return bad ("inconsistent fmt chunk");

            haveFmt = true;
        }
        else if (id == "data")
        {
            dataAt = i;
            dataBytes = n;
            haveData = true;
            dataComplete = i + n <= s.size();
        }

        i += n + (n & 1);
    }

    if (! haveFmt || ! haveData || p.ch == 0 || p.bits == 0 || p.bits % 8 != 0)
        return bad ("no fmt or data chunk");

    p.header = true;
    const uint32_t bpf = p.ch * p.bits / 8;
    p.declaredFrames = (uint32_t) (dataBytes / bpf);
    p.frames = (uint32_t) (std::min (dataBytes, s.size() - std::min (s.size(), dataAt)) / bpf);
    p.data.assign (p.ch, std::vector<double> (p.frames));

    for (uint32_t f = 0; f < p.frames; ++f)
    {
        for (uint32_t c = 0; c < p.ch; ++c)
        {
            const size_t at = dataAt + (size_t) f * bpf + c * p.bits / 8;
            double v = 0;

            if (p.tag == 1 && p.bits == 16) v = (int16_t) get16 (s, at);
            else if (p.tag == 1 && p.bits == 24) v = (int32_t) ((get16 (s, at) << 8) | ((uint32_t) (uint8_t) s[at + 2] << 24)) / 256;
            else if (p.tag == 1 && p.bits == 32) v = (int32_t) get32 (s, at);
            else if (p.tag == 3 && p.bits == 32) { const uint32_t u = get32 (s, at); float x; memcpy (&x, &u, 4); v = x; }
            else return bad ("unexpected sample format");

            p.data[c][f] = v;
        }
    }

    if (! riffSizeRight) return bad ("RIFF size does not match the file");
    if (! dataComplete) return bad ("data chunk is cut short");
    if (dataBytes % bpf != 0) return bad ("data chunk is not whole frames");

    p.ok = true;
    return p;
}

// ------------------------------------------------------------------------------------------------
// Signals
struct SignalSpec
{
    enum Kind { silence, sine, sweep, noise, wav } kind = silence;
    double freq = 440, phase = 0;                      // sine
    double dur = 1, f0 = 20, f1 = 20000; bool linear = false;   // sweep (phase as well)
    bool loop = false;                                 // sweep, wav
    uint32_t seed = 0;                                 // noise
    bool defaultSeed = false;                          // noise: made without one, when the option is as in seed
    std::shared_ptr<WavSpec> file;
    std::vector<DspSpec> chain;

    bool hasEnv() const
    {
        for (auto& d : chain)
            if (d.hasEnv)
                return true;

        return false;
    }

    std::string text() const
    {
        std::string s;

        switch (kind)
        {
            case silence: s = "Silence"; break;
            case sine: s = fmt ("Sine(%g Hz, %g)", freq, phase); break;
            case sweep: s = fmt ("Sweep(%g s, %g..%g Hz, %s%s, %g)", dur, f0, f1, linear ? "lin" : "log", loop ? " loop" : "", phase); break;
            case noise: s = defaultSeed ? "Noise(default)" : fmt ("Noise(%u)", seed); break;
            case wav: s = file->text() + (loop ? " loop" : ""); break;
        }

        for (auto& d : chain)
            s += " >> " + d.text();

        return s;
    }

    template <typename S> std::unique_ptr<hart::Signal<S>> buildBare() const
    {
        using hart::SineSweep;

        switch (kind)
        {
            case silence: return std::unique_ptr<hart::Signal<S>> (new hart::Silence<S>());
            case sine: return std::unique_ptr<hart::Signal<S>> (new hart::SineWave<S> (freq, phase));
            case sweep:
                return std::unique_ptr<hart::Signal<S>> (new SineSweep<S> (dur, f0, f1,
                    linear ? SineSweep<S>::SweepType::linear : SineSweep<S>::SweepType::log,
                    loop ? SineSweep<S>::Loop::yes : SineSweep<S>::Loop::no, phase));
            case noise: return std::unique_ptr<hart::Signal<S>> (defaultSeed ? new hart::WhiteNoise<S>() : new hart::WhiteNoise<S> (seed));
            default: return std::unique_ptr<hart::Signal<S>> (new hart::WavFile<S> (file->path, loop ? hart::WavFile<S>::Loop::yes : hart::WavFile<S>::Loop::no));
        }
    }

    template <typename S> std::unique_ptr<hart::Signal<S>> build() const
    {
        auto s = buildBare<S>();

        for (auto& d : chain)
            s->followedBy (d.build<S>());

        return s;
    }

    // What must come out, frame by frame since the last reset
    template <typename S> std::vector<std::vector<Iv>> model (double sr, size_t channels, size_t frames) const
    {
        std::vector<std::vector<Iv>> out (channels, std::vector<Iv> (frames));

        switch (kind)
        {
            case silence:
                for (auto& c : out)
                    for (auto& x : c)
                        x = source<S> (0.0);
                break;

            case sine:
                for (size_t n = 0; n < frames; ++n)
                {
                    const Iv v = source<S> (std::sin (phase + 2 * M_PI * std::fmod (freq * (double) n / sr, 1.0)));

                    for (auto& c : out)
                        c[n] = v;
                }
                break;

            case sweep:
            {
                const size_t length = (size_t) std::floor (dur * sr + 0.5);
                double cycles = phase / (2 * M_PI);

                for (size_t n = 0; n < frames; ++n)
                {
                    Iv v = source<S> (0.0);

                    if (length > 0 && (loop || n < length))
                    {
                        if (n > 0)
                        {
                            const size_t pos = n % length;
                            const bool back = (n / length) % 2 == 1;
                            double p = (double) pos / sr / dur;

                            if (back)
                                p = 1 - p;

                            const double f = linear ? f0 * (1 - p) + f1 * p : f0 * std::pow (f1 / f0, p);
                            cycles += f / sr;
                            cycles -= std::floor (cycles);
                        }

                        v = source<S> (std::sin (2 * M_PI * cycles));
                    }

                    for (auto& c : out)
                        c[n] = v;
                }
                break;
            }

            case noise:
            {
                sim::Pause p;
                hart::WhiteNoise<S> ref (seed);
                ref.prepare (sr, channels, frames);
                ref.reset();
                hart::AudioBuffer<S> all (channels, frames);
                ref.renderNextBlock (all);

                for (size_t c = 0; c < channels; ++c)
                    for (size_t n = 0; n < frames; ++n)
                        out[c][n] = Iv { (double) all[c][n], (double) all[c][n], 0.0 };
                break;
            }

            case wav:
                for (size_t c = 0; c < channels; ++c)
                    for (size_t n = 0; n < frames; ++n)
                    {
                        const size_t len = file->frames;
                        const double v = len > 0 && (loop || n < len) ? file->data[c][n % len] : 0.0;
                        out[c][n] = Iv { v, v, v == 0.0 ? 1e-9 : 3.2e-5 };
                    }
                break;
        }

        for (auto& d : chain)
            for (auto& c : out)
                for (size_t n = 0; n < frames; ++n)
                    c[n] = d.apply<S> (c[n], ((double) n + 1) / sr);

        return out;
    }
};

struct GenOptions
{
    double sr = 44100;
    size_t channels = 1;        // wav files get at least as many
    size_t frames = 1000;       // expected to be rendered
    bool wav = true;
    bool noise = true;
    bool env = true;
    size_t maxChain = 3;
};

inline int& wavCounter() { static int n = 0; return n; }

inline std::shared_ptr<WavSpec> genWav (double sr, size_t minChannels, size_t frames)
{
    auto w = std::make_shared<WavSpec>();
    const char* dir = "";

    if (chance (1, 12))
        dir = oneOf<const char*> ({ "some directory with (a longer) name, as they may be/", "a/b/c/d/e/f/", "recorded references of all the tests of this project/regression tests/dynamic range processors/after the release of 2024-11-30/" });

    w->path = fmt ("/simfs/in/%sfile%d.wav", dir, wavCounter()++);
    w->sr = (uint32_t) sr;
    w->ch = (uint16_t) (minChannels + pick (2));
    w->frames = (uint32_t) (chance (1, 12) ? pick (3) : 1 + pick (std::min<size_t> (frames + frames / 2, (8u << 20) / (8 * w->ch))));
    w->format = oneOf<int> ({ 16, 24, 32, -32, 8, -64 });
    w->extensible = chance (1, 6);
    w->extraChunks = (int) pick (8);
    const uint64_t salt = pick (1000);
    sim::fs::putFile (w->path, encodeWav (*w, salt));
    return w;
}

inline SignalSpec genSignal (const GenOptions& o)
{
    SignalSpec s;
    const double seconds = (double) o.frames / o.sr;
    const bool canWav = o.wav && o.sr == std::floor (o.sr);
    s.kind = (SignalSpec::Kind) pick (canWav ? 5 : 4);

    if (s.kind == SignalSpec::noise && ! o.noise)
        s.kind = SignalSpec::sine;

    switch (s.kind)
    {
        case SignalSpec::sine:
            s.freq = chance (1, 4) ? realIn (0.5, 100.0) : realIn (20.0, o.sr * 0.6);
            s.phase = realIn (0.0, 6.3) * (chance (1, 4) ? -2.5 : 1.0);
            break;

        case SignalSpec::sweep:
            s.dur = chance (1, 12) ? oneOf<double> ({ 0.0, 0.3 / o.sr, 1.0 / o.sr }) : realIn (0.02, 2.0) * seconds;
            s.f0 = realIn (10.0, o.sr / 3);
            s.f1 = chance (1, 6) ? s.f0 : realIn (10.0, o.sr / 3);
            s.linear = chance (1, 2);
            s.loop = chance (1, 2);
            s.phase = realIn (0.0, 6.3) * (chance (1, 4) ? -2.5 : 1.0);
            {
                // Keep away from durations where rounding to frames is a matter of the last bit
                const double d = s.dur * o.sr, frac = d - std::floor (d);

                if (std::abs (frac - 0.5) < 1e-3)
                    s.dur = (std::floor (d) + 0.25) / o.sr;
            }
            break;

        case SignalSpec::noise: s.seed = (uint32_t) pick (4) + (chance (1, 4) ? 0xfffffff0u : 0u); break;
        case SignalSpec::wav: s.file = genWav (o.sr, o.channels, o.frames); s.loop = chance (1, 2); break;
        default: break;
    }

    const size_t n = o.maxChain > 0 && outsized() ? o.maxChain + 1 + (size_t) pick (14) : (size_t) pick (o.maxChain + 1);

    for (size_t i = 0; i < n; ++i)
        s.chain.push_back (genDsp (o.env, seconds));

    return s;
}

inline double genSampleRate (bool integerOnly = false)
{
    const double r = chance (1, 12) ? oneOf<double> ({ 384000, 352800, 88200.5, 100 }) : oneOf<double> ({ 44100, 48000, 8000, 22050, 96000, 192000, 1000, 11025.5 });
    return integerOnly ? std::floor (r) : r;
}

template <typename S>
void checkAudio (const char* cls, const std::string& what, const hart::AudioBuffer<S>& got, size_t offset, const std::vector<std::vector<Iv>>& m)
{
    for (size_t c = 0; c < got.getNumChannels(); ++c)
        for (size_t n = 0; n < got.getNumFrames(); ++n)
            if (! inside ((double) got[c][n], m[c][offset + n]))
                sim::violation (cls, "%s (%s): channel %zu frame %zu is %.9g, expected %.9g..%.9g (+-%.2g)", what.c_str(), typeName<S>(), c, offset + n,
                                (double) got[c][n], m[c][offset + n].lo, m[c][offset + n].hi, m[c][offset + n].err);
}

inline uint64_t hashOf (const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* b = (const unsigned char*) p;

    for (size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 0x100000001b3ull;

    return h;
}

template <typename S> uint64_t hashOf (const hart::AudioBuffer<S>& b)
{
    uint64_t h = 99;

    for (size_t c = 0; c < b.getNumChannels(); ++c)
        h = hashOf (b[c], b.getNumFrames() * sizeof (S), h);

    return h;
}

// Memory that is never what a component is supposed to have left there
template <typename S> void poison (hart::AudioBuffer<S>& b)
{
    for (size_t c = 0; c < b.getNumChannels(); ++c)
        for (size_t n = 0; n < b.getNumFrames(); ++n)
            b[c][n] = (S) (7.7e8 + (double) n);
}

template <typename S> using Planes = std::vector<std::vector<S>>;

template <typename S> void appendPlanes (Planes<S>& p, const hart::AudioBuffer<S>& b)
{
    if (p.size() < b.getNumChannels())
        p.resize (b.getNumChannels());

    for (size_t c = 0; c < b.getNumChannels(); ++c)
        p[c].insert (p[c].end(), b[c], b[c] + b.getNumFrames());
}

// Parses options the way a program's main() would
inline void setOptions (const std::vector<std::string>& args)
{
    sim::Pause p;
    static bool inited = false;
    auto& cfg = hart::CLIConfig::getInstance();

    if (! inited)
    {
        cfg.initCommandLineArgs();
        inited = true;
    }

    std::vector<std::string> reversed (args.rbegin(), args.rend());
    cfg.getCLIApp().parse (reversed);
}

}  // namespace kit
