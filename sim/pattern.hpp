// A DSP whose output is a known function of channel and frame, for checks of what is saved.
#pragma once

#include "kit.hpp"

namespace kit
{
struct Pattern
{
    uint64_t salt = 0;
    double range = 1;
    bool specials = true;      // full scale, beyond it, denormals, infinities
    bool nans = false;

    template <typename S> S at (size_t ch, size_t frame) const
    {
        uint64_t x = (salt * 1000003 + ch) * 1000003 + frame + 1;
        x ^= x >> 31; x *= 0x7fb5d329728ea185ull;
        x ^= x >> 27; x *= 0x81dadef4bc2dd44dull;
        x ^= x >> 33;

        if (specials && x % 8 == 0)
        {
            const double s[] = { 1, -1, 0, -0.0, 1.0001, -1.0001, 3, -7.5, 1e-310, 1e-30, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 0.99999, -0.99999, 1e-5, -1e-5, 20, -100, 1e6, -1e9 };
            return (S) s[(x >> 8) % 20];
        }

        if (nans && x % 16 == 1)
            return std::numeric_limits<S>::quiet_NaN();

        return (S) (((double) (x >> 11) / (double) (1ull << 52) - 1) * range);
    }

    std::string text() const { return fmt ("pattern %llu x %g%s%s", (unsigned long long) salt, range, specials ? " with special values" : "", nans ? " with NaN" : ""); }
};

template <typename S>
class PatternDsp : public hart::DSP<S>
{
public:
    using SampleType = S;
    Pattern pattern;
    size_t pos = 0;

    explicit PatternDsp (Pattern p) : pattern (p) {}
    void prepare (double, size_t, size_t, size_t) override {}
    void reset() override { pos = 0; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "PatternDsp()"; }

    void process (const hart::AudioBuffer<S>&, hart::AudioBuffer<S>& out, const hart::EnvelopeBuffers&) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t n = 0; n < out.getNumFrames(); ++n)
                out[c][n] = pattern.at<S> (c, pos + n);

        pos += out.getNumFrames();
    }

    HART_DSP_DEFINE_COPY_AND_MOVE (PatternDsp);
};

// Is the stored value v rounded to the format? (integer formats: raw integers)
inline bool storedRight (double v, double stored, hart::WavFormat format)
{
    if (format == hart::WavFormat::float32)
    {
        if (std::isnan (v))
            return std::isnan (stored);

        const double f = (double) (float) v;
        return stored == f || std::abs (stored - f) <= std::abs (f) * 1.3e-7 + 1e-37;
    }

    if (std::isnan (v))
        return true;

    const double scale = format == hart::WavFormat::pcm16 ? 32767.0 : format == hart::WavFormat::pcm24 ? 8388607.0 : 2147483647.0;
    const double e = std::min (scale, std::max (-scale, v * scale));
    return std::abs (stored - e) <= 1.01;
}

inline const char* formatName (hart::WavFormat f)
{
    return f == hart::WavFormat::pcm16 ? "pcm16" : f == hart::WavFormat::pcm24 ? "pcm24" : f == hart::WavFormat::pcm32 ? "pcm32" : "float32";
}

inline uint32_t formatBits (hart::WavFormat f) { return f == hart::WavFormat::pcm16 ? 16 : f == hart::WavFormat::pcm24 ? 24 : 32; }
inline uint32_t formatTag (hart::WavFormat f) { return f == hart::WavFormat::float32 ? 3 : 1; }

// What is wrong with a file that is said to hold the pattern (empty: nothing)
template <typename S>
std::string savedProblem (const std::string& bytes, const Pattern& p, double sr, size_t ch, size_t frames, hart::WavFormat format, bool complete)
{
    const ParsedWav w = parseWav (bytes);

    if (complete ? ! w.ok : ! w.header)
        return complete ? "not a valid wav file: " + w.problem : "";

    if (w.tag != formatTag (format) || w.bits != formatBits (format))
        return fmt ("format %u with %u bits instead of %s", w.tag, w.bits, formatName (format));

    if (std::abs ((double) w.sr - sr) >= 1)
        return fmt ("%u Hz instead of %g Hz", w.sr, sr);

    if (w.ch != ch)
        return fmt ("%u channels instead of %zu", w.ch, ch);

    if (complete ? w.frames != frames : w.frames > frames)
        return fmt ("%u frames instead of %zu", w.frames, frames);

    for (size_t c = 0; c < ch; ++c)
        for (size_t n = 0; n < w.frames; ++n)
            if (! storedRight ((double) p.at<S> (c, n), w.data[c][n], format))
                return fmt ("channel %zu frame %zu is %.10g, but the audio there is %.10g", c, n, w.data[c][n], (double) p.at<S> (c, n));

    return "";
}

}  // namespace kit
