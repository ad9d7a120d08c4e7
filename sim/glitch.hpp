// A host test whose output is known sample by sample, with planned bad samples close to the limits of its checks.
#pragma once

#include "hosttest.hpp"

namespace kit
{
enum class Tri { no, yes, unsure };

template <typename S>
struct GlitchTest
{
    double sr = 44100;
    size_t ch = 1, block = 64, frames = 100;
    SignalSpec input;
    std::vector<CheckSpec> checks;
    std::vector<Planes<double>> refs;       // of the checks (EqualsTo)
    std::shared_ptr<typename GlitchDsp<S>::Shared> dsp = std::make_shared<typename GlitchDsp<S>::Shared>();
    std::string label;

    double seconds() const { return (double) frames / sr; }

    // The signal in one piece (that it does not depend on the partition is C01), or in the blocks of the test if it is automated
    Planes<double> render (const SignalSpec& spec) const
    {
        sim::Pause p;
        auto s = spec.template build<S>();
        s->resetWithDSPChain();
        s->prepareWithDSPChain (sr, ch, block);
        Planes<double> out (ch);

        for (size_t done = 0; done < frames; done += block)
        {
            hart::AudioBuffer<S> b (ch, std::min (block, frames - done));
            s->renderNextBlockWithDSPChain (b);
            for (size_t c = 0; c < ch; ++c)
                out[c].insert (out[c].end(), b[c], b[c] + b.getNumFrames());
        }

        return out;
    }

    size_t someFrame() const
    {
        const size_t kind = pick (6);
        const size_t f = (size_t) pick (frames);

        switch (kind)
        {
            case 1: return 0;
            case 2: return frames - 1;
            case 3: return std::min (frames - 1, f / block * block);
            case 4: return std::min (frames - 1, f / block * block + block - 1);
            default: return f;
        }
    }

    // Peak of the output as planned so far
    double peak (const Planes<double>& audio) const
    {
        double m = 0;

        for (size_t c = 0; c < ch; ++c)
            for (size_t n = 0; n < frames; ++n)
                m = std::max (m, std::abs (planned (audio, c, n)));

        return m;
    }

    double planned (const Planes<double>& audio, size_t c, size_t n) const
    {
        double v = audio[c][n];

        for (auto& g : dsp->glitches)
            if (g.ch == c && g.frame == n)
                v = g.value;

        return v;
    }

    static double toDb (double v) { return v < 1e-6 ? -120.0 : 20 * std::log10 (v); }

    void generate (size_t maxChecks, bool assertions, bool allowAutomation, bool nonFinite = true)
    {
        sr = genSampleRate();
        ch = chance (1, 3) ? 1 : 1 + pick (4);
        block = chance (1, 4) ? oneOf<size_t> ({ 1, 2, 3 }) : oneOf<size_t> ({ 64, 16, 100, 1024 }) + pick (5);
        frames = 1 + pick (chance (1, 2) ? 600 : 3 * std::min<size_t> (block, 300));

        if (block < 4)
            frames = 1 + frames % 60;

        if (outsized())
        {
            ch = 5 + pick (124);
            frames = 1 + frames % 80;
        }
        else if (chance (1, 60))
        {
            sim::probe ("outsized");
            ch = 1 + pick (2);
            frames = 3000 + pick (chance (1, 2) ? 30000 : 200000);
            block = chance (1, 2) ? 65000 + pick (1000) : 1 + frames / (1 + pick (60));
        }

        GenOptions o;
        o.sr = sr;
        o.channels = ch;
        o.frames = frames;
        o.env = allowAutomation;
        o.maxChain = 2;
        input = genSignal (o);
        const Planes<double> audio = render (input);
        const size_t numChecks = frames < 1000 && outsized() ? 1 + pick (4 * maxChecks) : 1 + pick (maxChecks);

        // Levels of peak checks are chosen after the glitches
        for (size_t i = 0; i < numChecks; ++i)
        {
            CheckSpec c;
            c.kind = (CheckSpec::Kind) pick (3);
            c.inverted = chance (1, 4);
            c.assertion = assertions && chance (1, 4);
            c.tol = oneOf<double> ({ 1e-3, 1e-5, 0.1, 0.7 });

            if (c.kind == CheckSpec::equals)
                c.ref = input;

            checks.push_back (c);
        }

        const size_t numGlitches = pick (4);

        for (size_t i = 0; i < numGlitches; ++i)
        {
            const CheckSpec& c = checks[pick (checks.size())];
            Glitch g;
            g.ch = (size_t) pick (ch);
            g.frame = someFrame();
            const double v = audio[g.ch][g.frame];
            const double sign = chance (1, 2) ? -1 : 1;

            switch (pick (nonFinite ? 8 : 5))
            {
                case 0: case 1: g.value = v + sign * c.tol * oneOf<double> ({ 0.98, 1.02, 0.996, 1.004, 0.5, 2, 100 }); g.what = "bad-sample:offset"; break;
                case 2: g.value = -v; g.what = "bad-sample:sign"; break;
                case 3: g.value = 0; g.what = "bad-sample:dropout"; break;
                case 4: g.value = sign * realIn (0, 3); g.what = "bad-sample:level"; break;
                case 5: g.value = std::numeric_limits<double>::quiet_NaN(); g.what = "bad-sample:nan"; break;
                case 6: g.value = sign * std::numeric_limits<double>::infinity(); g.what = "bad-sample:inf"; break;
                default: g.value = v + sign * c.tol * 1.02; g.what = "bad-sample:offset"; break;
            }

            dsp->glitches.push_back (g);
        }

        double m = peak (audio);

        if (! std::isfinite (m))
            m = 1;

        for (auto& c : checks)
        {
            const double k = oneOf<double> ({ 0.97, 1.03, 0.996, 1.004, 0.5, 3 });

            if (c.kind == CheckSpec::peaksAt)
                c.level = toDb (std::max (0.0, m + (chance (1, 2) ? -1 : 1) * c.tol * k));
            else if (c.kind == CheckSpec::peaksBelow)
                c.level = toDb (std::max (0.0, m - c.tol * k));

            refs.push_back (c.kind == CheckSpec::equals ? render (c.ref) : Planes<double>());
        }

        if (chance (1, 2))
            label = fmt ("label%d", (int) pick (3));

        std::string s = fmt ("test<%s> %g Hz, %zu ch, block %zu, %zu frames, %s", typeName<S>(), sr, ch, block, frames, input.text().c_str());

        for (auto& g : dsp->glitches)
            s += fmt ("; ch %zu frame %zu := %.9g", g.ch, g.frame, g.value);

        for (auto& c : checks)
            s += "; " + c.text();

        logf ("%s", s.c_str());
    }

    void configure (hart::AudioTestBuilder<S>& h) const
    {
        h.withSampleRate (sr).withBlockSize (block).withDuration (seconds()).withInputChannels (ch).withOutputChannels (ch).withInputSignal (*input.template build<S>());

        if (! label.empty())
            h.withLabel (label);
    }

    // Is the sample where the condition of the check does not hold? (for peaksAt: is it the peak)
    Tri bad (size_t check, double x, size_t c, size_t n, double peakOfAll) const
    {
        const CheckSpec& k = checks[check];

        if (std::isnan (x))
            return Tri::yes;

        if (k.kind == CheckSpec::equals)
        {
            const double d = std::abs (x - refs[check][c][n]), e = 1e-3 * k.tol + 3e-7 * (1 + std::abs (refs[check][c][n]));
            return d > k.tol + e ? Tri::yes : d < k.tol - e || d == 0 ? Tri::no : Tri::unsure;
        }

        if (k.kind == CheckSpec::peaksBelow)
        {
            const double thr = refDbToRatio (k.level) + k.tol, e = 1e-3 * k.tol + 1e-6 * thr + 1e-7;
            return std::abs (x) > thr + e ? Tri::yes : std::abs (x) < thr - e ? Tri::no : Tri::unsure;
        }

        return std::abs (x) >= peakOfAll ? Tri::yes : Tri::no;
    }

    // Does the condition of the check hold for frames [from, to) of the output?
    Tri holds (size_t check, const Planes<S>& out, size_t from, size_t to) const
    {
        const CheckSpec& k = checks[check];
        double m = 0;
        bool unsure = false;

        for (size_t c = 0; c < out.size(); ++c)
            for (size_t n = from; n < to; ++n)
            {
                const double x = (double) out[c][n];

                if (std::isnan (x))
                    return Tri::no;

                m = std::max (m, std::abs (x));

                if (k.kind == CheckSpec::peaksAt)
                    continue;

                const Tri b = bad (check, x, c, n, 0);

                if (b == Tri::yes)
                    return Tri::no;

                unsure |= b == Tri::unsure;
            }

        if (k.kind == CheckSpec::peaksAt)
        {
            const double target = refDbToRatio (k.level), d = std::abs (m - target), e = 1e-3 * k.tol + 1e-6 * target + 1e-7;
            return d > k.tol + e ? Tri::no : d < k.tol - e ? Tri::yes : Tri::unsure;
        }

        return unsure ? Tri::unsure : Tri::yes;
    }
};

}  // namespace kit
