// C01: rendered audio does not depend on how it is pulled
#include "kit.hpp"

using namespace kit;

namespace
{
struct Instance
{
    virtual ~Instance() {}
    virtual void step() = 0;
    virtual bool done() const = 0;
};

template <typename S>
struct InstanceOf : Instance
{
    SignalSpec spec;
    double sr;
    size_t channels, maxBlock, total, pos = 0;
    bool fixedBlocks;
    unsigned passes;
    std::unique_ptr<hart::Signal<S>> signal;
    std::vector<std::vector<Iv>> expected;
    std::string name;

    InstanceOf (const std::string& n) : name (n)
    {
        sr = genSampleRate();
        const bool wide = outsized(), lengthy = outsized();
        channels = wide ? 4 + pick (125) : 1 + pick (3);
        total = wide ? 1 + pick (60) : oneOf<size_t> ({ 200, 1000, 50, 3000 }) + pick (200);
        maxBlock = chance (1, 5) ? total + pick (50) : chance (1, 4) ? 1 + pick (4) : 1 + pick (300);

        if (lengthy && ! wide)
        {
            total = 4000 + pick (140000 / channels);
            maxBlock = chance (1, 2) ? total : total / 20 + pick (total);
        }
        passes = 1 + (unsigned) pick (3);
        GenOptions o;
        o.sr = sr;
        o.channels = channels;
        o.frames = total;
        spec = genSignal (o);

        if (spec.kind == SignalSpec::noise)
            sim::probe ("noise");

        fixedBlocks = spec.hasEnv() || chance (1, 2);
        logf ("%s<%s>: %s at %g Hz, %zu ch, %zu frames, blocks %zu%s, %u passes", name.c_str(), typeName<S>(), spec.text().c_str(), sr, channels, total, maxBlock, fixedBlocks ? "" : " (varying)", passes);
        signal = spec.build<S>();
        start();
        expected = spec.model<S> (sr, channels, total);
    }

    void start()
    {
        signal->resetWithDSPChain();
        signal->prepareWithDSPChain (sr, channels, maxBlock);
        pos = 0;
    }

    bool done() const override { return passes == 0; }

    void step() override
    {
        if (pos == total || chance (1, 60))
        {
            if (pos != total)
                sim::probe ("reset in mid-render");

            if (pos == total)
                --passes;

            if (passes == 0)
                return;

            if (chance (1, 3))
            {
                maxBlock = 1 + pick (400);
                sim::probe ("other block size after reset");
            }

            if (chance (1, 4))
            {
                total = 20 + pick (channels > 3 ? 40 : 2000);
                expected = spec.model<S> (sr, channels, total);
                sim::probe ("other length after reset");
            }

            logf ("%s: reset, blocks %zu, %zu frames", name.c_str(), maxBlock, total);
            start();
            return;
        }

        const size_t left = total - pos;
        const size_t n = std::min (left, fixedBlocks ? maxBlock : 1 + (size_t) pick (maxBlock));
        hart::AudioBuffer<S> block (channels, n);
        poison (block);
        signal->renderNextBlockWithDSPChain (block);

        if (block.getNumFrames() != n || block.getNumChannels() != channels)
            sim::violation ("block-resized", "%s changed the size of the block", name.c_str());

        checkAudio<S> ("wrong-sample", name + ": " + spec.text(), block, pos, expected);

        if (spec.kind == SignalSpec::noise && spec.chain.empty())
            for (size_t c = 0; c < channels; ++c)
                for (size_t i = 0; i < n; ++i)
                    if (! (std::abs (block[c][i]) <= (S) 1))
                        sim::violation ("noise-range", "noise sample %.9g", (double) block[c][i]);

        sim::mixState (hashOf (block));
        sim::simulatedFrames ((double) n, sr);
        pos += n;
    }
};

// Uniformity of the noise: coarse enough never to be a matter of luck for the fixed set of seeds
template <typename S> void noiseDistribution()
{
    const uint32_t seed = (uint32_t) pick (1000);
    const size_t n = 20000;
    hart::WhiteNoise<S> w (seed), other (seed + 1);
    hart::AudioBuffer<S> a (2, n), b (2, n);
    w.prepare (44100, 2, n);
    w.reset();
    w.renderNextBlock (a);
    other.prepare (44100, 2, n);
    other.reset();
    other.renderNextBlock (b);
    size_t bins[20] = {}, same = 0, lr = 0;

    for (size_t c = 0; c < 2; ++c)
        for (size_t i = 0; i < n; ++i)
        {
            const double v = (double) a[c][i];

            if (! (v >= -1 && v <= 1))
                sim::violation ("noise-range", "noise sample %.9g", v);

            ++bins[std::min (19, (int) ((v + 1) * 10))];
            same += a[c][i] == b[c][i];
            lr += a[0][i] == a[1][i];
        }

    for (size_t i = 0; i < 20; ++i)   // 2000 expected, standard deviation 44
        if (bins[i] < 1600 || bins[i] > 2400)
            sim::violation ("noise-distribution", "bin %zu of 20 has %zu of 40000 samples", i, bins[i]);

    if (same > n / 10)
        sim::violation ("noise-seed", "different seeds give the same noise");

    if (lr > n / 10)
        sim::violation ("noise-channels", "both channels have the same noise");

    sim::probe ("noise distribution");
}

void run()
{
    if (chance (1, 60))
        chance (1, 2) ? noiseDistribution<double>() : noiseDistribution<float>();

    const size_t count = 1 + pick (4);
    std::vector<std::unique_ptr<Instance>> instances;

    for (size_t i = 0; i < count; ++i)
    {
        const std::string name = fmt ("s%zu", i);

        if (chance (1, 2))
            instances.emplace_back (new InstanceOf<double> (name));
        else
            instances.emplace_back (new InstanceOf<float> (name));
    }

    sim::nontrivial();
    size_t steps = 0;

    while (! instances.empty())
    {
        const size_t i = (size_t) pick (instances.size());
        instances[i]->step();

        if (instances[i]->done())
        {
            instances.erase (instances.begin() + (long) i);
            sim::probe ("instance destroyed while others go on");
        }

        if (++steps > 6000)
            break;
    }
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C01", run, 6000, 120000,
    "1-4 stock signals (silence, sine, sweep, noise, wav file) with chains of 0-3 stock effects with and without automation, float and double, at random rates and channel counts, "
    "rendered in random interleaving and block partitions with resets and other block sizes and lengths in between; every sample is compared with an independent model. "
    "Non-trivial: at least one instance was rendered.",
    "all signals, effects, envelopes, dr_wav reader", "disk (simulated), heap contents", 60
};
