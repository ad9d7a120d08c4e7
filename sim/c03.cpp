// C03: a reset or re-used component behaves like a fresh one
#include "hosttest.hpp"
#include "probes.hpp"

using namespace kit;

namespace
{
// Rounding may differ (a phase given as -0.1 or as 2 pi - 0.1), what is audible must not
template <typename S> double tolerance() { return sizeof (S) == 4 ? 2e-6 : 1e-9; }

template <typename S> void sameAudio (const char* cls, const std::string& what, const hart::AudioBuffer<S>& got, const hart::AudioBuffer<S>& want, size_t offset)
{
    for (size_t c = 0; c < want.getNumChannels(); ++c)
        for (size_t n = 0; n < want.getNumFrames(); ++n)
            if (! (std::abs ((double) got[c][n] - (double) want[c][n]) <= tolerance<S>() * (1 + std::abs ((double) want[c][n]))) && ! (got[c][n] == want[c][n]))
                sim::violation (cls, "%s (%s): channel %zu frame %zu is %.9g, a new one gives %.9g", what.c_str(), typeName<S>(), c, offset + n, (double) got[c][n], (double) want[c][n]);
}

// Renders with allocations failing at some point, and swallows the exception
template <typename F> bool interrupted (F f)
{
    const uint64_t k = pick (6);
    bool threw = false;
    sim::AllocFaults::armNth (k);

    try { f(); }
    catch (const std::bad_alloc&) { threw = true; }

    sim::AllocFaults::disarm();

    if (threw)
        sim::probe ("cut short by an allocation failure");

    return threw;
}

template <typename S> void signalHistory()
{
    GenOptions o;
    o.sr = genSampleRate();
    o.channels = 1 + pick (3);
    o.frames = 100 + pick (1500);
    SignalSpec spec = genSignal (o);
    logf ("signal<%s> %s at %g Hz", typeName<S>(), spec.text().c_str(), o.sr);
    auto used = spec.build<S>();
    const size_t episodes = 1 + pick (3);
    const bool fixedRate = spec.kind == SignalSpec::wav;

    double lastRate = 0;

    for (size_t e = 0; e < episodes; ++e)
    {
        const double sr = fixedRate ? o.sr : genSampleRate();
        const size_t ch = 1 + pick (o.channels), block = 1 + pick (500), blocks = pick (8);
        const bool fault = chance (1, 4), order = chance (1, 2) || sr != lastRate;  // no new rate in the middle of the audio
        lastRate = sr;
        logf ("episode: %g Hz, %zu ch, %zu x %zu frames%s", sr, ch, blocks, block, fault ? ", allocation fault" : "");
        auto body = [&]
        {
            if (order) used->resetWithDSPChain();
            used->prepareWithDSPChain (sr, ch, block);

            for (size_t b = 0; b < blocks; ++b)
            {
                hart::AudioBuffer<S> a (ch, block);
                used->renderNextBlockWithDSPChain (a);
            }
        };

        if (fault)
            interrupted (body);
        else
            body();

        if (fixedRate && chance (1, 3))
        {
            bool threw = false;
            try { used->prepareWithDSPChain (o.sr + 1, 1, block); } catch (const std::exception&) { threw = true; }

            if (! threw)
                sim::violation ("rate-accepted", "a wav file was prepared for another sample rate");

            sim::probe ("rejected preparation");
        }

        sim::simulatedFrames ((double) (block * blocks), sr);
    }

    auto fresh = spec.build<S>();
    const bool resetFresh = chance (1, 2);
    const bool prepareFirst = chance (1, 3);
    const size_t block = 1 + pick (400), blocks = 1 + pick (6);

    if (prepareFirst) used->prepareWithDSPChain (o.sr, o.channels, block);
    used->resetWithDSPChain();
    if (! prepareFirst) used->prepareWithDSPChain (o.sr, o.channels, block);

    if (resetFresh)
        fresh->resetWithDSPChain();

    fresh->prepareWithDSPChain (o.sr, o.channels, block);
    logf ("reset; %zu blocks of %zu", blocks, block);

    for (size_t b = 0; b < blocks; ++b)
    {
        hart::AudioBuffer<S> a (o.channels, block), w (o.channels, block);
        poison (a);
        used->renderNextBlockWithDSPChain (a);
        fresh->renderNextBlockWithDSPChain (w);
        sameAudio<S> ("signal-remembers", "reset " + spec.text(), a, w, b * block);
        sim::mixState (hashOf (a));
    }
}

template <typename S> void dspHistory()
{
    const double sr = genSampleRate();
    DspSpec spec = genDsp (true, 0.05);
    logf ("dsp<%s> %s", typeName<S>(), spec.text().c_str());
    auto used = spec.build<S>();
    auto fresh = spec.build<S>();
    const size_t episodes = 1 + pick (3);
    const uint64_t salt = pick (100);

    for (size_t e = 0; e < episodes; ++e)
    {
        const double esr = genSampleRate();
        const size_t ch = 1 + pick (3), block = 1 + pick (500), blocks = pick (8);
        const bool fault = chance (1, 4);
        logf ("episode: %g Hz, %zu ch, %zu x %zu frames%s", esr, ch, blocks, block, fault ? ", allocation fault" : "");
        auto body = [&]
        {
            used->prepareWithEnvelopes (esr, ch, ch, block);

            for (size_t b = 0; b < blocks; ++b)
            {
                hart::AudioBuffer<S> a (ch, block), out (ch, block);

                for (size_t c = 0; c < ch; ++c)
                    for (size_t n = 0; n < block; ++n)
                        a[c][n] = (S) (3 * contentAt (salt + 7, c, n + b));

                used->processWithEnvelopes (a, out);
            }
        };

        if (fault)
            interrupted (body);
        else
            body();
    }

    const size_t ch = 1 + pick (3), block = 1 + pick (400), blocks = 1 + pick (6);

    if (chance (1, 2))
    {
        const double v = realIn (-3, 3);
        used->setValue (0, v);
        fresh->setValue (0, v);
    }

    used->resetWithEnvelopes();
    used->prepareWithEnvelopes (sr, ch, ch, block);
    fresh->prepareWithEnvelopes (sr, ch, ch, block);
    logf ("reset; %g Hz, %zu ch, %zu blocks of %zu", sr, ch, blocks, block);

    for (size_t b = 0; b < blocks; ++b)
    {
        hart::AudioBuffer<S> in (ch, block), a (ch, block), w (ch, block);

        for (size_t c = 0; c < ch; ++c)
            for (size_t n = 0; n < block; ++n)
                in[c][n] = (S) contentAt (salt, c, b * block + n);

        poison (a);
        used->processWithEnvelopes (in, a);
        fresh->processWithEnvelopes (in, w);
        sameAudio<S> ("dsp-remembers", "reset " + spec.text(), a, w, b * block);
        sim::mixState (hashOf (a));
    }
}

void envelopeHistory()
{
    EnvSpec spec = genEnv (-2, 3, 0.2);
    logf ("envelope %s", spec.text().c_str());
    auto used = spec.build(), fresh = spec.build();
    const size_t episodes = 1 + pick (3);

    for (size_t e = 0; e < episodes; ++e)
    {
        const size_t block = 1 + pick (500), blocks = pick (20);
        used.prepare (genSampleRate(), block);

        for (size_t b = 0; b < blocks; ++b)
        {
            std::vector<double> v (block);
            used.renderNextBlock (block, v);
        }
    }

    const double sr = genSampleRate();
    const size_t block = 1 + pick (400), blocks = 1 + pick (10);

    if (chance (1, 2)) { used.reset(); used.prepare (sr, block); }
    else { used.prepare (sr, block); used.reset(); }

    fresh.prepare (sr, block);

    for (size_t b = 0; b < blocks; ++b)
    {
        std::vector<double> v (block, 777.0), w (block, 888.0);
        used.renderNextBlock (block, v);
        fresh.renderNextBlock (block, w);

        for (size_t n = 0; n < block; ++n)
            if (v[n] != w[n])
                sim::violation ("envelope-remembers", "reset %s: frame %zu is %.9g, a new one gives %.9g", spec.text().c_str(), b * block + n, v[n], w[n]);

        sim::mixState (hashOf (v.data(), block * sizeof (double)));
    }
}

template <typename S> void matcherHistory()
{
    HostOptions o;
    HostSpec h = genHost (o);
    CheckSpec c = genCheck (h, o);
    const size_t channels = std::max (h.inCh, h.outCh);
    logf ("matcher<%s> %s, %g Hz, %zu ch", typeName<S>(), c.text().c_str(), h.sr, channels);
    auto used = c.build<S>();
    const uint64_t salt = pick (100);
    auto audioFor = [&] (size_t ch, size_t frames, double gain, bool reference, size_t offset)
    {
        sim::Pause p;
        hart::AudioBuffer<S> a (ch, frames);

        for (size_t k = 0; k < ch; ++k)
            for (size_t n = 0; n < frames; ++n)
                a[k][n] = (S) (gain * contentAt (salt, k, offset + n));

        if (reference && c.kind == CheckSpec::equals)
        {
            auto s = c.ref.build<S>();
            s->resetWithDSPChain();
            s->prepareWithDSPChain (h.sr, ch, frames);

            for (size_t done = 0; done <= offset; done += frames)
                s->renderNextBlockWithDSPChain (a);
        }

        return a;
    };
    const size_t episodes = 1 + pick (3);

    for (size_t e = 0; e < episodes; ++e)
    {
        const size_t ch = 1 + pick (channels), block = 1 + pick (300), blocks = pick (5);
        const bool good = chance (1, 2), fault = chance (1, 4);
        const double gain = oneOf<double> ({ 0.01, 1, 100 });
        auto body = [&]
        {
            used->prepare (h.sr, ch, block);

            for (size_t b = 0; b < blocks; ++b)
                used->match (audioFor (ch, block, gain, good, b * block));
        };

        if (fault)
            interrupted (body);
        else
            body();
    }

    auto fresh = c.build<S>();
    const size_t block = 1 + pick (300), blocks = 1 + pick (4);
    used->prepare (h.sr, channels, block);
    used->reset();
    fresh->prepare (h.sr, channels, block);

    if (chance (1, 2))
        fresh->reset();

    const size_t badBlock = pick (2 * blocks);
    logf ("reset; %zu blocks of %zu", blocks, block);

    for (size_t b = 0; b < blocks; ++b)
    {
        auto a = audioFor (channels, block, 1.0, b != badBlock, b * block);
        const bool x = used->match (a), y = fresh->match (a);
        logf ("verdict %d", y);

        if (x != y)
            sim::violation ("matcher-remembers", "%s (%s): block %zu %s, but a new one says it %s", c.text().c_str(), typeName<S>(), b, x ? "matches" : "does not match", y ? "does" : "does not");

        if (! x)
        {
            const auto d = used->getFailureDetails(), w = fresh->getFailureDetails();

            if (d.frame != w.frame || d.channel != w.channel || d.description != w.description)
                sim::violation ("matcher-details", "%s (%s): details differ from those of a new one: ch %zu frame %zu %s / ch %zu frame %zu %s", c.text().c_str(), typeName<S>(),
                                d.channel, d.frame, d.description.c_str(), w.channel, w.frame, w.description.c_str());
            break;
        }
    }
}

// A whole test that fails somehow and is processed again; the returned DSP is processed again
template <typename S> void hostHistory()
{
    HostOptions o;
    o.maxFrames = 800;
    HostSpec h = genHost (o);
    const bool wav = chance (1, 2), plot = chance (1, 4);

    if (wav) { h.wavMode = chance (1, 2) ? hart::Save::always : hart::Save::whenFails; h.wavPath = "/simfs/out/a.wav"; }
    if (plot) { h.plotMode = chance (1, 2) ? hart::Save::always : hart::Save::whenFails; h.plotPath = "/simfs/out/a.svg"; }

    Journal journal;
    Cfg fx = probeCfg ("fx", &journal), matcher = probeCfg ("matcher", &journal);
    fx->recordAudio = false;
    logf ("host<%s> %s", typeName<S>(), h.text().c_str());
    const bool withProbe = chance (1, 2);

    // How the first attempts end
    const int how = (int) pick (5);
    Cfg victim = withProbe ? fx : matcher;

    if (how == 1 || how == 2)
    {
        victim->throws = true;
        victim->throwCall = oneOf ({ Call::audio, Call::prepare, Call::reset });
        victim->throwAt = victim->throwCall == Call::audio ? (unsigned) pick (5) : 0;
        victim->throwType = (int) pick (4);
    }

    auto make = [&] (hart::AudioTestBuilder<S>& b, bool faulty)
    {
        h.configure<S> (b);

        if (withProbe)
        {
            Cfg c = faulty ? fx : probeCfg ("fx", nullptr);
            c->recordAudio = false;
            auto in = h.input.build<S>();
            in->followedBy (ProbeDsp<S> (c));
            b.withInputSignal (*in);
        }
        else
        {
            Cfg c = faulty ? matcher : probeCfg ("matcher", nullptr);
            c->recordAudio = false;
            c->verdicts = { 1, 1, 1, 0 };
            b.expectTrue (ProbeMatcher<S> (c));
        }
    };

    auto files = [&] { return (sim::fs::exists ("/simfs/out/a.wav") ? sim::fs::getFile ("/simfs/out/a.wav") : std::string ("none")) + "|" + (sim::fs::exists ("/simfs/out/a.svg") ? sim::fs::getFile ("/simfs/out/a.svg") : std::string ("none")); };
    auto wipe = [&] { std::remove ("/simfs/out/a.wav"); std::remove ("/simfs/out/a.svg"); };

    std::unique_ptr<hart::DSP<S>> returned, freshReturned;
    hart::AudioTestBuilder<S> used (h.dsp.build<S>());
    make (used, true);
    Outcome last;
    bool reusable = true;
    const int attempts = 1 + (int) pick (3);

    for (int i = 0; i < attempts && reusable; ++i)
    {
        if (how == 3)
        {
            const uint64_t k = pick (200);
            sim::AllocFaults::armNth (k);
        }

        if (how == 4)
        {
            sim::fs::addFault ({ oneOf ({ sim::fs::Op::open, sim::fs::Op::write, sim::fs::Op::close }), pick (3), sim::fs::Effect::enospc, 0 });
            sim::fs::armFaults (true);
        }

        last = observe ([&] { returned = used.process(); });
        sim::AllocFaults::disarm();
        sim::fs::armFaults (false);
        logf ("attempt: %s", last.summary().c_str());

        // A test whose run did not return can be processed again
        reusable = last.kind != Outcome::passed;
    }

    fx->throws = matcher->throws = false;
    hart::AudioTestBuilder<S> fresh (h.dsp.build<S>());
    make (fresh, false);
    wipe();

    if (reusable)
    {
        const Outcome got = observe ([&] { returned = used.process(); });
        const std::string gotFiles = files();
        wipe();
        const Outcome want = observe ([&] { freshReturned = fresh.process(); });
        const std::string wantFiles = files();
        logf ("again: %s", want.summary().c_str());
        sim::probe ("processed again after a failure");

        if (! (got == want))
            sim::violation ("host-remembers", "a test processed again after a failure gives %s, a new one %s", got.all().c_str(), want.all().c_str());

        if (gotFiles != wantFiles)
            sim::violation ("host-remembers-files", "a test processed again after a failure writes other files than a new one");

        return;
    }

    // Re-use of the returned DSP, in another test with other settings
    HostSpec h2 = h;
    h2.block = 1 + pick (300);
    h2.frames = 1 + pick (800);

    if (h.input.kind != SignalSpec::wav)
        h2.sr = genSampleRate();

    h2.wavMode = hart::Save::always;
    h2.wavPath = "/simfs/out/a.wav";
    h2.format = hart::WavFormat::float32;
    h2.plotMode = hart::Save::never;
    h2.checks.clear();

    if (chance (1, 2))
        h2.checks.push_back (genCheck (h2, o));

    logf ("returned DSP in %s", h2.text().c_str());
    sim::probe ("returned DSP re-used");
    const int how2 = (int) pick (3);
    Outcome got, want;
    {
        std::unique_ptr<hart::AudioTestBuilder<S>> b;

        if (how2 == 0) b.reset (new hart::AudioTestBuilder<S> (std::move (returned)));
        else b.reset (new hart::AudioTestBuilder<S> (returned->copy()));

        h2.configure<S> (*b);
        got = observe ([&] { b->process(); });
    }
    const std::string gotFiles = files();
    wipe();
    {
        // The values of the first test were given to the DSP as well
        auto d = h.dsp.build<S>();

        for (auto& v : h.values)
            d->setValue (v.first, v.second);

        hart::AudioTestBuilder<S> b (std::move (d));
        h2.configure<S> (b);
        want = observe ([&] { b.process(); });
    }

    if (! (got == want))
        sim::violation ("returned-dsp-remembers", "with the DSP of a previous run: %s, with a new one: %s", got.all().c_str(), want.all().c_str());

    if (gotFiles != files())
        sim::violation ("returned-dsp-audio", "the DSP of a previous run produces other audio than a new one");
}

// Some earlier use of a component; what it does is not looked at
template <typename S> void useSignal (hart::Signal<S>& s, const SignalSpec& spec, double fileRate)
{
    const double sr = spec.kind == SignalSpec::wav ? fileRate : genSampleRate();
    const size_t ch = 1, block = 1 + pick (200), blocks = 1 + pick (5);
    s.prepareWithDSPChain (sr, ch, block);

    for (size_t b = 0; b < blocks; ++b)
    {
        hart::AudioBuffer<S> a (ch, block);
        s.renderNextBlockWithDSPChain (a);
    }
}

template <typename S> void useDsp (hart::DSP<S>& d)
{
    const size_t ch = 1 + pick (2), block = 1 + pick (200), blocks = 1 + pick (5);
    d.prepareWithEnvelopes (genSampleRate(), ch, ch, block);

    for (size_t b = 0; b < blocks; ++b)
    {
        hart::AudioBuffer<S> in (ch, block), out (ch, block);
        d.processWithEnvelopes (in, out);
    }
}

template <typename S, typename M> M useMatcher (M m, double sr)
{
    const size_t block = 1 + pick (200), blocks = 1 + pick (5);
    m.prepare (sr, 1, block);

    for (size_t b = 0; b < blocks; ++b)
    {
        hart::AudioBuffer<S> a (1, block);

        for (size_t n = 0; n < block; ++n)
            a[0][n] = (S) (20 * contentAt (5, 0, n));

        m.match (a);
    }

    return m;
}

// A test made of components that were used before, against the same test made of new ones
template <typename S> void usedComponents()
{
    HostOptions o;
    o.maxFrames = 800;
    HostSpec h = genHost (o);
    h.wavMode = hart::Save::always;
    h.wavPath = "/simfs/out/a.wav";
    const int which = 1 + (int) pick (7);
    logf ("components used before (%d): host<%s> %s", which, typeName<S>(), h.text().c_str());
    auto file = [&] { return sim::fs::exists ("/simfs/out/a.wav") ? sim::fs::getFile ("/simfs/out/a.wav") : std::string ("none"); };
    Outcome got, want;

    {
        HostSpec bare = h;
        bare.checks.clear();
        auto dsp = h.dsp.build<S>();

        if (which & 1)
            useDsp (*dsp);

        const int handing = (int) pick (3);
        hart::AudioTestBuilder<S> b = handing == 0 ? hart::AudioTestBuilder<S> (std::move (dsp)) : handing == 1 ? hart::AudioTestBuilder<S> (*dsp) : hart::AudioTestBuilder<S> (std::move (*dsp));
        bare.configure<S> (b);

        if (which & 2)
        {
            auto in = h.input.build<S>();
            useSignal (*in, h.input, h.sr);
            b.withInputSignal (*in);
        }

        for (auto& c : h.checks)
        {
            const bool use = which & 4, byMove = chance (1, 2);
            const int how = (int) pick (2);

            if (! use)
            {
                c.attach (b, byMove);
                continue;
            }

            if (c.kind == CheckSpec::equals)
            {
                auto ref = c.ref.build<S>();

                if (how == 0)
                    useSignal (*ref, c.ref, h.sr);

                hart::EqualsTo<S> m (*ref, c.tol);
                c.attachOne<S> (b, how == 0 ? std::move (m) : useMatcher<S> (std::move (m), h.sr), byMove);
            }
            else if (c.kind == CheckSpec::peaksAt)
                c.attachOne<S> (b, useMatcher<S> (hart::PeaksAt<S> (c.level, c.tol), h.sr), byMove);
            else
                c.attachOne<S> (b, useMatcher<S> (hart::PeaksBelow<S> (c.level, c.tol), h.sr), byMove);
        }

        got = observe ([&] { b.process(); });
    }

    const std::string gotFile = file();
    std::remove ("/simfs/out/a.wav");

    {
        hart::AudioTestBuilder<S> b (h.dsp.build<S>());
        h.configure<S> (b);
        want = observe ([&] { b.process(); });
    }

    logf ("%s", want.summary().c_str());
    sim::simulatedFrames (2.0 * (double) h.frames, h.sr);
    sim::probe ("components used before");

    if (! (got == want))
        sim::violation ("used-component-remembers", "made of components used before, the test gives %s, made of new ones %s", got.all().c_str(), want.all().c_str());

    if (gotFile != file())
        sim::violation ("used-component-audio", "made of components used before, the test produces other audio than made of new ones");

    sim::mixState (hashOf (gotFile.data(), gotFile.size()));
}

template <typename S> void runTyped()
{
    sim::nontrivial();

    switch (pick (6))
    {
        case 0: signalHistory<S>(); break;
        case 1: hostHistory<S>(); break;
        case 2: dspHistory<S>(); break;
        case 3: matcherHistory<S>(); break;
        case 4: usedComponents<S>(); break;
        default: envelopeHistory(); break;
    }
}

void run()
{
    setOptions ({});

    if (chance (1, 2))
        runTyped<float>();
    else
        runTyped<double>();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C03", run, 12000, 250000,
    "a stock signal (with chain), effect, envelope, matcher or complete test is used for 1-3 random episodes (other rates, block sizes, layouts, partial rendering; cut short by allocation faults, throwing callbacks, "
    "rejections, failed assertions or disk faults), then reset or processed again (or the DSP returned by the host is put into another test, or a test is made of used components), and compared with a newly made one. Non-trivial: every run.",
    "signals, effects, envelopes, matchers, AudioTestBuilder, WavWriter, plot", "disk (simulated), allocator (faults), one effect or matcher of the host test (instrumented)", 60
};
