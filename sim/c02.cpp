// C02: the host drives DSP, signals and matchers exactly as documented
#include "probes.hpp"

using namespace kit;

namespace
{
struct Attached { bool inverted; bool assertion; Cfg cfg; };

template <typename S>
void runTyped()
{
    sim::Pause* noPause = nullptr;
    (void) noPause;
    Journal journal;
    const double sr = chance (1, 4) ? 44100.0 : genSampleRate();
    const bool wide = outsized(), many = outsized();
    const size_t inCh = wide ? 1 + pick (128) : chance (1, 4) ? 1 : 1 + pick (4);
    const size_t outCh = chance (1, 2) ? inCh : wide ? 1 + pick (128) : 1 + pick (4);
    const size_t block = oneOf<size_t> ({ 64, 16, 100, 1, 7, 1024, 333 });
    const size_t blocksWanted = many ? 7 + pick (300) : pick (7);
    size_t frames = blocksWanted * block + pick (block + 1);

    if (frames == 0)
        frames = 1;

    frames = std::min<size_t> (frames, wide ? 150 : 4000);
    const bool integral = (double) frames / sr * sr == (double) frames;
    const double duration = (double) frames / sr;
    (void) integral;
    logf ("host<%s>: %g Hz, %zu -> %zu ch, block %zu, %zu frames", typeName<S>(), sr, inCh, outCh, block, frames);

    // Components
    std::vector<Cfg> all;
    auto newCfg = [&] (const std::string& n) { Cfg c = probeCfg (n, &journal); all.push_back (c); return c; };
    Cfg dspCfg = newCfg ("dsp");
    dspCfg->gain = 0.5 + 0.25 * (double) pick (3);
    const int idA = oneOf ({ 3, 0, -7, 2147483647 }), idB = oneOf ({ 8, -2147483647, 65539, 1 });
    dspCfg->envIds = { idA, idB };
    std::map<std::string, std::map<int, EnvSpec>> envs;
    ProbeDsp<S> dsp (dspCfg);

    for (int id : { idA, idB })
        if (chance (1, 3))
        {
            envs["dsp"][id] = genEnv (-4, 4, duration);
            logf ("dsp env %d: %s", id, envs["dsp"][id].text().c_str());
            dsp.withEnvelope (id, envs["dsp"][id].build());
        }

    Cfg sigCfg = newCfg ("signal");
    ProbeSignal<S> signal (sigCfg, [] (size_t c, size_t n) { return contentAt (5, c, n); });
    const size_t numFx = outsized() ? 3 + pick (12) : pick (3);
    std::vector<Cfg> fxCfgs;

    for (size_t i = 0; i < numFx; ++i)
    {
        Cfg c = newCfg (fmt ("fx%zu", i));
        c->gain = 1.5;
        c->envIds = { 1 };
        ProbeDsp<S> fx (c);

        if (chance (1, 3))
        {
            envs[c->name][1] = genEnv (-4, 4, duration);
            fx.withEnvelope (1, envs[c->name][1].build());
        }

        signal.followedBy (fx);
        fxCfgs.push_back (c);
    }

    const size_t numChecks = outsized() ? 4 + pick (20) : pick (4);
    std::vector<Attached> checks;

    for (size_t i = 0; i < numChecks; ++i)
    {
        Attached a;
        a.cfg = newCfg (fmt ("matcher%zu", i));
        a.cfg->perBlock = chance (1, 2);
        a.inverted = chance (1, 3);
        a.assertion = chance (1, 4);

        // Mostly the result that lets the test go on
        const size_t n = pick (3) == 0 ? 0 : pick (4);
        a.cfg->verdicts.assign (n + 1, a.inverted ? 0 : 1);

        if (chance (1, 4))
            a.cfg->verdicts.back() = ! a.cfg->verdicts.back();

        checks.push_back (a);
    }

    std::vector<std::pair<int, double>> values;
    const size_t numValues = outsized() ? 4 + pick (20) : pick (4);

    for (size_t i = 0; i < numValues; ++i)
    {
        const int id = (int) pick (3);
        values.emplace_back (id, realIn (-3, 3));
    }

    // The fault of this run
    Cfg victim = all[pick (all.size())];
    const bool isMatcher = victim->name.compare (0, 7, "matcher") == 0;
    const int faultKind = (int) pick (6);

    if (faultKind == 1 && ! isMatcher) { victim->acceptLayout = false; logf ("%s rejects the layout", victim->name.c_str()); }
    if (faultKind == 2 && ! isMatcher) { victim->acceptRate = false; logf ("%s rejects the rate", victim->name.c_str()); }
    if (faultKind >= 3)
    {
        victim->throws = true;
        victim->throwCall = isMatcher ? oneOf ({ Call::audio, Call::prepare, Call::reset, Call::details, Call::represent })
                                      : oneOf ({ Call::audio, Call::audio, Call::prepare, Call::reset, Call::rate, Call::layout });

        if (victim == dspCfg && ! values.empty() && chance (1, 4))
            victim->throwCall = Call::setValue;

        victim->throwAt = victim->throwCall == Call::audio ? (unsigned) pick (4) : victim->throwCall == Call::setValue ? (unsigned) pick (values.size()) : 0;
        victim->throwType = (int) pick (4);
        logf ("%s throws type %d at call %u of %s", victim->name.c_str(), victim->throwType, victim->throwAt, callName (victim->throwCall));
    }

    // Drive it. The environment of a test: configuration calls in any order
    const char* outcome = "returned";
    bool plannedSeen = false, threw = false;
    std::string what;
    std::unique_ptr<hart::DSP<S>> result;
    bool save = chance (1, 4);

    try
    {
        const int handOver = (int) pick (3);
        std::unique_ptr<hart::AudioTestBuilder<S>> host;

        if (handOver == 0)
            host.reset (new hart::AudioTestBuilder<S> (dsp));
        else if (handOver == 1)
            host.reset (new hart::AudioTestBuilder<S> (std::move (dsp)));
        else
            host.reset (new hart::AudioTestBuilder<S> (dsp.copy()));

        auto setRate = [&] { if (sr != 44100.0 || chance (1, 2)) host->withSampleRate (sr); };
        const bool rateFirst = chance (1, 2);

        if (rateFirst)
            setRate();

        host->withBlockSize (block).withDuration (duration).withInputChannels (inCh).withOutputChannels (outCh).withInputSignal (signal);

        for (auto& v : values)
            host->withValue (v.first, v.second);

        for (auto& c : checks)
        {
            ProbeMatcher<S> m (c.cfg);

            if (c.assertion)
                c.inverted ? host->assertFalse (m) : host->assertTrue (m);
            else
                c.inverted ? host->expectFalse (m) : host->expectTrue (m);
        }

        if (! rateFirst)
            setRate();

        if (save)
            host->saveOutputTo ("/simfs/out/x.wav", chance (1, 2) ? hart::Save::always : hart::Save::whenFails);

        result = host->process();
    }
    catch (const hart::TestAssertException& e) { outcome = "assertion"; what = e.what(); }
    catch (const PlannedError&) { outcome = "planned exception"; plannedSeen = threw = true; }
    catch (const PlannedOddity& o) { outcome = "planned oddity"; plannedSeen = threw = o.n == 42; }
    catch (const std::exception& e) { outcome = "exception"; what = e.what(); threw = true; plannedSeen = what.find (plannedText()) != std::string::npos; }

    logf ("outcome: %s", outcome);
    sim::simulatedFrames ((double) frames, sr);

    // ---------------------------------------------------------------- the history
    auto& ev = journal.events;
    auto violated = [&] (const char* cls, const std::string& text) { sim::violation (cls, "%s", text.c_str()); };
    bool anyAssertCan = false, rejected = false;

    for (auto& c : checks)
        anyAssertCan |= c.assertion;

    for (auto& c : all)
    {
        rejected |= ! c->acceptLayout || ! c->acceptRate;

        if (c->fired && ! plannedSeen)
            violated ("exception-swallowed", c->name + " threw in " + callName (c->throwCall) + ", but process() ended with: " + outcome);
    }

    if (rejected && ! threw)
        violated ("rejection-ignored", victim->name + " rejected the layout or sample rate, but process() ended with: " + outcome);

    if (threw && ! rejected && ! victim->fired)
        violated ("unexpected-exception", "process() ended with an exception nobody asked for: " + what);

    if (! threw && strcmp (outcome, "returned") == 0 && result == nullptr)
        violated ("no-dsp-returned", "process() returned no DSP");

    // The audio as produced by the signal with its chain, and by the DSP
    Planes<double> signalOut, dspOut;
    const std::string lastInChain = fxCfgs.empty() ? "signal" : fxCfgs.back()->name;

    for (auto& e : ev)
    {
        if (e.otherThread)
            violated ("other-thread", e.name + " was called on another thread");

        if (e.call != Call::audio || e.threw)
            continue;

        Planes<double>* dst = e.name == lastInChain ? &signalOut : e.name == "dsp" ? &dspOut : nullptr;

        if (dst != nullptr)
        {
            dst->resize (std::max (dst->size(), e.out.size()));

            for (size_t c = 0; c < e.out.size(); ++c)
                (*dst)[c].insert ((*dst)[c].end(), e.out[c].begin(), e.out[c].end());
        }
    }

    const bool complete = strcmp (outcome, "returned") == 0;

    // Producers and effects: order of callbacks, block sizes, contents
    for (auto& c : all)
    {
        if (c->name.compare (0, 7, "matcher") == 0)
            continue;

        const bool isDsp = c->name == "dsp", isSignal = c->name == "signal";
        const size_t expectIn = inCh, expectOut = isDsp ? outCh : inCh;
        std::string source = "signal";

        for (size_t i = 1; i < fxCfgs.size(); ++i)
            if (c == fxCfgs[i])
                source = fxCfgs[i - 1]->name;

        bool layoutOk = false, rateOk = false, prepared = false, resetDone = false, dead = false, started = false;
        int inst = -1;
        size_t offset = 0;
        std::vector<std::pair<int, double>> seenValues;
        Planes<double> upstream;      // what the previous component in the chain has produced and this one not yet consumed
        size_t consumed = 0;

        for (auto& e : ev)
        {
            if (! isDsp && ! isSignal && e.name == source && e.call == Call::audio && ! e.threw)
            {
                upstream = e.out;
                consumed = 0;
            }

            if (e.name != c->name)
                continue;

            if (dead && e.call == Call::audio)
                violated ("audio-after-rejection", c->name + " got audio after it had rejected something or thrown");

            if (e.threw)
            {
                dead = true;

                if (e.call != Call::audio)
                    continue;
            }

            switch (e.call)
            {
                case Call::layout:
                    if (! e.result) dead = true;
                    else if (e.a == expectIn && e.b == expectOut) layoutOk = true;
                    break;

                case Call::rate:
                    if (! e.result) dead = true;
                    else if (e.x == sr) rateOk = true;
                    break;

                case Call::prepare:
                    if (dead) violated ("prepare-after-rejection", c->name + " was prepared after it had rejected the layout or sample rate");
                    if (! layoutOk) violated ("layout-not-queried", c->name + " was prepared before it was asked about the channel layout");
                    if (! rateOk) violated ("rate-not-queried", c->name + " was prepared before it was asked about the sample rate");
                    if (e.x != sr || e.a != expectIn || e.b != expectOut || e.c != block)
                        violated ("wrong-prepare", c->name + fmt (" was prepared for %g Hz, %zu -> %zu channels, blocks of %zu", e.x, e.a, e.b, e.c));
                    if (started) violated ("prepare-after-audio", c->name + " was prepared in the middle of the audio");
                    prepared = true;
                    inst = e.inst;
                    break;

                case Call::reset:
                    if (started) violated ("reset-after-audio", c->name + " was reset in the middle of the audio");
                    resetDone = true;
                    break;

                case Call::setValue:
                    if (started) violated ("value-after-audio", c->name + " got a parameter value in the middle of the audio");
                    seenValues.emplace_back ((int) e.a, e.x);
                    break;

                case Call::audio:
                {
                    if (! prepared || ! resetDone)
                        violated ("audio-unprepared", c->name + " got audio before reset and prepare");

                    if (e.inst != inst)
                        violated ("audio-other-instance", c->name + ": another instance was prepared than the one that gets the audio");

                    if (! started && isDsp && seenValues != values)
                        violated ("wrong-values", fmt ("dsp got %zu of %zu parameter values, or in another order, before the audio", seenValues.size(), values.size()));

                    started = true;
                    const size_t want = std::min (block, frames - std::min (offset, frames));

                    if (e.a != want || e.b != want || want == 0)
                        violated ("wrong-block-size", c->name + fmt (" got a block of %zu frames at frame %zu of %zu, block size %zu", e.a, offset, frames, block));

                    if (! e.threw && e.out.size() != expectOut)
                        violated ("wrong-channels", c->name + fmt (" got %zu output channels", e.out.size()));

                    if (! isSignal)
                    {
                        if (e.in.size() != expectIn)
                            violated ("wrong-channels", c->name + fmt (" got %zu input channels", e.in.size()));

                        for (size_t ch = 0; ch < expectIn; ++ch)
                            for (size_t n = 0; n < want; ++n)
                            {
                                const double v = isDsp ? (offset + n < signalOut[ch].size() ? signalOut[ch][offset + n] : 1e300)
                                                       : (consumed + n < upstream[ch].size() ? upstream[ch][consumed + n] : 1e300);

                                if (e.in[ch][n] != v)
                                    violated ("wrong-input", c->name + fmt (" got %.9g at channel %zu frame %zu, but %.9g was produced", e.in[ch][n], ch, offset + n, v));
                            }

                        const auto& attached = envs[c->name];

                        for (auto& x : e.env)
                            if (attached.count (x.first) == 0)
                                violated ("foreign-envelope", c->name + fmt (" got automation for parameter %d, which has none", x.first));

                        for (auto& a : attached)
                        {
                            auto got = e.env.find (a.first);

                            if (got == e.env.end())
                                violated ("missing-envelope", c->name + fmt (" got no automation for parameter %d", a.first));

                            if (got->second.size() < want)
                                violated ("short-envelope", c->name + fmt (" got %zu automation values for %zu frames", got->second.size(), want));

                            for (size_t n = 0; n < want; ++n)
                                if (! inside (got->second[n], a.second.at (((double) (offset + n) + 1) / sr)))
                                    violated ("wrong-envelope", c->name + fmt (": automation of parameter %d is %.9g at frame %zu", a.first, got->second[n], offset + n));
                        }
                    }

                    if (! isDsp && e.out.size() > 0)
                        consumed += want;

                    offset += want;
                    break;
                }

                default: break;
            }
        }

        if (complete && offset != frames)
            violated ("wrong-duration", c->name + fmt (" got %zu frames instead of %zu", offset, frames));
    }

    // Matchers
    for (auto& k : checks)
    {
        const std::string& name = k.cfg->name;
        bool prepared = false, resetDone = false, asked = false, matched = false, dead = false, failed = false;
        size_t maxBlock = 0, offset = 0, calls = 0;
        int inst = -1;

        for (auto& e : ev)
        {
            if (e.name != name)
                continue;

            if (dead && e.call == Call::audio)
                violated ("audio-after-exception", name + " got audio after it had thrown");

            if (e.threw)
                dead = true;

            if (e.threw && e.call != Call::audio)
                continue;

            switch (e.call)
            {
                case Call::perBlock: asked = true; break;
                case Call::prepare:
                    if (! asked) violated ("matcher-not-asked", name + " was prepared before canOperatePerBlock()");
                    if (matched) violated ("prepare-after-audio", name + " was prepared in the middle of the audio");
                    if (e.x != sr || e.a != outCh) violated ("wrong-prepare", name + fmt (" was prepared for %g Hz, %zu channels", e.x, e.a));
                    prepared = true;
                    maxBlock = e.c;
                    inst = e.inst;
                    break;

                case Call::reset:
                    if (matched) violated ("reset-after-audio", name + " was reset in the middle of the audio");
                    resetDone = true;
                    break;

                case Call::details:
                    if (! matched) violated ("details-before-match", name + " was asked for failure details before match()");
                    break;

                case Call::audio:
                    if (! prepared || ! resetDone || e.inst != inst) violated ("audio-unprepared", name + " got audio before reset and prepare");
                    if (e.a > maxBlock) violated ("block-too-large", name + fmt (" got %zu frames, but was prepared for %zu", e.a, maxBlock));
                    if ((k.inverted || ! k.cfg->perBlock) && (e.a != frames || calls > 0))
                        violated ("matcher-partial-audio", name + fmt (" needs the full audio, but got %zu of %zu frames (call %zu)", e.a, frames, calls));
                    if (e.in.size() != outCh) violated ("wrong-channels", name + fmt (" got %zu channels", e.in.size()));

                    for (size_t ch = 0; ch < outCh; ++ch)
                        for (size_t n = 0; n < e.a; ++n)
                            if (offset + n >= dspOut[ch].size() || e.in[ch][n] != dspOut[ch][offset + n])
                                violated ("wrong-audio", name + fmt (" got %.9g at channel %zu frame %zu, which is not what the DSP has produced", e.in[ch][n], ch, offset + n));

                    matched = true;
                    ++calls;
                    offset += e.a;
                    failed |= (e.result ? 1 : 0) == (k.inverted ? 1 : 0);
                    break;

                default: break;
            }
        }

        if (complete && ! failed && offset != frames)
            violated ("wrong-duration", name + fmt (" got %zu frames instead of %zu", offset, frames));
    }

    if (complete)
        sim::probe ("completed run");
    if (strcmp (outcome, "assertion") == 0)
    {
        sim::probe ("run ended by an assertion");

        if (! anyAssertCan)
            violated ("unexpected-exception", "assertion exception without any assertion: " + what);
    }
    if (complete && frames % block != 0 && frames > block)
        sim::probe ("shorter last block");
    if (rejected)
        sim::probe ("rejected run");

    for (auto& e : ev)
        sim::mixState (hashOf (&e.a, sizeof (e.a), (uint64_t) e.call + e.name.size() * 100 + e.name.back()));

    sim::nontrivial();
}

void run()
{
    if (chance (1, 2))
        runTyped<float>();
    else
        runTyped<double>();

    hart::ExpectationFailureMessages::clear();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C02", run, 12000, 250000,
    "one host run of an instrumented DSP, input signal with 0-2 instrumented effects and 0-3 instrumented matchers (expect/assert, inverted or not, block-wise or not, scripted verdicts) with random "
    "rate, layout, block size, duration, parameter values and automation, in which one component may reject the layout or rate, or throws in its k-th callback of a kind; the recorded callback history is "
    "checked against the documented protocol. Non-trivial: process() was called.",
    "AudioTestBuilder, DSP and Signal base classes, envelopes, AudioBuffer, WavWriter", "tested DSP, signal, effects and matchers (instrumented), disk (simulated)", 60
};
