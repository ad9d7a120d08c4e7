// C14: hosts on different threads do not affect each other
#include "hosttest.hpp"

using namespace kit;

namespace
{
const char* stale = "nothing was saved here";

struct Job
{
    HostSpec test;
    bool sharedInput = false, sharedDsp = false, sharedMatcher = false;
    int extra = 0;                  // 1: a macro expectation fails before, 2: an invalid setting is tried before, 3: an exception from the DSP
    bool clear = false;             // the messages are cleared afterwards
};

struct ThreadPlan { std::vector<Job> jobs; };

struct Throws { };

template <typename S>
class ThrowingDsp : public hart::DSP<S>
{
public:
    using SampleType = S;
    size_t blocks = 0;
    ThrowingDsp() = default;
    void prepare (double, size_t, size_t, size_t) override {}
    void reset() override { blocks = 0; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "ThrowingDsp()"; }

    void process (const hart::AudioBuffer<S>&, hart::AudioBuffer<S>& out, const hart::EnvelopeBuffers&) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            std::fill (out[c], out[c] + out.getNumFrames(), (S) 0);

        if (blocks++ == 1)
            throw PlannedOddity { 1 };
    }

    HART_DSP_DEFINE_COPY_AND_MOVE (ThrowingDsp);
};

template <typename S>
struct World
{
    HostSpec base;
    std::vector<ThreadPlan> plans;
    std::vector<std::string> files;

    // Made before the threads, only copied by them
    std::unique_ptr<hart::Signal<S>> signal;
    std::unique_ptr<hart::DSP<S>> dsp;
    std::unique_ptr<hart::EqualsTo<S>> matcher;

    void plan()
    {
        HostOptions o;
        o.maxFrames = 260;
        base = genHost (o);
        base.label.clear();
        signal = base.input.build<S>();
        dsp = base.dsp.build<S>();
        SignalSpec ref = base.input;
        ref.chain.push_back (base.dsp);
        matcher.reset (new hart::EqualsTo<S> (*ref.build<S>(), oneOf<double> ({ 1e-3, 0.01 })));

        // The data may have been loaded already
        if (chance (1, 2))
            signal->prepareWithDSPChain (base.sr, base.inCh, base.block);

        const size_t threads = 2 + pick (3);

        for (size_t t = 0; t < threads; ++t)
        {
            ThreadPlan p;
            const size_t jobs = 1 + pick (3);

            for (size_t j = 0; j < jobs; ++j)
            {
                Job job;

                if (chance (1, 2))
                {
                    // Another run of the shared components
                    job.test = base;
                    job.test.block = 1 + pick (100);
                    job.test.frames = 1 + pick (base.frames);
                    job.test.checks.clear();
                    job.test.values.clear();
                    const size_t n = pick (3);

                    for (size_t i = 0; i < n; ++i)
                        job.test.checks.push_back (genCheck (job.test, o));

                    job.sharedInput = job.sharedDsp = true;
                    job.sharedMatcher = chance (2, 3);
                    sim::probe ("shared components");
                }
                else
                {
                    job.test = genHost (o);
                    job.sharedMatcher = false;
                }

                job.test.label = chance (1, 2) ? fmt ("test %zu of thread %zu", j, t) : "";
                job.test.wavPath = fmt ("/simfs/out/t%zu_%zu.wav", t, j);
                job.test.wavMode = chance (3, 4) ? hart::Save::always : hart::Save::whenFails;
                job.test.format = oneOf<hart::WavFormat> ({ hart::WavFormat::float32, hart::WavFormat::pcm24 });
                files.push_back (job.test.wavPath);

                if (chance (1, 8))
                {
                    job.test.plotPath = fmt ("/simfs/out/t%zu_%zu.svg", t, j);
                    job.test.plotMode = hart::Save::always;
                    files.push_back (job.test.plotPath);
                }

                if (chance (1, 10))
                {
                    sim::fs::forbid (job.test.wavPath);
                    sim::probe ("a file cannot be opened");
                }

                job.extra = chance (1, 3) ? 1 + (int) pick (3) : 0;
                job.clear = chance (1, 3);
                logf ("thread %zu: %s%s%s extra %d", t, job.test.text().c_str(), job.sharedInput ? " [shared]" : "", job.sharedMatcher ? " [shared matcher]" : "", job.extra);
                p.jobs.push_back (job);
            }

            plans.push_back (p);
        }
    }

    std::string body (const ThreadPlan& plan, const char* name)
    {
        std::string result;
        auto& messages = hart::ExpectationFailureMessages::get();

        if (! messages.empty())
            result += "(messages of others)";

        size_t j = 0;

        for (auto& job : plan.jobs)
        {
            std::string r = "returned";

            try
            {
                if (job.extra == 1)
                    HART_EXPECT_TRUE (job.test.frames == 0);

                std::unique_ptr<hart::DSP<S>> throwing (new ThrowingDsp<S>());
                hart::AudioTestBuilder<S> h (job.extra == 3 ? std::move (throwing) : job.sharedDsp ? dsp->copy() : job.test.dsp.template build<S>());
                job.test.template configure<S> (h);

                if (job.sharedInput)
                    h.withInputSignal (*signal);

                if (job.sharedMatcher)
                    h.expectTrue (*matcher);

                if (job.extra == 2)
                    h.withBlockSize (0);

                h.process();
                sim::simulatedFrames ((double) job.test.frames, job.test.sr);
            }
            catch (const hart::TestAssertException& e) { r = std::string ("assertion: ") + e.what(); }
            catch (const std::exception&) { r = "an exception"; }
            catch (const PlannedOddity&) { r = "something else"; }

            sim::Pause p;
            result += fmt ("\n%s test %zu: ", name, j++) + r;

            for (auto& m : hart::ExpectationFailureMessages::get())
                result += "\n  {" + m + "}";

            if (&messages != &hart::ExpectationFailureMessages::get())
                result += "(other messages)";

            if (job.clear)
                hart::ExpectationFailureMessages::clear();
        }

        return result;
    }

    std::vector<std::string> contents() const
    {
        std::vector<std::string> v;

        for (auto& f : files)
            v.push_back (sim::fs::exists (f) ? sim::fs::getFile (f) : "");

        return v;
    }

    void run()
    {
        plan();
        const uint64_t env = pick (3);
        std::vector<std::string> alone (plans.size());
        std::vector<std::vector<std::string>> aloneFiles;

        for (auto& f : files)
            sim::fs::putFile (f, stale);

        // Each of them alone, in a process of its own
        for (size_t t = 0; t < plans.size(); ++t)
        {
            const std::string name = fmt ("thread %zu", t), report = fmt ("/simfs/alone%zu", t);

            const int code = sim::inProcess ([&]
            {
                sim::fs::putFile (report, body (plans[t], name.c_str()));
                return 0;
            });

            if (code != 0 || ! sim::fs::exists (report))
                sim::violation ("alone", "%s alone: the process ended with code %d", name.c_str(), code);

            alone[t] = sim::fs::getFile (report);
        }

        const auto expectedFiles = contents();

        for (auto& f : files)
            sim::fs::putFile (f, stale);

        sim::setEnvironment (env);
        std::vector<std::string> together (plans.size());
        std::vector<std::function<void()>> bodies;

        for (size_t t = 0; t < plans.size(); ++t)
            bodies.push_back ([this, t, &together]
            {
                std::string r = body (plans[t], fmt ("thread %zu", t).c_str());
                sim::Pause p;
                together[t] = r;
            });

        const unsigned switches = (unsigned) oneOf<int> ({ 40, 400, 5, 4000 });
        sim::runThreads (bodies, switches);

        if (sim::contextSwitches() > plans.size())
            sim::nontrivial();

        // This thread has run no test
        if (! hart::ExpectationFailureMessages::get().empty())
            sim::violation ("messages", "a thread that has run no test has %zu messages: %s", hart::ExpectationFailureMessages::get().size(), hart::ExpectationFailureMessages::get()[0].c_str());

        for (size_t t = 0; t < plans.size(); ++t)
        {
            if (together[t] != alone[t])
            {
                size_t i = 0;

                while (i < together[t].size() && i < alone[t].size() && together[t][i] == alone[t][i])
                    ++i;

                i = i > 60 ? i - 60 : 0;
                sim::violation ("differs", "thread %zu reports \"...%s\" instead of \"...%s\" as alone", t, together[t].substr (std::min (i, together[t].size()), 300).c_str(), alone[t].substr (std::min (i, alone[t].size()), 300).c_str());
            }

            sim::mixState (hashOf (alone[t].data(), alone[t].size()));

            if (alone[t].find ('{') != std::string::npos)
                sim::probe ("a thread with failures");
        }

        const auto got = contents();

        for (size_t i = 0; i < files.size(); ++i)
            if (got[i] != expectedFiles[i])
            {
                size_t k = 0;

                while (k < got[i].size() && k < expectedFiles[i].size() && got[i][k] == expectedFiles[i][k])
                    ++k;

                sim::violation ("file", "%s has %zu bytes (%zu when alone) and differs at byte %zu", files[i].c_str(), got[i].size(), expectedFiles[i].size(), k);
            }

        if (sim::fs::openHandles() != 0)
            sim::violation ("file", "%u files were left open", (unsigned) sim::fs::openHandles());
    }
};

void run()
{
    if (chance (1, 2)) { World<float> w; w.run(); }
    else { World<double> w; w.run(); }
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C14", run, 5000, 200000,
    "2-4 threads, each processing 1-3 complete random tests (passing, failing, asserting, throwing, rejected, or failing to save; on components of its own or copies of shared ones) and saving what they produce, under a "
    "schedule that pre-empts at any basic block of the library; verdicts, messages and files are compared with those of the same thread run alone in a process of its own. Non-trivial: at least one thread was pre-empted.",
    "AudioTestBuilder, ExpectationFailureMessages, stock signals, effects, envelopes and matchers, WavFile, WavWriter, Plot, CLIConfig", "thread scheduler, disk (simulated)", 60
};
