// Instrumented components: they record how they are called, and misbehave on demand.
#pragma once

#include "kit.hpp"

#include <pthread.h>
#include <set>

namespace kit
{
enum class Call { layout, rate, envQuery, prepare, reset, setValue, getValue, audio, copied, details, represent, perBlock };

inline const char* callName (Call c)
{
    static const char* n[] = { "layout query", "rate query", "envelope query", "prepare", "reset", "setValue", "getValue", "audio", "copy", "getFailureDetails", "represent", "canOperatePerBlock" };
    return n[(int) c];
}

struct Event
{
    std::string name;
    int inst = 0;
    Call call = Call::audio;
    double x = 0;                       // sample rate, or value
    size_t a = 0, b = 0, c = 0;         // channels, block size, param ID
    bool result = true;                 // returned (false also if it threw)
    bool threw = false;
    bool otherThread = false;
    Planes<double> in, out;             // audio
    std::map<int, std::vector<double>> env;
};

struct Journal
{
    std::vector<Event> events;
    int instances = 0;
    pthread_t thread = pthread_self();
};

// What a planned fault throws
struct PlannedError : std::runtime_error { using std::runtime_error::runtime_error; };

struct ProbeCfg
{
    std::string name;
    Journal* journal = nullptr;
    bool acceptLayout = true, acceptRate = true;
    double onlyRate = 0;                // if set, the only accepted one
    double maxRate = 0;                 // if set, higher ones are rejected
    size_t onlyIn = 0;                  // if set, the only accepted number of (input) channels
    std::set<int> envIds;               // parameters that accept automation
    bool perBlock = true;               // matchers
    std::vector<char> verdicts;         // matchers: scripted results of match(), cyclic; empty: true
    double gain = 1.0;                  // DSP
    // The k-th call of this kind (over all instances) throws
    bool throws = false;
    Call throwCall = Call::audio;
    unsigned throwAt = 0;
    int throwType = 0;
    bool fired = false;
    std::map<int, unsigned> calls;
    bool recordAudio = true;
};

typedef std::shared_ptr<ProbeCfg> Cfg;

inline const char* plannedText() { return "planned fault"; }

inline void maybeThrow (ProbeCfg& cfg, Call call, Event& e)
{
    const unsigned n = cfg.calls[(int) call]++;

    if (! cfg.throws || cfg.throwCall != call || n != cfg.throwAt)
        return;

    cfg.fired = true;
    e.threw = true;
    e.result = false;
    {
        sim::Pause p;
        sim::faultFired (fmt ("callback-throws:%s", callName (call)).c_str());
    }

    if (cfg.journal != nullptr)
        cfg.journal->events.push_back (e);

    switch (cfg.throwType)
    {
        case 0: throw PlannedError (plannedText());
        case 1: throw PlannedOddity { 42 };
        case 2: throw hart::SampleRateError (plannedText());
        default: throw hart::ValueError (plannedText());
    }
}

inline Event makeEvent (const ProbeCfg& cfg, int inst, Call call)
{
    Event e;
    e.name = cfg.name;
    e.inst = inst;
    e.call = call;
    e.otherThread = cfg.journal != nullptr && ! pthread_equal (cfg.journal->thread, pthread_self());
    return e;
}

inline void store (const ProbeCfg& cfg, const Event& e)
{
    if (cfg.journal != nullptr)
        cfg.journal->events.push_back (e);
}

template <typename S> Planes<double> planes (const hart::AudioBuffer<S>& b)
{
    Planes<double> p (b.getNumChannels());

    for (size_t c = 0; c < p.size(); ++c)
        p[c].assign (b[c], b[c] + b.getNumFrames());

    return p;
}

// ------------------------------------------------------------------------------------------------
template <typename S>
class ProbeDsp : public hart::DSP<S>
{
public:
    using SampleType = S;
    Cfg cfg;
    int inst;
    std::map<int, double> values;

    explicit ProbeDsp (Cfg c) : cfg (c), inst (next (c)) {}
    ProbeDsp (const ProbeDsp& o) : hart::DSP<S> (o), cfg (o.cfg), inst (next (o.cfg)), values (o.values) {}
    ProbeDsp (ProbeDsp&& o) : hart::DSP<S> (std::move (o)), cfg (o.cfg), inst (next (o.cfg)), values (o.values) {}

    static int next (const Cfg& c) { return c->journal != nullptr ? c->journal->instances++ : 0; }

    void prepare (double sr, size_t in, size_t out, size_t block) override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::prepare);
        e.x = sr; e.a = in; e.b = out; e.c = block;
        maybeThrow (*cfg, Call::prepare, e);
        store (*cfg, e);
    }

    void process (const hart::AudioBuffer<S>& input, hart::AudioBuffer<S>& output, const hart::EnvelopeBuffers& env) override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::audio);
        e.a = input.getNumFrames();
        e.b = output.getNumFrames();
        const Planes<double> in = planes (input);

        if (cfg->recordAudio)
            e.in = in;

        for (auto& x : env)
            e.env[x.first] = x.second;

        maybeThrow (*cfg, Call::audio, e);

        for (size_t c = 0; c < output.getNumChannels(); ++c)
            for (size_t n = 0; n < output.getNumFrames(); ++n)
            {
                double v = (in.empty() || n >= in[c % in.size()].size() ? 0.0 : in[c % in.size()][n]) * cfg->gain;

                for (auto& x : values)
                    v += 1e-3 * x.second;

                for (auto& x : e.env)
                    if (n < x.second.size())
                        v += 1e-3 * x.second[n];

                output[c][n] = (S) v;
            }

        if (cfg->recordAudio)
            e.out = planes (output);

        store (*cfg, e);
    }

    void reset() override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::reset);
        maybeThrow (*cfg, Call::reset, e);
        store (*cfg, e);
    }

    void setValue (int id, double v) override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::setValue);
        e.a = (size_t) id;
        e.x = v;
        maybeThrow (*cfg, Call::setValue, e);
        values[id] = v;
        store (*cfg, e);
    }

    double getValue (int id) const override
    {
        auto i = values.find (id);
        return i == values.end() ? 0.0 : i->second;
    }

    bool supportsChannelLayout (size_t in, size_t out) const override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::layout);
        e.a = in;
        e.b = out;
        e.result = cfg->acceptLayout && (cfg->onlyIn == 0 || cfg->onlyIn == in);
        maybeThrow (*cfg, Call::layout, e);
        store (*cfg, e);
        return e.result;
    }

    bool supportsSampleRate (double sr) const override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::rate);
        e.x = sr;
        e.result = cfg->acceptRate && (cfg->onlyRate == 0 || cfg->onlyRate == sr) && (cfg->maxRate == 0 || sr <= cfg->maxRate);
        maybeThrow (*cfg, Call::rate, e);
        store (*cfg, e);
        return e.result;
    }

    bool supportsEnvelopeFor (int id) const override { return cfg->envIds.count (id) != 0; }
    void represent (std::ostream& s) const override { s << "ProbeDsp (" << cfg->name << ")"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (ProbeDsp);
};

// ------------------------------------------------------------------------------------------------
// Plays value(channel, frame)
template <typename S>
class ProbeSignal : public hart::Signal<S>
{
public:
    using SampleType = S;
    Cfg cfg;
    std::function<double (size_t, size_t)> value;
    int inst;
    size_t pos = 0;

    ProbeSignal (Cfg c, std::function<double (size_t, size_t)> v) : cfg (c), value (v), inst (ProbeDsp<S>::next (c)) {}
    ProbeSignal (const ProbeSignal& o) : hart::Signal<S> (o), cfg (o.cfg), value (o.value), inst (ProbeDsp<S>::next (o.cfg)), pos (o.pos) {}
    ProbeSignal (ProbeSignal&& o) : hart::Signal<S> (std::move (o)), cfg (o.cfg), value (o.value), inst (ProbeDsp<S>::next (o.cfg)), pos (o.pos) {}

    bool supportsNumChannels (size_t n) const override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::layout);
        e.a = e.b = n;
        e.result = cfg->acceptLayout && (cfg->onlyIn == 0 || cfg->onlyIn == n);
        maybeThrow (*cfg, Call::layout, e);
        store (*cfg, e);
        return e.result;
    }

    bool supportsSampleRate (double sr) const override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::rate);
        e.x = sr;
        e.result = cfg->acceptRate && (cfg->onlyRate == 0 || cfg->onlyRate == sr) && (cfg->maxRate == 0 || sr <= cfg->maxRate);
        maybeThrow (*cfg, Call::rate, e);
        store (*cfg, e);
        return e.result;
    }

    void prepare (double sr, size_t ch, size_t block) override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::prepare);
        e.x = sr; e.a = e.b = ch; e.c = block;
        maybeThrow (*cfg, Call::prepare, e);
        store (*cfg, e);
    }

    void renderNextBlock (hart::AudioBuffer<S>& output) override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::audio);
        e.a = e.b = output.getNumFrames();
        maybeThrow (*cfg, Call::audio, e);

        for (size_t c = 0; c < output.getNumChannels(); ++c)
            for (size_t n = 0; n < output.getNumFrames(); ++n)
                output[c][n] = (S) value (c, pos + n);

        pos += output.getNumFrames();

        if (cfg->recordAudio)
            e.out = planes (output);

        store (*cfg, e);
    }

    void reset() override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::reset);
        maybeThrow (*cfg, Call::reset, e);
        pos = 0;
        store (*cfg, e);
    }

    void represent (std::ostream& s) const override { s << "ProbeSignal (" << cfg->name << ")"; }
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (ProbeSignal);
};

// ------------------------------------------------------------------------------------------------
template <typename S>
class ProbeMatcher : public hart::Matcher<S>
{
public:
    using SampleType = S;
    Cfg cfg;
    int inst;
    size_t calls = 0;

    explicit ProbeMatcher (Cfg c) : cfg (c), inst (ProbeDsp<S>::next (c)) {}
    ProbeMatcher (const ProbeMatcher& o) : hart::Matcher<S> (o), cfg (o.cfg), inst (ProbeDsp<S>::next (o.cfg)), calls (o.calls) {}

    void prepare (double sr, size_t ch, size_t block) override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::prepare);
        e.x = sr; e.a = e.b = ch; e.c = block;
        maybeThrow (*cfg, Call::prepare, e);
        store (*cfg, e);
    }

    bool match (const hart::AudioBuffer<S>& audio) override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::audio);
        e.a = e.b = audio.getNumFrames();
        e.result = cfg->verdicts.empty() || cfg->verdicts[calls % cfg->verdicts.size()] != 0;
        ++calls;

        if (cfg->recordAudio)
            e.in = planes (audio);

        maybeThrow (*cfg, Call::audio, e);
        store (*cfg, e);
        return e.result;
    }

    bool canOperatePerBlock() override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::perBlock);
        e.result = cfg->perBlock;
        maybeThrow (*cfg, Call::perBlock, e);
        store (*cfg, e);
        return e.result;
    }

    void reset() override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::reset);
        maybeThrow (*cfg, Call::reset, e);
        calls = 0;
        store (*cfg, e);
    }

    hart::MatcherFailureDetails getFailureDetails() const override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::details);
        maybeThrow (*cfg, Call::details, e);
        store (*cfg, e);
        hart::MatcherFailureDetails d;
        d.description = "details of " + cfg->name;
        return d;
    }

    void represent (std::ostream& s) const override
    {
        sim::Pause p;
        Event e = makeEvent (*cfg, inst, Call::represent);
        maybeThrow (*cfg, Call::represent, e);
        store (*cfg, e);
        s << "ProbeMatcher (" << cfg->name << ")";
    }

    HART_MATCHER_DEFINE_COPY_AND_MOVE (ProbeMatcher);
};

inline Cfg probeCfg (const std::string& name, Journal* j)
{
    Cfg c = std::make_shared<ProbeCfg>();
    c->name = name;
    c->journal = j;
    return c;
}

}  // namespace kit
