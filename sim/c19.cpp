// C19: text representations identify the component and its settings, whatever has happened to it
#include "glitch.hpp"

#include <type_traits>

using namespace kit;

namespace
{
struct Decimals { int lin = 6, db = 1, sec = 3, hz = 1, rad = 1; };

// What a text must contain, in this order, and no other numbers than these
struct Item
{
    std::string name;          // empty: a number
    double value = 0;
    int decimals = 0;
    bool angle = false;        // equal modulo a full turn
    bool stored = true;        // may have been stored as float
};

Item word (const std::string& s) { Item i; i.name = s; return i; }
Item number (double v, int decimals, bool stored = true) { Item i; i.value = v; i.decimals = decimals; i.stored = stored; return i; }
Item angle (double v, int decimals) { Item i = number (v, decimals); i.angle = true; return i; }

using Items = std::vector<Item>;

void add (Items& to, const Items& from) { to.insert (to.end(), from.begin(), from.end()); }

Items itemsOf (const DspSpec& d, const Decimals& k)
{
    switch (d.kind)
    {
        case DspSpec::gainDb: return { word ("GainDb"), number (d.value, k.db), word ("dB") };
        case DspSpec::gainLin: return { word ("GainLinear"), number (d.value, k.lin) };
        default: return { word ("HardClip"), number (d.value, k.db), word ("dB") };
    }
}

Items itemsOf (const SignalSpec& s, const Decimals& k)
{
    Items r;

    switch (s.kind)
    {
        case SignalSpec::silence: r = { word ("Silence") }; break;
        case SignalSpec::sine: r = { word ("SineWave"), number (s.freq, k.hz), word ("Hz"), angle (s.phase, k.rad), word ("rad") }; break;

        case SignalSpec::sweep:
            r = { word ("SineSweep"), number (s.dur, k.sec), word ("s"), number (s.f0, k.hz), word ("Hz"), number (s.f1, k.hz), word ("Hz"),
                  word (s.linear ? "SweepType::linear" : "SweepType::log"), word (s.loop ? "Loop::yes" : "Loop::no"), angle (s.phase, k.rad), word ("rad") };
            break;

        case SignalSpec::noise: r = { word ("WhiteNoise"), number (s.seed, 0, false) }; break;
        case SignalSpec::wav: r = { word ("WavFile"), word (s.file->path), word (s.loop ? "Loop::yes" : "Loop::no") }; break;
    }

    for (auto& d : s.chain)
    {
        r.push_back (word (">>"));
        add (r, itemsOf (d, k));
    }

    return r;
}

Items itemsOf (const CheckSpec& c, const Decimals& k)
{
    Items r;

    if (c.kind == CheckSpec::equals)
    {
        r.push_back (word ("EqualsTo"));
        add (r, itemsOf (c.ref, k));
    }
    else
        r = { word (c.kind == CheckSpec::peaksAt ? "PeaksAt" : "PeaksBelow"), number (c.level, k.db), word ("dB") };

    r.push_back (number (c.tol, k.lin));
    return r;
}

bool isDigit (char c) { return c >= '0' && c <= '9'; }

// Is `text` the number with as many decimals?
bool showsNumber (const std::string& text, double value, int decimals, bool angular, double slack)
{
    const size_t point = text.find ('.');
    const size_t shown = point == std::string::npos ? 0 : text.size() - point - 1;

    if (std::isnan (value) || std::isinf (value))
        return true;

    if ((int) shown != decimals || (decimals == 0 && point != std::string::npos) || text.find ('e') != std::string::npos)
        return false;

    double d = strtod (text.c_str(), nullptr) - value;

    if (angular)
        d -= 2 * M_PI * std::round (d / (2 * M_PI));

    return std::abs (d) <= 0.5 * std::pow (10.0, -decimals) * (1 + 1e-9) + slack + 1e-15;
}

// The longest number that starts at position i, or nothing
std::string numberAt (const std::string& s, size_t i)
{
    size_t e = i;

    if (e < s.size() && (s[e] == '-' || s[e] == '+'))
        ++e;

    const size_t digits = e;

    while (e < s.size() && isDigit (s[e]))
        ++e;

    if (e == digits)
        return "";

    if (e + 1 < s.size() && s[e] == '.' && isDigit (s[e + 1]))
    {
        ++e;

        while (e < s.size() && isDigit (s[e]))
            ++e;
    }
    else if (e < s.size() && s[e] == '.')
        ++e;

    if (e + 1 < s.size() && s[e] == 'e' && (isDigit (s[e + 1]) || s[e + 1] == '-' || s[e + 1] == '+'))
    {
        e += 2;

        while (e < s.size() && isDigit (s[e]))
            ++e;
    }

    return s.substr (i, e - i);
}

std::string describe (const Items& items)
{
    std::string r;

    for (auto& i : items)
        r += (r.empty() ? "" : " ") + (i.name.empty() ? fmt ("%.*f", i.decimals, i.value) : i.name);

    return r;
}

std::string mismatch (const std::string& text, const Items& items)
{
    size_t pos = 0;
    auto noNumber = [&] (size_t to)
    {
        for (size_t i = pos; i < to && i < text.size(); ++i)
            if (isDigit (text[i]))
                return false;

        return true;
    };

    for (auto& item : items)
    {
        if (! item.name.empty())
        {
            const size_t at = text.find (item.name, pos);

            if (at == std::string::npos)
                return "\"" + item.name + "\" is missing";

            if (! noNumber (at))
                return "there is another number before \"" + item.name + "\"";

            pos = at + item.name.size();
            continue;
        }

        size_t at = pos;

        while (at < text.size() && ! isDigit (text[at]))
            ++at;

        if (at > pos && (text[at - 1] == '-' || text[at - 1] == '+'))
            --at;

        const std::string n = numberAt (text, at);

        if (n.empty())
            return fmt ("%.*f is missing", item.decimals, item.value);

        if (! showsNumber (n, item.value, item.decimals, item.angle, item.stored ? 1.2e-7 * std::abs (item.value) + (item.angle ? 1e-6 : 0.0) : 0.0))
            return fmt ("%s instead of %.*f", n.c_str(), item.decimals, item.value);

        pos = at + n.size();
    }

    return noNumber (text.size()) ? "" : "there is another number at the end";
}

// ------------------------------------------------------------------------------------------------
template <typename S> struct Thing
{
    std::string what;
    Items items;
    std::unique_ptr<hart::Signal<S>> sig;
    std::unique_ptr<hart::DSP<S>> dsp;
    std::unique_ptr<hart::Matcher<S>> mat;
    bool automated = false;
    size_t ch = 1, block = 16;       // as prepared
    bool prepared = false;
    bool wav = false;
    double sr = 44100;
};

template <typename S> struct Life
{
    Decimals dec;
    std::vector<Thing<S>> things;
    std::unique_ptr<std::stringstream> stream { new std::stringstream };
    uint64_t texts = 0;

    void print (Thing<S>& t, std::ostream& s)
    {
        if (t.sig) s << *t.sig;
        else if (t.dsp) s << *t.dsp;
        else s << *t.mat;
    }

    std::string textOf (Thing<S>& t)
    {
        const size_t how = pick (7);

        switch (how)
        {
            case 1: stream->precision ((int) pick (15)); break;
            case 2: *stream << std::scientific; break;
            case 3: stream->unsetf (std::ios::floatfield); stream->precision (2); break;
            case 4: *stream << std::fixed << std::setprecision (9); break;
            case 5: print (things[pick (things.size())], *stream); break;
            case 6: stream.reset (new std::stringstream); break;
            default: break;
        }

        *stream << "\n";
        stream->str ("");
        print (t, *stream);
        return stream->str();
    }

    void check (Thing<S>& t, const char* when)
    {
        const std::string text = textOf (t);
        const std::string problem = mismatch (text, t.items);
        ++texts;
        logf ("%s %s: %s", t.what.c_str(), when, text.c_str());

        if (! problem.empty())
            sim::violation ("wrong-text", "%s %s (%s) is shown as \"%s\": %s (expected %s)", t.what.c_str(), when, typeName<S>(), text.c_str(), problem.c_str(), describe (t.items).c_str());
    }

    Thing<S> make()
    {
        Thing<S> t;
        GenOptions g;
        g.sr = t.sr = 44100;
        g.frames = 60;
        g.channels = 2;
        const size_t kind = pick (4);

        if (kind < 2)
        {
            SignalSpec s = genSignal (g);
            s.chain.resize (std::min<size_t> (s.chain.size(), 3));
            t.sig = s.build<S>();
            t.items = itemsOf (s, dec);
            t.what = s.text();
            t.wav = s.kind == SignalSpec::wav;

            for (auto& d : s.chain)
                t.automated |= d.hasEnv;
        }
        else if (kind == 2)
        {
            const DspSpec d = genDsp (true, 0.002);
            t.dsp = d.build<S>();
            t.items = itemsOf (d, dec);
            t.what = d.text();
        }
        else
        {
            CheckSpec c;
            c.kind = (CheckSpec::Kind) pick (3);
            c.tol = oneOf<double> ({ 1e-3, 1e-5, 0.1, 0.7, 1.23456789 });
            c.level = realIn (-60, 12);

            if (c.kind == CheckSpec::equals)
            {
                c.ref = genSignal (g);
                t.wav = c.ref.kind == SignalSpec::wav;
            }

            t.mat = c.build<S>();
            t.items = itemsOf (c, dec);
            t.what = c.text();
        }

        return t;
    }

    void use (Thing<S>& t)
    {
        if (! t.prepared || chance (1, 5))
        {
            t.ch = 1 + pick (2);
            t.block = 1 + pick (30);

            if (t.sig) { t.sig->prepareWithDSPChain (t.sr, t.ch, t.block); t.sig->resetWithDSPChain(); }
            else if (t.dsp) { t.dsp->prepareWithEnvelopes (t.sr, t.ch, t.ch, t.block); t.dsp->resetWithEnvelopes(); }
            else { t.mat->prepare (t.sr, t.ch, t.block); t.mat->reset(); }

            t.prepared = true;
        }

        hart::AudioBuffer<S> in (t.ch, t.block), out (t.ch, t.block);

        for (size_t c = 0; c < t.ch; ++c)
            for (size_t n = 0; n < t.block; ++n)
                in[c][n] = (S) (2 * contentAt (5, c, n));

        const size_t times = 1 + pick (3);

        for (size_t i = 0; i < times; ++i)
        {
            if (t.sig) t.sig->renderNextBlockWithDSPChain (out);
            else if (t.dsp) t.dsp->processWithEnvelopes (in, out);
            else if (! t.mat->match (in)) (void) t.mat->getFailureDetails();
        }

        sim::simulatedFrames ((double) (times * t.block), t.sr);
    }

    // A copy, possibly without the memory for it
    void copyOf (size_t i)
    {
        Thing<S> n;
        n.items = things[i].items;
        n.what = things[i].what;
        n.wav = things[i].wav;
        n.automated = things[i].automated;
        n.prepared = things[i].prepared;
        n.ch = things[i].ch;
        n.block = things[i].block;
        const bool byMove = chance (1, 3), fail = ! byMove && chance (1, 4);

        if (fail)
            sim::AllocFaults::armNth (pick (12));

        try
        {
            struct Disarm { ~Disarm() { sim::AllocFaults::disarm(); } } disarm;

            if (things[i].sig) n.sig = byMove ? things[i].sig->move() : things[i].sig->copy();
            else if (things[i].dsp) n.dsp = byMove ? things[i].dsp->move() : things[i].dsp->copy();
            else n.mat = byMove ? things[i].mat->move() : things[i].mat->copy();
        }
        catch (const std::bad_alloc&)
        {
            sim::faultFired ("out of memory while copying");
            check (things[i], "after a failed copy");
            return;
        }

        if (byMove)
        {
            things[i] = std::move (n);
            check (things[i], "after a move");
            sim::probe ("text after a move");
            return;
        }

        check (n, "as a copy");
        check (things[i], "after being copied");
        sim::probe ("text of a copy");

        if (things.size() < 6 || chance (1, 2))
            things.push_back (std::move (n));
        else
            things[i] = std::move (n);
    }

    template <typename T> static bool assign (hart::DSP<S>& to, hart::DSP<S>& from, bool move)
    {
        T* a = dynamic_cast<T*> (&to);
        T* b = dynamic_cast<T*> (&from);

        if (a == nullptr || b == nullptr)
            return false;

        if (move)
            *a = std::move (*b);
        else
            *a = *b;

        return true;
    }

    void assignSome (size_t i)
    {
        for (size_t j = 0; j < things.size(); ++j)
        {
            if (j == i || ! things[i].dsp || ! things[j].dsp)
                continue;

            const bool move = chance (1, 2);

            if (! assign<hart::GainDb<S>> (*things[i].dsp, *things[j].dsp, move) && ! assign<hart::GainLinear<S>> (*things[i].dsp, *things[j].dsp, move)
                && ! assign<hart::HardClip<S>> (*things[i].dsp, *things[j].dsp, move))
                continue;

            things[i].items = things[j].items;
            things[i].what = things[j].what;
            check (things[i], "after an assignment");
            sim::probe ("text after an assignment");

            if (move)
                things.erase (things.begin() + (long) j);
            else
                check (things[j], "after being assigned");

            return;
        }
    }

    void extend (size_t i)
    {
        if (! things[i].sig)
            return;

        const size_t j = pick (things.size());

        if (things[j].dsp && chance (1, 2))
        {
            // A living effect, which stays what it is
            things[i].sig->followedBy (things[j].dsp->copy());
            things[i].items.push_back (word (">>"));
            add (things[i].items, things[j].items);
            check (things[j], "after a copy of it was attached");
        }
        else
        {
            const DspSpec d = genDsp (true, 0.002);
            const size_t how = pick (3);

            if (how == 0)
                things[i].sig->followedBy (d.build<S>());
            else
            {
                auto attach = [&] (auto&& effect)
                {
                    if (how == 1)
                        *things[i].sig >> std::move (effect);
                    else
                        things[i].sig->followedBy (effect);
                };

                switch (d.kind)
                {
                    case DspSpec::gainDb: { hart::GainDb<S> e (d.value); attach (e); break; }
                    case DspSpec::gainLin: { hart::GainLinear<S> e (d.value); attach (e); break; }
                    default: { hart::HardClip<S> e (d.value); attach (e); break; }
                }
            }

            things[i].items.push_back (word (">>"));
            add (things[i].items, itemsOf (d, dec));
        }

        things[i].prepared = false;
        things[i].what += " >> ...";
        check (things[i], "with another effect");
        sim::probe ("text of an extended chain");
    }

    void attach (hart::AudioTestBuilder<S>& h, Thing<S>& t, bool inverted)
    {
        auto one = [&] (auto* m) { if (m != nullptr) { inverted ? h.expectFalse (*m) : h.expectTrue (*m); } return m != nullptr; };

        if (! one (dynamic_cast<hart::EqualsTo<S>*> (t.mat.get())) && ! one (dynamic_cast<hart::PeaksAt<S>*> (t.mat.get())))
            one (dynamic_cast<hart::PeaksBelow<S>*> (t.mat.get()));
    }

    // A test that fails, with some of these
    void fail()
    {
        const size_t block = 1 + pick (20), frames = 1 + pick (60), ch = 1 + pick (2);
        const double level = oneOf<double> ({ 7.25, 0.3333333, 123.456 }) * (chance (1, 2) ? -1 : 1);
        auto shared = std::make_shared<typename GlitchDsp<S>::Shared>();
        shared->gain = 1;
        shared->glitches.push_back ({ (size_t) pick (ch), (size_t) pick (frames), level, "bad-sample:level" });
        hart::AudioTestBuilder<S> h ((GlitchDsp<S> (shared)));
        h.withSampleRate (44100).withBlockSize (block).withDuration ((double) frames / 44100).withInputChannels (ch).withOutputChannels (ch).withInputSignal (hart::SineWave<S> (3000));
        std::vector<size_t> attached;

        for (size_t i = 0; i < things.size(); ++i)
            if (things[i].mat && attached.size() < 3)
            {
                attach (h, things[i], chance (1, 4));
                attached.push_back (i);
            }

        const Outcome o = observe ([&] { h.process(); });

        if (o.kind == Outcome::exception)
            sim::violation ("unexpected-exception", "the test ended with %s", o.text.c_str());

        for (auto& m : o.messages)
        {
            const Report r (m);
            std::string oneLine = m;

            for (auto& c : oneLine)
                if (c == '\n')
                    c = '|';

            logf ("report: %s", oneLine.c_str());
            std::string problem;
            bool known = false;

            for (size_t i : attached)
            {
                const std::string p = mismatch (r.condition, things[i].items);
                known |= p.empty();
                problem += (problem.empty() ? "" : "; ") + things[i].what + ": " + p;
            }

            if (! known)
                sim::violation ("wrong-condition", "the report \"%s\" (%s) names none of the failed checks: %s", oneLine.c_str(), typeName<S>(), problem.c_str());

            sim::probe ("text in a report");
            details (r, m, oneLine, shared->out);
        }

        for (size_t i : attached)
            check (things[i], "after a test");
    }

    std::string after (const std::string& m, const char* key, size_t& from)
    {
        const size_t at = m.find (key, from);

        if (at == std::string::npos)
            return "";

        from = at + strlen (key);
        return numberAt (m, from);
    }

    // Values in the report are rounded to the right number of decimals: some sample of the output fits to them
    void details (const Report& r, const std::string& m, const std::string& oneLine, const Planes<S>& out)
    {
        if (! r.hasChannel || ! r.hasTime || ! r.hasValue || (size_t) r.channel >= out.size())
            return;

        size_t from = m.find ("\nCondition: ");
        from = m.find ('\n', from + 1);
        const std::string time = after (m, "Timestamp: ", from), value = after (m, "Sample value: ", from), db = after (m, " (", from);
        bool any = false;
        auto levelDb = [] (double v) { v = std::abs (v); return v < 1e-6 ? -120.0 : 20 * std::log10 (v); };

        for (size_t n = 0; n < out[0].size() && ! any; ++n)
        {
            const double x = (double) out[(size_t) r.channel][n];
            any = showsNumber (time, (double) n / 44100, dec.sec, false, 1e-12) && showsNumber (value, x, dec.lin, false, 1e-7 * std::abs (x))
               && (std::abs (x) < 1.1e-6 || showsNumber (db, levelDb (x), dec.db, false, 2e-5));
        }

        if (! any)
            sim::violation ("wrong-decimals", "no sample of the output fits to the values in the report \"%s\" (decimals: %d linear, %d dB, %d seconds)", oneLine.c_str(), dec.lin, dec.db, dec.sec);

        if (r.hasExpected)
        {
            size_t at = m.find ("Expected sample value: ");
            const std::string e = after (m, "Expected sample value: ", at), edb = after (m, " (", at), d = after (m, "difference: ", at), ddb = after (m, " (", at);

            if (! showsNumber (e, strtod (e.c_str(), nullptr), dec.lin, false, 0) || ! showsNumber (edb, strtod (edb.c_str(), nullptr), dec.db, false, 0)
                || ! showsNumber (d, strtod (d.c_str(), nullptr), dec.lin, false, 0) || ! showsNumber (ddb, strtod (ddb.c_str(), nullptr), dec.db, false, 0))
                sim::violation ("wrong-decimals", "the report \"%s\" does not show %d decimals of linear and %d of dB values", oneLine.c_str(), dec.lin, dec.db);
        }
        else if (r.hasPeak)
        {
            size_t at = m.find ("peaks at");
            at += 8;

            while (at < m.size() && ! isDigit (m[at]) && m[at] != '-')
                ++at;

            const std::string p = numberAt (m, at);

            if (! showsNumber (p, strtod (p.c_str(), nullptr), dec.db, false, 0))
                sim::violation ("wrong-decimals", "the report \"%s\" does not show %d decimals of dB values", oneLine.c_str(), dec.db);
        }
    }

    void run()
    {
        for (size_t i = 0, n = 2 + pick (3); i < n; ++i)
        {
            things.push_back (make());
            check (things.back(), "when made");
        }

        const size_t steps = 2 + pick (10);

        for (size_t s = 0; s < steps; ++s)
        {
            const size_t i = pick (things.size());

            switch (pick (6))
            {
                case 0: check (things[i], "again"); break;
                case 1: copyOf (i); break;
                case 2: use (things[i]); check (things[i], "after use"); break;
                case 3: extend (i); break;
                case 4: assignSome (i); break;
                default: fail(); break;
            }
        }

        for (auto& t : things)
            check (t, "in the end");

        sim::nontrivial();
        sim::mixState (texts + 1000 * (uint64_t) (dec.lin + 16 * dec.db + 256 * dec.sec + 4096 * dec.hz));
    }
};

template <typename S> void runTyped()
{
    Decimals d;
    std::vector<std::string> args;
    auto option = [&] (const char* name, int& to)
    {
        if (chance (2, 3))
        {
            to = (int) pick (10);
            args.push_back (name);
            args.push_back (std::to_string (to));
        }
    };
    option ("--lin-decimals", d.lin);
    option ("--db-decimals", d.db);
    option ("--sec-decimals", d.sec);
    option ("--hz-decimals", d.hz);
    option ("--rad-decimals", d.rad);
    std::string all;

    for (auto& a : args)
        all += a + " ";

    logf ("options: %s", all.c_str());
    setOptions (args);
    Life<S> l;
    l.dec = d;
    l.run();
}

void run()
{
    if (chance (1, 2))
        runTyped<float>();
    else
        runTyped<double>();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C19", run, 8000, 200000,
    "2-4 random stock signals (with chains), effects and matchers live through 2-11 random steps - copied (also without enough memory), moved, assigned, prepared, rendered, extended by further effects, used as failing checks "
    "of a test - under random numbers of decimals from the command line; their texts are printed to streams with whatever precision and notation other output has left behind, and compared item by item (kind, settings in order, "
    "exact number of decimals, value within rounding). Conditions and values in the failure reports are treated alike. Non-trivial: every run.",
    "text representations, copy/move, CLIConfig, precision manipulators, AudioTestBuilder reports", "tested DSP (instrumented, injects bad samples), disk (simulated), heap (simulated)", 60
};
