// C20: a saved plot shows the audio of the run
#include "hosttest.hpp"
#include "probes.hpp"

using namespace kit;

namespace
{
const char* path = "/simfs/out/saved.svg";

// ---- the audio: what channel c holds in frame n
struct Curve
{
    uint64_t salt = 0;
    int kind = 0;
    double range = 1;

    double at (size_t ch, size_t frame) const
    {
        uint64_t x = (salt * 1000003 + (kind & 8 ? 0 : ch)) * 1000003 + frame + 1;
        x ^= x >> 31; x *= 0x7fb5d329728ea185ull;
        x ^= x >> 27; x *= 0x81dadef4bc2dd44dull;
        x ^= x >> 33;
        const double u = ((double) (x >> 11) / (double) (1ull << 52) - 1) * range;

        switch (kind & 7)
        {
            case 0: return std::sin (0.05 * (double) (frame + salt % 50) * (1.0 + (double) (kind & 8 ? 0 : ch))) * range;
            case 1: return u;
            case 2: return x % 64 == 0 ? u : 0;                                     // rare impulses
            case 3: return range * (salt % 2 ? 1 : -1) * (1.0 + 0.25 * (double) ch);    // constant
            case 4: return frame == salt % 40 && (kind & 8 || ch == salt % 3) ? range : 0;      // one impulse
            case 5: return range * ((double) frame / 50.0 - 1);                     // ramp
            case 6: return (frame / (5 + salt % 20)) % 2 ? range : -range;        // square
            default: return 0;
        }
    }

    void generate()
    {
        salt = pick (1000);
        kind = (int) pick (16);
        range = oneOf<double> ({ 1, 0.01, 2, 1e-5, 100, 0.5 });
    }

    std::string text() const { return fmt ("curve %d of %llu x %g", kind, (unsigned long long) salt, range); }
};

// ---- what is in the file
struct Point { double x, y; };
struct Label { double x, y; double value; bool vertical; };

struct Panel
{
    std::vector<std::vector<Point>> lines;
    std::vector<Label> labels;
    std::string title;
};

std::string attribute (const std::string& tag, const char* name)
{
    const std::string key = std::string (" ") + name + "=\"";
    const size_t at = tag.find (key);

    if (at == std::string::npos)
        return "";

    const size_t from = at + key.size();
    return tag.substr (from, tag.find ('"', from) - from);
}

bool hasClass (const std::string& tag, const char* cls) { return (" " + attribute (tag, "class") + " ").find (std::string (" ") + cls + " ") != std::string::npos; }

// A small XML reader: nesting must be right; panels are told by the offset they are drawn at
std::string parse (const std::string& svg, std::map<std::string, Panel>& panels)
{
    std::vector<std::string> open;
    std::vector<std::string> places;      // transforms of the open groups
    size_t at = 0;
    bool sawRoot = false;
    std::string pending;                 // the text element being read

    while (true)
    {
        const size_t lt = svg.find ('<', at);

        if (lt == std::string::npos)
        {
            for (size_t i = at; i < svg.size(); ++i)
                if (! isspace ((unsigned char) svg[i]))
                    return "text after its end";

            break;
        }

        const std::string text = svg.substr (at, lt - at);

        if (! pending.empty() && ! text.empty())
        {
            std::string place;

            for (auto& p : places)
                place += p;

            if (hasClass (pending, "svg-plot-title"))
                panels[place].title += text;
            else if (hasClass (pending, "svg-plot-value"))
            {
                Label l;
                char* end = nullptr;
                l.value = strtod (text.c_str(), &end);

                if (end == text.c_str() || *end != 0)
                    return "a label that is not a number: " + text;

                l.x = strtod (attribute (pending, "x").c_str(), nullptr);
                l.y = strtod (attribute (pending, "y").c_str(), nullptr);
                l.vertical = attribute (pending, "style").find ("text-anchor:end") != std::string::npos;
                panels[place].labels.push_back (l);
            }
        }

        const size_t gt = svg.find ('>', lt);

        if (gt == std::string::npos)
            return "cut short within a tag";

        const std::string tag = svg.substr (lt, gt - lt + 1);
        at = gt + 1;

        if (tag[1] == '?' || tag[1] == '!')
            continue;

        if (tag[1] == '/')
        {
            const std::string name = tag.substr (2, tag.size() - 3);

            if (open.empty() || open.back() != name)
                return "a misplaced end tag " + tag;

            if (name == "g")
                places.pop_back();

            open.pop_back();
            pending.clear();
            continue;
        }

        size_t nameEnd = 1;

        while (nameEnd < tag.size() && ! isspace ((unsigned char) tag[nameEnd]) && tag[nameEnd] != '>' && tag[nameEnd] != '/')
            ++nameEnd;

        const std::string name = tag.substr (1, nameEnd - 1);

        if (open.empty())
        {
            if (sawRoot || name != "svg")
                return "more than one svg, or none";

            sawRoot = true;
        }

        if (name == "path" && hasClass (tag, "svg-plot-line"))
        {
            std::string place;

            for (auto& p : places)
                place += p;

            const std::string d = attribute (tag, "d");
            std::vector<Point> line;
            const char* s = d.c_str();

            while (*s == ' ' || *s == 'M')
                ++s;

            while (*s)
            {
                char* end = nullptr;
                Point p;
                p.x = strtod (s, &end);

                if (end == s)
                    return "a line that is not a list of points: " + d.substr (0, 60);

                s = end;
                p.y = strtod (s, &end);

                if (end == s)
                    return "a line with half a point at its end";

                s = end;
                line.push_back (p);

                while (*s == ' ' || *s == 'L')
                    ++s;
            }

            panels[place].lines.push_back (line);
        }

        if (tag[tag.size() - 2] == '/')
            continue;

        open.push_back (name);

        if (name == "g")
            places.push_back (attribute (tag, "transform"));

        pending = name == "text" ? tag : "";
    }

    if (! sawRoot || ! open.empty())
        return sawRoot ? "not closed: " + open.back() : "empty";

    return "";
}

// Distance between a wanted point and a line (vertical, at this x)
double distanceTo (const std::vector<Point>& line, size_t& from, Point p)
{
    while (from + 1 < line.size() && line[from].x < p.x - 0.03)
        ++from;

    double best = 1e300;

    for (size_t i = from > 0 ? from - 1 : 0; i < line.size() && line[i].x <= p.x + 0.03; ++i)
    {
        best = std::min (best, std::hypot (line[i].x - p.x, line[i].y - p.y));

        if (i + 1 < line.size())
        {
            const Point a = line[i], b = line[i + 1];
            const double dx = b.x - a.x, dy = b.y - a.y, len2 = dx * dx + dy * dy;
            const double t = len2 > 0 ? std::max (0.0, std::min (1.0, ((p.x - a.x) * dx + (p.y - a.y) * dy) / len2)) : 0;
            best = std::min (best, std::hypot (a.x + t * dx - p.x, a.y + t * dy - p.y));
        }
    }

    return best;
}

template <typename S>
struct Test
{
    double sr = 44100;
    size_t in = 1, out = 1, block = 64, frames = 100;
    Curve inCurve, outCurve;
    bool whenFails = false;

    void generate()
    {
        sr = genSampleRate();
        in = 1 + pick (chance (1, 8) ? 12 : 3);
        out = 1 + pick (chance (1, 8) ? 12 : 3);
        frames = 2 + pick (chance (1, 3) ? 1500 : 200);

        if (chance (1, 150))
        {
            sim::probe ("outsized");
            in = out = 1 + pick (2);
            frames = 2000 + pick (70000 / (in + out));
        }

        if (in + out > 10)
            frames = std::min<size_t> (frames, 300);

        block = chance (1, 8) ? frames : oneOf<size_t> ({ 64, 16, 100, 1024, 5 }) + pick (3);
        block = std::max (block, frames / 200);
        inCurve.generate();
        outCurve.generate();
        whenFails = chance (1, 4);
        logf ("%s: %g Hz, %zu -> %zu channels, block %zu, %zu frames, %s -> %s%s", typeName<S>(), sr, in, out, block, frames, inCurve.text().c_str(), outCurve.text().c_str(), whenFails ? ", saved because a check fails" : "");
    }

    std::unique_ptr<hart::AudioTestBuilder<S>> build() const
    {
        Cfg sc = probeCfg ("signal", nullptr);
        Cfg dc = probeCfg ("DSP", nullptr);
        sc->recordAudio = dc->recordAudio = false;
        const Curve ic = inCurve, oc = outCurve;
        std::unique_ptr<hart::AudioTestBuilder<S>> h (new hart::AudioTestBuilder<S> (CurveDsp (oc)));
        h->withSampleRate (sr).withBlockSize (block).withDuration ((double) frames / sr).withInputChannels (in).withOutputChannels (out);
        h->withInputSignal (ProbeSignal<S> (sc, [ic] (size_t c, size_t n) { return ic.at (c, n); }));

        if (whenFails)
        {
            Cfg c = probeCfg ("failing matcher", nullptr);
            c->verdicts = { 0 };
            c->recordAudio = false;
            h->expectTrue (ProbeMatcher<S> (c)).savePlotTo (path, hart::Save::whenFails);
        }
        else
            h->savePlotTo (path, hart::Save::always);

        return h;
    }

    struct CurveDsp : public hart::DSP<S>
    {
        using SampleType = S;
        Curve curve;
        size_t pos = 0;

        explicit CurveDsp (Curve c) : curve (c) {}
        void prepare (double, size_t, size_t, size_t) override {}
        void reset() override { pos = 0; }
        void setValue (int, double) override {}
        double getValue (int) const override { return 0; }
        bool supportsChannelLayout (size_t, size_t) const override { return true; }
        void represent (std::ostream& s) const override { s << "CurveDsp()"; }

        void process (const hart::AudioBuffer<S>&, hart::AudioBuffer<S>& out, const hart::EnvelopeBuffers&) override
        {
            sim::Pause p;

            for (size_t c = 0; c < out.getNumChannels(); ++c)
                for (size_t n = 0; n < out.getNumFrames(); ++n)
                    out[c][n] = (S) curve.at (c, pos + n);

            pos += out.getNumFrames();
        }

        HART_DSP_DEFINE_COPY_AND_MOVE (CurveDsp);
    };

    // What is wrong with the panel (empty: nothing)
    std::string problem (const Panel& panel, const Curve& curve, size_t channels, double x0, double x1) const
    {
        if (panel.lines.size() != channels)
            return fmt ("%zu lines for %zu channels", panel.lines.size(), channels);

        for (auto& l : panel.lines)
        {
            if (l.size() < 2)
                return "a line without length";

            if (std::abs (l.front().x - x0) > 0.05 || std::abs (l.back().x - x1) > 0.05)
                return fmt ("a line from %g to %g instead of %g to %g", l.front().x, l.back().x, x0, x1);

            for (auto& p : l)
                if (! (p.x >= -1 && p.x <= 1201 && p.y >= -1 && p.y <= 201))
                    return fmt ("a point outside of the panel at %g %g", p.x, p.y);
        }

        // The scale, from the points themselves: y = a + b * value
        double lo = 1e300, hi = -1e300, peak = 0;

        for (size_t c = 0; c < channels; ++c)
            for (size_t n = 0; n < frames; ++n)
            {
                const double v = (double) (S) curve.at (c, n);
                lo = std::min (lo, v);
                hi = std::max (hi, v);
                peak = std::max (peak, std::abs (v));
            }

        double top = 1e300, bottom = -1e300;

        for (auto& l : panel.lines)
            for (auto& p : l)
            {
                top = std::min (top, p.y);
                bottom = std::max (bottom, p.y);
            }

        double a, b;

        if (hi - lo >= 0.5 * peak && hi > lo && ! (bottom - top > 20))
            return fmt ("squeezed into %g pixels", bottom - top);

        const bool wide = bottom - top > 20 && hi > lo;

        if (wide)
        {
            b = (top - bottom) / (hi - lo);
            a = bottom - b * lo;
        }
        else
        {
            // All samples are about the same: the labels tell the scale
            const Label *low = nullptr, *high = nullptr;

            for (auto& l : panel.labels)
                if (l.vertical)
                {
                    if (! low || l.value < low->value)
                        low = &l;

                    if (! high || l.value > high->value)
                        high = &l;
                }

            if (! low || low->value == high->value)
            {
                // Silence
                if (peak == 0 && bottom - top < 0.05)
                    return "";

                return peak == 0 ? "not flat, but the audio is silent" : "";
            }

            b = (high->y - low->y) / (high->value - low->value);
            a = low->y + 1 - b * low->value;
        }

        if (! (b < 0))
            return "upside down";

        const double xs = (x1 - x0) / (double) (frames - 1);
        std::string first;

        for (int order = 0; order < 2; ++order)
        {
            std::string bad;

            for (size_t c = 0; c < channels && bad.empty(); ++c)
            {
                const auto& line = panel.lines[order == 0 ? channels - 1 - c : c];
                size_t from = 0;

                for (size_t n = 0; n < frames; ++n)
                {
                    const Point p { x0 + xs * (double) n, a + b * (double) (S) curve.at (c, n) };
                    const double d = distanceTo (line, from, p);

                    if (! (d <= (wide ? 0.3 : 2.5)))
                    {
                        bad = fmt ("wrong: channel %zu frame %zu (%g) should be at %g %g, but the line is %g pixels away", c, n, curve.at (c, n), p.x, p.y, std::min (d, 9999.0));
                        break;
                    }
                }
            }

            if (bad.empty())
            {
                first.clear();
                break;
            }

            if (order == 0)
                first = bad;
        }

        if (! first.empty())
            return first;

        // What the labels say
        const double seconds = (double) (frames - 1) / sr;

        for (auto& l : panel.labels)
        {
            if (l.vertical ? std::abs (l.y + 1 - (a + b * l.value)) > 3 : std::abs (l.x - (x0 + (x1 - x0) * l.value / seconds)) > 3 + 1200 * 1e-5)
                return fmt ("labelled %g at %g %g, but that is the place of another %s", l.value, l.x, l.y, l.vertical ? "value" : "time");
        }

        return "";
    }

    std::string problem() const
    {
        std::map<std::string, Panel> panels;
        const std::string p = parse (sim::fs::getFile (path), panels);

        if (! p.empty())
            return "not a complete svg file: " + p;

        const Panel *i = nullptr, *o = nullptr;
        size_t withLines = 0;

        for (auto& x : panels)
        {
            withLines += ! x.second.lines.empty();

            if (x.second.title.find ("Input") != std::string::npos)
                i = &x.second;

            if (x.second.title.find ("Output") != std::string::npos)
                o = &x.second;
        }

        if (! i || ! o || i == o)
            return "without a panel for the input and one for the output audio";

        if (withLines > 2)
            return "with more than two panels";

        if (i->lines.empty() || i->lines[0].empty())
            return "without the input audio";

        const double x0 = i->lines[0].front().x, x1 = i->lines[0].back().x;

        if (x1 - x0 < 100)
            return fmt ("squeezed into %g pixels", x1 - x0);

        std::string q = problem (*i, inCurve, in, x0, x1);

        if (! q.empty())
            return "(input panel) " + q;

        q = problem (*o, outCurve, out, x0, x1);
        return q.empty() ? "" : "(output panel) " + q;
    }
};

sim::fs::Fault genFault (size_t writes)
{
    using sim::fs::Op;
    using sim::fs::Effect;
    sim::fs::Fault f {};
    f.op = oneOf ({ Op::write, Op::write, Op::write, Op::close, Op::open });
    f.index = f.op == Op::write ? pick (writes) : 0;
    f.keep = (uint32_t) pick (256);
    f.effect = oneOf ({ Effect::enospc, Effect::eio, Effect::shortThenEnospc, Effect::shortThenOk, Effect::lostAtClose });

    if (f.op == Op::close)
        f.effect = oneOf ({ Effect::eio, Effect::lostAtClose });

    return f;
}

template <typename S> void runFor()
{
    Test<S> t;
    t.generate();
    const size_t bytes = 5000 + t.frames * (t.in + t.out) * 12;
    sim::simulatedFrames ((double) t.frames, t.sr);

    if (chance (1, 3))
    {
        const std::string old (pick (2) ? 30 : bytes + 5000, 'o');
        sim::fs::putFile (path, old);
        logf ("the file exists, with %zu bytes", old.size());
    }

    const size_t kind = pick (4);
    const size_t writes = 2 + bytes / 8000;
    bool forbidden = false;

    if (kind >= 2)
    {
        const size_t what = pick (8);

        if (what <= 1)
        {
            const uint64_t room = pick (bytes);
            logf ("the disk has room for %llu bytes", (unsigned long long) room);
            sim::fs::setCapacity (room);
        }
        else if (what == 2)
        {
            logf ("the file may not be opened");
            sim::fs::forbid (path);
            forbidden = true;
            sim::faultFired ("disk-open:forbidden");
        }
        else
        {
            const size_t n = 1 + pick (2);

            for (size_t i = 0; i < n; ++i)
            {
                const sim::fs::Fault f = genFault (writes);
                logf ("fault planned: %s", sim::fs::describe (f).c_str());
                sim::fs::addFault (f);
            }
        }
    }

    auto h = t.build();
    sim::fs::armFaults (true);
    const Outcome o = observe ([&] { h->process(); });
    sim::fs::armFaults (false);
    logf ("process(): %s", o.summary().c_str());
    sim::nontrivial();

    if (sim::fs::openHandles() != 0)
        sim::violation ("left-open", "the file was left open");

    sim::mixState ((uint64_t) o.kind + 4 * sim::fs::opCount (sim::fs::Op::write));

    if (o.kind == Outcome::passed)
    {
        if (! sim::fs::exists (path))
            sim::violation ("not-saved", "process() returned normally, but there is no plot");

        const std::string p = t.problem();

        if (! p.empty())
            sim::violation ("plot", "process() returned normally, but the plot is %s", p.c_str());

        if (sim::fs::firedCount() > 0)
            sim::probe ("saved in spite of a fault");

        sim::probe ("plot was compared with the audio");
        const std::string bytesNow = sim::fs::getFile (path);
        sim::mixState (hashOf (bytesNow.data(), bytesNow.size(), 1));
        return;
    }

    if (o.kind == Outcome::assertion)
        sim::violation ("assertion", "an assertion failed, but there is none: %s", o.text.c_str());

    if (sim::fs::firedCount() == 0 && ! forbidden)
        sim::violation ("false-alarm", "nothing is wrong with the disk, but process() threw: %s", o.text.c_str());

    sim::probe ("failure to save was reported");

    if (! forbidden && chance (1, 2))
    {
        sim::fs::setCapacity (~0ull);
        const Outcome again = observe ([&] { t.build()->process(); });

        if (again.kind != Outcome::passed)
            sim::violation ("still-failing", "plotting fails after the disk has recovered: %s", again.summary().c_str());

        const std::string p = t.problem();

        if (! p.empty())
            sim::violation ("plot", "saved after an earlier failure, the plot is %s", p.c_str());
    }
}

void run()
{
    chance (1, 2) ? runFor<float>() : runFor<double>();
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C20", run, 8000, 200000,
    "a random test (type, rate, layout, length, block size; waves, noise, impulses, constants, ramps, silence at different levels as input and as output) that plots its audio over an absent, shorter or longer file; disk faults at random "
    "operations (open, write, close: error, no space, short, lost at close) or a disk of limited capacity; a normal return needs a complete svg file in which an independent reader finds both panels, a line per channel through every sample on "
    "common scales, and labels that agree with them; plotting works again later. Non-trivial: a plot was requested.",
    "AudioTestBuilder, plotData, signalsmith plot, C++ library streams", "disk (simulated, below stdio), tested DSP and signal (instrumented)", 60
};
