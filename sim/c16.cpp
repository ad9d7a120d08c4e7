// C16: an audio buffer is a value with per-channel contents
#include "kit.hpp"

using namespace kit;

namespace
{
template <typename S>
struct World
{
    typedef hart::AudioBuffer<S> Buffer;

    struct Slot
    {
        std::unique_ptr<Buffer> real;
        size_t ch = 0, frames = 0;
        Planes<S> data;
    };

    std::vector<Slot> slots;
    size_t op = 0;
    double marker = 1;

    // Every sample of every buffer that was ever written is different
    S value (bool plain = false)
    {
        const S special[] = { std::numeric_limits<S>::infinity(), -std::numeric_limits<S>::infinity(), std::numeric_limits<S>::lowest(), (S) -0.0, std::numeric_limits<S>::denorm_min() };
        marker += 1;

        if (plain)
            return (S) (((size_t) marker % 3 == 0 ? -1 : 1) * marker / 1024.0);

        return chance (1, 12) ? special[pick (5)] : (S) ((chance (1, 2) ? -1 : 1) * marker / 1024.0);
    }

    static bool same (S a, S b) { return a == b; }

    void checkAll (const char* after)
    {
        sim::Pause p;

        for (size_t i = 0; i < slots.size(); ++i)
        {
            const Slot& s = slots[i];

            if (s.real == nullptr)
                continue;

            const Buffer& b = *s.real;

            if (b.getNumChannels() != s.ch || b.getNumFrames() != s.frames)
                sim::violation ("shape", "after %s (operation %zu) buffer %zu has %zu channels of %zu frames instead of %zu of %zu", after, op, i, b.getNumChannels(), b.getNumFrames(), s.ch, s.frames);

            for (size_t c = 0; c < s.ch && s.frames > 0; ++c)
            {
                if (b[c] != b.getArrayOfReadPointers()[c] || b[c] != s.real->getArrayOfWritePointers()[c])
                    sim::violation ("pointers", "after %s (operation %zu) the pointers to channel %zu of buffer %zu differ", after, op, c, i);

                for (size_t n = 0; n < s.frames; ++n)
                    if (! same (b[c][n], s.data[c][n]))
                        sim::violation ("contents", "after %s (operation %zu) buffer %zu of %zu channels of %zu frames holds %.9g in channel %zu frame %zu instead of %.9g", after, op, i, s.ch, s.frames, (double) b[c][n], c, n,
                                        (double) s.data[c][n]);
            }

            // Nothing is shared between channels and buffers
            for (size_t c = 0; c < s.ch && s.frames > 0; ++c)
                for (size_t j = 0; j <= i; ++j)
                    for (size_t d = 0; d < slots[j].ch && slots[j].real != nullptr && slots[j].frames > 0; ++d)
                        if (! (j == i && d == c) && b[c] < (*slots[j].real)[d] + slots[j].frames && (*slots[j].real)[d] < b[c] + s.frames)
                            sim::violation ("shared", "after %s (operation %zu) channel %zu of buffer %zu overlaps with channel %zu of buffer %zu", after, op, c, i, d, j);
        }
    }

    // Runs f, which is rejected or not; false if it had no effect
    template <typename F> bool attempt (const char* what, bool rejected, F f)
    {
        bool threw = false, noMemory = false;
        const bool faulty = chance (1, 4);
        const uint64_t k = faulty ? pick (4) : 0;

        if (faulty)
            sim::AllocFaults::armNth (k);

        try { f(); }
        catch (const std::bad_alloc&) { noMemory = threw = true; }
        catch (const std::length_error&) { noMemory = threw = true; }
        catch (const std::exception&) { threw = true; }

        const uint64_t fired = faulty ? sim::AllocFaults::firedSinceArm() : 0;
        sim::AllocFaults::disarm();

        if (rejected && ! threw)
            sim::violation ("accepted", "%s (operation %zu) was not rejected", what, op);

        if (! rejected && threw && ! (noMemory && fired > 0))
            sim::violation ("rejected", "%s (operation %zu) threw", what, op);

        if (rejected)
            sim::probe ("rejected operation");
        else if (threw)
            sim::probe ("operation without memory");

        return ! threw;
    }

    void step()
    {
        Slot& a = slots[pick (slots.size())];
        Slot& b = slots[pick (slots.size())];
        const size_t ia = (size_t) (&a - slots.data()), ib = (size_t) (&b - slots.data());
        const size_t kind = pick (13);

        if (a.real == nullptr || (kind >= 3 && b.real == nullptr) || kind == 0)
        {
            const bool wide = outsized(), lengthy = outsized();
            const size_t ch = wide ? 5 + pick (200) : pick (5), frames = lengthy && ! wide ? 300 + pick (80000) : pick (chance (1, 8) ? 300 : 9);
            logf ("#%zu = buffer (%zu, %zu)", ia, ch, frames);
            std::unique_ptr<Buffer> n;

            if (attempt ("construction", false, [&] { n.reset (new Buffer (ch, frames)); }))
            {
                a.real = std::move (n);
                a.ch = ch;
                a.frames = frames;
                a.data.assign (ch, std::vector<S> (frames));
            }

            checkAll ("construction");
            return;
        }

        switch (kind)
        {
            case 1:
            {
                logf ("#%zu destroyed", ia);
                a.real.reset();
                a.ch = a.frames = 0;
                checkAll ("destruction");
                break;
            }

            case 2: case 3:
            {
                const size_t how = pick (3);    // copy, move, emptyLike
                logf ("new #%zu made from #%zu by %s", ib, ia, how == 0 ? "copying" : how == 1 ? "moving" : "emptyLike");
                std::unique_ptr<Buffer> n;

                if (attempt ("copy construction", false, [&] { n.reset (how == 0 ? new Buffer (*a.real) : how == 1 ? new Buffer (std::move (*a.real)) : new Buffer (Buffer::emptyLike (*a.real))); }))
                {
                    Planes<S> data = a.data;
                    const size_t ch = a.ch, frames = a.frames;

                    if (how == 2)
                        data.assign (ch, std::vector<S> (frames));

                    if (how == 1)
                    {
                        a.frames = 0;
                        a.data.assign (a.ch, std::vector<S>());
                    }

                    b.real = std::move (n);
                    b.ch = ch;
                    b.frames = frames;
                    b.data = data;
                }

                checkAll (how == 1 ? "move construction" : how == 0 ? "copy construction" : "emptyLike");
                break;
            }

            case 4: case 5: case 6:
            {
                const bool move = kind == 6;
                logf ("#%zu %s #%zu", ia, move ? "= move of" : "=", ib);

                if (attempt ("assignment", a.ch != b.ch, [&] { if (move) *a.real = std::move (*b.real); else *a.real = *b.real; }) && &a != &b)
                {
                    a.frames = b.frames;
                    a.data = b.data;

                    if (move)
                    {
                        b.frames = 0;
                        b.data.assign (b.ch, std::vector<S>());
                    }
                }

                checkAll (move ? "move assignment" : "copy assignment");
                break;
            }

            case 7: case 8:
            {
                if (a.frames + b.frames > (a.ch > 8 ? 2000 : 200000))
                    break;

                logf ("#%zu appends #%zu", ia, ib);

                if (attempt ("append", a.ch != b.ch, [&] { a.real->appendFrom (*b.real); }))
                {
                    const Planes<S> from = b.data;
                    const size_t n = b.frames;

                    for (size_t c = 0; c < a.ch; ++c)
                        a.data[c].insert (a.data[c].end(), from[c].begin(), from[c].end());

                    a.frames += n;
                }

                checkAll ("append");
                break;
            }

            case 9:
                logf ("#%zu cleared", ia);
                a.real->clear();
                a.frames = 0;
                a.data.assign (a.ch, std::vector<S>());
                checkAll ("clear");
                break;

            case 10: case 11:
            {
                if (a.ch == 0 || a.frames == 0)
                    break;

                const size_t how = pick (3), c = pick (a.ch), from = pick (a.frames), n = 1 + pick (a.frames - from);
                logf ("#%zu: writes %zu frames from %zu of channel %zu", ia, n, from, c);

                for (size_t i = from; i < from + n; ++i)
                {
                    const S v = value (n > 300);
                    a.data[c][i] = v;
                    (how == 0 ? a.real->getArrayOfWritePointers()[c] : (*a.real)[c])[i] = v;
                }

                checkAll ("writing");
                break;
            }

            default:
            {
                const size_t huge = ~(size_t) 0;
                const bool one = chance (1, 2);
                size_t c = chance (1, 6) ? oneOf<size_t> ({ a.ch, a.ch + 1, huge }) : a.ch > 0 ? pick (a.ch) : 0;
                size_t from = chance (1, 5) ? oneOf<size_t> ({ a.frames, a.frames + 1, huge, huge - 3 }) : pick (a.frames + 1);
                size_t n = chance (1, 5) ? oneOf<size_t> ({ 0, a.frames + 1, huge, huge - from + 1, huge - 2 }) : pick (a.frames + 2);
                const bool bad = n == 0 || from > a.frames || n > a.frames - from || (one && c >= a.ch);
                S got = 0, expected = 0;
                logf ("#%zu: peak of %zu frames from %zu%s", ia, n, from, one ? fmt (" of channel %zu", c).c_str() : "");

                if (attempt ("getMagnitude", bad, [&] { got = one ? a.real->getMagnitude (c, from, n) : a.real->getMagnitude (from, n); }))
                {
                    for (size_t k = 0; k < a.ch; ++k)
                        for (size_t i = from; i < from + n; ++i)
                            if (! one || k == c)
                                expected = std::max (expected, std::abs (a.data[k][i]));

                    if (got != expected)
                        sim::violation ("peak", "getMagnitude of %zu frames from %zu of buffer %zu (%zu channels of %zu frames%s) is %.9g instead of %.9g", n, from, ia, a.ch, a.frames, one ? ", one channel" : "", (double) got,
                                        (double) expected);

                    sim::probe ("peak");
                }

                checkAll ("getMagnitude");
            }
        }
    }

    void run()
    {
        const int64_t before = sim::AllocFaults::live();
        slots.resize (2 + pick (4));
        const size_t n = 5 + pick (40);

        for (op = 0; op < n; ++op)
            step();

        for (auto& s : slots)
            s.real.reset();

        slots = std::vector<Slot>();

        if (sim::AllocFaults::live() != before)
            sim::violation ("leak", "%lld allocations are left after all buffers have been destroyed", (long long) (sim::AllocFaults::live() - before));

        sim::nontrivial();
    }
};

void run()
{
    if (chance (1, 2)) { World<float> w; w.run(); }
    else { World<double> w; w.run(); }
}
}  // namespace

const sim::Scenario sim::scenario = {
    "C16", run, 40000, 3000000,
    "histories of 5-44 operations (construct, copy, move, emptyLike, assign incl. to itself, append incl. to itself, clear, write, peak of valid and invalid ranges, destroy) over 2-5 buffers of 0-4 channels and 0-2000 frames (sometimes up to 204 channels or 200000 frames), a "
    "quarter of the operations with the k-th allocation failing; after every operation all buffers are compared with arrays of channels. Non-trivial: every run.",
    "AudioBuffer", "heap (failing allocations)", 60
};
