// Deterministic simulator: choices, simulated disk / clock / entropy / memory / threads, run management.
// Not instrumented, knows nothing about HART.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <memory>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <thread>
#include <time.h>
#include <unistd.h>

#define NOSAN __attribute__ ((no_sanitize ("address", "undefined")))

// =====================================================================================================
// Shared-memory records

namespace
{
constexpr size_t maxChoices = 1 << 15;
constexpr size_t maxLog = 1 << 18;
constexpr size_t maxNames = 96;
constexpr size_t covBits = 1 << 16;

struct Counter { char name[56]; uint64_t n; };

struct CounterTable
{
    Counter c[maxNames];

    void add (const char* name, uint64_t n)
    {
        for (auto& x : c)
        {
            if (x.name[0] == 0)
                std::snprintf (x.name, sizeof (x.name), "%s", name);

            if (std::strncmp (x.name, name, sizeof (x.name) - 1) == 0)
            {
                x.n += n;
                return;
            }
        }
    }

    void merge (const CounterTable& o)
    {
        for (auto& x : o.c)
            if (x.name[0] != 0)
                add (x.name, x.n);
    }
};

enum Status { stNone, stHeld, stViolation, stHarness };

struct Record
{
    int status;
    uint32_t numChoices;
    uint32_t nontrivial;
    uint64_t hash;
    uint64_t covHash;
    uint64_t steps;
    uint64_t switches;
    double simSeconds;
    double simFrames;
    uint64_t logLen;
    char cls[160];
    char msg[4096];
    CounterTable faults;
    CounterTable probes;
    uint64_t choices[maxChoices];
    char log[maxLog];
    uint64_t cov[covBits / 64];
};

Record* R = nullptr;

// ---------------------------------------------------------------- PRNG and choices
uint64_t mix64 (uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng
{
    uint64_t s = 0;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
};

Rng g_rng;
bool g_replay = false;
const std::vector<uint64_t>* g_trace = nullptr;

// ---------------------------------------------------------------- execution state of the code under test
int g_active = 0;           // a run is in progress in this process
int g_pause = 0;
uint64_t g_steps = 0;
uint64_t g_stepBudget = 120000000ull;
uint64_t g_nextEvent = ~0ull;
bool g_inGrandchild = false;
int g_outFd = -1;

[[noreturn]] void exitRun (int code)
{
    fflush (stdout);
    syscall (SYS_exit_group, code);
    __builtin_unreachable();
}

uint64_t nowNs()
{
    struct timespec t;
    syscall (SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return (uint64_t) t.tv_sec * 1000000000ull + (uint64_t) t.tv_nsec;
}

void hashBytes (const void* p, size_t n)
{
    const unsigned char* b = (const unsigned char*) p;
    uint64_t h = R->hash;

    for (size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 0x100000001b3ull;

    R->hash = h ^ (h >> 29);
}

void appendLog (const char* s, size_t n)
{
    if (R->logLen + n + 1 < maxLog)
    {
        std::memcpy (R->log + R->logLen, s, n);
        R->logLen += n;
        R->log[R->logLen] = 0;
    }
}

}  // namespace

namespace sim
{

Pause::Pause() { ++g_pause; }
Pause::~Pause() { --g_pause; }

uint64_t pick (uint64_t n)
{
    if (n <= 1)
        return 0;

    if (R->numChoices >= maxChoices)
        harnessError ("too many choices in one run");

    uint64_t v;

    if (g_replay)
        v = R->numChoices < g_trace->size() ? std::min ((*g_trace)[R->numChoices], n - 1) : 0;
    else
        v = (uint64_t) (((unsigned __int128) g_rng.next() * n) >> 64);

    R->choices[R->numChoices++] = v;
    return v;
}

double real (double lo, double hi)
{
    return lo + (hi - lo) * ((double) pick (4097) / 4096.0);
}

void logf (const char* fmt, ...)
{
    Pause p;
    char buf[2048];
    va_list a;
    va_start (a, fmt);
    int n = vsnprintf (buf, sizeof (buf) - 2, fmt, a);
    va_end (a);
    n = std::min (n, (int) sizeof (buf) - 3);
    buf[n++] = '\n';
    hashBytes (buf, (size_t) n);
    appendLog (buf, (size_t) n);
}

std::string hex (double v)
{
    char b[64];
    snprintf (b, sizeof (b), "%.9g", v);
    return b;
}

void mixState (uint64_t h)
{
    hashBytes (&h, sizeof (h));
}

void violation (const char* cls, const char* fmt, ...)
{
    ++g_pause;
    va_list a;
    va_start (a, fmt);
    vsnprintf (R->msg, sizeof (R->msg), fmt, a);
    va_end (a);
    snprintf (R->cls, sizeof (R->cls), "%s", cls);
    R->steps = g_steps;
    R->status = stViolation;
    exitRun (0);
}

void harnessError (const char* fmt, ...)
{
    ++g_pause;
    va_list a;
    va_start (a, fmt);
    vsnprintf (R->msg, sizeof (R->msg), fmt, a);
    va_end (a);
    R->status = stHarness;
    exitRun (0);
}

void finish()
{
    ++g_pause;
    R->steps = g_steps;
    uint64_t h = 1469598103934665603ull;

    for (size_t i = 0; i < covBits / 64; ++i)
        h = (h ^ R->cov[i]) * 0x100000001b3ull + (h >> 31);

    R->covHash = h;
    R->status = stHeld;
    exitRun (0);
}

void nontrivial() { R->nontrivial = 1; }
void probe (const char* name) { R->probes.add (name, 1); }
void faultFired (const char* kind) { Pause p; R->faults.add (kind, 1); logf ("fault %s", kind); }
void simulatedFrames (double frames, double sr) { R->simFrames += frames; R->simSeconds += frames / sr; }

}  // namespace sim

// =====================================================================================================
// Threads: one baton

namespace
{
struct SimThread
{
    pthread_t handle;
    sem_t sem;
    bool finished = false;
    bool waiting = false;            // in forcedYield()
    std::function<void()> body;
};

std::vector<SimThread*> g_threads;
SimThread* g_current = nullptr;
sem_t g_mainSem;
unsigned g_switchesLeft = 0;
unsigned g_switches = 0;
bool g_longTurn = false;
const uint64_t longTurn = 5000000;   // more than any body needs: it may be spinning
unsigned g_idle = 0;                 // forced yields in a row in which nobody has made progress
thread_local SimThread* t_self = nullptr;

void semWait (sem_t* s) { while (sem_wait (s) != 0) {} }

uint64_t drawQuantum()
{
    if (g_switchesLeft == 0)
        return ~0ull;

    --g_switchesLeft;
    const uint64_t e = sim::pick (14);   // 0: run to the end

    if (e == 0)
        return ~0ull;

    return (1ull << e) + sim::pick (1ull << e);
}

void scheduleNext (SimThread* from)      // called with the baton; hands it over
{
    // Threads that can run, this one first: the simplest choice is to go on
    SimThread* candidates[64];
    size_t n = 0;

    if (from != nullptr && ! from->finished)
        candidates[n++] = from;

    for (auto* t : g_threads)
        if (! t->finished && t != from)
            candidates[n++] = t;

    SimThread* next = candidates[sim::pick (n)];
    const uint64_t q = drawQuantum();
    g_longTurn = q == ~0ull;
    g_nextEvent = g_longTurn ? g_steps + longTurn : g_steps + q;
    g_current = next;

    if (next == from)
        return;

    ++g_switches;
    sim::logf ("switch to thread %d at step %" PRIu64, (int) (std::find (g_threads.begin(), g_threads.end(), next) - g_threads.begin()), g_steps);
    sem_post (&next->sem);

    if (from != nullptr && ! from->finished)
        semWait (&from->sem);
}

void forcedYield()                       // this thread cannot go on (lock, guard): somebody else has to run
{
    SimThread* self = t_self;

    if (self == nullptr)
        return;

    sim::Pause p;
    std::vector<SimThread*> others, waiting;
    static unsigned rotation = 0;

    for (auto* t : g_threads)
        if (! t->finished && t != self)
            (t->waiting ? waiting : others).push_back (t);

    // Those that wait as well are only asked if there is nobody else
    if (! others.empty())
        g_idle = 0;
    else if (waiting.empty() || ++g_idle > 4 * waiting.size() * waiting.size())
        sim::violation ("deadlock", "a thread waits for something that no other thread can provide");
    else
        others = waiting;

    SimThread* next = others[rotation++ % others.size()];
    self->waiting = true;
    g_longTurn = false;
    g_nextEvent = g_steps + 50;
    g_current = next;
    ++g_switches;
    const int savedPause = g_pause;
    g_pause = 0;
    sem_post (&next->sem);
    semWait (&self->sem);
    self->waiting = false;
    g_pause = savedPause;

    if (++g_steps > g_stepBudget)
        sim::violation ("hang", "step budget exhausted while waiting");
}

void forcedTurn()                        // this thread has had a very long turn
{
    for (auto* t : g_threads)
        if (! t->finished && t != t_self)
        {
            forcedYield();
            return;
        }
}

void* threadMain (void* arg)
{
    SimThread* self = (SimThread*) arg;
    t_self = self;
    semWait (&self->sem);
    self->body();
    ++g_pause;
    self->body = nullptr;
    self->finished = true;
    g_nextEvent = ~0ull;
    --g_pause;
    t_self = nullptr;
    sem_post (&g_mainSem);
    return nullptr;
}

void covSlow()
{
    if (g_steps >= g_stepBudget)
        sim::violation ("hang", "no end after %" PRIu64 " basic blocks", g_steps);

    if (t_self != nullptr && g_steps >= g_nextEvent)
    {
        ++g_pause;
        const int saved = g_pause;
        g_nextEvent = ~0ull;
        g_pause = 1;
        // pick() and logging are core code; the pause keeps fault injection out of them
        SimThread* self = t_self;
        g_pause = 0;

        if (g_longTurn && g_threads.size() > 1)
            forcedTurn();
        else
            scheduleNext (self);

        g_pause = saved - 1;
    }
}

}  // namespace

extern "C" NOSAN void __sanitizer_cov_trace_pc()
{
    if (! g_active || g_pause)
        return;

    const uintptr_t pc = (uintptr_t) __builtin_return_address (0);
    const uint32_t b = (uint32_t) ((pc * 0x9e3779b1u) >> 8) & (covBits - 1);
    R->cov[b >> 6] |= 1ull << (b & 63);

    if (++g_steps >= g_stepBudget || g_steps >= g_nextEvent)
        covSlow();
}

namespace sim
{

void yieldPoint()
{
    if (t_self != nullptr && g_active && ! g_pause)
        scheduleNext (t_self);
}

unsigned contextSwitches() { return g_switches; }

void runThreads (std::vector<std::function<void()>> bodies, unsigned maxSwitches)
{
    g_switchesLeft = maxSwitches;
    sem_init (&g_mainSem, 0, 0);

    for (auto& b : bodies)
    {
        auto* t = new SimThread;
        t->body = std::move (b);
        sem_init (&t->sem, 0, 0);
        g_threads.push_back (t);
    }

    for (auto* t : g_threads)
        if (pthread_create (&t->handle, nullptr, &threadMain, t) != 0)
            harnessError ("pthread_create failed");

    size_t left = g_threads.size();

    while (left > 0)
    {
        scheduleNext (nullptr);
        semWait (&g_mainSem);

        for (auto* t : g_threads)
        {
            if (t->finished && t->handle != 0)
            {
                pthread_join (t->handle, nullptr);
                t->handle = 0;
                --left;
            }
        }
    }

    R->switches += g_switches;

    for (auto* t : g_threads)
        delete t;

    g_threads.clear();
    g_nextEvent = ~0ull;
}

}  // namespace sim

// Locks and static initialisation must not block a thread that holds the baton
extern "C" int pthread_mutex_lock (pthread_mutex_t* m)
{
    static int (*real) (pthread_mutex_t*) = nullptr;
    static int (*realTry) (pthread_mutex_t*) = nullptr;

    if (real == nullptr)
    {
        real = (int (*) (pthread_mutex_t*)) dlsym (RTLD_NEXT, "pthread_mutex_lock");
        realTry = (int (*) (pthread_mutex_t*)) dlsym (RTLD_NEXT, "pthread_mutex_trylock");
    }

    if (t_self == nullptr)
        return real (m);

    int r;

    while ((r = realTry (m)) == EBUSY)
        forcedYield();

    g_idle = 0;
    return r;
}

extern "C" int pthread_once (pthread_once_t* once, void (*f)())
{
    static int (*real) (pthread_once_t*, void (*)()) = nullptr;

    if (real == nullptr)
        real = (int (*) (pthread_once_t*, void (*)())) dlsym (RTLD_NEXT, "pthread_once");

    if (t_self != nullptr)
        while ((__atomic_load_n (once, __ATOMIC_ACQUIRE) & 3) == 1)   // somebody else is at it
            forcedYield();

    g_idle = 0;
    return real (once, f);
}

static int takeTurns (const char* name, int (*attempt) (pthread_rwlock_t*), int (*&real) (pthread_rwlock_t*), pthread_rwlock_t* l)
{
    if (real == nullptr)
        real = (int (*) (pthread_rwlock_t*)) dlsym (RTLD_NEXT, name);

    if (t_self == nullptr)
        return real (l);

    int r;

    while ((r = attempt (l)) == EBUSY)
        forcedYield();

    g_idle = 0;
    return r;
}

extern "C" int pthread_rwlock_rdlock (pthread_rwlock_t* l)
{
    static int (*real) (pthread_rwlock_t*) = nullptr;
    return takeTurns ("pthread_rwlock_rdlock", &pthread_rwlock_tryrdlock, real, l);
}

extern "C" int pthread_rwlock_wrlock (pthread_rwlock_t* l)
{
    static int (*real) (pthread_rwlock_t*) = nullptr;
    return takeTurns ("pthread_rwlock_wrlock", &pthread_rwlock_trywrlock, real, l);
}

namespace __cxxabiv1
{
extern "C" int __cxa_guard_acquire (uint64_t* g)
{
    volatile char* c = (volatile char*) g;

    for (;;)
    {
        if (__atomic_load_n (&c[0], __ATOMIC_ACQUIRE))
        {
            if (t_self != nullptr)
                g_idle = 0;

            return 0;
        }

        if (! c[1])
        {
            c[1] = 1;
            g_idle = 0;
            return 1;
        }

        if (t_self == nullptr)
            return 1;

        forcedYield();
    }
}

extern "C" void __cxa_guard_release (uint64_t* g)
{
    char* c = (char*) g;
    c[1] = 0;
    __atomic_store_n (&c[0], 1, __ATOMIC_RELEASE);
}

extern "C" void __cxa_guard_abort (uint64_t* g)
{
    ((char*) g)[1] = 0;
}
}

// =====================================================================================================
// Memory

namespace
{
bool g_allocArmed = false, g_allocFrom = false;
uint64_t g_allocK = 0, g_allocCount = 0, g_allocFired = 0;
std::atomic<int64_t> g_live { 0 };
int g_fill = 0xa5;

bool allocFails()
{
    if (! g_allocArmed || g_pause || ! g_active)
        return false;

    const uint64_t i = g_allocCount++;

    if (i == g_allocK || (g_allocFrom && i >= g_allocK))
    {
        ++g_allocFired;

        if (g_allocFired == 1)
            sim::faultFired ("alloc:fail");

        return true;
    }

    return false;
}

void* rawNew (size_t n)
{
    if (allocFails())
        return nullptr;

    void* p = malloc (n ? n : 1);

    if (p != nullptr)
    {
        ++g_live;

        if (g_active && n <= (4u << 20))
            memset (p, g_fill, n);
    }

    return p;
}
}  // namespace

void* operator new (size_t n)
{
    void* p = rawNew (n);

    if (p == nullptr)
        throw std::bad_alloc();

    return p;
}

void* operator new[] (size_t n) { return operator new (n); }
void* operator new (size_t n, const std::nothrow_t&) noexcept { return rawNew (n); }
void* operator new[] (size_t n, const std::nothrow_t&) noexcept { return rawNew (n); }
void operator delete (void* p) noexcept { if (p) { --g_live; free (p); } }
void operator delete[] (void* p) noexcept { operator delete (p); }
void operator delete (void* p, size_t) noexcept { operator delete (p); }
void operator delete[] (void* p, size_t) noexcept { operator delete (p); }
void operator delete (void* p, const std::nothrow_t&) noexcept { operator delete (p); }
void operator delete[] (void* p, const std::nothrow_t&) noexcept { operator delete (p); }

namespace sim
{
void AllocFaults::armNth (uint64_t k) { g_allocArmed = true; g_allocFrom = false; g_allocK = k; g_allocCount = 0; g_allocFired = 0; }
void AllocFaults::armFrom (uint64_t k) { armNth (k); g_allocFrom = true; }
void AllocFaults::disarm() { g_allocArmed = false; }
uint64_t AllocFaults::countSinceArm() { return g_allocCount; }
uint64_t AllocFaults::firedSinceArm() { return g_allocFired; }
int64_t AllocFaults::live() { return g_live.load(); }
void AllocFaults::setFill (uint8_t b) { g_fill = b; }

void* libAlloc (size_t n) { return rawNew (n); }
void libFree (void* p) { operator delete (p); }
void* libRealloc (void* p, size_t n)
{
    if (p == nullptr)
        return rawNew (n);

    if (allocFails())
        return nullptr;

    return realloc (p, n);
}
}  // namespace sim

// =====================================================================================================
// Simulated disk

namespace
{
constexpr size_t maxFiles = 96, fileCap = 12u << 20, maxFaults = 16, maxHandles = 64;
constexpr int fdBase = 0x20000000;
const char simPrefix[] = "/simfs/";

struct SimFile { bool used; bool exists; bool forbidden; uint32_t size; char path[240]; };

struct Disk
{
    SimFile files[maxFiles];
    sim::fs::Fault faults[maxFaults];
    uint32_t numFaults;
    bool armed;
    uint64_t capacity;
    uint64_t count[(int) sim::fs::Op::count];
    uint64_t fired;
    uint64_t modifications;
    uint64_t handles;
};

Disk* D = nullptr;
unsigned char* diskData = nullptr;

struct Handle { bool used; bool random; bool readable, writable, append; int file; uint64_t pos; bool lost; FILE* stream; bool failSticky; };
Handle g_handles[maxHandles];

unsigned char* dataOf (int f) { return diskData + (size_t) f * fileCap; }

std::string normalise (const char* path)
{
    std::string in (path), out;

    if (in.empty() || in[0] != '/')
        in = std::string (simPrefix) + ".cwd/" + in;

    std::vector<std::string> parts;
    size_t i = 0;

    while (i < in.size())
    {
        size_t j = in.find ('/', i);

        if (j == std::string::npos)
            j = in.size();

        const std::string c = in.substr (i, j - i);

        if (c == "..") { if (! parts.empty()) parts.pop_back(); }
        else if (! c.empty() && c != ".") parts.push_back (c);

        i = j + 1;
    }

    for (auto& p : parts)
        out += "/" + p;

    return out.empty() ? "/" : out;
}

int findFile (const std::string& p)
{
    for (size_t i = 0; i < maxFiles; ++i)
        if (D->files[i].used && p == D->files[i].path)
            return (int) i;

    return -1;
}

int makeFile (const std::string& p)
{
    for (size_t i = 0; i < maxFiles; ++i)
    {
        if (! D->files[i].used)
        {
            D->files[i] = SimFile();
            D->files[i].used = true;
            snprintf (D->files[i].path, sizeof (D->files[i].path), "%s", p.c_str());
            return (int) i;
        }
    }

    sim::harnessError ("simulated disk: too many files");
}

uint64_t usedBytes()
{
    uint64_t n = 0;

    for (auto& f : D->files)
        if (f.used && f.exists)
            n += f.size;

    return n;
}

const char* opNames[] = { "open", "read", "write", "seek", "close" };
const char* effectNames[] = { "eio", "enospc", "short", "short+enospc", "crash", "lost-at-close" };

// Returns the fault that hits this operation, or nullptr
const sim::fs::Fault* hit (sim::fs::Op op)
{
    const uint64_t i = D->count[(int) op]++;

    if (! D->armed)
        return nullptr;

    for (uint32_t k = 0; k < D->numFaults; ++k)
    {
        if (D->faults[k].op == op && D->faults[k].index == i)
        {
            char name[64];
            snprintf (name, sizeof (name), "disk-%s:%s", opNames[(int) op], effectNames[(int) D->faults[k].effect]);
            ++D->fired;
            sim::faultFired (name);
            return &D->faults[k];
        }
    }

    return nullptr;
}

bool isSimPath (const char* path, bool forWriting)
{
    if (path == nullptr || ! g_active || D == nullptr)
        return false;

    if (strcmp (path, "/dev/urandom") == 0 || strcmp (path, "/dev/random") == 0)
        return true;

    if (path[0] != '/')
        return true;

    if (strncmp (path, simPrefix, sizeof (simPrefix) - 1) == 0)
        return true;

    if (strncmp (path, "/dev/", 5) == 0 || strncmp (path, "/proc/", 6) == 0)
        return false;

    return forWriting;   // contains whatever tries to write elsewhere
}

int allocHandle()
{
    for (size_t i = 0; i < maxHandles; ++i)
    {
        if (! g_handles[i].used)
        {
            g_handles[i] = Handle();
            g_handles[i].used = true;
            return (int) i;
        }
    }

    errno = EMFILE;
    return -1;
}

int simOpen (const char* rawPath, int flags)
{
    sim::Pause p;
    const int acc = flags & O_ACCMODE;

    if (strcmp (rawPath, "/dev/urandom") == 0 || strcmp (rawPath, "/dev/random") == 0)
    {
        const int h = allocHandle();

        if (h >= 0)
        {
            g_handles[h].random = true;
            g_handles[h].readable = true;
            g_handles[h].file = -1;
        }

        return h;
    }

    const std::string path = normalise (rawPath);

    if (const auto* f = hit (sim::fs::Op::open))
    {
        if (f->effect == sim::fs::Effect::crash)
            sim::crash();

        errno = f->effect == sim::fs::Effect::enospc ? ENOSPC : EIO;
        sim::logf ("disk open %s -> error", path.c_str());
        return -1;
    }

    int i = findFile (path);

    if ((i >= 0 && D->files[i].forbidden) || path.find ("/missing-dir/") != std::string::npos)
    {
        sim::faultFired (i >= 0 ? "open-refused" : "no-such-directory");
        errno = i >= 0 ? EACCES : ENOENT;
        sim::logf ("disk open %s -> refused", path.c_str());
        return -1;
    }

    if (i < 0 || ! D->files[i].exists)
    {
        if (! (flags & O_CREAT))
        {
            errno = ENOENT;
            sim::logf ("disk open %s -> ENOENT", path.c_str());
            return -1;
        }

        if (i < 0)
            i = makeFile (path);

        D->files[i].exists = true;
        D->files[i].size = 0;
        ++D->modifications;
    }
    else if ((flags & O_CREAT) && (flags & O_EXCL))
    {
        errno = EEXIST;
        return -1;
    }

    const int h = allocHandle();

    if (h < 0)
        return -1;

    Handle& H = g_handles[h];
    H.file = i;
    H.readable = acc != O_WRONLY;
    H.writable = acc != O_RDONLY;
    H.append = (flags & O_APPEND) != 0;

    if (H.writable)
        ++D->modifications;

    if (flags & O_TRUNC)
        D->files[i].size = 0;

    ++D->handles;
    sim::logf ("disk open %s for %s", path.c_str(), H.writable ? "writing" : "reading");
    return h;
}

ssize_t simWriteOnce (int h, const char* buf, size_t n)
{
    sim::Pause p;
    Handle& H = g_handles[h];

    if (! H.writable) { errno = EBADF; return -1; }

    const auto* f = hit (sim::fs::Op::write);
    size_t allowed = n;
    int err = 0;
    bool die = false;

    if (f != nullptr)
    {
        const size_t part = (size_t) ((unsigned __int128) n * f->keep / 256);

        switch (f->effect)
        {
            case sim::fs::Effect::eio: allowed = 0; err = EIO; break;
            case sim::fs::Effect::enospc: allowed = 0; err = ENOSPC; D->capacity = usedBytes(); break;
            case sim::fs::Effect::shortThenOk: allowed = std::max<size_t> (part, n > 0 ? 1 : 0); break;
            case sim::fs::Effect::shortThenEnospc: allowed = part; err = part == 0 ? ENOSPC : 0; D->capacity = usedBytes() + part; break;
            case sim::fs::Effect::crash: allowed = part; die = true; break;
            case sim::fs::Effect::lostAtClose: H.lost = true; sim::logf ("disk write n=%zu (will be lost)", n); H.pos += n; return (ssize_t) n;
        }
    }

    if (H.append)
        H.pos = D->files[H.file].size;

    const uint64_t end = H.pos + allowed;

    if (end > D->files[H.file].size)
    {
        const uint64_t grow = end - D->files[H.file].size;
        const uint64_t used = usedBytes();

        if (used + grow > D->capacity)
        {
            const uint64_t room = D->capacity > used ? D->capacity - used : 0;
            const uint64_t possible = room + (D->files[H.file].size > H.pos ? D->files[H.file].size - H.pos : 0);

            if (f == nullptr)
            {
                sim::faultFired ("disk-full");
                ++D->fired;
            }

            allowed = std::min<uint64_t> (allowed, possible);

            if (allowed == 0 && n > 0)
                err = ENOSPC;
        }
    }

    if (H.pos + allowed > fileCap)
        sim::harnessError ("simulated disk: file too large");

    if (allowed > 0)
    {
        SimFile& F = D->files[H.file];

        if (H.pos > F.size)
            memset (dataOf (H.file) + F.size, 0, H.pos - F.size);

        memcpy (dataOf (H.file) + H.pos, buf, allowed);
        H.pos += allowed;
        F.size = std::max<uint32_t> (F.size, (uint32_t) H.pos);
        ++D->modifications;
    }

    sim::logf ("disk write n=%zu -> %zd", n, err ? (ssize_t) -1 : (ssize_t) allowed);

    if (die)
        sim::crash();

    if (err)
    {
        errno = err;
        return -1;
    }

    return (ssize_t) allowed;
}

uint64_t envRandom();

ssize_t simRead (int h, char* buf, size_t n)
{
    sim::Pause p;
    Handle& H = g_handles[h];

    if (H.random)
    {
        for (size_t i = 0; i < n; ++i)
            buf[i] = (char) envRandom();

        return (ssize_t) n;
    }

    if (! H.readable) { errno = EBADF; return -1; }

    const auto* f = hit (sim::fs::Op::read);
    const SimFile& F = D->files[H.file];
    size_t avail = H.pos < F.size ? F.size - H.pos : 0;
    size_t m = std::min (n, avail);

    if (f != nullptr)
    {
        if (f->effect == sim::fs::Effect::crash)
            sim::crash();

        if (f->effect == sim::fs::Effect::shortThenOk || f->effect == sim::fs::Effect::shortThenEnospc)
            m = m > 0 ? std::max<size_t> (1, (size_t) (m * f->keep / 256)) : 0;
        else
        {
            sim::logf ("disk read n=%zu -> EIO", n);
            errno = EIO;
            return -1;
        }
    }

    memcpy (buf, dataOf (H.file) + H.pos, m);
    H.pos += m;
    sim::logf ("disk read n=%zu -> %zu", n, m);
    return (ssize_t) m;
}

int64_t simSeek (int h, int64_t off, int whence)
{
    sim::Pause p;
    Handle& H = g_handles[h];

    if (const auto* f = hit (sim::fs::Op::seek))
    {
        if (f->effect == sim::fs::Effect::crash)
            sim::crash();

        errno = EIO;
        return -1;
    }

    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t) H.pos : (int64_t) (H.file >= 0 ? D->files[H.file].size : 0);

    if (base + off < 0)
    {
        errno = EINVAL;
        return -1;
    }

    H.pos = (uint64_t) (base + off);
    return (int64_t) H.pos;
}

int simClose (int h)
{
    sim::Pause p;
    Handle& H = g_handles[h];

    if (H.random) { H.used = false; return 0; }

    const auto* f = hit (sim::fs::Op::close);

    if (f != nullptr && f->effect == sim::fs::Effect::crash)
        sim::crash();

    int r = 0;

    if (H.lost || (f != nullptr && H.writable))
    {
        if (f != nullptr && f->effect == sim::fs::Effect::lostAtClose)   // delayed write error: a part never made it
            D->files[H.file].size = (uint32_t) ((uint64_t) D->files[H.file].size * f->keep / 256);

        errno = EIO;
        r = -1;
    }

    sim::logf ("disk close -> %d", r);
    H.used = false;
    --D->handles;
    return r;
}

// stdio on top: glibc's own buffering, our file underneath
ssize_t cookieRead (void* c, char* b, size_t n) { return simRead ((int) (intptr_t) c, b, n); }

ssize_t cookieWrite (void* c, const char* b, size_t n)
{
    size_t done = 0;

    while (done < n)   // as the C library does on real files
    {
        const ssize_t r = simWriteOnce ((int) (intptr_t) c, b + done, n - done);

        if (r <= 0)
            return (ssize_t) done;   // short count: stdio reports the error

        done += (size_t) r;
    }

    return (ssize_t) done;
}

int cookieSeek (void* c, off64_t* off, int whence)
{
    const int64_t r = simSeek ((int) (intptr_t) c, *off, whence);

    if (r < 0)
        return -1;

    *off = r;
    return 0;
}

int cookieClose (void* c) { return simClose ((int) (intptr_t) c); }

FILE* simFopen (const char* path, const char* mode)
{
    int flags = 0;
    const bool plus = strchr (mode, '+') != nullptr;

    switch (mode[0])
    {
        case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
        case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        default: errno = EINVAL; return nullptr;
    }

    if (allocFails())
    {
        errno = ENOMEM;
        return nullptr;
    }

    const int h = simOpen (path, flags);

    if (h < 0)
        return nullptr;

    cookie_io_functions_t io = { cookieRead, cookieWrite, cookieSeek, cookieClose };
    const int savedErrno = errno;
    FILE* f = fopencookie ((void*) (intptr_t) h, mode, io);
    errno = savedErrno;
    g_handles[h].stream = f;
    return f;
}

int handleOf (int fd) { return fd >= fdBase && fd < fdBase + (int) maxHandles && g_handles[fd - fdBase].used ? fd - fdBase : -1; }

template <typename F> F next (const char* name) { return (F) dlsym (RTLD_NEXT, name); }

void fillStat (int f, struct stat* st)
{
    memset (st, 0, sizeof (*st));
    st->st_mode = S_IFREG | 0644;
    st->st_size = f >= 0 ? D->files[f].size : 0;
    st->st_blksize = 4096;
    st->st_nlink = 1;
}
}  // namespace

extern "C"
{
FILE* fopen (const char* path, const char* mode)
{
    if (isSimPath (path, mode[0] != 'r' || strchr (mode, '+') != nullptr))
        return simFopen (path, mode);

    static auto real = next<FILE* (*) (const char*, const char*)> ("fopen");
    return real (path, mode);
}

FILE* fopen64 (const char* path, const char* mode) { return fopen (path, mode); }

int fileno (FILE* f) noexcept
{
    for (size_t i = 0; i < maxHandles; ++i)
        if (g_handles[i].used && g_handles[i].stream == f && f != nullptr)
            return fdBase + (int) i;

    static auto real = next<int (*) (FILE*)> ("fileno");
    return real (f);
}

int fileno_unlocked (FILE* f) noexcept { return fileno (f); }

int open (const char* path, int flags, ...)
{
    va_list a;
    va_start (a, flags);
    const int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg (a, int) : 0;
    va_end (a);

    if (isSimPath (path, (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)))
    {
        const int h = simOpen (path, flags);
        return h < 0 ? -1 : fdBase + h;
    }

    return (int) syscall (SYS_openat, AT_FDCWD, path, flags, mode);
}

int open64 (const char* path, int flags, ...)
{
    va_list a;
    va_start (a, flags);
    const int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg (a, int) : 0;
    va_end (a);
    return open (path, flags, mode);
}

int creat (const char* path, mode_t mode) { return open (path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

ssize_t write (int fd, const void* b, size_t n)
{
    const int h = handleOf (fd);
    return h >= 0 ? simWriteOnce (h, (const char*) b, n) : syscall (SYS_write, fd, b, n);
}

ssize_t writev (int fd, const struct iovec* v, int n)
{
    const int h = handleOf (fd);

    if (h < 0)
        return syscall (SYS_writev, fd, v, n);

    std::string all;
    {
        sim::Pause p;

        for (int i = 0; i < n; ++i)
            all.append ((const char*) v[i].iov_base, v[i].iov_len);
    }
    return simWriteOnce (h, all.data(), all.size());
}

ssize_t read (int fd, void* b, size_t n)
{
    const int h = handleOf (fd);
    return h >= 0 ? simRead (h, (char*) b, n) : syscall (SYS_read, fd, b, n);
}

off_t lseek (int fd, off_t o, int w) noexcept
{
    const int h = handleOf (fd);
    return h >= 0 ? simSeek (h, o, w) : syscall (SYS_lseek, fd, o, w);
}

off64_t lseek64 (int fd, off64_t o, int w) noexcept { return lseek (fd, o, w); }

int close (int fd)
{
    const int h = handleOf (fd);
    return h >= 0 ? simClose (h) : (int) syscall (SYS_close, fd);
}

int fsync (int fd) { return handleOf (fd) >= 0 ? 0 : (int) syscall (SYS_fsync, fd); }
int fdatasync (int fd) { return handleOf (fd) >= 0 ? 0 : (int) syscall (SYS_fdatasync, fd); }

int ftruncate (int fd, off_t n) noexcept
{
    const int h = handleOf (fd);

    if (h < 0)
        return (int) syscall (SYS_ftruncate, fd, n);

    D->files[g_handles[h].file].size = (uint32_t) n;
    ++D->modifications;
    return 0;
}

int fstat (int fd, struct stat* st) noexcept
{
    const int h = handleOf (fd);

    if (h < 0)
        return (int) syscall (SYS_fstat, fd, st);

    fillStat (g_handles[h].file, st);
    return 0;
}

int fstat64 (int fd, struct stat64* st) noexcept { return fstat (fd, (struct stat*) st); }

int stat (const char* path, struct stat* st) noexcept
{
    if (! isSimPath (path, false))
        return (int) syscall (SYS_stat, path, st);

    sim::Pause p;
    const int f = findFile (normalise (path));

    if (f < 0 || ! D->files[f].exists)
    {
        errno = ENOENT;
        return -1;
    }

    fillStat (f, st);
    return 0;
}

int stat64 (const char* path, struct stat64* st) noexcept { return stat (path, (struct stat*) st); }
int lstat (const char* path, struct stat* st) noexcept { return stat (path, st); }

int access (const char* path, int mode) noexcept
{
    if (! isSimPath (path, false))
        return (int) syscall (SYS_access, path, mode);

    struct stat st;
    return stat (path, &st);
}

int unlink (const char* path) noexcept
{
    if (! isSimPath (path, true))
        return (int) syscall (SYS_unlink, path);

    sim::Pause p;
    const int f = findFile (normalise (path));

    if (f < 0 || ! D->files[f].exists)
    {
        errno = ENOENT;
        return -1;
    }

    D->files[f].exists = false;
    ++D->modifications;
    sim::logf ("disk remove %s", D->files[f].path);
    return 0;
}

int remove (const char* path) noexcept { return unlink (path); }

int rename (const char* a, const char* b) noexcept
{
    if (! isSimPath (a, true))
        return (int) syscall (SYS_rename, a, b);

    sim::Pause p;
    const int f = findFile (normalise (a));
    const std::string to = normalise (b);

    if (f < 0 || ! D->files[f].exists)
    {
        errno = ENOENT;
        return -1;
    }

    const int g = findFile (to);

    if (g >= 0)
        D->files[g].used = false;

    snprintf (D->files[f].path, sizeof (D->files[f].path), "%s", to.c_str());
    ++D->modifications;
    return 0;
}

int mkdir (const char* path, mode_t mode) noexcept
{
    if (! isSimPath (path, true))
        return (int) syscall (SYS_mkdir, path, mode);

    return 0;
}

int poll (struct pollfd* p, nfds_t n, int t)
{
    if (n == 1 && handleOf (p[0].fd) >= 0)
    {
        p[0].revents = p[0].events;
        return 1;
    }

    return (int) syscall (SYS_poll, p, n, t);
}

int ioctl (int fd, unsigned long req, ...) noexcept
{
    va_list a;
    va_start (a, req);
    void* arg = va_arg (a, void*);
    va_end (a);

    if (handleOf (fd) >= 0)
    {
        errno = ENOTTY;
        return -1;
    }

    return (int) syscall (SYS_ioctl, fd, req, arg);
}
}  // extern "C"

namespace sim
{
void crash() { ++g_pause; syscall (SYS_exit_group, crashExitCode); __builtin_unreachable(); }

namespace fs
{
void format()
{
    Pause p;
    memset (D, 0, sizeof (*D));
    D->capacity = ~0ull;
}

void putFile (const std::string& path, const std::string& bytes)
{
    Pause p;
    const std::string n = normalise (path.c_str());
    int i = findFile (n);

    if (i < 0)
        i = makeFile (n);

    if (bytes.size() > fileCap)
        harnessError ("simulated disk: file too large");

    D->files[i].exists = true;
    D->files[i].size = (uint32_t) bytes.size();
    memcpy (dataOf (i), bytes.data(), bytes.size());
}

bool exists (const std::string& path)
{
    Pause p;
    const int i = findFile (normalise (path.c_str()));
    return i >= 0 && D->files[i].exists;
}

std::string getFile (const std::string& path)
{
    Pause p;
    const int i = findFile (normalise (path.c_str()));
    return i >= 0 && D->files[i].exists ? std::string ((const char*) dataOf (i), D->files[i].size) : std::string();
}

std::vector<std::string> list()
{
    Pause p;
    std::vector<std::string> v;

    for (auto& f : D->files)
        if (f.used && f.exists)
            v.push_back (f.path);

    std::sort (v.begin(), v.end());
    return v;
}

void forbid (const std::string& path)
{
    Pause p;
    const std::string n = normalise (path.c_str());
    int i = findFile (n);

    if (i < 0)
        i = makeFile (n);

    D->files[i].forbidden = true;
}

void setCapacity (uint64_t bytes) { D->capacity = bytes; }

void addFault (const Fault& f)
{
    if (D->numFaults < maxFaults)
        D->faults[D->numFaults++] = f;
}

void armFaults (bool on)
{
    D->armed = on;

    for (auto& c : D->count)
        c = 0;
}

uint64_t opCount (Op op) { return D->count[(int) op]; }
uint64_t firedCount() { return D->fired; }
uint64_t openHandles() { return D->handles; }
uint64_t modifications() { return D->modifications; }

std::string describe (const Fault& f)
{
    char b[128];
    snprintf (b, sizeof (b), "%s #%" PRIu64 " %s keep=%u/256", opNames[(int) f.op], f.index, effectNames[(int) f.effect], f.keep);
    return b;
}
}  // namespace fs

int inProcess (const std::function<int()>& f)
{
    fflush (stdout);
    const pid_t pid = fork();

    if (pid < 0)
        harnessError ("fork failed");

    if (pid == 0)
    {
        g_inGrandchild = true;
        int code = 98;

        try { code = f(); }
        catch (...) {}

        exitRun (code);
    }

    int st = 0;

    while (waitpid (pid, &st, 0) < 0 && errno == EINTR) {}

    if (R->status != stNone)
        exitRun (0);

    return WIFEXITED (st) ? WEXITSTATUS (st) : -WTERMSIG (st);
}

std::string capturedStdout()
{
    Pause p;
    fflush (stdout);
    std::string s;
    char buf[65536];
    off_t o = 0;

    for (;;)
    {
        const ssize_t n = syscall (SYS_pread64, g_outFd, buf, sizeof (buf), o);

        if (n <= 0)
            return s;

        s.append (buf, (size_t) n);
        o += n;
    }
}

void resetCapturedStdout()
{
    fflush (stdout);
    syscall (SYS_ftruncate, g_outFd, 0);
    syscall (SYS_lseek, g_outFd, 0, SEEK_SET);
}
}  // namespace sim

// =====================================================================================================
// Clock and entropy

namespace
{
Rng g_envRng { 12345 };
uint64_t g_clockNs = 1700000000ull * 1000000000ull;
uint64_t g_envSeed = 0;
uint64_t g_envReads = 0;

uint64_t envRandom() { ++g_envReads; return g_envRng.next(); }

uint64_t tick()
{
    ++g_envReads;
    g_clockNs += 1000;

    if (g_envSeed != 0)
        g_clockNs += g_envRng.next() % 5000000000ull;

    return g_clockNs;
}
}

extern "C"
{
int clock_gettime (clockid_t id, struct timespec* t) noexcept
{
    if (! g_active)
        return (int) syscall (SYS_clock_gettime, id, t);

    const uint64_t n = tick();
    t->tv_sec = (time_t) (n / 1000000000ull);
    t->tv_nsec = (long) (n % 1000000000ull);
    return 0;
}

int gettimeofday (struct timeval* tv, void*) noexcept
{
    const uint64_t n = tick();
    tv->tv_sec = (time_t) (n / 1000000000ull);
    tv->tv_usec = (suseconds_t) (n % 1000000000ull / 1000);
    return 0;
}

time_t time (time_t* t) noexcept
{
    const time_t v = (time_t) (tick() / 1000000000ull);

    if (t != nullptr)
        *t = v;

    return v;
}

clock_t clock() noexcept { return (clock_t) (tick() / 1000); }

ssize_t getrandom (void* b, size_t n, unsigned)
{
    for (size_t i = 0; i < n; ++i)
        ((unsigned char*) b)[i] = (unsigned char) envRandom();

    return (ssize_t) n;
}

int getentropy (void* b, size_t n) { getrandom (b, n, 0); return 0; }
uint32_t arc4random() noexcept { return (uint32_t) envRandom(); }
unsigned int simRandomDevice (void*) __asm__ ("_ZNSt13random_device9_M_getvalEv");
unsigned int simRandomDevice (void*) { return (unsigned) envRandom(); }
}

namespace sim
{
void setEnvironment (uint64_t seed)
{
    g_envSeed = seed;
    g_envRng.s = mix64 (seed + 99);
    g_clockNs = 1700000000ull * 1000000000ull + (seed == 0 ? 0 : mix64 (seed) % (10ull * 365 * 86400 * 1000000000ull));
    g_envReads = 0;
}

uint64_t environmentReads() { return g_envReads; }
}

// =====================================================================================================
// Run management

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=66:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=165:"
           "detect_stack_use_after_return=0:quarantine_size_mb=4:abort_on_error=0:color=never:symbolize=0:handle_abort=0:intercept_tls_get_addr=0";
}

extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:symbolize=0"; }

namespace
{
struct Options
{
    uint64_t seed = 1;
    uint64_t runs = 0;
    std::string tier = "quick";
    unsigned workers = 8;
    std::string evidence, replay, outDir = ".", findings, dump;
    double wallLimit = 300;
    bool selftest = false;
};

struct PerRun { uint64_t hash; uint64_t cov; uint32_t flags; uint32_t choices; };   // flags: 1 done, 2 nontrivial, 4 rechecked, 8 mismatch

struct Shared
{
    std::atomic<uint64_t> minViolation;
    std::atomic<uint64_t> harness;
    char harnessMsg[1024];
    std::atomic<uint64_t> done;
    std::atomic<uint64_t> recheckMismatch;
};

struct WorkerStats
{
    CounterTable faults, probes;
    uint64_t cov[covBits / 64];
    double simSeconds, simFrames;
    uint64_t steps, switches, runsWithFault, choices;
};

void* shm (size_t n)
{
    void* p = mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

    if (p == MAP_FAILED)
    {
        perror ("mmap");
        exit (2);
    }

    return p;
}

int memfd (const char* n) { return (int) syscall (SYS_memfd_create, n, 0u); }

std::string slurpFd (int fd)
{
    std::string s;
    char b[4096];
    off_t o = 0;
    ssize_t n;

    while ((n = syscall (SYS_pread64, fd, b, sizeof (b), o)) > 0 && s.size() < 200000)
    {
        s.append (b, (size_t) n);
        o += n;
    }

    return s;
}

int g_stdoutFd = -1, g_stderrFd = -1;

// Executes one run in a process of its own. Fills R.
void execute (uint64_t seed, const std::vector<uint64_t>* trace)
{
    // Only what the previous run has touched
    const uint64_t nc = R->numChoices, nl = R->logLen;
    (void) nc;
    R->status = stNone; R->numChoices = 0; R->nontrivial = 0; R->hash = 1469598103934665603ull; R->covHash = 0; R->steps = 0; R->switches = 0;
    R->simSeconds = 0; R->simFrames = 0; R->logLen = 0; R->cls[0] = 0; R->msg[0] = 0;
    if (nl < maxLog) R->log[0] = 0;
    memset (&R->faults, 0, sizeof (R->faults));
    memset (&R->probes, 0, sizeof (R->probes));
    memset (R->cov, 0, sizeof (R->cov));

    if (g_stdoutFd < 0)
    {
        g_stdoutFd = memfd ("out");
        g_stderrFd = memfd ("err");
    }

    syscall (SYS_ftruncate, g_stdoutFd, 0);
    syscall (SYS_ftruncate, g_stderrFd, 0);
    syscall (SYS_lseek, g_stdoutFd, 0, SEEK_SET);
    syscall (SYS_lseek, g_stderrFd, 0, SEEK_SET);
    const pid_t pid = fork();

    if (pid < 0)
    {
        perror ("fork");
        exit (2);
    }

    if (pid == 0)
    {
        setpgid (0, 0);
        dup2 (g_stdoutFd, 1);
        dup2 (g_stderrFd, 2);
        g_outFd = 1;
        signal (SIGALRM, SIG_DFL);
        alarm (sim::scenario.maxRunSeconds);
        g_rng.s = mix64 (seed);
        g_replay = trace != nullptr;
        g_trace = trace;
        g_steps = 0;
        sim::fs::format();
        g_active = 1;

        try
        {
            sim::scenario.run();
        }
        catch (const std::exception& e)
        {
            sim::violation ("unexpected-exception", "%s", e.what());
        }
        catch (...)
        {
            sim::violation ("unexpected-exception", "of unknown type");
        }

        sim::finish();
    }

    int st = 0;

    while (waitpid (pid, &st, 0) < 0 && errno == EINTR) {}

    kill (-pid, SIGKILL);   // whatever a crashed run has left behind

    if (R->status == stNone)
    {
        const std::string err = slurpFd (g_stderrFd);
        std::string cls = "crash";
        size_t p;

        if (WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM)
        {
            R->status = stHarness;
            snprintf (R->msg, sizeof (R->msg), "run exceeded %u s", sim::scenario.maxRunSeconds);
            return;
        }

        if ((p = err.find ("ERROR: AddressSanitizer: ")) != std::string::npos)
        {
            cls = "asan:";

            for (p += 25; p < err.size() && err[p] != ' ' && err[p] != '\n'; ++p)
                cls += err[p];
        }
        else if ((p = err.find ("runtime error: ")) != std::string::npos)
            cls = "ubsan";
        else if ((p = err.find ("terminate called after throwing an instance of '")) != std::string::npos)
            cls = "terminate:" + err.substr (p + 48, err.find ('\'', p + 48) - p - 48);
        else if (WIFSIGNALED (st))
            cls = std::string ("signal:") + std::to_string (WTERMSIG (st));
        else
            cls = std::string ("exit:") + std::to_string (WEXITSTATUS (st));

        R->status = stViolation;
        snprintf (R->cls, sizeof (R->cls), "%s", cls.c_str());
        snprintf (R->msg, sizeof (R->msg), "the process died: %.500s", err.c_str());
    }
}

uint64_t runSeed (uint64_t seed, uint64_t i)
{
    uint64_t h = mix64 (seed);

    for (const char* c = sim::scenario.id; *c; ++c)
        h = mix64 (h ^ (uint64_t) (unsigned char) *c);

    return mix64 (h + i * 0x9e3779b97f4a7c15ull);
}

std::string jsonStr (const std::string& s)
{
    std::string o = "\"";
    char b[8];

    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { snprintf (b, sizeof (b), "\\u%04x", c); o += b; }
        else o += (char) c;
    }

    return o + "\"";
}

std::string jsonTable (const CounterTable& t)
{
    std::map<std::string, uint64_t> m;

    for (auto& c : t.c)
        if (c.name[0])
            m[c.name] = c.n;

    std::string o = "{";

    for (auto& x : m)
        o += (o.size() > 1 ? ", " : "") + jsonStr (x.first) + ": " + std::to_string (x.second);

    return o + "}";
}

std::vector<std::string> logLines (size_t maxLines)
{
    std::vector<std::string> v;
    std::string s (R->log, R->logLen);
    size_t i = 0;

    while (i < s.size())
    {
        size_t j = s.find ('\n', i);

        if (j == std::string::npos)
            j = s.size();

        v.push_back (s.substr (i, std::min<size_t> (j - i, 400)));
        i = j + 1;
    }

    if (v.size() > maxLines)
    {
        std::vector<std::string> w (v.begin(), v.begin() + (long) (maxLines * 2 / 3));
        w.push_back ("... " + std::to_string (v.size() - maxLines) + " lines ...");
        w.insert (w.end(), v.end() - (long) (maxLines / 3), v.end());
        v.swap (w);
    }

    return v;
}

std::string jsonLines (const std::vector<std::string>& v)
{
    std::string o = "[";

    for (auto& l : v)
        o += (o.size() > 1 ? ",\n    " : "\n    ") + jsonStr (l);

    return o + "]";
}

bool writeFile (const std::string& path, const std::string& s)
{
    FILE* f = fopen (path.c_str(), "wb");

    if (f == nullptr)
        return false;

    const bool ok = fwrite (s.data(), 1, s.size(), f) == s.size();
    return fclose (f) == 0 && ok;
}

std::string readFile (const std::string& path)
{
    std::string s;
    FILE* f = fopen (path.c_str(), "rb");

    if (f == nullptr)
        return s;

    char b[65536];
    size_t n;

    while ((n = fread (b, 1, sizeof (b), f)) > 0)
        s.append (b, n);

    fclose (f);
    return s;
}

bool fails (const std::vector<uint64_t>& t, const std::string& cls)
{
    execute (0, &t);
    return R->status == stViolation && cls == R->cls;
}

std::vector<uint64_t> recorded() { return std::vector<uint64_t> (R->choices, R->choices + R->numChoices); }

// Shorter or smaller traces that still give the same violation
std::vector<uint64_t> minimise (std::vector<uint64_t> t, const std::string& cls, unsigned budget, unsigned& used)
{
    auto attempt = [&] (const std::vector<uint64_t>& c)
    {
        if (used >= budget)
            return false;

        ++used;

        if (! fails (c, cls))
            return false;

        auto r = recorded();

        while (! r.empty() && r.back() == 0)
            r.pop_back();

        if (r.size() > t.size() || (r.size() == t.size() && ! std::lexicographical_compare (r.begin(), r.end(), t.begin(), t.end())))
            return false;

        t = r;
        return true;
    };

    bool progress = true;

    while (progress && used < budget)
    {
        progress = false;

        for (size_t len = std::max<size_t> (1, t.size() / 2); len >= 1; len /= 2)
        {
            for (size_t i = 0; i + len <= t.size() && used < budget;)
            {
                auto c = t;
                c.erase (c.begin() + (long) i, c.begin() + (long) (i + len));

                if (attempt (c)) progress = true;
                else i += len;
            }

            for (size_t i = 0; i + len <= t.size() && used < budget; i += len)
            {
                auto c = t;
                bool any = false;

                for (size_t k = i; k < i + len; ++k)
                {
                    any |= c[k] != 0;
                    c[k] = 0;
                }

                if (any && attempt (c)) progress = true;
            }

            if (len == 1)
                break;
        }

        for (size_t i = 0; i < t.size() && used < budget; ++i)
        {
            uint64_t lo = 0;

            while (i < t.size() && t[i] > lo && used < budget)
            {
                auto c = t;
                c[i] = lo + (t[i] - lo) / 2;

                if (c[i] == t[i]) break;
                if (attempt (c)) progress = true;
                else lo = c[i] + 1;
            }
        }
    }

    return t;
}

std::string g_self;

int replayFile (const std::string& path, bool verbose)
{
    const std::string s = readFile (path);
    size_t p = s.find ("\"choices\"");

    if (p == std::string::npos)
    {
        fprintf (stderr, "no choices in %s\n", path.c_str());
        return 2;
    }

    p = s.find ('[', p);
    std::vector<uint64_t> t;
    uint64_t v = 0;
    bool have = false;

    for (++p; p < s.size(); ++p)
    {
        if (s[p] >= '0' && s[p] <= '9') { v = v * 10 + (uint64_t) (s[p] - '0'); have = true; }
        else
        {
            if (have) t.push_back (v);
            have = false;
            v = 0;
            if (s[p] == ']') break;
        }
    }

    execute (0, &t);

    if (verbose)
    {
        for (auto& l : logLines (400))
            printf ("  %s\n", l.c_str());

        printf ("%s %s\n  %s\n", R->status == stViolation ? "VIOLATED" : R->status == stHeld ? "HELD" : "HARNESS ERROR", R->cls, R->msg);
    }

    printf ("REPLAY status=%d class=%s hash=%016" PRIx64 "\n", R->status, R->cls, R->hash);
    return R->status == stViolation ? 1 : R->status == stHeld ? 0 : 2;
}

std::string freshReplay (const std::string& path)
{
    fflush (stdout);
    const std::string cmd = "'" + g_self + "' --replay '" + path + "' --quiet";
    FILE* f = popen (cmd.c_str(), "r");

    if (f == nullptr)
        return "";

    std::string s;
    char b[4096];
    size_t n;

    while ((n = fread (b, 1, sizeof (b), f)) > 0)
        s.append (b, n);

    pclose (f);
    return s;
}
}  // namespace

int main (int argc, char** argv)
{
    // A fixed address space layout
    if (getenv ("SIM_REEXEC") == nullptr)
    {
        setenv ("SIM_REEXEC", "1", 1);
        const int persona = personality (0xffffffff);

        if (persona >= 0 && ! (persona & ADDR_NO_RANDOMIZE) && personality ((unsigned long) persona | ADDR_NO_RANDOMIZE) >= 0)
            execv ("/proc/self/exe", argv);
    }

    unsetenv ("SIM_REEXEC");
    Options o;
    g_self = argv[0];
    bool quiet = false;

    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        const char* v = i + 1 < argc ? argv[i + 1] : "";

        if (a == "--seed") o.seed = strtoull (v, nullptr, 10), ++i;
        else if (a == "--runs") o.runs = strtoull (v, nullptr, 10), ++i;
        else if (a == "--tier") o.tier = v, ++i;
        else if (a == "--workers") o.workers = (unsigned) atoi (v), ++i;
        else if (a == "--evidence") o.evidence = v, ++i;
        else if (a == "--replay") o.replay = v, ++i;
        else if (a == "--out") o.outDir = v, ++i;
        else if (a == "--findings") o.findings = v, ++i;
        else if (a == "--wall") o.wallLimit = atof (v), ++i;
        else if (a == "--dump") o.dump = v, ++i;
        else if (a == "--selftest") o.selftest = true;
        else if (a == "--quiet") quiet = true;
        else { fprintf (stderr, "unknown option %s\n", a.c_str()); return 2; }
    }

    setvbuf (stdout, nullptr, _IOLBF, 4096);
    R = (Record*) shm (sizeof (Record));
    D = (Disk*) shm (sizeof (Disk));
    diskData = (unsigned char*) shm (maxFiles * fileCap);

    if (! o.replay.empty())
        return replayFile (o.replay, ! quiet);

    if (! o.dump.empty())
    {
        execute (runSeed (o.seed, strtoull (o.dump.c_str(), nullptr, 10)), nullptr);

        for (auto& l : logLines (2000))
            printf ("%s\n", l.c_str());

        printf ("status=%d class=%s choices=%u steps=%" PRIu64 "\n%s\n", R->status, R->cls, R->numChoices, R->steps, R->msg);
        return 0;
    }

    const uint64_t runs = o.runs ? o.runs : o.tier == "thorough" ? sim::scenario.thoroughRuns : sim::scenario.quickRuns;
    const uint64_t start = nowNs();
    auto* S = (Shared*) shm (sizeof (Shared));
    auto* perRun = (PerRun*) shm (sizeof (PerRun) * runs);
    auto* stats = (WorkerStats*) shm (sizeof (WorkerStats) * o.workers);
    S->minViolation = ~0ull;

    // Known findings: "<property>\t<class>" of violations that are recorded and not repaired
    std::set<std::string> known;
    {
        const std::string f = readFile (o.findings);
        size_t i = 0;

        while (i < f.size())
        {
            size_t j = f.find ('\n', i);

            if (j == std::string::npos)
                j = f.size();

            const std::string line = f.substr (i, j - i), prefix = std::string ("known: property=") + sim::scenario.id + " class=";

            if (line.compare (0, prefix.size(), prefix) == 0)
                known.insert (line.substr (prefix.size(), line.find (' ', prefix.size()) - prefix.size()));

            i = j + 1;
        }
    }

    printf ("%s: seed %" PRIu64 ", %" PRIu64 " runs, %u workers\n", sim::scenario.id, o.seed, runs, o.workers);
    std::vector<pid_t> pids;

    for (unsigned w = 0; w < o.workers; ++w)
    {
        const pid_t pid = fork();

        if (pid == 0)
        {
            R = (Record*) shm (sizeof (Record));
            D = (Disk*) shm (sizeof (Disk));
            diskData = (unsigned char*) shm (maxFiles * fileCap);
            WorkerStats& st = stats[w];

            // Runs w, w+W, ... ; a sample is executed twice, by different workers
            for (uint64_t i = w; i < runs; i += o.workers)
            {
                if (i > S->minViolation.load() || S->harness.load() || (double) (nowNs() - start) > o.wallLimit * 1e9)
                    break;

                execute (runSeed (o.seed, i), nullptr);

                if (R->status == stHarness)
                {
                    if (S->harness.exchange (1) == 0)
                        snprintf (S->harnessMsg, sizeof (S->harnessMsg), "run %" PRIu64 ": %.900s", i, R->msg);

                    break;
                }

                PerRun& p = perRun[i];

                if (R->status == stViolation && known.count (R->cls) == 0)
                {
                    uint64_t m = S->minViolation.load();

                    while (i < m && ! S->minViolation.compare_exchange_weak (m, i)) {}

                    p.flags |= 1;
                    continue;
                }

                if (R->status == stViolation)
                    st.probes.add ("known finding seen", 1);

                p.hash = R->hash;
                p.cov = R->covHash;
                p.choices = R->numChoices;
                p.flags |= 1u | (R->nontrivial ? 2u : 0u);
                st.faults.merge (R->faults);
                st.probes.merge (R->probes);
                st.simSeconds += R->simSeconds;
                st.simFrames += R->simFrames;
                st.steps += R->steps;
                st.switches += R->switches;
                st.choices += R->numChoices;
                st.runsWithFault += R->faults.c[0].n > 0;

                for (size_t k = 0; k < covBits / 64; ++k)
                    st.cov[k] |= R->cov[k];

                S->done++;

                if (o.selftest || i % 20 == 0)
                {
                    const uint64_t h = R->hash;
                    execute (runSeed (o.seed, i), nullptr);
                    p.flags |= 4u;

                    if (R->hash != h)
                    {
                        p.flags |= 8u;
                        S->recheckMismatch++;
                    }
                }
            }

            _exit (0);
        }

        pids.push_back (pid);
    }

    for (pid_t p : pids)
    {
        int st;
        waitpid (p, &st, 0);
    }

    if (S->harness.load() && S->minViolation.load() == ~0ull)
    {
        printf ("ERROR: %s\n", S->harnessMsg);
        return 2;
    }

    const double exploreWall = (double) (nowNs() - start) / 1e9;
    CounterTable faults {}, probes {};
    std::vector<uint64_t> cov (covBits / 64);
    double simSeconds = 0, simFrames = 0;
    uint64_t steps = 0, switches = 0, withFault = 0, choices = 0;

    for (unsigned w = 0; w < o.workers; ++w)
    {
        faults.merge (stats[w].faults);
        probes.merge (stats[w].probes);
        simSeconds += stats[w].simSeconds;
        simFrames += stats[w].simFrames;
        steps += stats[w].steps;
        switches += stats[w].switches;
        withFault += stats[w].runsWithFault;
        choices += stats[w].choices;

        for (size_t k = 0; k < covBits / 64; ++k)
            cov[k] |= stats[w].cov[k];
    }

    std::set<uint64_t> hashes, covs;
    uint64_t done = 0, nontriv = 0, rechecked = 0;
    std::vector<uint64_t> sampleRuns;

    for (uint64_t i = 0; i < runs; ++i)
    {
        const PerRun& p = perRun[i];
        done += (p.flags & 1u) != 0;
        rechecked += (p.flags & 4u) != 0;

        if (p.flags & 2u)
        {
            ++nontriv;

            if (hashes.insert (p.hash).second && sampleRuns.size() < 3 && (i % 7 == 3))
                sampleRuns.push_back (i);

            covs.insert (p.cov);
        }
    }

    uint64_t covered = 0;

    for (uint64_t c : cov)
        covered += (uint64_t) __builtin_popcountll (c);

    std::string samples = "[";

    for (uint64_t i : sampleRuns)
    {
        execute (runSeed (o.seed, i), nullptr);
        samples += (samples.size() > 1 ? ",\n   " : "\n   ");
        samples += "{\"run\": " + std::to_string (i) + ", \"choices\": " + std::to_string (R->numChoices) + ", \"log\": " + jsonLines (logLines (24)) + "}";
    }

    samples += "]";
    const uint64_t bad = S->minViolation.load();
    int exitCode = 0;

    if (S->recheckMismatch.load() > 0)
    {
        printf ("ERROR: %" PRIu64 " of %" PRIu64 " re-executed runs did not repeat exactly\n", S->recheckMismatch.load(), rechecked);

        for (uint64_t i = 0; i < runs; ++i)
            if (perRun[i].flags & 8u)
            {
                printf ("  e.g. run %" PRIu64 "\n", i);
                break;
            }

        exitCode = 2;
    }

    if (bad != ~0ull)
    {
        const uint64_t seed = runSeed (o.seed, bad);
        execute (seed, nullptr);
        const std::string cls = R->cls;
        const uint64_t h = R->hash;
        const int st = R->status;
        auto trace = recorded();
        const std::string firstMsg = R->msg;
        execute (seed, nullptr);

        if (st != stViolation || R->status != stViolation || cls != R->cls || h != R->hash)
        {
            printf ("ERROR: run %" PRIu64 " violated the property but does not repeat: [%s] %s / [%s] %s\n", bad, cls.c_str(), firstMsg.c_str(), R->cls, R->msg);
            return 2;
        }

        unsigned used = 0;
        auto t = minimise (trace, cls, 500, used);

        if (! fails (t, cls))
        {
            t = trace;

            if (! fails (t, cls))
            {
                printf ("ERROR: the recorded trace of run %" PRIu64 " does not repeat the violation\n", bad);
                return 2;
            }
        }

        std::string js = "{\n \"property\": " + jsonStr (sim::scenario.id) + ",\n \"verif_seed\": " + std::to_string (o.seed) + ",\n \"run\": " + std::to_string (bad)
            + ",\n \"run_seed\": " + std::to_string (seed) + ",\n \"class\": " + jsonStr (cls) + ",\n \"message\": " + jsonStr (R->msg) + ",\n \"original_choices\": "
            + std::to_string (trace.size()) + ",\n \"minimising_runs\": " + std::to_string (used) + ",\n \"hash\": \"" + std::to_string (R->hash) + "\",\n \"choices\": [";

        for (size_t i = 0; i < t.size(); ++i)
            js += (i ? "," : "") + std::to_string (t[i]);

        js += "],\n \"trace\": " + jsonLines (logLines (300)) + "\n}\n";
        char hb[32];
        snprintf (hb, sizeof (hb), "%016" PRIx64, R->hash);
        const std::string path = o.outDir + "/" + sim::scenario.id + "-seed" + std::to_string (o.seed) + "-run" + std::to_string (bad) + ".json";
        const std::string msg = R->msg;
        const std::string expect = std::string ("status=2 class=") + cls + " hash=" + hb;

        if (! writeFile (path, js))
        {
            printf ("ERROR: cannot write %s\n", path.c_str());
            return 2;
        }

        const std::string re = freshReplay (path);

        if (re.find (expect) == std::string::npos)
        {
            printf ("ERROR: the replay in a fresh process differs: expected %s, got %s\n", expect.c_str(), re.c_str());
            return 2;
        }

        printf ("run %" PRIu64 " [%s] %s\n  (minimised from %zu to %zu choices in %u runs; reproduced in a fresh process)\n", bad, cls.c_str(), msg.c_str(), trace.size(), t.size(), used);
        printf ("VIOLATION property=%s replay=%s\n", sim::scenario.id, path.c_str());
        exitCode = 1;
    }

    const double wall = (double) (nowNs() - start) / 1e9;

    if (! o.evidence.empty())
    {
        char num[2048];
        snprintf (num, sizeof (num),
            "  \"evaluations\": %" PRIu64 ",\n  \"distinct_nontrivial\": %zu,\n  \"nontrivial_runs\": %" PRIu64 ",\n  \"distinct_basic_block_sets\": %zu,\n  \"basic_blocks_reached\": %" PRIu64
            ",\n  \"basic_blocks_executed\": %" PRIu64 ",\n  \"context_switches\": %" PRIu64 ",\n  \"choices_drawn\": %" PRIu64 ",\n  \"runs_with_faults_fired\": %" PRIu64
            ",\n  \"simulated_audio_seconds\": %.3f,\n  \"simulated_audio_frames\": %.0f,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"runs_executed_twice\": %" PRIu64 ",\n  \"runs_not_repeating\": %" PRIu64,
            done, hashes.size(), nontriv, covs.size(), covered, steps, switches, choices, withFault, simSeconds, simFrames, (double) done / exploreWall * 3600.0,
            (double) done / exploreWall * 3600.0, rechecked, S->recheckMismatch.load());
        std::string js = std::string ("{\n \"property\": ") + jsonStr (sim::scenario.id) + ",\n \"tier\": " + jsonStr (o.tier) + ",\n \"seed\": " + std::to_string (o.seed)
            + ",\n \"level\": \"exploration\",\n \"coverage\": {\n" + num + ",\n  \"rule\": " + jsonStr (sim::scenario.rule)
            + ",\n  \"faults_fired\": " + jsonTable (faults) + ",\n  \"conditions_reached\": " + jsonTable (probes)
            + ",\n  \"real_components\": " + jsonStr (sim::scenario.realParts) + ",\n  \"stubbed_components\": " + jsonStr (sim::scenario.stubParts)
            + ",\n  \"samples\": " + samples + "\n },\n \"assumptions\": [\"one seed is one execution: choices, disk, clock, entropy, heap contents, address layout and thread interleaving come from the simulator\"],\n \"wall_s\": "
            + std::to_string (wall) + ",\n \"violations\": " + (bad != ~0ull ? "1" : "0") + "\n}\n";

        if (! writeFile (o.evidence, js))
        {
            printf ("ERROR: cannot write %s\n", o.evidence.c_str());
            return 2;
        }
    }

    printf ("%s: %" PRIu64 " runs (%zu distinct non-trivial), %.1f s, exit %d\n", sim::scenario.id, done, hashes.size(), wall, exitCode);
    return exitCode;
}
