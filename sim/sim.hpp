// Deterministic simulator: public interface used by the scenarios.
// Every choice a scenario (workload, schedule, faults) makes is drawn here, from one
// PRNG seeded by (VERIF_SEED, property, run index), or from a recorded replay trace.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace sim
{

// ---------------------------------------------------------------- choices
uint64_t pick (uint64_t n);                       // uniform in [0, n), 0 is the simplest
inline bool chance (unsigned num, unsigned den) { return pick (den) >= den - num; }  // simplest: false
inline int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) pick ((uint64_t) (hi - lo + 1)); }
template <typename T> T oneOf (std::initializer_list<T> l) { return *(l.begin() + pick (l.size())); }
double real (double lo, double hi);               // multiple of 1/4096 of the interval, lo is the simplest

// ---------------------------------------------------------------- log, verdict, measures
void logf (const char* fmt, ...) __attribute__ ((format (printf, 1, 2)));  // part of the execution hash
[[noreturn]] void violation (const char* cls, const char* fmt, ...) __attribute__ ((format (printf, 2, 3)));
[[noreturn]] void harnessError (const char* fmt, ...) __attribute__ ((format (printf, 1, 2)));
[[noreturn]] void finish();                       // ends the run (verdict: held)
void nontrivial();                                // this run exercised what the property is about
void probe (const char* name);                    // "this rare condition was hit"
void faultFired (const char* kind);               // a fault of this kind took effect
void simulatedFrames (double frames, double sampleRate);  // audio time simulated
void mixState (uint64_t h);                       // abstract state for the "distinct" measure (also logged)
std::string hex (double v);

// Turns off fault injection, budgets and pre-emption while harness code runs inside code under test
struct Pause { Pause(); ~Pause(); };

// ---------------------------------------------------------------- allocation faults
struct AllocFaults
{
    static void armNth (uint64_t k);              // the k-th allocation from now on (0-based) fails
    static void armFrom (uint64_t k);             // ... and all the following ones
    static void disarm();
    static uint64_t countSinceArm();
    static uint64_t firedSinceArm();
    static int64_t live();                        // live blocks of code that goes through operator new / dr_wav
    static void setFill (uint8_t byte);           // contents of fresh memory
};
void* libAlloc (size_t size);                     // dr_wav's allocator seam
void* libRealloc (void* p, size_t size);
void libFree (void* p);

// ---------------------------------------------------------------- simulated disk
// Everything below "/simfs/" (also reached through fopen, open, std::fstream, ...)
namespace fs
{
enum class Op { open, read, write, seek, close, count };
enum class Effect { eio, enospc, shortThenOk, shortThenEnospc, crash, lostAtClose };
struct Fault { Op op; uint64_t index; Effect effect; uint32_t keep; };  // keep: bytes (of 256) of the operation that take effect

void format();                                    // empty disk, no faults
void putFile (const std::string& path, const std::string& bytes);
bool exists (const std::string& path);
std::string getFile (const std::string& path);
std::vector<std::string> list();
void forbid (const std::string& path);            // opening fails with EACCES
void setCapacity (uint64_t bytes);                // disk full beyond
void addFault (const Fault& f);
void armFaults (bool on);                         // also restarts the operation counters
uint64_t opCount (Op op);
uint64_t firedCount();
uint64_t openHandles();                           // simulated files currently open
uint64_t modifications();                         // opens for writing, writes, renames, removals so far
std::string describe (const Fault& f);
}

// Runs f in a process of its own that shares only the simulated disk; returns its exit code (or -signal)
int inProcess (const std::function<int()>& f);
constexpr int crashExitCode = 99;                 // Effect::crash / sim::crash()
[[noreturn]] void crash();
std::string capturedStdout();                     // everything written to stdout so far in this process
void resetCapturedStdout();

// ---------------------------------------------------------------- environment (clock, entropy)
void setEnvironment (uint64_t seed);              // clock origin and rate, jumps, entropy; 0: plain
uint64_t environmentReads();

// ---------------------------------------------------------------- threads
// Runs the bodies on real threads of which exactly one runs at any time; who runs, and for how many
// basic blocks of the code under test, is drawn from the choices.
void runThreads (std::vector<std::function<void()>> bodies, unsigned maxSwitches);
void yieldPoint();
unsigned contextSwitches();

// ---------------------------------------------------------------- scenarios
struct Scenario
{
    const char* id;
    void (*run)();
    uint64_t quickRuns;
    uint64_t thoroughRuns;
    const char* rule;
    const char* realParts;
    const char* stubParts;
    unsigned maxRunSeconds;
};
extern const Scenario scenario;                   // defined by the property's translation unit

}  // namespace sim
