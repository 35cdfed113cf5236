// sim.hpp - deterministic simulation core (public interface for harnesses).
//
// One episode = one process = one exactly repeatable execution.  Everything
// that is not fixed by the code under test is drawn from four choice tapes
// (GEN workload, SCHED scheduler, FAULT fault plan, IO stream/OS behaviour).
// A tape is either filled from a PRNG seeded with the episode's seed or read
// back from a replay file.  The value 0 always means "the simplest thing":
// no pre-emption, no fault, a full read.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

enum Stream { GEN = 0, SCHED = 1, FAULT = 2, IO = 3, NSTREAMS = 4 };

// ---- choices ----------------------------------------------------------
u64 choose(Stream s, u64 n);                 // uniform in [0, n)
inline bool chance(Stream s, u64 num, u64 den) { return choose(s, den) >= den - num; }
inline u64 range(Stream s, u64 lo, u64 hi) { return lo + choose(s, hi - lo + 1); }
// log-uniform in [0, 2^bits)
inline u64 logu(Stream s, unsigned bits)
{
    u64 e = choose(s, bits + 1);
    return e == 0 ? 0 : choose(s, u64(1) << e);
}
// Runs f with choices that depend on seed alone, whatever the tapes hold.
void nested(u64 seed, const std::function<void()>& f);
// What f returns when a copy of this process, as it is now, runs it: nothing f
// does is seen here.  False when f did not get to its end.
bool apart(const std::function<std::string()>& f, std::string& result);
inline u64 g(u64 n) { return choose(GEN, n); }
inline u64 gr(u64 lo, u64 hi) { return range(GEN, lo, hi); }
inline bool gc(u64 num, u64 den) { return chance(GEN, num, den); }

// ---- events, counters, verdicts ----------------------------------------
void event(const char* kind, u64 a = 0, u64 b = 0, u64 c = 0);  // hashed + traced
void event_str(const char* kind, const std::string& s);
void count(const char* name, u64 n = 1);      // fault kinds / op counts (literals)
void nontrivial();                            // this episode exercised the property
void sched_note(u64 v);                       // mixed into the interleaving hash
[[noreturn]] void violation(const char* sig, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char* why);   // episode says nothing; counted apart
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();

#define SIM_CHECK(cond, sig, ...) \
    do { if (!(cond)) ::sim::violation(sig, __VA_ARGS__); } while (0)

// ---- library / harness boundary -----------------------------------------
// Allocations, steps and pre-emptions only happen "inside the library".
extern thread_local int tl_lib;
struct Lib { int old; Lib() : old(tl_lib) { tl_lib = 1; } ~Lib() { tl_lib = old; } };
struct Harness { int old; Harness() : old(tl_lib) { tl_lib = 0; } ~Harness() { tl_lib = old; } };

// ---- scheduler ------------------------------------------------------------
void step();                                   // a possible pre-emption point
void set_step_budget(u64 n);                   // steps from now; exceeding = hang
void set_soft_budget(u64 n);                   // exceeding = the episode is discarded; 0: off
u64 steps();
int self();                                    // task number, -1 outside tasks
// Runs the tasks to completion, one at a time, under the seeded scheduler.
// exp: pre-emption distances are drawn from [1, 2^exp].
void run_tasks(const std::vector<std::function<void()>>& tasks, unsigned exp);
void track_races(bool on);                     // conflicting accesses of tasks are violations (SCHED builds)
void stall_point();                            // explicit forced switch point

// ---- heap --------------------------------------------------------------------
struct HeapStats { u64 live, live_bytes, allocs; };
HeapStats heap();                              // library allocations only
// Fail the k-th (0-based) library allocation from now on; persistent: all
// later ones too until disarmed.  Returns to no-fault when disarmed.
void arm_alloc_fault(u64 k, bool persistent);
bool disarm_alloc_fault();                     // true when it fired
void set_heap_limit(u64 bytes);                // 0 = none; larger single request: bad_alloc
u64 heap_peak_request();
void setup_heap_policy();                      // draw address policy from the FAULT tape
void set_heap_policy(unsigned policy, u32 seed, u8 fill);
void switch_heap_policy(unsigned policy, u32 seed, u8 fill);   // in mid-run, live blocks stay
bool leaked(std::string& what, u64 mark);      // any library allocation with seq >= mark live?
u64 heap_mark();

// ---- harness-supplied --------------------------------------------------------
struct Info
{
    const char* property;
    const char* rule;         // how cases are made / non-triviality
    const char* real;         // components that ran real code
    const char* stub;         // components that ran a stub
    const char* measure;      // what "distinct" counts
    const char* assumptions;  // ';'-separated
    const char* batch = "";   // how the sources compiled into this binary were made
};
extern const Info info;
void warmup();                // once, in the parent, harness mode
void episode();               // one simulated run

inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 29);
}
template<typename T> u64 hash_range(const T* p, std::size_t n, u64 h = 0x1234567)
{
    for (std::size_t i = 0; i < n; ++i) h = mix(h, static_cast<u64>(p[i]));
    return h;
}
std::string printable(const char* p, std::size_t n);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}
