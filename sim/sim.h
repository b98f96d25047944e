// Deterministic simulator: public interface used by the scenario programs.
//
// The simulator owns every source of nondeterminism of the code under test:
//   - thread scheduling: real threads, parked and released one at a time; a
//     seeded scheduler picks who runs at every instrumented memory access,
//     atomic, lock operation, thread operation and disk operation
//   - clocks (virtual), std::rand/srand, std::random_device, CPU count
//   - the disk (an in-memory file system below libstdc++'s filebuf)
//   - the allocator (deterministic, checked, can fail)
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
};

// ---------------------------------------------------------------- plan
// A run is a pure function of (code, plan).  In seeded mode unknown parameters,
// schedule decisions and faults are drawn from the seed and recorded; in
// explicit mode only what the plan lists happens.

// Named run parameter, uniform over [lo,hi]; `lo` is what the minimiser shrinks to.
long P(const std::string& name, long lo, long hi);
// log-uniform variant
long PL(const std::string& name, long lo, long hi);
// true with probability pct/100; shrinks to false
bool chance(const std::string& name, int pct);

// ---------------------------------------------------------------- run control
enum Options : unsigned {
    OPT_RACE   = 1,   // report data races
    OPT_MEM    = 2,   // report heap out-of-bounds / use-after-free
};

struct RunSpec {
    void (*body)();          // scenario body; runs as simulated thread 0
    unsigned options;
    uint64_t step_budget;
};

// Enter / leave the mode in which the code under test is simulated (thread 0 only).
void enter();
void leave();
struct Scope { Scope() { enter(); } ~Scope() { leave(); } };
// the converse: harness code called back from simulated code
struct Pause { Pause() { leave(); } ~Pause() { enter(); } };

// The harness' own code executes with the simulator paused.
bool active();

// report a violation and end the process
[[noreturn]] void violation(const std::string& kind, const std::string& detail);

// named rare-condition probes and counters
void probe(const std::string& name, long add = 1);
// append to the event log (hashed into the run digest)
void event(const std::string& text);
void digest_bytes(const void* p, size_t n);

// ---------------------------------------------------------------- simulated world, callable from simulated threads
void yield_point();                    // a point where the scheduler may switch
void sleep_ns(uint64_t ns);            // simulated sleep
uint64_t now_ns();
uint64_t steps();
uint64_t blocked_count();
int  self();                           // simulated thread id, -1 outside
int  live_threads();                   // threads created by the code under test and not finished
int  created_threads();
void set_cpu_count(int n);
int  cpu_count();
void set_rand_seed(uint64_t s);        // restart the srand/rand streams
void set_rand_extreme(int per_mille);  // std::rand() legally returns 0 / RAND_MAX this often
void set_step_budget(uint64_t steps);  // from now on
void no_preempt(bool on);

// assertion failures: violations unless allowed, then thrown as this
struct AssertionFailed { std::string what; };
void allow_assert(bool on);

// for scenarios that run a whole program: called when it ends early (abort, terminate, failed assertion, exit())
typedef void (*DeathFn)(int status, const std::string& why);
void set_death_hook(DeathFn f);

// ---------------------------------------------------------------- faults
// Fault sites count their opportunities from fault_arm() on.  In seeded mode
// a fault fires with the armed rate; in explicit mode at the listed indices.
struct Fault { bool fire = false; int kind = 0; long arg = 0; };
enum Site { S_DISK = 0, S_ALLOC, S_THREAD, S_SOURCE, NSITES };
const char* site_name(int site);
void fault_arm(int site, double rate, uint32_t kinds_mask, int max_faults);
void fault_disarm(int site);
void fault_arm_alloc_workers(double rate, int max_faults);   // allocation failures, only in threads the code under test started
Fault fault_poll(int site, uint32_t legal_mask, long arg_range);
int  faults_fired(int site);           // in this run, since arm
long site_ops(int site);               // opportunities since arm

// ---------------------------------------------------------------- simulated disk
enum DiskFault {
    D_SHORT = 0,      // fewer bytes than asked transferred (legal)
    D_EINTR,          // interrupted before transferring anything (legal, must be retried)
    D_EIO,            // transfer fails once
    D_EIO_STICKY,     // device fails from now on until fs_heal()
    D_ENOSPC,         // disk full from now on until fs_heal()
    D_OPENFAIL,       // open fails
    D_CRASH_BEFORE,   // process dies before the operation takes effect
    D_CRASH_TORN,     // process dies with part of the transfer applied
    D_CRASH_AFTER,    // process dies right after the operation took effect
    D_CLOSEFAIL,      // close reports an error and the data of the last write is lost
    D_RENAMEFAIL,
    D_NKINDS
};
const char* disk_fault_name(int k);
#define SIMFS_ROOT "/simfs/"
void fs_reset();
void fs_heal();                                     // end sticky faults, restart after a crash
bool fs_crashed();
bool fs_sick();                                     // a sticky fault is in effect
void fs_put(const std::string& path, const std::string& bytes);
void fs_put_pattern(const std::string& path, const std::string& head, uint64_t size, uint64_t seed);   // huge read-only file
unsigned char fs_pattern(uint64_t seed, uint64_t off);
bool fs_get(const std::string& path, std::string& out);
bool fs_exists(const std::string& path);
void fs_remove(const std::string& path);
std::vector<std::string> fs_list();
long fs_disk_ops();
int  fs_open_handles();

// ---------------------------------------------------------------- harness main
// Provided by each scenario program.
struct Scenario { const char* name; RunSpec spec; };
const Scenario* scenarios(int& n);
const std::string& property();

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

} // namespace sim
