// Deterministic runtime: seeded scheduler over real threads, discrete-event
// clock, arena allocator with lifetime checking and allocation faults, and a
// happens-before race detector fed by the compiler's thread-sanitizer hooks.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

constexpr int kMaxThreads = 48;

struct Decision {  // one scheduling decision at global point `pt`
  uint64_t pt;
  int32_t tid;     // >=0: thread that runs next; -1: stall of current thread
  uint32_t dur_us; // stall duration
};

struct Config {
  uint64_t seed = 1;
  double pSync = 0.2;       // switch probability at synchronisation points
  double memMean = 0;       // mean number of plain accesses between switches
  double pStall = 0;        // probability of a stall at sync points
  uint32_t stallMaxUs = 0;
  uint64_t clockBase = 0;   // steady clock at start, ns
  uint64_t clockGrain = 1;  // steady clock granularity, ns
  double pWallJump = 0;     // wall clock jumps at readings
  bool reuse = false;       // freed memory is handed out again at once
  bool races = false;       // unordered conflicting accesses are fatal
  bool replay = false;      // follow `script` instead of drawing
  std::vector<Decision> script;
  uint64_t pointCap = 400000000ull;
};

struct Stats {
  uint64_t points = 0, syncPoints = 0, switches = 0, stalls = 0, wallJumps = 0;
  uint64_t allocs = 0, allocFaults = 0, clockReads = 0, coarseReads = 0;
  uint64_t simEnd = 0;
};

using FatalFn = void (*)(const char* cls, const std::string& detail);
using DecisionFn = void (*)(const Decision&);

void setFatal(FatalFn f);
[[noreturn]] void fatal(const char* cls, const std::string& detail);
void initProcess();  // once, in the parent: maps arena, finds library ranges
void begin(const Config& c, DecisionFn onDecision);  // in the child
Stats& stats();

// Runs the tasks as simulated threads; returns when all have ended.
void runTasks(const std::vector<std::function<void()>>& tasks);
// Inside one of them: waits for the end of a later one. False if it is not one.
bool awaitTask(size_t k);

int self();
bool active();
uint64_t now();              // true simulated time, ns
void sleepNs(uint64_t ns);   // blocks this simulated thread
void syncPoint();            // a point where the scheduler may switch
uint64_t points();
uint64_t threadHash();       // rolling hash of (thread, point kind) sequence
void note(uint64_t h);       // mix into the execution hash

// Scope control: memory of the code under test is tracked and may fail.
extern thread_local int tl_cut;
struct Cut {
  Cut() { ++tl_cut; }
  ~Cut() { --tl_cut; }
};
struct Host {
  int saved;
  Host() : saved(tl_cut) { tl_cut = 0; }
  ~Host() { tl_cut = saved; }
};

// Allocation faults for the current thread.
struct AllocFault {
  uint64_t failAt = 0;   // 1-based index of the allocation that fails; 0 = none
  bool sticky = false;   // all later ones fail as well
  uint64_t seen = 0;     // allocations so far
  uint64_t fired = 0;
  uint64_t thrown = 0;   // those reported by an exception
};
AllocFault& allocFault();
// The run got somewhere: the step cap counts from here.
void progress();
struct NoFault {  // temporarily no allocation faults
  AllocFault saved;
  NoFault() : saved(allocFault()) { allocFault() = AllocFault{}; }
  ~NoFault() {
    saved.seen += 0;
    allocFault() = saved;
  }
};

// Memory
bool inArena(const void* p);
uint64_t liveBlocks();
struct Leak { uint64_t index; size_t size; uint32_t site; };
std::vector<Leak> unreachableBlocks(
    const std::vector<const void*>& extraRoots = {});
uint64_t allocIndex();  // number of arena allocations so far
void exemptFreshThreads();

// Race-checked touch of simulator-owned state that is not thread safe in the
// real dependency (an expression node).
struct TouchCell { uint32_t clk = 0; int16_t tid = -1; };
bool touchRaces(TouchCell& c);

// release/acquire edges for harness-made happens-before
void hbRelease(const void* key);
void hbAcquire(const void* key);

std::string siteOf(const void* pc);
}  // namespace rt

extern "C" {
void rt_cut_enter();
void rt_cut_leave();
int rt_cut_save();
void rt_cut_restore(int);
}
