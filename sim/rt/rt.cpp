#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <bit>
#include <chrono>
#include <map>
#include <new>
#include <thread>
#include <unordered_map>

namespace rt {

thread_local int tl_cut = 0;

namespace {

struct Rng {
  uint64_t s;
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

using VC = uint32_t[kMaxThreads];

enum class St : uint8_t { kNone, kReady, kBlocked, kSleeping, kDone };

struct Thr {
  St st = St::kNone;
  sem_t sem;
  VC vc;
  uint64_t wake = 0;
  const void* waitOn = nullptr;
  bool timedOut = false;
  uint64_t consecutive = 0;
};

FatalFn g_fatal = nullptr;
DecisionFn g_onDecision = nullptr;
Config g_cfg;
Rng g_rng{1};
Stats g_stats;
Thr g_thr[kMaxThreads];
int g_nthr = 0;
int g_cur = 0;
bool g_active = false;
bool g_multi = false;  // more than one simulated thread may be alive
uint64_t g_now = 0;
uint64_t g_pt = 0, g_ptMark = 0;
uint64_t g_nextMem = 0;
size_t g_scriptPos = 0;
int64_t g_wallSkew = 0;
uint64_t g_hash = 1469598103934665603ull;
thread_local int tl_tid = 0;
thread_local AllocFault tl_fault;

// ---------------------------------------------------------------- arena
constexpr uintptr_t kArenaBase = 0x200000000000ull;
constexpr size_t kArenaSize = 1024ull << 20;
// past this much, freed memory is reused whatever the run chose
constexpr size_t kReuseFrom = 192ull << 20;
constexpr uintptr_t kAliveBase = 0x210000000000ull;
constexpr uintptr_t kShadowBase = 0x220000000000ull;
constexpr size_t kRed = 16;

uint8_t* const g_alive = reinterpret_cast<uint8_t*>(kAliveBase);
struct Slot {
  uint32_t clk;
  uint8_t tid1;  // tid + 1, 0 = empty
  uint8_t mask;
  uint8_t flags;  // 1 write, 2 atomic
  uint8_t pad;
};
struct Cell { Slot s[4]; };
Cell* const g_shadow = reinterpret_cast<Cell*>(kShadowBase);
uintptr_t g_brk = kArenaBase;

struct Block {
  uint32_t off16;  // (addr - base) / 16
  uint32_t size;
  uint32_t freed;
  uint32_t site;   // where it was allocated, relative to the library; 0: elsewhere
};
Block* g_blocks = nullptr;  // mmap'ed, index order = address order
uint64_t g_nblocks = 0;
constexpr uint64_t kMaxBlocks = 16u << 20;
uint64_t g_live = 0;
// last freed block of each size class, when memory is reused (index + 1)
constexpr size_t kClasses = 1u << 16;
uint32_t g_head[kClasses];
uint32_t* g_next = nullptr;  // mmap'ed, by block

uintptr_t g_libLo = 0, g_libHi = 0;   // writable segment of the library
uintptr_t g_libBase = 0;
Cell* g_libShadow = nullptr;

const Block* findBlock(uintptr_t a) {
  uint32_t o = static_cast<uint32_t>((a - kArenaBase) / 16);
  uint64_t lo = 0, hi = g_nblocks;
  while (lo < hi) {
    uint64_t m = (lo + hi) / 2;
    if (g_blocks[m].off16 <= o) lo = m + 1; else hi = m;
  }
  return lo ? &g_blocks[lo - 1] : nullptr;
}

std::string fmt(const char* f, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

void badAccess(uintptr_t a, size_t n, bool w, const void* pc) {
  tl_cut = 0;
  const Block* b = findBlock(a);
  std::string d = fmt("%s of %zu bytes at %s", w ? "write" : "read", n,
                      siteOf(pc).c_str());
  const char* cls = "oob";
  if (b) {
    uintptr_t s = kArenaBase + uintptr_t(b->off16) * 16;
    if (b->freed && a < s + b->size) cls = "uaf";
    d += fmt(", offset %lld of block #%llu (%u bytes, %s)",
             (long long)(a - s), (unsigned long long)(b - g_blocks), b->size,
             b->freed ? "freed" : "live");
  }
  fatal(cls, d);
}

inline void checkAlive(uintptr_t a, size_t n, bool w, const void* pc) {
  uintptr_t g = (a - kArenaBase) >> 3;
  size_t o = a & 7;
  size_t end = o + n;
  while (end > 8) {
    if (g_alive[g] != 8) return badAccess(a, n, w, pc);
    ++g;
    end -= 8;
    o = 0;
  }
  if (end > g_alive[g]) badAccess(a, n, w, pc);
}

uint64_t g_evict = 0;
inline void raceCell(Cell& c, uint8_t mask, bool w, bool at, uintptr_t a,
                     const void* pc) {
  Thr& t = g_thr[tl_tid];
  uint32_t clk = t.vc[tl_tid];
  uint8_t fl = (w ? 1 : 0) | (at ? 2 : 0);
  int put = -1;
  for (int i = 0; i < 4; ++i) {
    Slot& s = c.s[i];
    if (!s.tid1) {
      if (put < 0) put = i;
      continue;
    }
    int st = s.tid1 - 1;
    if (st == tl_tid) {
      if (s.mask == mask && s.flags == fl) {
        if (s.clk == clk) return;
        put = i;
      } else if ((s.mask & mask) == s.mask && (fl & 1) >= (s.flags & 1) &&
                 !(fl & 2) && put < 0) {
        put = i;
      }
      continue;
    }
    bool hb = s.clk <= t.vc[st];
    if (hb) {
      // may be replaced if covered by this access as a write
      if (w && (s.mask & mask) == s.mask && put < 0) put = i;
      continue;
    }
    if ((s.mask & mask) && ((s.flags & 1) || w) &&
        !((s.flags & 2) && at)) {
      tl_cut = 0;
      std::string where;
      if (a >= g_libLo && a < g_libHi) {
        where = "global " + siteOf(reinterpret_cast<void*>(a));
      } else {
        const Block* b = findBlock(a);
        where = fmt("heap block #%llu of %u bytes",
                    b ? (unsigned long long)(b - g_blocks) : 0ull,
                    b ? b->size : 0);
      }
      fatal("race",
            fmt("%s%s by thread %d at %s conflicts with unordered %s%s by "
                "thread %d on %s",
                at ? "atomic " : "", w ? "write" : "read", tl_tid,
                siteOf(pc).c_str(), (s.flags & 2) ? "atomic " : "",
                (s.flags & 1) ? "write" : "read", st, where.c_str()));
    }
  }
  if (put < 0) put = g_evict++ & 3;
  c.s[put] = Slot{clk, static_cast<uint8_t>(tl_tid + 1), mask, fl, 0};
}

inline void raceRange(uintptr_t a, size_t n, bool w, bool at, const void* pc) {
  if (!g_cfg.races) return;
  Cell* base;
  uintptr_t g;
  if (a >= g_libLo && a < g_libHi) {
    base = g_libShadow;
    g = (a - (g_libLo & ~uintptr_t(7))) >> 3;
  } else {
    base = g_shadow;
    g = (a - kArenaBase) >> 3;
  }
  size_t o = a & 7;
  while (n) {
    size_t k = std::min<size_t>(8 - o, n);
    uint8_t m = static_cast<uint8_t>(((1u << k) - 1) << o);
    raceCell(base[g], m, w, at, a, pc);
    ++g;
    n -= k;
    a += k;
    o = 0;
  }
}

void memPoint();

inline void onAccess(uintptr_t a, size_t n, bool w, const void* pc) {
  if (!tl_cut || !g_active) return;
  if (a - kArenaBase < kArenaSize) {
    checkAlive(a, n, w, pc);
    if (g_multi) {
      raceRange(a, n, w, false, pc);
      memPoint();
    } else {
      ++g_pt;
    }
  } else if (a >= g_libLo && a < g_libHi) {
    if (g_multi) {
      syncPoint();
      raceRange(a, n, w, false, pc);
    } else {
      ++g_pt;
    }
  }
}

// ------------------------------------------------------------- sync vars
struct SyncVar { VC vc; SyncVar() { memset(vc, 0, sizeof vc); } };
std::unordered_map<const void*, SyncVar>* g_sync;
struct Mutex {
  int owner = -1;
  int depth = 0;
  std::vector<int> readers;
  bool recursive = false;
};
std::unordered_map<const void*, Mutex>* g_mtx;

SyncVar& syncVar(const void* k) {
  Host h;
  return (*g_sync)[k];
}
Mutex& mutexAt(const void* k) {
  Host h;
  return (*g_mtx)[k];
}
void acq(const void* k) {
  auto it = g_sync->find(k);
  if (it == g_sync->end()) return;
  VC& v = g_thr[tl_tid].vc;
  for (int i = 0; i < kMaxThreads; ++i) v[i] = std::max(v[i], it->second.vc[i]);
}
void rel(const void* k) {
  SyncVar& s = syncVar(k);
  VC& v = g_thr[tl_tid].vc;
  for (int i = 0; i < kMaxThreads; ++i) s.vc[i] = std::max(s.vc[i], v[i]);
  ++v[tl_tid];
}
void relStore(const void* k) {  // a plain release store starts a new sequence
  SyncVar& s = syncVar(k);
  VC& v = g_thr[tl_tid].vc;
  memcpy(s.vc, v, sizeof(VC));
  ++v[tl_tid];
}

// ------------------------------------------------------------- scheduler
void record(const Decision& d) {
  if (g_onDecision) g_onDecision(d);
}

void drawNextMem() {
  if (g_cfg.memMean <= 0) {
    g_nextMem = ~0ull;
    return;
  }
  double u = g_rng.uni();
  g_nextMem = g_pt + 1 + static_cast<uint64_t>(u * 2 * g_cfg.memMean);
}

void giveTo(int t) {
  int me = tl_tid;
  g_cur = t;
  if (t == me) return;
  ++g_stats.switches;
  g_hash = (g_hash ^ (uint64_t(t) << 32 ^ g_pt)) * 1099511628211ull;
  sem_post(&g_thr[t].sem);
  while (sem_wait(&g_thr[me].sem) != 0) {
  }
}
void giveToNoWait(int t) {
  g_cur = t;
  ++g_stats.switches;
  g_hash = (g_hash ^ (uint64_t(t) << 32 ^ g_pt)) * 1099511628211ull;
  sem_post(&g_thr[t].sem);
}

int readyList(int* out) {
  int n = 0;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].st == St::kReady) out[n++] = i;
  return n;
}

const Decision* scripted() {
  while (g_scriptPos < g_cfg.script.size() &&
         g_cfg.script[g_scriptPos].pt < g_pt)
    ++g_scriptPos;
  if (g_scriptPos < g_cfg.script.size() &&
      g_cfg.script[g_scriptPos].pt == g_pt)
    return &g_cfg.script[g_scriptPos++];
  return nullptr;
}

// Current thread cannot run: choose another one (forced choice).
int pickForced() {
  for (;;) {
    int r[kMaxThreads];
    int n = readyList(r);
    if (n) {
      int pick = r[0];
      ++g_pt;
      if (g_cfg.replay) {
        if (const Decision* d = scripted())
          if (d->tid >= 0 && g_thr[d->tid].st == St::kReady) pick = d->tid;
      } else {
        pick = r[g_rng.next() % n];
        if (pick != r[0]) record({g_pt, pick, 0});
      }
      return pick;
    }
    // advance the clock
    uint64_t w = ~0ull;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].st == St::kSleeping) w = std::min(w, g_thr[i].wake);
    if (w == ~0ull) {
      tl_cut = 0;
      std::string d = "no thread can run:";
      for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].st == St::kBlocked) {
          d += fmt(" thread %d waits for %s", i,
                   siteOf(g_thr[i].waitOn).c_str());
        }
      fatal("deadlock", d);
    }
    g_now = std::max(g_now, w);
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].st == St::kSleeping && g_thr[i].wake <= g_now) {
        g_thr[i].st = St::kReady;
        g_thr[i].timedOut = true;
      }
  }
}

void blockSelf() {  // state already set
  g_thr[tl_tid].consecutive = 0;
  int t = pickForced();
  giveTo(t);
}

void stallSelf(uint32_t us) {
  ++g_stats.stalls;
  Thr& t = g_thr[tl_tid];
  t.st = St::kSleeping;
  t.wake = g_now + uint64_t(us) * 1000;
  blockSelf();
}

void maybeSwitch(bool sync) {
  ++g_pt;
  if (g_pt - g_ptMark > g_cfg.pointCap) {
    tl_cut = 0;
    fatal("hang", "step cap exceeded");
  }
  if (!g_multi) return;
  Thr& me = g_thr[tl_tid];
  ++me.consecutive;
  if (g_cfg.replay) {
    if (const Decision* d = scripted()) {
      if (d->tid == -1) {
        stallSelf(d->dur_us);
      } else if (d->tid != tl_tid && d->tid < g_nthr &&
                 g_thr[d->tid].st == St::kReady) {
        me.consecutive = 0;
        giveTo(d->tid);
      }
      return;
    }
    if (sync && me.consecutive > 20000) {  // fairness against spinning
      int r[kMaxThreads];
      int n = readyList(r);
      for (int i = 0; i < n; ++i)
        if (r[i] != tl_tid) {
          me.consecutive = 0;
          giveTo(r[(i + 0) % n]);
          return;
        }
      // nobody else is ready: let time pass
      stallSelf(1000);
    }
    return;
  }
  bool sw = false;
  if (sync) {
    double u = g_rng.uni();
    if (g_cfg.pStall > 0 && u < g_cfg.pStall) {
      uint32_t us = 1 + g_rng.next() % std::max(1u, g_cfg.stallMaxUs);
      record({g_pt, -1, us});
      stallSelf(us);
      return;
    }
    sw = u < g_cfg.pStall + g_cfg.pSync;
  } else if (g_pt >= g_nextMem) {
    drawNextMem();
    sw = true;
  }
  if (sync && me.consecutive > 20000) {
    int r[kMaxThreads];
    int n = readyList(r);
    bool other = false;
    for (int i = 0; i < n; ++i) other |= r[i] != tl_tid;
    if (!other) {
      record({g_pt, -1, 1000});
      stallSelf(1000);
      return;
    }
    sw = true;
  }
  if (!sw) return;
  int r[kMaxThreads];
  int n = readyList(r);
  if (n < 2) return;
  int pick;
  do {
    pick = r[g_rng.next() % n];
  } while (pick == tl_tid && me.consecutive > 20000);
  if (pick == tl_tid) return;
  record({g_pt, pick, 0});
  me.consecutive = 0;
  giveTo(pick);
}

void memPoint() { maybeSwitch(false); }

void wakeWaiters(const void* key, int limit = -1) {
  // wakes in thread order; which of them runs first is a scheduling choice
  for (int i = 0; i < g_nthr && limit != 0; ++i) {
    if ((g_thr[i].st == St::kBlocked || g_thr[i].st == St::kSleeping) &&
        g_thr[i].waitOn == key) {
      g_thr[i].st = St::kReady;
      g_thr[i].timedOut = false;
      g_thr[i].waitOn = nullptr;
      --limit;
    }
  }
}

// waits on a key, optionally with a deadline; true if woken, false on timeout
bool waitKey(const void* key, uint64_t deadline = ~0ull) {
  Thr& t = g_thr[tl_tid];
  t.waitOn = key;
  t.timedOut = false;
  if (deadline == ~0ull) {
    t.st = St::kBlocked;
  } else {
    t.st = St::kSleeping;
    t.wake = std::max(deadline, g_now);
  }
  blockSelf();
  t.waitOn = nullptr;
  return !t.timedOut;
}

bool simOn() { return g_active && tl_cut > 0; }

}  // namespace

// ------------------------------------------------------------------ public
void setFatal(FatalFn f) { g_fatal = f; }
void fatal(const char* cls, const std::string& d) {
  tl_cut = 0;
  g_active = false;
  if (g_fatal) g_fatal(cls, d);
  fprintf(stderr, "fatal %s: %s\n", cls, d.c_str());
  _exit(99);
}

std::string siteOf(const void* pc) {
  uintptr_t p = reinterpret_cast<uintptr_t>(pc);
  if (g_libBase && p >= g_libBase && p < g_libBase + (64u << 20))
    return fmt("lib+0x%llx", (unsigned long long)(p - g_libBase));
  if (p - kArenaBase < kArenaSize) return "heap";
  return "?";
}

static uint32_t libOff(const void* pc) {
  uintptr_t p = reinterpret_cast<uintptr_t>(pc);
  return g_libBase && p >= g_libBase && p < g_libBase + (64u << 20) ? uint32_t(p - g_libBase) : 0;
}

static int phdrCb(struct dl_phdr_info* info, size_t, void*) {
  if (!info->dlpi_name || !strstr(info->dlpi_name, "libcut.so")) return 0;
  g_libBase = info->dlpi_addr;
  uintptr_t relroLo = 0, relroHi = 0;
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    auto& p = info->dlpi_phdr[i];
    if (p.p_type == PT_GNU_RELRO) {
      relroLo = info->dlpi_addr + p.p_vaddr;
      relroHi = relroLo + p.p_memsz;
    }
  }
  (void)relroLo;
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    auto& p = info->dlpi_phdr[i];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      g_libLo = info->dlpi_addr + p.p_vaddr;
      g_libHi = g_libLo + p.p_memsz;
      if (relroHi > g_libLo && relroHi <= g_libHi) g_libLo = relroHi;
    }
  }
  return 1;
}

void initProcess() {
  auto map = [](uintptr_t a, size_t n) {
    void* p = mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                       (a ? MAP_FIXED_NOREPLACE : 0),
                   -1, 0);
    if (p == MAP_FAILED || (a && p != reinterpret_cast<void*>(a))) {
      perror("mmap");
      _exit(98);
    }
    return p;
  };
  map(kArenaBase, kArenaSize);
  map(kAliveBase, kArenaSize / 8);
  map(kShadowBase, kArenaSize / 8 * sizeof(Cell));
  g_blocks = static_cast<Block*>(map(0, kMaxBlocks * sizeof(Block)));
  g_next = static_cast<uint32_t*>(map(0, kMaxBlocks * sizeof(uint32_t)));
  dl_iterate_phdr(phdrCb, nullptr);
  if (g_libHi > g_libLo)
    g_libShadow = static_cast<Cell*>(
        map(0, ((g_libHi - g_libLo) / 8 + 4) * sizeof(Cell)));
  g_sync = new std::unordered_map<const void*, SyncVar>;
  g_mtx = new std::unordered_map<const void*, Mutex>;
}

void begin(const Config& c, DecisionFn f) {
  g_cfg = c;
  g_onDecision = f;
  g_rng.s = c.seed ^ 0x5bd1e995;
  g_now = c.clockBase;
  g_nthr = 1;
  for (auto& t : g_thr) {
    memset(t.vc, 0, sizeof(VC));
    t.st = St::kNone;
  }
  g_thr[0].st = St::kReady;
  g_thr[0].vc[0] = 1;
  sem_init(&g_thr[0].sem, 0, 0);
  tl_tid = 0;
  g_cur = 0;
  g_active = true;
  g_multi = false;
  drawNextMem();
}

Stats& stats() {
  g_stats.points = g_pt;
  g_stats.simEnd = g_now - g_cfg.clockBase;
  return g_stats;
}
int self() { return tl_tid; }
bool active() { return g_active; }
uint64_t now() { return g_now; }
uint64_t points() { return g_pt; }
uint64_t threadHash() { return g_hash; }
void note(uint64_t h) { g_hash = (g_hash ^ h) * 1099511628211ull; }

void sleepNs(uint64_t ns) {
  if (!g_active) return;
  if (ns == 0) {
    syncPoint();
    return;
  }
  Thr& t = g_thr[tl_tid];
  t.st = St::kSleeping;
  t.wake = g_now + ns;
  t.waitOn = nullptr;
  blockSelf();
}

void syncPoint() {
  if (!g_active) return;
  ++g_stats.syncPoints;
  maybeSwitch(true);
}

// Runs as the last thread_local destructor of a simulated thread, so that
// everything the thread destroys is still part of the simulation.
static void finishThread(int id) {
  tl_cut = 0;
  Thr& me = g_thr[id];
  me.st = St::kDone;
  rel(&me);
  wakeWaiters(&me);
  giveToNoWait(pickForced());
}
struct ExitHook {
  int id = -1;
  ~ExitHook() {
    if (id >= 0) finishThread(id);
  }
};
static thread_local ExitHook tl_hook;

static int spawn(std::function<void()> fn) {
  int id = g_nthr;
  if (id >= kMaxThreads) fatal("harness", "too many simulated threads");
  ++g_nthr;
  Thr& t = g_thr[id];
  sem_init(&t.sem, 0, 0);
  memcpy(t.vc, g_thr[tl_tid].vc, sizeof(VC));
  t.vc[id] = 1;
  ++g_thr[tl_tid].vc[tl_tid];
  t.st = St::kReady;
  g_multi = true;
  Host h;
  std::thread([id, fn = std::move(fn)] {
    tl_tid = id;
    tl_hook.id = id;
    while (sem_wait(&g_thr[id].sem) != 0) {
    }
    fn();
  }).detach();
  return id;
}

static void joinThr(int id) {
  while (g_thr[id].st != St::kDone) waitKey(&g_thr[id]);
  acq(&g_thr[id]);
}

static std::vector<int> g_taskIds;
bool awaitTask(size_t k) {
  if (k >= g_taskIds.size() || g_taskIds[k] <= tl_tid) return false;
  joinThr(g_taskIds[k]);
  return true;
}

void runTasks(const std::vector<std::function<void()>>& tasks) {
  std::vector<int>& ids = g_taskIds;
  ids.clear();
  ids.reserve(tasks.size());
  for (auto& f : tasks) ids.push_back(spawn(f));
  for (int id : ids) joinThr(id);
  bool all = true;
  for (int i = 1; i < g_nthr; ++i) all &= g_thr[i].st == St::kDone;
  if (all) g_multi = false;
}

AllocFault& allocFault() { return tl_fault; }
void progress() { g_ptMark = g_pt; }
bool inArena(const void* p) {
  return reinterpret_cast<uintptr_t>(p) - kArenaBase < kArenaSize;
}
uint64_t liveBlocks() { return g_live; }
uint64_t allocIndex() { return g_nblocks; }

std::vector<Leak> unreachableBlocks(const std::vector<const void*>& extra) {
  std::vector<char> mark(g_nblocks, 0);
  std::vector<uint64_t> work;
  auto visit = [&](uintptr_t v) {
    if (v - kArenaBase >= kArenaSize) return;
    const Block* b = findBlock(v);
    if (!b || b->freed) return;
    uintptr_t s = kArenaBase + uintptr_t(b->off16) * 16;
    if (v > s + b->size) return;
    uint64_t i = b - g_blocks;
    if (!mark[i]) {
      mark[i] = 1;
      work.push_back(i);
    }
  };
  for (uintptr_t p = (g_libLo + 7) & ~uintptr_t(7); p + 8 <= g_libHi; p += 8)
    visit(*reinterpret_cast<uintptr_t*>(p));
  for (auto p : extra) visit(reinterpret_cast<uintptr_t>(p));
  while (!work.empty()) {
    uint64_t i = work.back();
    work.pop_back();
    uintptr_t s = kArenaBase + uintptr_t(g_blocks[i].off16) * 16;
    for (uintptr_t p = s; p + 8 <= s + g_blocks[i].size; p += 8)
      visit(*reinterpret_cast<uintptr_t*>(p));
  }
  std::vector<Leak> out;
  for (uint64_t i = 0; i < g_nblocks; ++i)
    if (!g_blocks[i].freed && !mark[i]) out.push_back({i, g_blocks[i].size, g_blocks[i].site});
  return out;
}

bool touchRaces(TouchCell& c) {
  if (!g_active || !g_multi) return false;
  VC& v = g_thr[tl_tid].vc;
  bool race = c.tid >= 0 && c.tid != tl_tid && c.clk > v[c.tid];
  c.tid = static_cast<int16_t>(tl_tid);
  c.clk = v[tl_tid];
  return race;
}
void hbRelease(const void* k) { if (g_active) rel(k); }
void hbAcquire(const void* k) { if (g_active) acq(k); }

// ------------------------------------------------------------------ memory
// the room a block takes, in units of 16 bytes; large ones share sizes
static size_t sizeClass(size_t n) {
  size_t c = (std::max<size_t>(n, 1) + 15) / 16;
  if (c < 256) return c;
  size_t step = std::bit_floor(c) / 8;
  return (c + step - 1) / step * step;
}
static void* arenaAlloc(size_t n, size_t al, const void* pc) {
  AllocFault& f = tl_fault;
  ++f.seen;
  ++g_stats.allocs;
  if (f.failAt && (f.seen == f.failAt || (f.sticky && f.seen > f.failAt))) {
    ++f.fired;
    ++g_stats.allocFaults;
    return nullptr;
  }
  al = std::max<size_t>(al, 16);
  size_t cls = sizeClass(n);
  bool reuse = g_cfg.reuse || g_brk - kArenaBase > kReuseFrom;
  if (reuse && al == 16 && cls < kClasses && g_head[cls]) {
    uint32_t i = g_head[cls] - 1;
    g_head[cls] = g_next[i];
    Block& b = g_blocks[i];
    b.size = static_cast<uint32_t>(n);
    b.freed = 0;
    b.site = libOff(pc);
    ++g_live;
    uintptr_t p = kArenaBase + uintptr_t(b.off16) * 16;
    uintptr_t g = (p - kArenaBase) >> 3;
    memset(g_alive + g, 8, n / 8);
    if (n & 7) g_alive[g + n / 8] = n & 7;
    // a real allocator orders the free before the new use
    if (g_cfg.races) memset(static_cast<void*>(g_shadow + g), 0, cls * 2 * sizeof(Cell));
    memset(reinterpret_cast<void*>(p), 0xA5, n);
    return reinterpret_cast<void*>(p);
  }
  uintptr_t p = (g_brk + kRed + al - 1) & ~(al - 1);
  if (n > kArenaSize || p + cls * 16 + kRed > kArenaBase + kArenaSize ||
      g_nblocks >= kMaxBlocks) {
    // more than any sensible run needs: report it to the caller as exhaustion
    // would be, but never silently
    fatal("memory", fmt("arena exhausted by a request of %zu bytes", n));
  }
  // reused blocks may grow to the end of their 16 bytes
  g_brk = p + cls * 16;
  g_blocks[g_nblocks++] = Block{static_cast<uint32_t>((p - kArenaBase) / 16),
                                static_cast<uint32_t>(n), 0, libOff(pc)};
  ++g_live;
  uintptr_t g = (p - kArenaBase) >> 3;
  memset(g_alive + g, 8, n / 8);
  if (n & 7) g_alive[g + n / 8] = n & 7;
  memset(reinterpret_cast<void*>(p), 0xA5, n);
  return reinterpret_cast<void*>(p);
}
static void arenaFree(void* v) {
  uintptr_t p = reinterpret_cast<uintptr_t>(v);
  const Block* cb = findBlock(p);
  if (!cb || kArenaBase + uintptr_t(cb->off16) * 16 != p) {
    fatal("badfree", "delete of a pointer that is not the start of a block");
  }
  Block& b = g_blocks[cb - g_blocks];
  if (b.freed)
    fatal("doublefree", fmt("block #%llu of %u bytes freed twice",
                            (unsigned long long)(cb - g_blocks), b.size));
  if (g_active && g_multi && tl_cut)
    raceRange(p, b.size, true, false, __builtin_return_address(0));
  b.freed = 1;
  --g_live;
  uintptr_t g = (p - kArenaBase) >> 3;
  memset(g_alive + g, 0, (b.size + 7) / 8);
  memset(v, 0xDD, b.size);
  size_t cls = sizeClass(b.size);
  if (cls < kClasses) {
    uint32_t i = static_cast<uint32_t>(cb - g_blocks);
    g_next[i] = g_head[cls];
    g_head[cls] = i + 1;
  }
}

static void* newImpl(size_t n, size_t al, bool nothrow, const void* pc) {
  void* p;
  if (tl_cut > 0 && g_active) {
    p = arenaAlloc(n, al, pc);
  } else if (al > 16) {
    p = aligned_alloc(al, (n + al - 1) / al * al);
  } else {
    p = malloc(n ? n : 1);
  }
  if (!p && !nothrow) {
    ++tl_fault.thrown;
    throw std::bad_alloc();
  }
  return p;
}
static void delImpl(void* p) {
  if (!p) return;
  if (inArena(p)) arenaFree(p); else free(p);
}

}  // namespace rt

using rt::delImpl;
using rt::newImpl;
void* operator new(size_t n) { return newImpl(n, 0, false, __builtin_return_address(0)); }
void* operator new[](size_t n) { return newImpl(n, 0, false, __builtin_return_address(0)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return newImpl(n, 0, true, __builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return newImpl(n, 0, true, __builtin_return_address(0)); }
void* operator new(size_t n, std::align_val_t a) { return newImpl(n, size_t(a), false, __builtin_return_address(0)); }
void* operator new[](size_t n, std::align_val_t a) { return newImpl(n, size_t(a), false, __builtin_return_address(0)); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return newImpl(n, size_t(a), true, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { delImpl(p); }
void operator delete[](void* p) noexcept { delImpl(p); }
void operator delete(void* p, size_t) noexcept { delImpl(p); }
void operator delete[](void* p, size_t) noexcept { delImpl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { delImpl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delImpl(p); }
void operator delete(void* p, std::align_val_t) noexcept { delImpl(p); }
void operator delete[](void* p, std::align_val_t) noexcept { delImpl(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { delImpl(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { delImpl(p); }

// --------------------------------------------------------- library-side hooks
using namespace rt;
#define PC __builtin_return_address(0)
extern "C" {
void rt_cut_enter() { ++tl_cut; }
void rt_cut_leave() { --tl_cut; }
int rt_cut_save() { int s = tl_cut; tl_cut = 0; return s; }
void rt_cut_restore(int s) { tl_cut = s; }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { onAccess((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { onAccess((uintptr_t)p, 8, false, PC); }
#define RW(n)                                                                \
  void __tsan_read##n(void* p) { onAccess((uintptr_t)p, n, false, PC); }      \
  void __tsan_write##n(void* p) { onAccess((uintptr_t)p, n, true, PC); }      \
  void __tsan_unaligned_read##n(void* p) { onAccess((uintptr_t)p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { onAccess((uintptr_t)p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { onAccess((uintptr_t)p, n, false, PC); }  \
  void __tsan_volatile_write##n(void* p) { onAccess((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) onAccess((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) onAccess((uintptr_t)p, n, true, PC); }

static inline bool tracked(const volatile void* p) {
  uintptr_t a = (uintptr_t)p;
  return a - kArenaBase < kArenaSize || (a >= g_libLo && a < g_libHi);
}
static inline void atPre(const volatile void* p, size_t n, bool w, const void* pc) {
  syncPoint();
  uintptr_t a = (uintptr_t)p;
  if (a - kArenaBase < kArenaSize) checkAlive(a, n, w, pc);
  if (g_multi) raceRange(a, n, w, true, pc);
}
static inline bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
#define ATOMICS(B, T)                                                          \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) {                     \
    if (simOn() && tracked(a)) {                                               \
      atPre(a, sizeof(T), false, PC);                                          \
      if (g_multi && isAcq(mo)) acq((const void*)a);                           \
    }                                                                          \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                  \
    if (simOn() && tracked(a)) {                                               \
      atPre(a, sizeof(T), true, PC);                                           \
      if (g_multi) {                                                           \
        if (isRel(mo)) relStore((const void*)a);                               \
        else g_sync->erase((const void*)a);                                    \
      }                                                                        \
    }                                                                          \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  RMW(B, T, exchange, __atomic_exchange_n)                                     \
  RMW(B, T, fetch_add, __atomic_fetch_add)                                     \
  RMW(B, T, fetch_sub, __atomic_fetch_sub)                                     \
  RMW(B, T, fetch_and, __atomic_fetch_and)                                     \
  RMW(B, T, fetch_or, __atomic_fetch_or)                                       \
  RMW(B, T, fetch_xor, __atomic_fetch_xor)                                     \
  RMW(B, T, fetch_nand, __atomic_fetch_nand)                                   \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v,     \
                                                 int mo, int) {                \
    bool on = simOn() && tracked(a);                                           \
    if (on) atPre(a, sizeof(T), true, PC);                                     \
    int ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,     \
                                         __ATOMIC_SEQ_CST);                    \
    if (on && g_multi) {                                                       \
      if (isAcq(mo)) acq((const void*)a);                                      \
      if (ok && isRel(mo)) rel((const void*)a);                                \
    }                                                                          \
    return ok;                                                                 \
  }                                                                            \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v,       \
                                               int mo, int fmo) {              \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);       \
  }                                                                            \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo,   \
                                            int fmo) {                         \
    __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo);             \
    return c;                                                                  \
  }
#define RMW(B, T, name, fn)                                                    \
  T __tsan_atomic##B##_##name(volatile T* a, T v, int mo) {                    \
    if (simOn() && tracked(a)) {                                               \
      atPre(a, sizeof(T), true, PC);                                           \
      if (g_multi) {                                                           \
        if (isAcq(mo)) acq((const void*)a);                                    \
        if (isRel(mo)) rel((const void*)a);                                    \
      }                                                                        \
    }                                                                          \
    return fn(a, v, __ATOMIC_SEQ_CST);                                         \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
static char g_fenceKey;
void __tsan_atomic_thread_fence(int) {
  if (simOn() && g_multi) {
    syncPoint();
    acq(&g_fenceKey);
    rel(&g_fenceKey);
  }
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}

// memory functions called by the library
void* rt_memcpy(void* d, const void* s, size_t n, const void* pc) {
  if (n) {
    onAccess((uintptr_t)s, n, false, pc);
    onAccess((uintptr_t)d, n, true, pc);
  }
  return memcpy(d, s, n);
}
void* rt_memmove(void* d, const void* s, size_t n, const void* pc) {
  if (n) {
    onAccess((uintptr_t)s, n, false, pc);
    onAccess((uintptr_t)d, n, true, pc);
  }
  return memmove(d, s, n);
}
void* rt_memset(void* d, int c, size_t n, const void* pc) {
  if (n) onAccess((uintptr_t)d, n, true, pc);
  return memset(d, c, n);
}

// clocks
int64_t rt_steady_now() {
  if (!g_active) return 0;
  int sv = tl_cut;
  if (sv) syncPoint();
  ++g_stats.clockReads;
  uint64_t t = g_now;
  if (g_cfg.clockGrain > 1) {
    t -= t % g_cfg.clockGrain;
    ++g_stats.coarseReads;
  }
  return (int64_t)t;
}
int64_t rt_wall_now() {
  if (!g_active) return 0;
  if (tl_cut) syncPoint();
  ++g_stats.clockReads;
  if (g_cfg.pWallJump > 0) {
    // wall clock jumps are a pure function of the seed and of the minute of
    // simulated time, so they need no recording
    uint64_t k = g_now / 40000000ull;  // a new offset every 40 ms
    Rng r{g_cfg.seed * 77 + k};
    if (r.uni() < g_cfg.pWallJump) {
      ++g_stats.wallJumps;
      return 1700000000000000000ll + (int64_t)g_now +
             (int64_t)((r.uni() - 0.5) * 7.2e12);
    }
  }
  return 1700000000000000000ll + (int64_t)g_now + g_wallSkew;
}

// static initialisation guards
int rt_guard_acquire(uint8_t* g) {
  if (!g_active) {
    if (g[0]) return 0;
    g[1] = 1;
    return 1;
  }
  for (;;) {
    if (tl_cut) syncPoint();
    if (g[0]) {
      if (g_multi) acq(g);
      return 0;
    }
    if (!g[1]) {
      g[1] = 1;
      return 1;
    }
    waitKey(g);
  }
}
void rt_guard_release(uint8_t* g) {
  g[1] = 0;
  g[0] = 1;
  if (g_active) {
    if (g_multi) rel(g);
    wakeWaiters(g);
    if (tl_cut) syncPoint();
  }
}
void rt_guard_abort(uint8_t* g) {
  g[1] = 0;
  if (g_active) {
    if (g_multi) rel(g);
    wakeWaiters(g);
  }
}

// mutexes (plain, recursive and reader/writer)
int rt_sim_on() { return simOn(); }
int rt_mutex_lock(void* m, int recursive, int tryOnly, int64_t deadline) {
  syncPoint();
  for (;;) {
    Mutex& x = mutexAt(m);
    if (x.owner < 0 && x.readers.empty()) {
      x.owner = tl_tid;
      x.depth = 1;
      if (g_multi) acq(m);
      return 0;
    }
    if (x.owner == tl_tid) {
      if (recursive) {
        ++x.depth;
        return 0;
      }
      if (tryOnly) return EBUSY;
      // self-deadlock: never woken
    } else if (tryOnly) {
      return EBUSY;
    }
    if (!waitKey(m, deadline < 0 ? ~0ull : (uint64_t)deadline))
      return ETIMEDOUT;
  }
}
int rt_mutex_unlock(void* m) {
  Mutex& x = mutexAt(m);
  if (x.owner != tl_tid) {
    fatal("mutex", "unlock of a mutex that this thread does not hold");
  }
  if (--x.depth > 0) return 0;
  x.owner = -1;
  if (g_multi) rel(m);
  wakeWaiters(m);
  syncPoint();
  return 0;
}
int rt_rdlock(void* m, int tryOnly) {
  syncPoint();
  for (;;) {
    Mutex& x = mutexAt(m);
    if (x.owner < 0) {
      { Host h; x.readers.push_back(tl_tid); }
      if (g_multi) acq(m);
      return 0;
    }
    if (tryOnly) return EBUSY;
    waitKey(m);
  }
}
int rt_rwunlock(void* m) {
  Mutex& x = mutexAt(m);
  if (x.owner == tl_tid) {
    x.owner = -1;
  } else {
    auto it = std::find(x.readers.begin(), x.readers.end(), tl_tid);
    if (it == x.readers.end())
      fatal("mutex", "unlock of a lock that this thread does not hold");
    x.readers.erase(it);
  }
  if (g_multi) rel(m);
  wakeWaiters(m);
  syncPoint();
  return 0;
}
// condition variables
int rt_cond_wait(void* c, void* m, int64_t deadline) {
  Mutex& x = mutexAt(m);
  int depth = x.depth;
  x.owner = -1;
  if (g_multi) rel(m);
  wakeWaiters(m);
  bool woken = waitKey(c, deadline < 0 ? ~0ull : (uint64_t)deadline);
  if (g_multi) acq(c);
  rt_mutex_lock(m, 0, 0, -1);
  mutexAt(m).depth = depth;
  return woken ? 0 : ETIMEDOUT;
}
int rt_cond_signal(void* c, int all) {
  syncPoint();
  if (g_multi) rel(c);
  wakeWaiters(c, all ? -1 : 1);
  return 0;
}
int rt_once(uint8_t* o, void (*f)()) {
  if (rt_guard_acquire(o)) {
    try {
      f();
    } catch (...) {
      rt_guard_abort(o);
      throw;
    }
    rt_guard_release(o);
  }
  return 0;
}
void rt_sleep_ns(uint64_t ns) { sleepNs(ns); }
void rt_yield() {
  // a yield lets somebody else run, or time pass
  syncPoint();
}
int rt_futex_wait(void* addr, uint32_t val) {
  syncPoint();
  if (__atomic_load_n((uint32_t*)addr, __ATOMIC_SEQ_CST) != val) {
    errno = EAGAIN;
    return -1;
  }
  waitKey(addr);
  return 0;
}
int rt_futex_wake(void* addr, int n) {
  syncPoint();
  wakeWaiters(addr, n);
  return 0;
}
// threads created by the library itself
int rt_spawn(void* (*fn)(void*), void* arg) {
  int sv = tl_cut;
  int id = spawn([fn, arg, sv] {
    tl_cut = sv;
    fn(arg);
    tl_cut = 0;
  });
  syncPoint();
  return id;
}
int rt_join(int id) {
  joinThr(id);
  return 0;
}
}
