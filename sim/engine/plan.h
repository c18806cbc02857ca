// A plan is everything one simulated run does: paths, thread programs, solver
// scripts, callback behaviour, faults, scheduler settings and (for replays) the
// exact schedule. It is plain text on disk.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

#include "../rt/rt.h"
#include "spec.h"

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a + 1))); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct PathSpec {
  int ffi = 0;
  std::vector<PathOp> ops;
};

enum ExitCode : int {  // as Sleipnir's SolverExitCondition
  kExitSuccess = 0, kExitAcceptable = 1, kExitStop = 2
};
// solver behaviours
enum ScriptMode : int {
  kModeFree,       // arbitrary iterates
  kModeAdversary,  // ends at the first candidate the posed problem permits
  kModeBest,       // ends at the permitted candidate with the least posed cost
};
struct Script {
  int mode = kModeFree;
  int exit = 0;                 // how it ends if nothing else happens
  int throwAt = -1;             // iteration at which the solver throws
  int throwKind = 0;            // 0 SolverError, 1 bad_alloc
  std::vector<int64_t> iterUs;  // simulated duration of each iteration
  std::vector<int64_t> cands;   // trajectory indices (adversary modes)
  int special = 0;              // per mille of iterate values that are unusual numbers
  int64_t more = 0, moreUs = 0; // further iterations, and the duration of each
  int64_t still = -1;           // from this iteration on the iterate stays the same
  double residual = 0;          // error left when the solver can do no better
};

enum CbActKind : int { kActThrow, kActCancel, kActSleep, kActNested, kActThrowAlloc, kActAwait };
struct CbAct {
  int cb = 0;      // callback id
  int k = 0;       // at its k-th delivery in the plan (0-based)
  int kind = 0;
  int64_t a = 0;   // sleep: us; nested: path; cancel: ffi;
                   // await: number of a later task to wait for the end of
  int64_t b = 0;   // nested: script
};

enum TaskOpKind : int {
  kTBuild,    // a=slot b=path  faults: i = (op, failAt, sticky, react)*
  kTGen,      // a=gen slot b=builder slot c=handle d=1 move builder; fault f0
  kTRun,      // a=gen slot b=script; fault f0
  kTFfi,      // a=builder slot b=script c=handle; fault f0
  kTMove,     // a=gen slot
  kTDropGen,  // a=gen slot
  kTDropBld,  // a=builder slot
  kTTouch,    // a=builder slot: clear the path through GetPath()
  kTReapply,  // a=builder slot b=path: apply path b's operations on top
  kTCancel,   // a=ffi
  kTSleep,    // a=us
  kTCopyBld,  // a=new slot b=slot
  kTGuess,    // a=builder slot
  kTKinds
};
struct TaskOp {
  int kind = 0;
  int64_t a = 0, b = 0, c = 0, d = 0;
  uint64_t failAt = 0;      // allocation fault inside the call
  int sticky = 0;
  int retry = 0;            // after an injected failure: 1 = try again
  std::vector<int64_t> i;   // per-op faults for kTBuild
};
struct Task { std::vector<TaskOp> ops; };

// slots >= kSharedBase are shared: built by task 0 before the others start
constexpr int64_t kSharedBase = 1000;

struct Traj { CutSolution s; };

struct Plan {
  std::string prop = "S03";
  uint64_t seed = 0;
  rt::Config sched;
  bool checkPosed = false;   // compare posed problems with clean builds
  bool leakCheck = true;
  bool failNodes = false;    // expression nodes take part in allocation faults
  std::vector<PathSpec> paths;
  std::vector<Script> scripts;
  std::vector<CbAct> acts;
  std::vector<Traj> trajs;
  std::vector<Task> tasks;   // tasks[0]: set-up and tear-down on the main thread
  std::string note;
};

std::string planText(const Plan& p);
bool planParse(const std::string& text, Plan& p, std::string& err);
Plan planGenerate(const std::string& prop, uint64_t seed, bool thorough);
