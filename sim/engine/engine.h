// One simulated run: records, solver stand-in, oracles.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>

#include "plan.h"

namespace sleipnir {
class OptimizationProblem;
struct SolverConfig;
struct SolverStatus;
}  // namespace sleipnir
namespace simsolver { struct Node; }

// Which decision variable each entry of a solution shows (learnt by running
// the library alone with distinguishable values).
struct VarMap {
  bool ok = false;
  std::string why;
  size_t vars = 0;
  std::vector<int> f[11];                 // dt x y c s vx vy w ax ay al
  std::vector<std::vector<int>> fx, fy;
  std::vector<char> isDt;
};
// What a clean, single-threaded build of a path poses to the solver.
struct Baseline {
  VarMap map;
  std::vector<uint64_t> eq, in;  // sorted constraint fingerprints
  uint64_t cost = 0;
  std::vector<double> guess;     // starting point, by variable
  uint64_t ctorAllocs = 0, runAllocs = 0, ctorNodes = 0;
};

struct Posed {
  size_t vars = 0;
  std::vector<uint64_t> eq, in;
  uint64_t cost = 0;
};

struct Delivery {
  uint64_t seq;
  uint64_t t;
  int64_t cb;
  int64_t handle;
  std::string bad;  // content mismatch
};
struct Poll {
  uint64_t seqIn = 0, seqOut = 0, tIn = 0, tOut = 0;
  int iter = 0;
  bool ret = false, threw = false;
  std::vector<Delivery> dels;
};
struct RunRec {
  int id = 0;
  int gen = -1;
  int path = -1;
  int script = -1;
  int64_t handle = 0;
  int tid = 0;
  bool ffi = false;
  uint64_t seqEnter = 0, tEnter = 0, seqSolve = 0, tSolve = 0, seqExit = 0;
  int solves = 0;
  bool solving = false;
  std::vector<Poll> polls;
  bool inPoll = false;
  int iter = -1;
  bool haveExit = false;
  int exit = 0;           // how the solver ended
  const char* limited = nullptr;  // the limit the library set that ended the solve
  std::string nonfinite;  // what was infinite or not a number
  bool diag = false;
  bool solverThrew = false;
  int64_t solverToken = 0;
  bool stopped = false;
  int cand = -1;          // chosen candidate
  std::vector<int64_t> accepted, refused;  // candidates the posed problem permits or not
  std::vector<double> finalVals;
  std::vector<double> cur;    // the iterate being shown
  Posed posed;
  std::vector<double> start;  // starting point
  CutOutcome out;
  bool faultFired = false;
  bool faultThrown = false;   // by an exception
  bool cbThrew = false;
  int64_t cbToken = 0;
  bool cbThrewAlloc = false;
  std::vector<int> children;
};
struct GenRec {
  int id = 0;
  int altPath = -1;  // path without the abandoned calls, if any were
  int path = -1;
  int64_t handle = 0;
  bool reapplied = false;  // the builder no longer is what a path says
  bool retried = false;    // some builder call was repeated after a fault
  uint64_t tBuilt = 0;
  int owner = -1;
  std::vector<int> runs;
};
struct CancelRec { uint64_t seqIn, seqOut; int tid; };

struct Violation { std::string tag, text; };

struct World {
  const Plan* plan = nullptr;
  std::vector<Baseline> base;  // per path
  std::vector<RunRec*> runs;
  std::vector<GenRec*> gens;
  std::vector<CancelRec> cancels;
  std::vector<Violation> viols;
  std::map<std::string, uint64_t> counts;  // what was exercised
  std::map<int64_t, int> cbCount;          // deliveries so far, per callback id
  uint64_t seq = 0;
  bool calibrating = false;
  bool raceChecks = false;
  std::vector<std::string> log;
  bool keepLog = false;
};
extern World* W;

void violate(const std::string& tag, const std::string& text);
void count(const char* what, uint64_t n = 1);
void logev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- solver stand-in
struct SolverCtx { std::vector<RunRec*> stack; int constructing = -1; };
SolverCtx& solverCtx();
void solverResetIds();
uint64_t solverNodes();
size_t problemVars(const sleipnir::OptimizationProblem& p);
void problemFingerprint(sleipnir::OptimizationProblem& p, Posed& out);

// ---- reference model of a path
struct RefCon {
  int type;                     // ConType
  std::vector<double> d;
  std::vector<char> at;         // per sample: applies
};
struct RefObst {
  double safety;
  std::vector<double> pts;
  std::vector<std::pair<double, std::vector<double>>> bumpers;
  std::vector<char> at;
};
struct RefModel {
  double mass = 0, moi = 0;
  std::vector<double> mods;     // x y r w tau per module
  std::vector<size_t> counts;
  size_t wpts = 0;
  std::vector<RefCon> cons;
  std::vector<RefObst> obst;
  std::vector<std::vector<double>> guess;  // per waypoint: x y h of its guess
  // per waypoint: x y h of each guess point between the previous one and it
  std::vector<std::vector<double>> via;
  std::vector<int64_t> callbacks;
  size_t samples() const { size_t n = wpts ? 1 : 0; for (auto c : counts) n += c; return n; }
  size_t sampleOf(size_t w) const { size_t n = 0; for (size_t k = 0; k < w; ++k) n += counts[k]; return n; }
};
RefModel refModel(const PathSpec& p);
// empty if the starting point runs straight from guess point to guess point in
// even steps, turning the short way; what is wrong otherwise
std::string interpolation(const RefModel& m, const CutSolution& s);
// quantity a constraint limits, at one sample; larger is worse, compared with
// the limit: violated if quantity > limit
double conMeasure(const RefCon& c, const CutSolution& s, size_t k, double& limit);
double outlineClearance(const std::vector<double>& bumper,
                        const std::vector<double>& obst, double x, double y,
                        double c, double s);
// verdict: +1 certainly violated (first reason in why), -1 certainly satisfied
// with room, 0 too close to call
int refVerdict(const RefModel& m, const CutSolution& s, std::string& tag, std::string& why);
double totalTime(const CutSolution& s);

// ---- execution
void execute(const Plan& plan);
void checkHistory();
bool calibrate(const Plan& plan, int path, Baseline& out, std::string& why);
std::string fieldDiff(const VarMap& m, const std::vector<double>& v, const CutSolution& s);
std::string sampleDiff(const VarMap& m, const std::vector<double>& v, const std::vector<CutSample>& s);
void blobPut(std::string& o, const Baseline& b);
bool blobGet(const std::string& s, size_t& pos, Baseline& b);
