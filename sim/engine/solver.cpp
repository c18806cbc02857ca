// The solver stand-in behind Sleipnir's API (a stub: it records what is posed
// and then plays the script the plan gives it).
#include <cstdarg>
#include <math.h>
#include <string.h>
#include <sys/mman.h>

#include <algorithm>
#include <new>

#include "engine.h"
#include <sleipnir/optimization/OptimizationProblem.hpp>

namespace simsolver {
struct Node {
  Op op;
  Node* a;
  Node* b;
  double v;
  uint64_t stamp;
  int owner;
  int idx;
  rt::TouchCell touch;
};
namespace {
constexpr size_t kPool = size_t(1) << 31;
char* g_pool = nullptr;
size_t g_used = 0;
uint64_t g_nodes = 0;
uint64_t g_stamp = 1;
int g_owners = 0;

Node* alloc(bool canFail) {
  if (!g_pool) {
    g_pool = static_cast<char*>(mmap(nullptr, kPool, PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  if (canFail && rt::tl_cut > 0 && W && W->plan && W->plan->failNodes) {
    auto& f = rt::allocFault();
    ++f.seen;
    if (f.failAt && (f.seen == f.failAt || (f.sticky && f.seen > f.failAt))) {
      ++f.fired;
      ++f.thrown;
      ++rt::stats().allocFaults;
      throw std::bad_alloc();
    }
  }
  if (g_used + sizeof(Node) > kPool) rt::fatal("memory", "expression pool exhausted");
  Node* n = reinterpret_cast<Node*>(g_pool + g_used);
  g_used += sizeof(Node);
  ++g_nodes;
  n->touch = rt::TouchCell{};
  n->stamp = 0;
  n->owner = -1;
  n->idx = -1;
  return n;
}
void touch(Node* n) {
  if (W && W->raceChecks && rt::tl_cut > 0 && rt::touchRaces(n->touch)) {
    rt::fatal("race", "an expression node is used by two threads without "
                      "synchronisation (its reference count is not atomic)");
  }
}
double eval(Node* n) {
  if (n->op == Op::kConst || n->op == Op::kDecision) return n->v;
  if (n->stamp == g_stamp) return n->v;
  double a = eval(n->a);
  double b = n->b ? eval(n->b) : 0.0;
  double r = 0;
  switch (n->op) {
    case Op::kAdd: r = a + b; break;
    case Op::kSub: r = a - b; break;
    case Op::kMul: r = a * b; break;
    case Op::kDiv: r = a / b; break;
    case Op::kNeg: r = -a; break;
    case Op::kAbs: r = fabs(a); break;
    case Op::kAcos: r = acos(a); break;
    case Op::kAsin: r = asin(a); break;
    case Op::kAtan: r = atan(a); break;
    case Op::kAtan2: r = atan2(a, b); break;
    case Op::kCos: r = cos(a); break;
    case Op::kCosh: r = cosh(a); break;
    case Op::kErf: r = erf(a); break;
    case Op::kExp: r = exp(a); break;
    case Op::kHypot: r = hypot(a, b); break;
    case Op::kLog: r = log(a); break;
    case Op::kLog10: r = log10(a); break;
    case Op::kPow: r = pow(a, b); break;
    case Op::kSign: r = a < 0 ? -1.0 : a == 0 ? 0.0 : 1.0; break;
    case Op::kSin: r = sin(a); break;
    case Op::kSinh: r = sinh(a); break;
    case Op::kSqrt: r = sqrt(a); break;
    case Op::kTan: r = tan(a); break;
    case Op::kTanh: r = tanh(a); break;
    default: break;
  }
  n->v = r;
  n->stamp = g_stamp;
  return r;
}
bool foreign(Node* n, int owner) {
  if (n->op == Op::kDecision) return n->owner != owner;
  if (n->op == Op::kConst) return false;
  if (n->stamp == g_stamp) return false;
  n->stamp = g_stamp;
  return foreign(n->a, owner) || (n->b && foreign(n->b, owner));
}
}  // namespace

Node* MakeConst(double v) {
  Node* n = alloc(true);
  n->op = Op::kConst;
  n->a = n->b = nullptr;
  n->v = v;
  return n;
}
Node* MakeOp(Op op, Node* a, Node* b) {
  Node* n = alloc(true);
  n->op = op;
  n->a = a;
  n->b = b;
  n->v = 0;
  touch(a);
  if (b) touch(b);
  return n;
}
double NodeValue(Node* n) {
  touch(n);
  if (n->op == Op::kDecision || n->op == Op::kConst) return n->v;
  ++g_stamp;
  return eval(n);
}
void NodeSet(Node* n, double v) {
  touch(n);
  n->v = v;
}
}  // namespace simsolver

using namespace simsolver;
using sleipnir::OptimizationProblem;
using sleipnir::Variable;

static thread_local SolverCtx tl_ctx;
SolverCtx& solverCtx() { return tl_ctx; }
void solverResetIds() { simsolver::g_owners = 0; }
uint64_t solverNodes() { return simsolver::g_nodes; }
size_t problemVars(const OptimizationProblem& p) { return p.m_decisionVariables.size(); }

static int ownerOf(OptimizationProblem& p) {
  return p.m_decisionVariables.empty() ? -1 : p.m_decisionVariables[0].expr->owner;
}

namespace sleipnir {

Variable OptimizationProblem::DecisionVariable() {
  int owner;
  if (m_decisionVariables.empty()) {
    owner = simsolver::g_owners++;
    int g = tl_ctx.constructing;
    if (g >= 0 && W) W->gens[g]->owner = owner;
  } else {
    owner = m_decisionVariables[0].expr->owner;
  }
  Node* n = alloc(true);
  n->op = Op::kDecision;
  n->a = n->b = nullptr;
  n->v = 0.0;
  n->owner = owner;
  n->idx = static_cast<int>(m_decisionVariables.size());
  m_decisionVariables.emplace_back(Variable{n});
  return m_decisionVariables.back();
}
VariableMatrix OptimizationProblem::DecisionVariable(int r, int c) {
  VariableMatrix m{r, c};
  for (int i = 0; i < r * c; ++i) m(i) = DecisionVariable();
  return m;
}
VariableMatrix OptimizationProblem::SymmetricDecisionVariable(int rows) {
  VariableMatrix m{rows, rows};
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j <= i; ++j) {
      m(i, j) = DecisionVariable();
      m(j, i) = m(i, j);
    }
  return m;
}
void OptimizationProblem::Minimize(const Variable& c) { m_cost.assign(1, c); }
void OptimizationProblem::Minimize(Variable&& c) { m_cost.assign(1, c); }
void OptimizationProblem::Maximize(const Variable& c) { m_cost.assign(1, -c); }
void OptimizationProblem::Maximize(Variable&& c) { m_cost.assign(1, -c); }
void OptimizationProblem::SubjectTo(const EqualityConstraints& c) {
  m_equalityConstraints.reserve(m_equalityConstraints.size() + c.constraints.size());
  for (auto& e : c.constraints) m_equalityConstraints.push_back(e);
}
void OptimizationProblem::SubjectTo(EqualityConstraints&& c) {
  SubjectTo(static_cast<const EqualityConstraints&>(c));
}
void OptimizationProblem::SubjectTo(const InequalityConstraints& c) {
  for (auto& e : c.constraints) m_inequalityConstraints.push_back(e);
}
void OptimizationProblem::SubjectTo(InequalityConstraints&& c) {
  SubjectTo(static_cast<const InequalityConstraints&>(c));
}
void OptimizationProblem::SetCallback(std::function<bool(const SolverIterationInfo&)> f) {
  m_callback = std::move(f);
}

}  // namespace sleipnir

static double unit(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
  return (h >> 11) * (1.0 / 9007199254740992.0);
}
static uint64_t mix(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t h = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ull ^
               (c + 0x1ce4e5b9) * 0x94d049bb133111ebull;
  return h;
}

static void setValues(OptimizationProblem& p, const std::vector<double>& v) {
  for (size_t i = 0; i < p.m_decisionVariables.size() && i < v.size(); ++i)
    p.m_decisionVariables[i].expr->v = v[i];
  ++g_stamp;
}
static std::vector<double> getValues(OptimizationProblem& p) {
  std::vector<double> v;
  for (auto& x : p.m_decisionVariables) v.push_back(x.expr->v);
  return v;
}
// iterate number `iter` of run `run`: distinguishable everywhere, finite, with
// positive time steps
static std::vector<double> iterate(size_t n, const VarMap& m, int run, int iter, int special) {
  std::vector<double> v(n);
  for (size_t i = 0; i < n; ++i) {
    double u = unit(mix(run + 11, iter + 3, i));
    bool dt = i < m.isDt.size() && m.isDt[i];
    v[i] = dt ? 0.01 + u : u * 10 - 5;
    if (special && unit(mix(run + 5, iter + 77, i)) * 1000 < special) {
      static const double odd[] = {INFINITY, -INFINITY, NAN, 0.0, -0.0, 1e300, -1e300, 1e-310,
                                   1e12, -7.0, 1.0, 1e-9, 123456.75};
      static const double oddDt[] = {INFINITY, NAN, 0.0, 1e-12, 1e6, 3600.0, -0.25};
      size_t pick = size_t(unit(mix(run + 9, iter + 123, i)) * 1e6);
      v[i] = dt ? oddDt[pick % 7] : odd[pick % 13];
    }
  }
  return v;
}

void problemFingerprint(OptimizationProblem& p, Posed& out) {
  auto save = getValues(p);
  size_t n = save.size();
  out.vars = n;
  std::vector<std::vector<double>> at;
  for (int j = 0; j < 3; ++j) {
    std::vector<double> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = 0.25 + unit(mix(991 + j, 5, i)) * 2;
    at.push_back(v);
  }
  std::vector<uint64_t> eq(p.m_equalityConstraints.size(), 1469598103934665603ull),
      in(p.m_inequalityConstraints.size(), 1469598103934665603ull);
  uint64_t cost = 1469598103934665603ull;
  // Values are compared to 9 digits, and equalities up to sign, so that
  // algebraically equal ways of posing the same constraint agree.
  auto put = [](uint64_t& h, double v, int sign) {
    if (sign < 0) v = -v;
    float f = static_cast<float>(v);
    uint32_t b;
    memcpy(&b, &f, 4);
    h = (h ^ b) * 1099511628211ull;
  };
  std::vector<int> sg(eq.size(), 0);
  for (auto& v : at) {
    setValues(p, v);
    for (size_t i = 0; i < eq.size(); ++i) {
      double x = eval(p.m_equalityConstraints[i].expr);
      if (!sg[i]) sg[i] = x < 0 ? -1 : 1;
      put(eq[i], x, sg[i]);
    }
    for (size_t i = 0; i < in.size(); ++i) put(in[i], eval(p.m_inequalityConstraints[i].expr), 1);
    if (!p.m_cost.empty()) put(cost, eval(p.m_cost[0].expr), 1);
  }
  setValues(p, save);
  std::sort(eq.begin(), eq.end());
  std::sort(in.begin(), in.end());
  out.eq = eq;
  out.in = in;
  out.cost = cost;
}

// values a candidate trajectory gives the decision variables
static std::vector<double> assign(const VarMap& m, const CutSolution& t, size_t n) {
  std::vector<double> v(n, 0.0);
  const std::vector<double>* f[] = {&t.dt, &t.x, &t.y, &t.c, &t.s, &t.vx, &t.vy,
                                    &t.w, &t.ax, &t.ay, &t.al};
  for (int k = 0; k < 11; ++k)
    for (size_t i = 0; i < m.f[k].size() && i < f[k]->size(); ++i) v[m.f[k][i]] = (*f[k])[i];
  for (size_t i = 0; i < m.fx.size() && i < t.fx.size(); ++i)
    for (size_t j = 0; j < m.fx[i].size() && j < t.fx[i].size(); ++j) {
      v[m.fx[i][j]] = t.fx[i][j];
      v[m.fy[i][j]] = t.fy[i][j];
    }
  return v;
}
static std::string fmtd(const char* f, ...) {
  char b[300];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static bool permitted(OptimizationProblem& p, double& worst) {
  ++g_stamp;
  worst = 0;
  for (auto& c : p.m_equalityConstraints) {
    double x = fabs(eval(c.expr));
    worst = std::isnan(x) ? INFINITY : std::max(worst, x);
  }
  for (auto& c : p.m_inequalityConstraints) {
    double x = -eval(c.expr);
    worst = std::isnan(x) ? INFINITY : std::max(worst, x);
  }
  return worst <= 1e-7;
}

namespace sleipnir {

SolverStatus OptimizationProblem::Solve(const SolverConfig& config) {
  rt::NoFault nf;
  int cutDepth = rt::tl_cut;
  rt::Host host;
  OptimizationProblem& p = *this;
  RunRec* r = nullptr;
  int owner = ownerOf(p);
  if (!tl_ctx.stack.empty()) r = tl_ctx.stack.back();
  if (!r)
    for (auto* x : W->runs)
      if (!x->seqExit && x->gen >= 0 && W->gens[x->gen]->owner == owner) r = x;
  if (!r) rt::fatal("harness", "Solve outside of a generation");
  const Plan& plan = *W->plan;
  ++r->solves;
  r->seqSolve = ++W->seq;
  r->tSolve = rt::now();
  r->solving = true;
  r->start = getValues(p);
  logev("t%d run%d solve vars=%zu eq=%zu in=%zu", rt::self(), r->id,
        m_decisionVariables.size(), m_equalityConstraints.size(),
        m_inequalityConstraints.size());
  if (r->gen >= 0 && W->gens[r->gen]->owner != owner)
    violate("foreign", "the problem solved is not the one this generator posed");
  if (plan.checkPosed || W->calibrating) {
    problemFingerprint(p, r->posed);
    ++g_stamp;
    for (auto* cs : {&m_equalityConstraints, &m_inequalityConstraints, &m_cost})
      for (auto& c : *cs)
        if (foreign(c.expr, owner)) {
          violate("foreign", "a constraint uses another problem's decision variable");
          break;
        }
    ++g_stamp;
  }
  // what a solver needs before it can begin, and at any finite point after that
  bool probe = plan.prop == "S24" && !W->calibrating;
  auto finite = [&](const std::string& where) {
    if (!r->nonfinite.empty()) return;
    ++g_stamp;
    const char* kind[] = {"equality", "inequality", "cost"};
    int q = 0;
    for (auto* cs : {&m_equalityConstraints, &m_inequalityConstraints, &m_cost}) {
      for (size_t k = 0; k < cs->size(); ++k) {
        double v = eval((*cs)[k].expr);
        if (std::isfinite(v)) continue;
        r->nonfinite = fmtd("%s %zu of %zu is %g %s", kind[q], k, cs->size(), v, where.c_str());
        return;
      }
      ++q;
    }
    count("probe.finite");
  };
  auto modest = [](const std::vector<double>& v) {
    return std::all_of(v.begin(), v.end(), [](double d) { return fabs(d) < 1e6; });
  };
  if (probe) finite("at the starting point");
  SolverStatus st;
  auto finish = [&](int code) {
    r->solving = false;
    r->haveExit = true;
    r->exit = code;
    r->finalVals = getValues(p);
    st.exitCondition = static_cast<SolverExitCondition>(code);
    logev("t%d run%d solver exit %d", rt::self(), r->id, code);
    return st;
  };
  size_t n = m_decisionVariables.size();
  if (W->calibrating) {
    std::vector<double> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = 1000.0 + double(i);
    setValues(p, v);
    return finish(0);
  }
  const Script& s = plan.scripts.at(r->script);
  const VarMap& vm = W->base.at(r->path).map;
  auto maybeThrow = [&](int it) {
    if (s.throwAt != it) return;
    r->solving = false;
    r->solverThrew = true;
    r->solverToken = 7000 + r->id;
    r->finalVals = getValues(p);
    count("fault.solver_exception");
    logev("t%d run%d solver throws", rt::self(), r->id);
    if (s.throwKind == 1) throw std::bad_alloc();
    throw SolverError(r->solverToken);
  };
  if (config.diagnostics != r->diag)
    violate("diagnostics", fmtd("run %d: diagnostic output was %s but the solver was told the "
                                "opposite", r->id, r->diag ? "asked for" : "not asked for"));
  if (config.spy)
    violate("diagnostics", fmtd("run %d: the solver was told to write files", r->id));
  int listed = static_cast<int>(s.iterUs.size());
  int iters = listed + static_cast<int>(s.more);
  for (int it = 0; it < iters; ++it) {
    rt::progress();
    // limits the library may have set, as the real solver applies them
    if (it >= config.maxIterations) {
      r->limited = "number of iterations";
      return finish(-6);
    }
    if (double(rt::now() - r->tSolve) * 1e-9 > config.timeout.count()) {
      r->limited = "time";
      return finish(-7);
    }
    rt::sleepNs(static_cast<uint64_t>(it < listed ? s.iterUs[it] : s.moreUs) * 1000);
    maybeThrow(it);
    r->cur = iterate(n, vm, r->id, s.still >= 0 && it > s.still ? int(s.still) : it, s.special);
    setValues(p, r->cur);
    if (probe && it < 3 && modest(r->cur)) finite("at iteration " + std::to_string(it));
    r->iter = it;
    if (m_callback) {
      r->polls.emplace_back();
      size_t pi = r->polls.size() - 1;
      r->polls[pi].seqIn = ++W->seq;
      r->polls[pi].tIn = rt::now();
      r->polls[pi].iter = it;
      r->inPoll = true;
      bool ret = false;
      SolverIterationInfo info{it};
      try {
        // back inside the library, with its allocation faults armed
        rt::AllocFault keep = rt::allocFault();
        rt::allocFault() = nf.saved;
        rt::tl_cut = cutDepth;
        struct Back {
          rt::NoFault& nf;
          rt::AllocFault keep;
          ~Back() {
            nf.saved = rt::allocFault();
            rt::allocFault() = keep;
            rt::tl_cut = 0;
          }
        } back{nf, keep};
        ret = m_callback(info);
      } catch (...) {
        Poll& q = r->polls[pi];
        q.threw = true;
        q.seqOut = ++W->seq;
        q.tOut = rt::now();
        r->inPoll = false;
        r->solving = false;
        r->finalVals = getValues(p);
        logev("t%d run%d poll %d threw", rt::self(), r->id, it);
        throw;
      }
      Poll& q = r->polls[pi];
      q.ret = ret;
      q.seqOut = ++W->seq;
      q.tOut = rt::now();
      r->inPoll = false;
      count("polls");
      logev("t%d run%d poll %d -> %d dels=%zu at %lluus", rt::self(), r->id, it,
            ret, q.dels.size(), (unsigned long long)(q.tIn / 1000));
      if (ret) {
        r->stopped = true;
        return finish(kExitStop);
      }
    }
  }
  maybeThrow(iters);
  if (s.mode == kModeFree) {
    setValues(p, iterate(n, vm, r->id, 1000000, s.special));
    int code = s.exit;
    if (code == 0 && s.residual > config.tolerance)
      code = s.residual <= config.acceptableTolerance && config.maxAcceptableIterations > 0 ? 1 : -6;
    if (s.residual > 0) count(code < 0 ? "residual.refused" : "residual.accepted");
    return finish(code);
  }
  // adversary: any candidate the posed problem permits
  double bestCost = INFINITY;
  int best = -1;
  for (int64_t ci : s.cands) {
    if (ci < 0 || ci >= int64_t(plan.trajs.size())) continue;
    setValues(p, assign(vm, plan.trajs[ci].s, n));
    double worst;
    bool ok = permitted(p, worst);
    logev("run%d candidate %lld %s (worst residual %.3g)", r->id, (long long)ci,
          ok ? "permitted" : "refused", worst);
    count(ok ? "candidate.permitted" : "candidate.refused");
    (ok ? r->accepted : r->refused).push_back(ci);
    if (!ok) continue;
    ++g_stamp;
    double cost = m_cost.empty() ? 0.0 : eval(m_cost[0].expr);
    if (best < 0 || (s.mode == kModeBest && cost < bestCost)) {
      best = static_cast<int>(ci);
      bestCost = cost;
    }
  }
  r->cand = best;
  if (best < 0) return finish(-2);
  setValues(p, assign(vm, plan.trajs[best].s, n));
  return finish(s.exit == kExitAcceptable ? kExitAcceptable : kExitSuccess);
}

}  // namespace sleipnir

const char* exitMessage(int code) {
  static thread_local std::string m;
  m = std::string{sleipnir::ToMessage(static_cast<sleipnir::SolverExitCondition>(code))};
  return m.c_str();
}

// storage that the other language owns: tracked, but never fails
namespace rust {
void* sim_rust_alloc(std::size_t n) {
  rt::NoFault nf;
  return ::operator new(n);
}
void sim_rust_free(void* p) { ::operator delete(p); }
}  // namespace rust
