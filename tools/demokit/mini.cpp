#include "mini.hpp"

#include <algorithm>
#include <atomic>
#include <cmath>
#include <utility>

namespace simsolver {
struct Node {
  Op op;
  Node *a, *b;
  double v;
  uint64_t stamp;
};
static std::atomic<uint64_t> stamps{1};
static thread_local uint64_t now = 0;
static Node* make(Op op, Node* a, Node* b, double v) {
  Node* n = static_cast<Node*>(std::malloc(sizeof(Node)));
  *n = {op, a, b, v, 0};
  static std::atomic<Node*> keep{nullptr};
  keep = n;
  return n;
}
Node* MakeConst(double v) { return make(Op::kConst, nullptr, nullptr, v); }
Node* MakeOp(Op op, Node* a, Node* b) { return make(op, a, b, 0); }
void NodeSet(Node* n, double v) { n->v = v; }
static double eval(Node* n) {
  if (n->op == Op::kDecision || n->op == Op::kConst) return n->v;
  if (n->stamp == now) return n->v;
  double a = eval(n->a), b = n->b ? eval(n->b) : 0, r = 0;
  switch (n->op) {
    case Op::kAdd: r = a + b; break;
    case Op::kSub: r = a - b; break;
    case Op::kMul: r = a * b; break;
    case Op::kDiv: r = a / b; break;
    case Op::kNeg: r = -a; break;
    case Op::kAbs: r = std::fabs(a); break;
    case Op::kAcos: r = std::acos(a); break;
    case Op::kAsin: r = std::asin(a); break;
    case Op::kAtan: r = std::atan(a); break;
    case Op::kAtan2: r = std::atan2(a, b); break;
    case Op::kCos: r = std::cos(a); break;
    case Op::kCosh: r = std::cosh(a); break;
    case Op::kErf: r = std::erf(a); break;
    case Op::kExp: r = std::exp(a); break;
    case Op::kHypot: r = std::hypot(a, b); break;
    case Op::kLog: r = std::log(a); break;
    case Op::kLog10: r = std::log10(a); break;
    case Op::kPow: r = std::pow(a, b); break;
    case Op::kSign: r = a < 0 ? -1 : a == 0 ? 0 : 1; break;
    case Op::kSin: r = std::sin(a); break;
    case Op::kSinh: r = std::sinh(a); break;
    case Op::kSqrt: r = std::sqrt(a); break;
    case Op::kTan: r = std::tan(a); break;
    case Op::kTanh: r = std::tanh(a); break;
    default: break;
  }
  n->stamp = now;
  return n->v = r;
}
double NodeValue(Node* n) {
  now = ++stamps;
  return eval(n);
}
}  // namespace simsolver

using simsolver::Node;
thread_local std::function<int(Problem&)> onSolve;
thread_local sleipnir::SolverConfig lastConfig;

double get(Problem& p, size_t i) { return p.m_decisionVariables.at(i).expr->v; }
void put(Problem& p, size_t i, double v) { p.m_decisionVariables.at(i).expr->v = v; }
void putAll(Problem& p, const std::vector<double>& v) {
  for (size_t i = 0; i < v.size(); ++i) put(p, i, v[i]);
}
std::vector<double> getAll(Problem& p) {
  std::vector<double> v;
  for (size_t i = 0; i < vars(p); ++i) v.push_back(get(p, i));
  return v;
}
double worst(Problem& p) {
  double w = 0;
  for (auto& c : p.m_equalityConstraints) {
    double v = std::fabs(c.Value());
    w = std::isnan(v) ? INFINITY : std::max(w, v);
  }
  for (auto& c : p.m_inequalityConstraints) {
    double v = -c.Value();
    w = std::isnan(v) ? INFINITY : std::max(w, v);
  }
  return w;
}
double cost(Problem& p) { return p.m_cost.empty() ? 0 : p.m_cost[0].Value(); }
Posed posed(Problem& p) {
  Posed out;
  auto save = getAll(p);
  std::vector<long long> eq(p.m_equalityConstraints.size()),
      in(p.m_inequalityConstraints.size());
  for (int k = 1; k <= 2; ++k) {
    for (size_t i = 0; i < vars(p); ++i)
      put(p, i, 0.3 + 0.7 * std::fabs(std::sin(1.0 + 37.0 * i * k)));
    auto mix = [](long long& h, double v) {
      h = h * 1000003 + std::llround(v * 1e6);
    };
    for (size_t i = 0; i < eq.size(); ++i) mix(eq[i], std::fabs(p.m_equalityConstraints[i].Value()));
    for (size_t i = 0; i < in.size(); ++i) mix(in[i], p.m_inequalityConstraints[i].Value());
    mix(out.cost, cost(p));
  }
  putAll(p, save);
  std::sort(eq.begin(), eq.end());
  std::sort(in.begin(), in.end());
  out.eq = eq;
  out.in = in;
  return out;
}

Map mapOf(trajopt::SwervePathBuilder builder) {
  auto keep = onSolve;
  onSolve = [](Problem& p) {
    for (size_t i = 0; i < vars(p); ++i) put(p, i, 1000.0 + i);
    return 0;
  };
  trajopt::SwerveTrajectoryGenerator g{builder};
  auto r = g.Generate();
  onSolve = keep;
  auto& s = r.value();
  auto conv = [](const std::vector<double>& v) {
    std::vector<int> out;
    for (double x : v) out.push_back(static_cast<int>(x) - 1000);
    return out;
  };
  Map m{conv(s.dt), conv(s.x), conv(s.y), conv(s.thetacos), conv(s.thetasin),
        conv(s.vx), conv(s.vy), conv(s.omega), conv(s.ax), conv(s.ay), conv(s.alpha), {}, {}};
  for (auto& f : s.moduleFX) m.fx.push_back(conv(f));
  for (auto& f : s.moduleFY) m.fy.push_back(conv(f));
  return m;
}
std::vector<double> assign(const Map& m, const trajopt::SwerveSolution& s, size_t n) {
  std::vector<double> v(n, 0.0);
  auto set = [&](const std::vector<int>& idx, const std::vector<double>& val) {
    for (size_t i = 0; i < idx.size(); ++i) v.at(idx[i]) = val.at(i);
  };
  set(m.dt, s.dt); set(m.x, s.x); set(m.y, s.y);
  set(m.c, s.thetacos); set(m.s, s.thetasin);
  set(m.vx, s.vx); set(m.vy, s.vy); set(m.w, s.omega);
  set(m.ax, s.ax); set(m.ay, s.ay); set(m.al, s.alpha);
  for (size_t i = 0; i < m.fx.size(); ++i) {
    set(m.fx[i], s.moduleFX.at(i));
    set(m.fy[i], s.moduleFY.at(i));
  }
  return v;
}
trajopt::SwerveSolution still(const Map& m, double x, double y, double h, double dt) {
  size_t n = m.x.size();
  std::vector<double> z(n, 0.0);
  trajopt::SwerveSolution s;
  s.dt.assign(m.dt.size(), dt);
  s.x.assign(n, x);
  s.y.assign(n, y);
  s.thetacos.assign(n, std::cos(h));
  s.thetasin.assign(n, std::sin(h));
  s.vx = s.vy = s.omega = s.ax = s.ay = s.alpha = z;
  for (auto& f : m.fx) {
    s.moduleFX.emplace_back(f.size(), 0.0);
    s.moduleFY.emplace_back(f.size(), 0.0);
  }
  return s;
}

namespace sleipnir {
Variable OptimizationProblem::DecisionVariable() {
  m_decisionVariables.emplace_back(
      Variable{simsolver::make(simsolver::Op::kDecision, nullptr, nullptr, 0.0)});
  return m_decisionVariables.back();
}
VariableMatrix OptimizationProblem::DecisionVariable(int r, int c) {
  VariableMatrix m{r, c};
  for (int i = 0; i < r * c; ++i) m(i) = DecisionVariable();
  return m;
}
VariableMatrix OptimizationProblem::SymmetricDecisionVariable(int n) {
  VariableMatrix m{n, n};
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= i; ++j) m(i, j) = m(j, i) = DecisionVariable();
  return m;
}
void OptimizationProblem::Minimize(const Variable& c) { m_cost.assign(1, c); }
void OptimizationProblem::Minimize(Variable&& c) { m_cost.assign(1, c); }
void OptimizationProblem::Maximize(const Variable& c) { m_cost.assign(1, -c); }
void OptimizationProblem::Maximize(Variable&& c) { m_cost.assign(1, -c); }
void OptimizationProblem::SubjectTo(const EqualityConstraints& c) {
  for (auto& e : c.constraints) m_equalityConstraints.push_back(e);
}
void OptimizationProblem::SubjectTo(EqualityConstraints&& c) {
  for (auto& e : c.constraints) m_equalityConstraints.push_back(e);
}
void OptimizationProblem::SubjectTo(const InequalityConstraints& c) {
  for (auto& e : c.constraints) m_inequalityConstraints.push_back(e);
}
void OptimizationProblem::SubjectTo(InequalityConstraints&& c) {
  for (auto& e : c.constraints) m_inequalityConstraints.push_back(e);
}
void OptimizationProblem::SetCallback(std::function<bool(const SolverIterationInfo&)> f) {
  m_callback = std::move(f);
}
SolverStatus OptimizationProblem::Solve(const SolverConfig& config) {
  lastConfig = config;
  SolverStatus st;
  st.exitCondition = static_cast<SolverExitCondition>(onSolve ? onSolve(*this) : 0);
  return st;
}
}  // namespace sleipnir

namespace rust {
void* sim_rust_alloc(std::size_t n) { return std::malloc(n); }
void sim_rust_free(void* p) { std::free(p); }
}  // namespace rust
