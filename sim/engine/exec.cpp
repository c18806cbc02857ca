// Executes a plan: the programs of the simulated threads, recording everything
// the oracles need.
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

#include <algorithm>
#include <new>

#include "engine.h"

World* W = nullptr;

void violate(const std::string& tag, const std::string& text) {
  if (W->viols.size() < 50) W->viols.push_back({tag, text});
}
void count(const char* what, uint64_t n) { W->counts[what] += n; }
void logev(const char* fmt, ...) {
  char b[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  uint64_t h = 1469598103934665603ull;
  for (const char* p = b; *p; ++p) h = (h ^ uint8_t(*p)) * 1099511628211ull;
  rt::note(h);
  if (W->keepLog) W->log.push_back(b);
}

static std::string fmtx(const char* f, ...) {
  char b[600];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

// ------------------------------------------------------------ comparisons
static const char* kField[] = {"dt", "x", "y", "thetacos", "thetasin", "vx",
                               "vy", "omega", "ax", "ay", "alpha"};
static const std::vector<double>* fieldOf(const CutSolution& s, int k) {
  const std::vector<double>* f[] = {&s.dt, &s.x, &s.y, &s.c, &s.s, &s.vx,
                                    &s.vy, &s.w, &s.ax, &s.ay, &s.al};
  return f[k];
}
static bool same(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return fabs(a - b) <= 1e-11 * (1 + fabs(a));
}

static bool near(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return fabs(a - b) <= 1e-9 * (1 + fabs(b));
}

std::string fieldDiff(const VarMap& m, const std::vector<double>& v, const CutSolution& s) {
  for (int k = 0; k < 11; ++k) {
    const auto& f = *fieldOf(s, k);
    if (f.size() != m.f[k].size())
      return fmtx("%s has %zu entries instead of %zu", kField[k], f.size(), m.f[k].size());
    for (size_t i = 0; i < f.size(); ++i)
      if (!same(v[m.f[k][i]], f[i]))
        return fmtx("%s[%zu] is %.9g, the solver has %.9g", kField[k], i, f[i], v[m.f[k][i]]);
  }
  for (int xy = 0; xy < 2; ++xy) {
    const auto& f = xy ? s.fy : s.fx;
    const auto& q = xy ? m.fy : m.fx;
    const char* nm = xy ? "moduleFY" : "moduleFX";
    if (f.size() != q.size()) return fmtx("%s has %zu rows instead of %zu", nm, f.size(), q.size());
    for (size_t i = 0; i < f.size(); ++i) {
      if (f[i].size() != q[i].size())
        return fmtx("%s[%zu] has %zu entries instead of %zu", nm, i, f[i].size(), q[i].size());
      for (size_t j = 0; j < f[i].size(); ++j)
        if (!same(v[q[i][j]], f[i][j]))
          return fmtx("%s[%zu][%zu] is %.9g, the solver has %.9g", nm, i, j, f[i][j],
                      v[q[i][j]]);
    }
  }
  return "";
}

std::string sampleDiff(const VarMap& m, const std::vector<double>& v,
                       const std::vector<CutSample>& s) {
  size_t n = m.f[1].size();
  if (s.size() != n) return fmtx("%zu samples instead of %zu", s.size(), n);
  double t = 0;
  for (size_t i = 0; i < n; ++i) {
    if (i) t += v[m.f[0][i - 1]];
    auto val = [&](int k) { return v[m.f[k][i]]; };
    struct { const char* name; double got, want; } q[] = {
        {"timestamp", s[i].t, t}, {"x", s[i].x, val(1)}, {"y", s[i].y, val(2)},
        {"velocity_x", s[i].vx, val(5)}, {"velocity_y", s[i].vy, val(6)},
        {"angular_velocity", s[i].w, val(7)}};
    for (auto& e : q)
      if (!near(e.got, e.want))
        return fmtx("sample %zu: %s is %.9g, the solver has %.9g", i, e.name, e.got, e.want);
    double h = atan2(val(4), val(3));
    // a direction only where there is one
    bool dir = std::isfinite(val(3)) && std::isfinite(val(4)) &&
               fabs(val(3)) + fabs(val(4)) > 1e-100;
    if (dir && !(fabs(remainder(s[i].h - h, 2 * M_PI)) <= 1e-9))
      return fmtx("sample %zu: heading is %.9g, the solver has %.9g", i, s[i].h, h);
    for (int xy = 0; xy < 2; ++xy) {
      const auto& f = xy ? s[i].fy : s[i].fx;
      const auto& r = xy ? m.fy[i] : m.fx[i];
      if (f.size() != r.size())
        return fmtx("sample %zu has %zu module forces instead of %zu", i, f.size(), r.size());
      for (size_t j = 0; j < f.size(); ++j)
        if (!same(v[r[j]], f[j]))
          return fmtx("sample %zu: force %c of module %zu is %.9g, the solver has %.9g", i,
                      xy ? 'y' : 'x', j, f[j], v[r[j]]);
    }
  }
  return "";
}

static CutSolution decode(const VarMap& m, const std::vector<double>& v) {
  CutSolution s;
  std::vector<double>* f[] = {&s.dt, &s.x, &s.y, &s.c, &s.s, &s.vx,
                              &s.vy, &s.w, &s.ax, &s.ay, &s.al};
  for (int k = 0; k < 11; ++k)
    for (int i : m.f[k]) f[k]->push_back(v[i]);
  for (auto& r : m.fx) {
    s.fx.emplace_back();
    for (int i : r) s.fx.back().push_back(v[i]);
  }
  for (auto& r : m.fy) {
    s.fy.emplace_back();
    for (int i : r) s.fy.back().push_back(v[i]);
  }
  return s;
}

// ---------------------------------------------------------------- callbacks
namespace {
struct BSlot { void* b = nullptr; int ffi = 0; int path = -1; int alt = -1; bool retried = false; bool reapplied = false; };
struct GSlot { void* g = nullptr; int rec = -1; };
std::map<int64_t, BSlot> g_b;
std::map<int64_t, GSlot> g_g;
int64_t g_token = 100;

GenRec* newGen(int path, int64_t handle) {
  auto* g = new GenRec;
  g->id = int(W->gens.size());
  g->path = path;
  g->handle = handle;
  W->gens.push_back(g);
  return g;
}
RunRec* newRun(GenRec* g, int script, bool ffi) {
  auto* r = new RunRec;
  r->id = int(W->runs.size());
  r->gen = g->id;
  r->path = g->path;
  r->script = script;
  r->handle = g->handle;
  r->tid = rt::self();
  r->ffi = ffi;
  r->diag = !W->calibrating && ((W->plan->seed >> 3) + uint64_t(r->id)) % 3 == 0;
  W->runs.push_back(r);
  g->runs.push_back(r->id);
  return r;
}
// 2, the Rust interface, falls back to the layer below it where it cannot be built
int layer(int ffi) { return ffi == 2 && !cut_rust() ? 1 : ffi; }
void doCancel(int ffi) {
  ffi = layer(ffi);
  CancelRec c{++W->seq, 0, rt::self()};
  logev("t%d cancel begins", rt::self());
  cut_cancel(ffi);
  c.seqOut = ++W->seq;
  logev("t%d cancel returned", rt::self());
  W->cancels.push_back(c);
  count("cancels");
}
void enterRun(RunRec* r) {
  r->seqEnter = ++W->seq;
  r->tEnter = rt::now();
  solverCtx().stack.push_back(r);
  count("runs");
  logev("t%d run%d gen%d enters at %lluus", rt::self(), r->id, r->gen,
        (unsigned long long)(r->tEnter / 1000));
}
void leaveRun(RunRec* r) {
  solverCtx().stack.pop_back();
  r->seqExit = ++W->seq;
  static const char* kNames[] = {"none", "ok", "error", "bad_alloc", "user error",
                                 "solver error", "other"};
  logev("t%d run%d leaves: %s %s", rt::self(), r->id, kNames[r->out.kind], r->out.msg.c_str());
  count((std::string("outcome.") + kNames[r->out.kind]).c_str());
}

struct FaultScope {
  bool on;
  FaultScope(uint64_t failAt, int sticky) : on(true) {
    rt::AllocFault f;
    f.failAt = failAt;
    f.sticky = sticky;
    rt::allocFault() = f;
  }
  uint64_t thrown = 0;
  uint64_t end() {
    uint64_t n = rt::allocFault().fired;
    thrown = rt::allocFault().thrown;
    on = false;
    rt::allocFault() = rt::AllocFault{};
    if (n) count("fault.alloc", n);
    return n;
  }
  ~FaultScope() {
    if (on) rt::allocFault() = rt::AllocFault{};
  }
};

const char* what(std::exception_ptr e, int& kind) {
  static thread_local std::string msg;
  kind = kOutOther;
  try {
    std::rethrow_exception(e);
  } catch (const std::bad_alloc&) {
    kind = kOutBadAlloc;
    msg = "bad_alloc";
  } catch (const UserError&) {
    kind = kOutUser;
    msg = "user error";
  } catch (const std::exception& x) {
    msg = x.what();
  } catch (...) {
    msg = "unknown";
  }
  return msg.c_str();
}

// A whole build of a path; faults: (op, failAt, sticky, react)*
void buildPath(BSlot& s, const PathSpec& p, const std::vector<int64_t>& faults, bool fresh) {
  if (fresh) {
    s.ffi = layer(p.ffi);
    s.b = cut_builder_new(s.ffi);
  }
  for (size_t k = 0; k < p.ops.size(); ++k) {
    uint64_t failAt = 0;
    int sticky = 0;
    int64_t react = 1;
    for (size_t q = 0; q + 3 < faults.size(); q += 4)
      if (faults[q] == int64_t(k)) {
        failAt = faults[q + 1];
        sticky = int(faults[q + 2]);
        react = faults[q + 3];
      }
    for (int attempt = 0; attempt < 2; ++attempt) {
      FaultScope fs(attempt ? 0 : failAt, sticky);
      std::exception_ptr err;
      try {
        cut_builder_apply(s.b, s.ffi, p.ops[k]);
      } catch (...) {
        err = std::current_exception();
      }
      uint64_t fired = fs.end();
      if (!err) {
        if (fired) count("fault.alloc_absorbed");
        break;
      }
      int kind;
      const char* m = what(err, kind);
      logev("t%d builder call %zu failed: %s", rt::self(), k, m);
      err = nullptr;
      if (!fired || kind != kOutBadAlloc) {
        violate("exception", fmtx("builder call %zu threw '%s'%s", k, m,
                                  fired ? " instead of the out-of-memory exception" : ""));
        break;
      }
      if (!s.ffi) {
        std::vector<size_t> c;
        size_t w = 0;
        cut_builder_counts(s.b, s.ffi, c, w);
        if (w && c.size() + 1 != w)
          violate("builder",
                  fmtx("after builder call %zu ran out of memory the builder has %zu waypoints "
                       "but %zu interval counts", k, w, c.size()));
      }
      if (react == 0) {
        count("builder.abandoned");
        break;
      }
      s.retried = true;
      count("builder.retried");
    }
  }
}

void runGen(GSlot& g, int script, uint64_t failAt, int sticky, bool retry) {
  for (int attempt = 0; attempt < 2; ++attempt) {
    RunRec* r = newRun(W->gens[g.rec], script, false);
    enterRun(r);
    {
      FaultScope fs(attempt ? 0 : failAt, sticky);
      cut_gen_run(g.g, r->diag, r->out);
      r->faultFired = fs.end() > 0;
      r->faultThrown = fs.thrown > 0;
    }
    leaveRun(r);
    if (!r->faultFired || !retry) break;
    count("run.retried");
  }
}
void runFfi(BSlot& b, int script, int64_t handle, uint64_t failAt, int sticky, bool retry) {
  count(b.ffi == 2 ? "interface.rust" : "interface.ffi");
  for (int attempt = 0; attempt < 2; ++attempt) {
    GenRec* gr = newGen(b.path, handle);
    gr->reapplied = b.reapplied;
    gr->retried = b.retried;
    gr->altPath = b.alt;
    RunRec* r = newRun(gr, script, true);
    enterRun(r);
    int keep = solverCtx().constructing;
    solverCtx().constructing = gr->id;
    gr->tBuilt = rt::now();
    {
      FaultScope fs(attempt ? 0 : failAt, sticky);
      cut_ffi_generate(b.b, b.ffi, r->diag, handle, r->out);
      r->faultFired = fs.end() > 0;
      r->faultThrown = fs.thrown > 0;
    }
    solverCtx().constructing = keep;
    leaveRun(r);
    if (!r->faultFired || !retry) break;
    count("run.retried");
  }
}

void nested(int path, int script) {
  if (path < 0 || path >= int(W->plan->paths.size())) return;
  rt::NoFault nf;
  count("nested");
  BSlot b;
  b.path = path;
  const PathSpec& p = W->plan->paths[path];
  buildPath(b, p, {}, true);
  if (p.ffi) {
    runFfi(b, script, 9000 + path, 0, 0, false);
  } else {
    GSlot g;
    GenRec* gr = newGen(path, 9000 + path);
    g.rec = gr->id;
    int keep = solverCtx().constructing;
    solverCtx().constructing = gr->id;
    g.g = cut_gen_new(b.b, gr->handle, false);
    gr->tBuilt = rt::now();
    solverCtx().constructing = keep;
    runGen(g, script, 0, 0, false);
    cut_gen_delete(g.g);
  }
  cut_builder_delete(b.b, b.ffi);
}
}  // namespace

void EngineCallback(int64_t cb, const CutSolution* sol, const std::vector<CutSample>* samples,
                    int64_t handle) {
  if (W->calibrating) return;
  RunRec* r = solverCtx().stack.empty() ? nullptr : solverCtx().stack.back();
  count("deliveries");
  if (!r || !r->inPoll) {
    violate("delivery", fmtx("callback %lld was called while its generation was not solving",
                             (long long)cb));
    return;
  }
  Poll& p = r->polls.back();
  Delivery d;
  d.seq = ++W->seq;
  d.t = rt::now();
  d.cb = cb;
  d.handle = handle;
  const VarMap& m = W->base[r->path].map;
  if (m.ok) d.bad = sol ? fieldDiff(m, r->cur, *sol) : sampleDiff(m, r->cur, *samples);
  p.dels.push_back(d);
  logev("t%d run%d callback %lld at %lluus", rt::self(), r->id, (long long)cb,
        (unsigned long long)(d.t / 1000));
  int k = W->cbCount[cb]++;
  for (const auto& a : W->plan->acts) {
    if (a.cb != cb || a.k != k) continue;
    switch (a.kind) {
      case kActThrow:
        count("fault.callback_exception");
        r->cbThrew = true;
        r->cbToken = ++g_token;
        throw UserError(r->cbToken);
      case kActThrowAlloc:
        count("fault.callback_exception");
        r->cbThrew = true;
        r->cbThrewAlloc = true;
        throw std::bad_alloc();
      case kActCancel: doCancel(int(a.a)); break;
      case kActSleep:
        count("fault.slow_callback");
        rt::sleepNs(uint64_t(a.a) * 1000);
        break;
      case kActNested: nested(int(a.a), int(a.b)); break;
      case kActAwait:
        // tasks are numbered from 1; only later ones are waited for, so
        // waiting alone never closes a circle
        if (a.a > 0 && rt::awaitTask(size_t(a.a - 1))) count("fault.waiting_callback");
        break;
    }
  }
}

// ------------------------------------------------------------------- tasks
static void doOp(const TaskOp& o) {
  const Plan& plan = *W->plan;
  switch (o.kind) {
    case kTBuild: {
      if (o.b < 0 || o.b >= int64_t(plan.paths.size()) || g_b.count(o.a)) return;
      BSlot s;
      s.path = int(o.b);
      for (size_t q = 0; q + 3 < o.i.size(); q += 4)
        if (o.i[q + 3] == 0) s.alt = int(o.c);
      buildPath(s, plan.paths[o.b], o.i, true);
      g_b[o.a] = s;
      break;
    }
    case kTReapply: {
      auto it = g_b.find(o.a);
      if (it == g_b.end() || o.b < 0 || o.b >= int64_t(plan.paths.size())) return;
      BSlot s = it->second;
      if (!plan.paths[o.b].ffi != !s.ffi) return;
      buildPath(s, plan.paths[o.b], {}, false);
      it = g_b.find(o.a);
      if (it != g_b.end()) it->second.reapplied = true;
      break;
    }
    case kTCopyBld: {
      auto it = g_b.find(o.b);
      if (it == g_b.end() || it->second.ffi || g_b.count(o.a)) return;
      BSlot s = it->second;
      s.b = cut_builder_copy(s.b, 0);
      g_b[o.a] = s;
      break;
    }
    case kTGen: {
      auto it = g_b.find(o.b);
      if (it == g_b.end() || it->second.ffi || g_g.count(o.a)) return;
      BSlot b = it->second;
      for (int attempt = 0; attempt < 2; ++attempt) {
        GenRec* gr = newGen(b.path, o.c);
        gr->reapplied = b.reapplied;
        gr->retried = b.retried;
        gr->altPath = b.alt;
        GSlot g;
        g.rec = gr->id;
        int keep = solverCtx().constructing;
        solverCtx().constructing = gr->id;
        std::exception_ptr err;
        uint64_t fired;
        {
          FaultScope fs(attempt ? 0 : o.failAt, o.sticky);
          try {
            g.g = cut_gen_new(b.b, o.c, o.d != 0);
          } catch (...) {
            err = std::current_exception();
          }
          fired = fs.end();
        }
        solverCtx().constructing = keep;
        gr->tBuilt = rt::now();
        if (!err) {
          logev("t%d gen%d built", rt::self(), gr->id);
          g_g[o.a] = g;
          break;
        }
        int kind;
        const char* m = what(err, kind);
        logev("t%d construction failed: %s", rt::self(), m);
        err = nullptr;
        if (!fired || kind != kOutBadAlloc) {
          violate("exception", fmtx("constructing a generator threw '%s'%s", m,
                                    fired ? " instead of the out-of-memory exception" : ""));
          break;
        }
        count("construction.failed");
        if (!o.retry) break;
      }
      if (o.d) {  // moved from
        cut_builder_delete(b.b, b.ffi);
        g_b.erase(o.b);
      }
      break;
    }
    case kTRun: {
      auto it = g_g.find(o.a);
      if (it == g_g.end() || o.b < 0 || o.b >= int64_t(plan.scripts.size())) return;
      GSlot g = it->second;
      runGen(g, int(o.b), o.failAt, o.sticky, o.retry);
      break;
    }
    case kTFfi: {
      auto it = g_b.find(o.a);
      if (it == g_b.end() || !it->second.ffi || o.b < 0 || o.b >= int64_t(plan.scripts.size()))
        return;
      BSlot b = it->second;
      runFfi(b, int(o.b), o.c, o.failAt, o.sticky, o.retry);
      break;
    }
    case kTMove: {
      auto it = g_g.find(o.a);
      if (it == g_g.end()) return;
      void* n = cut_gen_move(it->second.g);
      g_g[o.a].g = n;
      count("moves");
      logev("t%d moved gen%d", rt::self(), g_g[o.a].rec);
      break;
    }
    case kTDropGen: {
      auto it = g_g.find(o.a);
      if (it == g_g.end()) return;
      void* g = it->second.g;
      g_g.erase(it);
      cut_gen_delete(g);
      break;
    }
    case kTDropBld: {
      auto it = g_b.find(o.a);
      if (it == g_b.end()) return;
      BSlot b = it->second;
      g_b.erase(it);
      cut_builder_delete(b.b, b.ffi);
      count("builder.dropped");
      break;
    }
    case kTTouch: {
      auto it = g_b.find(o.a);
      if (it == g_b.end()) return;
      BSlot b = it->second;
      g_b.erase(it);  // nothing else is asked of it
      cut_builder_touch(b.b, b.ffi);
      cut_builder_delete(b.b, b.ffi);
      count("builder.touched");
      break;
    }
    case kTCancel: doCancel(int(o.a)); break;
    case kTSleep: rt::sleepNs(uint64_t(o.a) * 1000); break;
    case kTGuess: {
      auto it = g_b.find(o.a);
      if (it == g_b.end() || it->second.ffi) return;
      CutSolution s;
      void* b = it->second.b;
      cut_builder_guess(b, s);
      break;
    }
  }
}
static void doOps(const Task& t) {
  for (const auto& o : t.ops) {
    try {
      doOp(o);
    } catch (...) {
      int kind;
      rt::tl_cut = 0;
      const char* m = what(std::current_exception(), kind);
      violate("exception", fmtx("operation kind %d threw '%s' without an injected fault", o.kind, m));
    }
    rt::syncPoint();
  }
}

void execute(const Plan& plan) {
  if (!plan.tasks.empty()) doOps(plan.tasks[0]);
  std::vector<std::function<void()>> fs;
  for (size_t k = 1; k < plan.tasks.size(); ++k)
    fs.push_back([&plan, k] { doOps(plan.tasks[k]); });
  if (!fs.empty()) rt::runTasks(fs);
  // tear-down
  for (auto& g : g_g) cut_gen_delete(g.second.g);
  for (auto& b : g_b) cut_builder_delete(b.second.b, b.second.ffi);
  g_g.clear();
  g_b.clear();
  if (plan.leakCheck) {
    auto l = rt::unreachableBlocks();
    if (!l.empty())
      violate("leak", fmtx("%zu blocks leaked, first is #%llu of %zu bytes, allocated at lib+0x%x",
                           l.size(), (unsigned long long)l[0].index, l[0].size, l[0].site));
  }
}

// -------------------------------------------------------------- calibration
static bool learnMap(const CutSolution& s, size_t n, const PathSpec& p, VarMap& m) {
  m.vars = n;
  m.isDt.assign(n, 0);
  std::vector<char> seen(n, 0);
  RefModel rm = refModel(p);
  auto idx = [&](double v, const char* what, bool shared) -> int {
    double k = v - 1000.0;
    if (!(k >= 0 && k < double(n)) || k != floor(k)) {
      m.why = fmtx("%s of the result is %.9g, not the value of a decision variable", what, v);
      return -1;
    }
    if (seen[size_t(k)] && !shared) {
      m.why = fmtx("%s of the result repeats a decision variable shown elsewhere", what);
      return -1;
    }
    seen[size_t(k)] = 1;
    return int(k);
  };
  for (int k = 1; k < 11; ++k)
    for (double v : *fieldOf(s, k)) {
      int i = idx(v, kField[k], false);
      if (i < 0) return false;
      m.f[k].push_back(i);
    }
  for (int xy = 0; xy < 2; ++xy) {
    auto& q = xy ? m.fy : m.fx;
    for (auto& row : xy ? s.fy : s.fx) {
      q.emplace_back();
      for (double v : row) {
        int i = idx(v, xy ? "moduleFY" : "moduleFX", false);
        if (i < 0) return false;
        q.back().push_back(i);
      }
    }
  }
  for (double v : s.dt) {
    int i = idx(v, "dt", true);
    if (i < 0) return false;
    m.f[0].push_back(i);
    m.isDt[i] = 1;
  }
  size_t samples = rm.samples();
  for (int k = 1; k < 11; ++k)
    if (m.f[k].size() != samples) {
      m.why = fmtx("%s has %zu entries for %zu samples", kField[k], m.f[k].size(), samples);
      return false;
    }
  if (m.f[0].size() + 1 != samples) {
    m.why = fmtx("dt has %zu entries for %zu samples", m.f[0].size(), samples);
    return false;
  }
  if (m.fx.size() != samples || m.fy.size() != samples) {
    m.why = "module forces do not cover every sample";
    return false;
  }
  size_t nm = rm.mods.size() / 5;
  for (size_t i = 0; i < samples; ++i)
    if (m.fx[i].size() != nm || m.fy[i].size() != nm) {
      m.why = "module forces do not cover every module";
      return false;
    }
  // one time step per segment
  size_t at = 0;
  std::vector<int> dts;
  for (size_t c : rm.counts) {
    for (size_t q = 0; q < c; ++q)
      if (m.f[0][at + q] != m.f[0][at]) {
        m.why = "time steps of one segment are different variables";
        return false;
      }
    for (int d : dts)
      if (c && d == m.f[0][at]) {
        m.why = "two segments share a time step";
        return false;
      }
    if (c) dts.push_back(m.f[0][at]);
    at += c;
  }
  for (size_t i = 0; i < n; ++i)
    if (!seen[i]) {
      m.why = fmtx("decision variable %zu is shown nowhere in the result", i);
      return false;
    }
  m.ok = true;
  return true;
}

// Runs in a process of its own, where nothing else has happened.
bool calibrate(const Plan& plan, int path, Baseline& out, std::string& why) {
  W->calibrating = true;
  PathSpec spec = plan.paths[path];
  int ffi = spec.ffi;
  // the C++ interface shows every decision variable
  PathSpec cpp = spec;
  cpp.ffi = 0;
  std::string bad;
  try {
    BSlot b;
    b.path = path;
    buildPath(b, cpp, {}, true);
    GenRec* gr = newGen(path, 1);
    gr->path = path;
    solverCtx().constructing = gr->id;
    uint64_t a0 = rt::stats().allocs, n0 = solverNodes();
    GSlot g;
    g.rec = gr->id;
    g.g = cut_gen_new(b.b, 1, false);
    out.ctorAllocs = rt::stats().allocs - a0;
    out.ctorNodes = solverNodes() - n0;
    solverCtx().constructing = -1;
    a0 = rt::stats().allocs;
    RunRec* r = newRun(gr, -1, false);
    enterRun(r);
    cut_gen_run(g.g, false, r->out);
    leaveRun(r);
    out.runAllocs = rt::stats().allocs - a0;
    out.eq = r->posed.eq;
    out.in = r->posed.in;
    out.cost = r->posed.cost;
    out.guess = r->start;
    if (r->out.kind != kOutOk)
      bad = "a solver that succeeds at once leads to: " + r->out.msg;
    else if (!learnMap(r->out.sol, r->posed.vars, cpp, out.map))
      bad = out.map.why;
    cut_gen_delete(g.g);
    cut_builder_delete(b.b, 0);
    if (ffi && bad.empty()) {
      // what the Rust-facing layer itself poses
      BSlot fb;
      fb.path = path;
      buildPath(fb, spec, {}, true);
      RunRec* last;
      runFfi(fb, -1, 1, 0, 0, false);
      last = W->runs.back();
      out.eq = last->posed.eq;
      out.in = last->posed.in;
      out.cost = last->posed.cost;
      out.guess = last->start;
      if (last->out.kind != kOutOk)
        bad = "a solver that succeeds at once leads to: " + last->out.msg;
      else if (last->posed.vars != out.map.vars) {
        bad = fmtx("the Rust-facing builder leads to %zu decision variables, the C++ builder to %zu",
                   last->posed.vars, out.map.vars);
        out.map.ok = false;
      }
      cut_builder_delete(fb.b, fb.ffi);
    }
  } catch (...) {
    int kind;
    rt::tl_cut = 0;
    bad = std::string("building a path alone threw ") + what(std::current_exception(), kind);
  }
  if (!W->viols.empty() && bad.empty()) bad = W->viols[0].text;
  out.map.why = bad;
  if (!bad.empty()) out.map.ok = false;
  why = bad;
  return bad.empty();
}

// --------------------------------------------------------- blob of Baseline
template <typename T>
static void put(std::string& o, const T& v) {
  o.append(reinterpret_cast<const char*>(&v), sizeof v);
}
template <typename T>
static void putv(std::string& o, const std::vector<T>& v) {
  put(o, uint64_t(v.size()));
  o.append(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
}
template <typename T>
static bool get(const std::string& s, size_t& p, T& v) {
  if (p + sizeof v > s.size()) return false;
  memcpy(&v, s.data() + p, sizeof v);
  p += sizeof v;
  return true;
}
template <typename T>
static bool getv(const std::string& s, size_t& p, std::vector<T>& v) {
  uint64_t n;
  if (!get(s, p, n) || p + n * sizeof(T) > s.size()) return false;
  v.resize(n);
  if (n) memcpy(v.data(), s.data() + p, n * sizeof(T));
  p += n * sizeof(T);
  return true;
}
void blobPut(std::string& o, const Baseline& b) {
  put(o, char(b.map.ok));
  putv(o, std::vector<char>(b.map.why.begin(), b.map.why.end()));
  put(o, uint64_t(b.map.vars));
  for (auto& f : b.map.f) putv(o, f);
  for (auto* m : {&b.map.fx, &b.map.fy}) {
    put(o, uint64_t(m->size()));
    for (auto& r : *m) putv(o, r);
  }
  putv(o, b.map.isDt);
  putv(o, b.eq);
  putv(o, b.in);
  put(o, b.cost);
  putv(o, b.guess);
  put(o, b.ctorAllocs);
  put(o, b.runAllocs);
  put(o, b.ctorNodes);
}
bool blobGet(const std::string& s, size_t& p, Baseline& b) {
  char ok;
  std::vector<char> why;
  uint64_t vars;
  if (!get(s, p, ok) || !getv(s, p, why) || !get(s, p, vars)) return false;
  b.map.ok = ok;
  b.map.why.assign(why.begin(), why.end());
  b.map.vars = vars;
  for (auto& f : b.map.f)
    if (!getv(s, p, f)) return false;
  for (auto* m : {&b.map.fx, &b.map.fy}) {
    uint64_t n;
    if (!get(s, p, n)) return false;
    m->resize(n);
    for (auto& r : *m)
      if (!getv(s, p, r)) return false;
  }
  return getv(s, p, b.map.isDt) && getv(s, p, b.eq) && getv(s, p, b.in) && get(s, p, b.cost) &&
         getv(s, p, b.guess) && get(s, p, b.ctorAllocs) && get(s, p, b.runAllocs) &&
         get(s, p, b.ctorNodes);
}

// ------------------------------------------------------------------ oracles
static std::vector<uint64_t> dedupe(std::vector<uint64_t> v) {
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
static bool subset(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  auto x = dedupe(a), y = dedupe(b);
  return std::includes(y.begin(), y.end(), x.begin(), x.end());
}
// Sleipnir's messages, as its ToMessage gives them
const char* exitMessage(int code);

static void checkRun(RunRec* r) {
  const Plan& plan = *W->plan;
  const Baseline& base = W->base[r->path];
  GenRec* g = W->gens[r->gen];
  std::string id = fmtx("run %d (path %d, thread %d)", r->id, r->path, r->tid);
  bool clean = !g->reapplied;
  bool partial = g->altPath >= 0;

  // ---- cancellation
  for (auto& p : r->polls) {
    if (p.threw) continue;
    for (auto& c : W->cancels)
      if (!p.ret && c.seqIn > r->seqSolve && c.seqOut < p.seqIn) {
        violate("cancel-missed",
                fmtx("%s: a cancel was requested (event %llu) after solving began (event %llu), "
                     "but the iteration at event %llu went on",
                     id.c_str(), (unsigned long long)c.seqIn, (unsigned long long)r->seqSolve,
                     (unsigned long long)p.seqIn));
        break;
      }
    if (p.ret) {
      bool just = false;
      for (auto& c : W->cancels) just |= c.seqOut > r->seqEnter && c.seqIn < p.seqOut;
      // a request still in progress counts as well; it is recorded on return
      if (!just)
        violate("cancel-spurious",
                fmtx("%s was stopped at iteration %d without a request made during it", id.c_str(),
                     p.iter));
    }
  }

  // ---- outcome
  bool expectFault = r->faultFired;
  if (r->solverThrew || r->cbThrew) {
    const Script* s = r->script >= 0 ? &plan.scripts[r->script] : nullptr;
    bool alloc = r->cbThrew ? r->cbThrewAlloc : (s && s->throwKind == 1);
    int want = alloc ? kOutBadAlloc : r->cbThrew ? kOutUser : kOutSolver;
    int64_t token = r->cbThrew ? r->cbToken : r->solverToken;
    // Through the Rust-facing layer every std::exception becomes an error that
    // carries its message.
    if (r->out.kind != want || (!alloc && r->out.token != token))
      violate("fault-report",
              fmtx("%s: the exception thrown by the %s did not reach the caller (outcome %d '%s')",
                   id.c_str(), r->cbThrew ? "progress callback" : "solver", r->out.kind,
                   r->out.msg.c_str()));
  } else if (expectFault && r->out.kind == kOutBadAlloc) {
    // reported as it should be
  } else if (r->faultThrown) {
    violate("fault-report", fmtx("%s: memory ran out, but the outcome is %d '%s' instead of the "
                                 "out-of-memory exception", id.c_str(), r->out.kind,
                                 r->out.msg.c_str()));
  } else if (expectFault && !r->haveExit) {
    violate("fault-report", fmtx("%s: memory ran out before the solver ended, but the outcome is "
                                 "%d '%s'", id.c_str(), r->out.kind, r->out.msg.c_str()));
  } else {
    if (r->out.kind != kOutOk && r->out.kind != kOutErr) {
      violate(expectFault ? "fault-report" : "outcome",
              fmtx("%s ended with an unexpected exception: %s", id.c_str(), r->out.msg.c_str()));
    } else if (r->solves != 1) {
      violate("outcome", fmtx("%s called the solver %d times", id.c_str(), r->solves));
    } else {
      bool good = r->exit == kExitSuccess || r->exit == kExitAcceptable;
      if (good != (r->out.kind == kOutOk))
        violate(expectFault ? "fault-report" : r->stopped ? "stop-ignored" : "outcome",
                fmtx("%s: the solver ended with %d (%s) but generation reports %s %s", id.c_str(),
                     r->exit, exitMessage(r->exit), r->out.kind == kOutOk ? "success" : "failure",
                     r->out.msg.c_str()));
      else if (!good && r->out.msg != exitMessage(r->exit))
        violate("outcome", fmtx("%s: the solver ended with '%s' but the error says '%s'",
                                id.c_str(), exitMessage(r->exit), r->out.msg.c_str()));
      else if (good && base.map.ok && clean && !partial) {
        std::string d = r->ffi ? sampleDiff(base.map, r->finalVals, r->out.samples)
                               : fieldDiff(base.map, r->finalVals, r->out.sol);
        if (!d.empty()) violate(r->ffi ? "ffi" : "result", id + ": " + d);
      }
    }
  }

  // ---- a problem solvers can work with
  if (!r->nonfinite.empty() && clean && !partial)
    violate("nonfinite", id + ": the posed " + r->nonfinite);

  // ---- limits
  if (r->limited)
    violate("limited", fmtx("%s: the solver was on its way, but after %zu iterations and %.3f s ran "
                            "into the limit the library set on its %s", id.c_str(), r->polls.size(),
                            r->polls.empty() ? 0.0 : double(r->polls.back().tOut - r->tSolve) * 1e-9,
                            r->limited));
  if (r->script >= 0 && plan.scripts[r->script].residual > 1.05e-4 && r->out.kind == kOutOk &&
      plan.scripts[r->script].mode == kModeFree && plan.scripts[r->script].exit == 0)
    violate("imprecise", fmtx("%s: the solver could not bring its error below %g, yet the trajectory "
                              "is reported as a success", id.c_str(), plan.scripts[r->script].residual));

  // ---- progress updates
  RefModel rm = refModel(plan.paths[r->path]);
  for (auto& p : r->polls) {
    if (!clean || partial) break;
    for (auto& d : p.dels) {
      if (d.handle != r->handle)
        violate("delivery",
                fmtx("%s: callback %lld got handle %lld instead of %lld", id.c_str(),
                     (long long)d.cb, (long long)d.handle, (long long)r->handle));
      if (!d.bad.empty())
        violate("delivery",
                fmtx("%s: update to callback %lld in iteration %d: %s", id.c_str(),
                     (long long)d.cb, p.iter, d.bad.c_str()));
    }
    if (p.dels.empty()) continue;
    bool ok = p.dels.size() <= rm.callbacks.size();
    for (size_t k = 0; ok && k < p.dels.size(); ++k) ok = p.dels[k].cb == rm.callbacks[k];
    if (ok && p.dels.size() < rm.callbacks.size() && !p.threw) ok = false;
    if (!ok) {
      std::string got;
      for (auto& d : p.dels) got += " " + std::to_string(d.cb);
      violate("delivery", fmtx("%s: iteration %d called callbacks%s (%zu registered)", id.c_str(),
                               p.iter, got.c_str(), rm.callbacks.size()));
    }
  }

  // ---- posed problem and starting point
  if (r->solves == 0) return;
  bool first = true;
  for (int q : g->runs) {
    if (q == r->id) break;
    if (W->runs[q]->solves) first = false;
  }
  if (plan.checkPosed && clean && !partial && base.map.ok) {
    bool sameSets = g->retried
                        ? dedupe(r->posed.eq) == dedupe(base.eq) && dedupe(r->posed.in) == dedupe(base.in)
                        : r->posed.eq == base.eq && r->posed.in == base.in;
    if (r->posed.vars != base.map.vars || !sameSets || r->posed.cost != base.cost)
      violate("posed",
              fmtx("%s: problem posed has %zu variables, %zu equalities, %zu inequalities; built "
                   "alone it has %zu, %zu, %zu%s", id.c_str(), r->posed.vars, r->posed.eq.size(),
                   r->posed.in.size(), base.map.vars, base.eq.size(), base.in.size(),
                   r->posed.cost != base.cost ? " (and the cost differs)" : ""));
  }
  if (plan.checkPosed && clean && partial && base.map.ok) {
    const Baseline& alt = W->base[g->altPath];
    const Posed& q = r->posed;
    auto is = [&](const Baseline& b) {
      return q.vars == b.map.vars && q.cost == b.cost && dedupe(q.eq) == dedupe(b.eq) &&
             dedupe(q.in) == dedupe(b.in);
    };
    bool between = q.vars == base.map.vars && q.vars == alt.map.vars && subset(q.eq, base.eq) &&
                   subset(q.in, base.in) && subset(alt.eq, q.eq) && subset(alt.in, q.in);
    if (!between && !is(base) && !is(alt))
      violate("posed", id + ": after an abandoned builder call the problem posed is not between "
                            "the one without and the one with that call");
  }
  if (first && clean && !partial && base.map.ok) {
    if (r->start.size() != base.guess.size()) {
      violate("start", id + ": starting point has a different size than when built alone");
    } else {
      for (size_t k = 0; k < r->start.size(); ++k)
        if (!(fabs(r->start[k] - base.guess[k]) <= 1e-9 * (1 + fabs(base.guess[k]))) &&
            !(std::isnan(r->start[k]) && std::isnan(base.guess[k]))) {
          violate("start", fmtx("%s: starting value %zu is %.9g, when built alone %.9g", id.c_str(),
                                k, r->start[k], base.guess[k]));
          break;
        }
      CutSolution st = decode(base.map, r->start);
      for (size_t w = 0; w < rm.wpts; ++w) {
        size_t k = rm.sampleOf(w);
        const auto& q = rm.guess[w];
        if (k >= st.x.size()) break;
        if (!(fabs(st.x[k] - q[0]) < 1e-6 && fabs(st.y[k] - q[1]) < 1e-6 &&
              fabs(st.c[k] - cos(q[2])) < 1e-6 && fabs(st.s[k] - sin(q[2])) < 1e-6)) {
          violate("start", fmtx("%s: starting point at waypoint %zu is (%g, %g, %g), its guess is "
                                "(%g, %g, %g)", id.c_str(), w, st.x[k], st.y[k],
                                atan2(st.s[k], st.c[k]), q[0], q[1], q[2]));
          break;
        }
      }
      if (rm.counts.size() + 1 == rm.wpts) {
        std::string bad = interpolation(rm, st);
        if (!bad.empty()) violate("interpolation", id + ": " + bad);
      }
    }
  }

  // ---- what an adversarial solver may choose
  if (r->script >= 0 && plan.scripts[r->script].mode != kModeFree && base.map.ok && clean &&
      !partial && r->haveExit && !r->stopped) {
    const Script& s = plan.scripts[r->script];
    for (int64_t ci : s.cands) {
      if (ci < 0 || ci >= int64_t(plan.trajs.size())) continue;
      const CutSolution& t = plan.trajs[ci].s;
      std::string tag, why;
      int v = refVerdict(rm, t, tag, why);
      count(v > 0 ? "candidate.bad" : v < 0 ? "candidate.good" : "candidate.grey");
      bool acc = std::find(r->accepted.begin(), r->accepted.end(), ci) != r->accepted.end();
      bool ref = std::find(r->refused.begin(), r->refused.end(), ci) != r->refused.end();
      if (v < 0 && ref)
        violate("excluded", fmtx("%s: trajectory %lld obeys everything the path asks for, but the "
                                 "posed problem excludes it", id.c_str(), (long long)ci));
      if (v > 0 && acc)
        violate("unsound", fmtx("%s: the posed problem permits trajectory %lld although: %s",
                                id.c_str(), (long long)ci, why.c_str()));
    }
    if (r->out.kind == kOutOk && !r->ffi && r->cand >= 0) {
      std::string tag, why;
      if (refVerdict(rm, r->out.sol, tag, why) > 0)
        violate("unsound", fmtx("%s: the trajectory returned is wrong: %s", id.c_str(), why.c_str()));
      double got = totalTime(r->out.sol);
      if (s.mode == kModeBest)
        for (int64_t ci : r->accepted) {
          double t = totalTime(plan.trajs[ci].s);
          if (t < got - 1e-6 * (1 + got))
            violate("optimal", fmtx("%s: the trajectory returned takes %.6f s, permitted trajectory "
                                    "%lld takes %.6f s but is posed as costlier", id.c_str(), got,
                                    (long long)ci, t));
        }
    }
  }
}

static void checkPacing() {
  const double frame = 1e9 / 60;
  for (auto* g : W->gens) {
    if (g->reapplied || g->altPath >= 0) continue;
    RefModel rm = refModel(W->plan->paths[g->path]);
    if (rm.callbacks.empty()) continue;
    double grain = double(W->plan->sched.clockGrain);
    const Poll* last = nullptr;
    double lastOut = -1;
    for (int q : g->runs) {
      RunRec* r = W->runs[q];
      bool any = false, due = false;
      for (auto& p : r->polls) {
        bool del = !p.dels.empty();
        if (del && last && double(p.dels[0].t) - double(last->tIn) < frame - 20000 - grain)
          violate("pacing-fast",
                  fmtx("run %d: update at %.3f ms follows the one of the iteration at %.3f ms",
                       r->id, double(p.dels[0].t) / 1e6, double(last->tIn) / 1e6));
        double from = std::max(double(r->tSolve), lastOut);
        // an iteration at which the generation is stopped owes no update
        if (!del && !p.threw && !p.ret && !r->faultFired &&
            double(p.tIn) - from > frame + 20000 + grain) {
          due = true;
          violate("pacing-starved",
                  fmtx("run %d: iteration %d at %.3f ms brought no update; the last one was at "
                       "%.3f ms and solving began at %.3f ms", r->id, p.iter, double(p.tIn) / 1e6,
                       lastOut / 1e6, double(r->tSolve) / 1e6));
        }
        if (del) {
          any = true;
          last = &p;
          lastOut = double(p.tOut);
          count("paced");
        }
      }
      if (due && !any)
        violate("silent", fmtx("run %d (path %d): no callback was ever called although updates "
                               "were due", r->id, r->path));
    }
  }
}

void checkHistory() {
  for (auto* r : W->runs) checkRun(r);
  checkPacing();
}
