#include "plan.h"

#include <math.h>
#include <stdio.h>
#include <stdlib.h>

#include <sstream>

namespace {
void num(std::string& o, double v) {
  char b[40];
  snprintf(b, sizeof b, " %.17g", v);
  o += b;
}
void num(std::string& o, int64_t v) { o += " " + std::to_string(v); }
template <typename T>
void vec(std::string& o, const std::vector<T>& v) {
  num(o, int64_t(v.size()));
  for (auto x : v) num(o, x);
}
struct In {
  std::istringstream s;
  bool bad = false;
  explicit In(const std::string& l) : s(l) {}
  std::string word() { std::string w; if (!(s >> w)) bad = true; return w; }
  int64_t i() {
    std::string w = word();
    return bad ? 0 : strtoll(w.c_str(), nullptr, 10);
  }
  uint64_t u() {
    std::string w = word();
    return bad ? 0 : strtoull(w.c_str(), nullptr, 10);
  }
  double d() {
    std::string w = word();
    return bad ? 0 : strtod(w.c_str(), nullptr);
  }
  void vec(std::vector<int64_t>& v) {
    int64_t n = i();
    for (int64_t k = 0; k < n && !bad; ++k) v.push_back(i());
  }
  void vec(std::vector<double>& v) {
    int64_t n = i();
    for (int64_t k = 0; k < n && !bad; ++k) v.push_back(d());
  }
};
const char* kOpNames[] = {"drivetrain", "pose", "trans", "guess", "sgmtguess",
                          "bumpers", "setbumpers", "wptobst", "sgmtobst",
                          "wptcon", "sgmtcon", "counts", "callback"};
const char* kTaskNames[] = {"build", "gen", "run", "ffigen", "move", "dropgen",
                            "dropbld", "touch", "reapply", "cancel", "sleep",
                            "copybld", "guess"};
template <size_t N>
int find(const char* (&a)[N], const std::string& w) {
  for (size_t i = 0; i < N; ++i)
    if (w == a[i]) return int(i);
  return -1;
}
std::vector<double>* trajFields(CutSolution& s, int k) {
  std::vector<double>* f[] = {&s.dt, &s.x, &s.y, &s.c, &s.s, &s.vx, &s.vy,
                              &s.w, &s.ax, &s.ay, &s.al};
  return f[k];
}
}  // namespace

std::string planText(const Plan& p) {
  std::string o = "plan 1\nprop " + p.prop + "\nseed " + std::to_string(p.seed) + "\n";
  if (!p.note.empty()) o += "note " + p.note + "\n";
  const auto& c = p.sched;
  o += "sched " + std::to_string(c.seed);
  num(o, c.pSync); num(o, c.memMean); num(o, c.pStall);
  num(o, int64_t(c.stallMaxUs)); num(o, int64_t(c.clockBase));
  num(o, int64_t(c.clockGrain)); num(o, c.pWallJump);
  o += "\nopts";
  num(o, int64_t(p.checkPosed)); num(o, int64_t(p.leakCheck));
  num(o, int64_t(p.failNodes)); num(o, int64_t(c.races)); num(o, int64_t(c.reuse));
  o += "\n";
  for (const auto& ps : p.paths) {
    o += "path " + std::to_string(ps.ffi) + "\n";
    for (const auto& op : ps.ops) {
      o += std::string("  op ") + kOpNames[op.kind];
      vec(o, op.i);
      vec(o, op.d);
      o += "\n";
    }
  }
  for (const auto& s : p.scripts) {
    o += "script";
    num(o, int64_t(s.mode)); num(o, int64_t(s.exit)); num(o, int64_t(s.throwAt));
    num(o, int64_t(s.throwKind));
    vec(o, s.iterUs);
    vec(o, s.cands);
    num(o, int64_t(s.special));
    num(o, s.more); num(o, s.moreUs); num(o, s.residual); num(o, s.still);
    o += "\n";
  }
  for (const auto& a : p.acts) {
    o += "act";
    num(o, int64_t(a.cb)); num(o, int64_t(a.k)); num(o, int64_t(a.kind));
    num(o, a.a); num(o, a.b);
    o += "\n";
  }
  for (const auto& t : p.trajs) {
    o += "traj\n";
    for (int k = 0; k < 11; ++k) {
      o += "  f";
      vec(o, *trajFields(const_cast<CutSolution&>(t.s), k));
      o += "\n";
    }
    for (auto* m : {&t.s.fx, &t.s.fy}) {
      o += "  m";
      num(o, int64_t(m->size()));
      for (auto& r : *m) vec(o, r);
      o += "\n";
    }
  }
  for (const auto& t : p.tasks) {
    o += "task\n";
    for (const auto& op : t.ops) {
      o += std::string("  do ") + kTaskNames[op.kind];
      num(o, op.a); num(o, op.b); num(o, op.c); num(o, op.d);
      num(o, int64_t(op.failAt)); num(o, int64_t(op.sticky)); num(o, int64_t(op.retry));
      vec(o, op.i);
      o += "\n";
    }
  }
  if (p.sched.replay) {
    o += "schedule " + std::to_string(p.sched.script.size()) + "\n";
    for (auto& d : p.sched.script)
      o += "  at " + std::to_string(d.pt) + " " +
           (d.tid < 0 ? "stall " + std::to_string(d.dur_us)
                      : "run " + std::to_string(d.tid)) + "\n";
  }
  o += "end\n";
  return o;
}

bool planParse(const std::string& text, Plan& p, std::string& err) {
  std::istringstream all(text);
  std::string line;
  p = Plan{};
  int fieldNo = 0, matNo = 0;
  bool ended = false;
  int ln = 0;
  while (std::getline(all, line)) {
    ++ln;
    In in(line);
    std::string w;
    if (!(in.s >> w) || w[0] == '#') continue;
    if (w == "plan") { in.i(); }
    else if (w == "prop") p.prop = in.word();
    else if (w == "seed") p.seed = in.u();
    else if (w == "note") { size_t k = line.find("note "); p.note = line.substr(k + 5); }
    else if (w == "sched") {
      auto& c = p.sched;
      c.seed = in.u(); c.pSync = in.d(); c.memMean = in.d(); c.pStall = in.d();
      c.stallMaxUs = uint32_t(in.i()); c.clockBase = in.u();
      c.clockGrain = in.u(); c.pWallJump = in.d();
    } else if (w == "opts") {
      p.checkPosed = in.i(); p.leakCheck = in.i(); p.failNodes = in.i();
      p.sched.races = in.i();
      if (in.s >> std::ws && !in.s.eof()) p.sched.reuse = in.i();
    } else if (w == "path") {
      p.paths.emplace_back();
      p.paths.back().ffi = int(in.i());
    } else if (w == "op") {
      PathOp op;
      op.kind = find(kOpNames, in.word());
      if (op.kind < 0 || p.paths.empty()) in.bad = true;
      in.vec(op.i);
      in.vec(op.d);
      if (!in.bad) p.paths.back().ops.push_back(op);
    } else if (w == "script") {
      Script s;
      s.mode = int(in.i()); s.exit = int(in.i()); s.throwAt = int(in.i());
      s.throwKind = int(in.i());
      in.vec(s.iterUs);
      in.vec(s.cands);
      if (in.s >> std::ws && !in.s.eof()) s.special = int(in.i());
      if (in.s >> std::ws && !in.s.eof()) {
        s.more = in.i(); s.moreUs = in.i(); s.residual = in.d();
      }
      if (in.s >> std::ws && !in.s.eof()) s.still = in.i();
      p.scripts.push_back(s);
    } else if (w == "act") {
      CbAct a;
      a.cb = int(in.i()); a.k = int(in.i()); a.kind = int(in.i());
      a.a = in.i(); a.b = in.i();
      p.acts.push_back(a);
    } else if (w == "traj") {
      p.trajs.emplace_back();
      fieldNo = matNo = 0;
    } else if (w == "f") {
      if (p.trajs.empty() || fieldNo > 10) in.bad = true;
      else in.vec(*trajFields(p.trajs.back().s, fieldNo++));
    } else if (w == "m") {
      if (p.trajs.empty() || matNo > 1) in.bad = true;
      else {
        auto& m = matNo++ ? p.trajs.back().s.fy : p.trajs.back().s.fx;
        int64_t n = in.i();
        for (int64_t k = 0; k < n && !in.bad; ++k) {
          m.emplace_back();
          in.vec(m.back());
        }
      }
    } else if (w == "task") p.tasks.emplace_back();
    else if (w == "do") {
      TaskOp t;
      t.kind = find(kTaskNames, in.word());
      if (t.kind < 0 || p.tasks.empty()) in.bad = true;
      t.a = in.i(); t.b = in.i(); t.c = in.i(); t.d = in.i();
      t.failAt = in.u(); t.sticky = int(in.i()); t.retry = int(in.i());
      in.vec(t.i);
      if (!in.bad) p.tasks.back().ops.push_back(t);
    } else if (w == "schedule") {
      in.i();
      p.sched.replay = true;
    } else if (w == "at") {
      rt::Decision d{};
      d.pt = in.u();
      if (in.word() == "stall") { d.tid = -1; d.dur_us = uint32_t(in.u()); }
      else d.tid = int(in.i());
      p.sched.script.push_back(d);
    } else if (w == "end") { ended = true; break; }
    else in.bad = true;
    if (in.bad) {
      err = "line " + std::to_string(ln) + ": " + line;
      return false;
    }
  }
  if (!ended) { err = "truncated"; return false; }
  return true;
}
