// Plan generator: a seed decides paths, thread programs, solver behaviour,
// callback behaviour, faults and scheduler settings for a property.
#include <math.h>

#include <algorithm>

#include "engine.h"

namespace {

// ------------------------------------------------------------- random paths
struct PathOpt {
  int ffi = 0;
  int callbacks = 1;
  int cbBase = 0;
  bool small = false;
  bool anchorLast = false;  // the first call creates every waypoint
  bool big = false;         // one segment with hundreds of intervals
  bool rich = false;        // much of everything else
  bool vast = false;        // hundreds of waypoints
  bool unset = false;       // intervals of some segments are left as they come
};

size_t moduleCount(Rng& g) { return size_t(g.pick<int>({2, 3, 4, 4, 4, 4, 5, 6, 8, 4, 4, 4, 3, 12, 4, 4, 5, 6, g.chance(0.2) ? 24 : 4})); }
int64_t bigCount(Rng& g) {
  return g.chance(0.5) ? g.pick<int64_t>({127, 128, 255, 256, 257, 511, 512}) : g.range(100, 600);
}
// around the sizes at which a narrow index would wrap
int64_t vastCount(Rng& g) {
  return g.chance(0.6) ? g.pick<int64_t>({127, 128, 129, 130, 255, 256, 257, 258, 260}) : g.range(60, 300);
}
// a waypoint between lo and hi, on a long path often next to such a size
int64_t someWpt(Rng& g, int64_t lo, int64_t hi) {
  if (hi > 60 && g.chance(0.6)) {
    int64_t w = g.chance(0.3) ? hi - g.range(0, 3) : g.pick<int64_t>({128, 256}) + g.range(-2, 2);
    if (w >= lo && w <= hi) return w;
  }
  return g.range(lo, hi);
}
int cornerCount(Rng& g, int usual) { return int(g.chance(0.04) ? g.range(13, 40) : g.range(1, usual)); }
double tidy(double v, double per) { return round(v * per) / per; }
std::vector<double> drivetrain(Rng& g, size_t nm) {
  std::vector<double> d{g.uni(20, 80), g.uni(2, 9)};
  double hx = g.uni(0.2, 0.5), hy = g.uni(0.2, 0.5);
  const double sx[] = {1, 1, -1, -1}, sy[] = {1, -1, 1, -1};
  bool even = nm <= 4 && g.chance(0.35), same = g.chance(0.3);
  for (size_t k = 0; k < nm; ++k) {
    d.push_back(hx * sx[k % 4] + (even ? 0 : g.uni(-0.05, 0.05)));
    d.push_back(hy * sy[k % 4] + (even ? 0 : g.uni(-0.05, 0.05)));
    if (same && k) {  // all modules of one kind
      d.insert(d.end(), {d[4], d[5], d[6]});
      continue;
    }
    d.push_back(g.uni(0.03, 0.08));
    d.push_back(g.uni(50, 150));
    d.push_back(g.uni(1, 4));
  }
  return d;
}

std::vector<double> outline(Rng& g, int pts, double r, double cx, double cy) {
  std::vector<double> p;
  double a0 = g.uni(0, 2 * M_PI);
  double dir = g.chance(0.5) ? 1 : -1;
  // corners bunched together somewhere leave long edges elsewhere
  std::vector<double> step(size_t(pts), 1.0);
  if (pts > 4 && g.chance(0.6)) {
    int longs = int(g.range(2, 4));
    for (int k = 0; k < longs; ++k) step[g.below(size_t(pts))] = double(pts) / 2;
    if (g.chance(0.4)) step[size_t(pts) - 1] = double(pts) / 2;
  }
  double turn = 0, whole = 0;
  for (double q : step) whole += q;
  for (int k = 0; k < pts; ++k) {
    double a = a0 + dir * (2 * M_PI * turn / whole + g.uni(-0.3, 0.3) * 2 / whole);
    turn += step[size_t(k)];
    double q = r * g.uni(0.6, 1.2);
    p.push_back(cx + q * cos(a));
    p.push_back(cy + q * sin(a));
  }
  if (g.chance(0.25)) {  // as people draw them: corners that share coordinates
    auto t = p;
    for (auto& v : t) v = tidy(v, 8);
    bool apart = true;
    for (int a = 0; a < pts; ++a)
      for (int b = 0; b < a; ++b)
        apart &= t[2 * a] != t[2 * b] || t[2 * a + 1] != t[2 * b + 1];
    if (apart) return t;
  }
  return p;
}

std::vector<double> conParams(Rng& g, int type) {
  switch (type) {
    case kConVelDir: return {g.chance(0.2) ? double(g.range(-4, 4)) * M_PI_4 : g.uni(-3, 3)};
    case kConVelMax: return {g.chance(0.15) ? 0.0 : g.uni(0.3, 4)};
    case kConAngVelMax: return {g.chance(0.15) ? 0.0 : g.uni(0.3, 4)};
    case kConAccMax: return {g.chance(0.15) ? 0.0 : g.uni(0.3, 4)};
    case kConPointAt: return {g.uni(-5, 5), g.uni(-5, 5),
                              g.chance(0.05) ? 0.0 : g.chance(0.2) ? g.uni(1.5, 3.1) : g.uni(0.05, 1.5)};
    case kConLinePoint:
    case kConPointLine: {
      double x = g.uni(-1, 1), y = g.uni(-1, 1);
      double a = g.uni(0, 2 * M_PI), l = g.uni(0.3, 1.5);
      if (type == kConLinePoint)
        return {x, y, x + l * cos(a), y + l * sin(a), g.uni(-4, 4), g.uni(-4, 4), g.uni(0.05, 1)};
      return {g.uni(-0.5, 0.5), g.uni(-0.5, 0.5), 3 * x, 3 * y, 3 * x + l * cos(a),
              3 * y + l * sin(a), g.uni(0.05, 1)};
    }
    case kConPointPoint:
      return {g.uni(-0.5, 0.5), g.uni(-0.5, 0.5), g.uni(-4, 4), g.uni(-4, 4), g.uni(0.05, 1)};
    case kConPoseEq: return {g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3)};
    default: return {g.uni(-3, 3), g.uni(-3, 3)};
  }
}

// the same outline with a corner repeated: closed explicitly, or drawn twice
void repeatCorner(Rng& g, std::vector<double>& p, size_t from = 0) {
  size_t n = (p.size() - from) / 2;
  size_t at = g.chance(0.5) ? n - 1 : g.below(n), of = at + 1 == n && n > 1 && g.chance(0.7) ? 0 : at;
  double x = p[from + 2 * of], y = p[from + 2 * of + 1];
  p.insert(p.begin() + int64_t(from + 2 * at + 2), {x, y});
}

PathSpec randPath(Rng& g, const PathOpt& o) {
  PathSpec p;
  p.ffi = o.ffi;
  int wpts = int(g.range(2, o.small ? 3 : 4));
  if (!o.big && g.chance(0.04)) wpts = int(g.range(5, 11));
  if (o.rich && g.chance(0.3)) wpts = int(g.range(12, 40));
  if (o.vast) wpts = int(vastCount(g));
  auto some = [&](int64_t lo, int64_t hi) { return someWpt(g, lo, hi); };
  std::vector<PathOp> ops;
  auto add = [&](int kind, std::vector<int64_t> i, std::vector<double> d) {
    ops.push_back({kind, std::move(i), std::move(d)});
  };
  if (o.anchorLast) add(kOpGuess, {wpts - 1}, {g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3)});
  std::vector<int> order;
  for (int k = 0; k < wpts; ++k) order.push_back(k);
  for (int k = wpts - 1; k > 0; --k) std::swap(order[k], order[g.below(k + 1)]);
  bool shuffled = g.chance(0.4);
  if (!shuffled) std::sort(order.begin(), order.end());
  for (int w : order) {
    int kind = int(g.pick<int>({kOpPose, kOpPose, kOpTrans, kOpGuess}));
    add(kind, {w}, {g.uni(-3, 3), g.uni(-3, 3), g.uni(-6, 6)});
    if (g.chance(0.05)) ops.back().d = {0, 0, 0};
  }
  int nc = int(g.below(o.small ? 3 : 5));
  if (o.rich) nc = int(g.range(3, 12));
  for (int k = 0; k < nc; ++k) {
    int type = int(g.below(o.ffi ? 5 : kConKinds));
    if (g.chance(0.5)) {
      add(kOpWptCon, {some(0, wpts - 1), type}, conParams(g, type));
    } else {
      int64_t a = some(0, wpts - 2), b = some(a + 1, wpts - 1);
      add(kOpSgmtCon, {a, b, type}, conParams(g, type));
    }
  }
  if (g.chance(0.35)) {
    int64_t a = some(0, wpts - 2);
    std::vector<double> d;
    int n = int(g.range(1, o.rich ? 10 : 3));
    for (int k = 0; k < n; ++k) {
      d.push_back(g.uni(-3, 3));
      d.push_back(g.uni(-3, 3));
      d.push_back(g.uni(-3, 3));
    }
    add(kOpSgmtGuess, {a}, d);
  }
  if (g.chance(o.small ? 0.3 : 0.5)) {
    int nb = int(g.range(1, o.rich ? 4 : 2));
    for (int b = 0; b < nb; ++b) {
      if (o.ffi) {
        add(kOpSetBumpers, {}, {g.uni(0.4, 1), g.uni(0.4, 1)});
      } else {
        std::vector<double> d{g.uni(0, 0.2)};
        auto pts = outline(g, o.rich ? cornerCount(g, 12) : int(g.range(1, 4)), g.uni(0.2, 0.6), 0, 0);
        d.insert(d.end(), pts.begin(), pts.end());
        add(kOpBumpers, {}, d);
      }
    }
    int no = int(g.range(1, o.rich ? 5 : 2));
    for (int b = 0; b < no; ++b) {
      std::vector<double> d{g.uni(0.05, 0.3)};
      int n = o.rich ? cornerCount(g, 12) : int(g.range(1, 4));
      auto pts = outline(g, n, g.uni(0.2, 0.8), g.uni(-4, 4), g.uni(-4, 4));
      d.insert(d.end(), pts.begin(), pts.end());
      int64_t a = some(0, wpts - 2);
      if (!o.ffi && g.chance(0.4)) add(kOpWptObst, {a}, d);
      else add(kOpSgmtObst, {a, g.range(a + 1, wpts - 1)}, d);
    }
  }
  for (int k = 0; k < o.callbacks; ++k) add(kOpCallback, {o.cbBase + k}, {});
  if (g.chance(0.3))  // any order
    for (size_t k = ops.size() - 1; k > (o.anchorLast ? 1 : 0); --k)
      std::swap(ops[k], ops[(o.anchorLast ? 1 : 0) + g.below(k + (o.anchorLast ? 0 : 1))]);
  std::vector<int64_t> counts;
  for (int k = 0; k + 1 < wpts; ++k) counts.push_back(o.vast ? 1 + g.below(2) * g.below(2) : g.range(1, o.small ? 3 : 5));
  if (o.big) counts[g.below(counts.size())] = bigCount(g);
  add(kOpCounts, counts, {});
  // at least two modules: a single one cannot turn the robot
  PathOp dt{kOpDrivetrain, {}, drivetrain(g, o.vast ? size_t(g.range(2, 4)) : o.rich ? size_t(g.range(2, g.chance(0.1) ? 30 : 16)) : moduleCount(g))};
  ops.insert(ops.begin() + (o.anchorLast ? 1 : 0) + g.below(2) * g.below(ops.size()), dt);
  p.ops = ops;
  if (g.chance(0.15))  // round numbers, so that some of them coincide
    for (auto& op : p.ops)
      if (op.kind == kOpPose || op.kind == kOpTrans || op.kind == kOpGuess || op.kind == kOpSgmtGuess)
        for (size_t k = 0; k < op.d.size(); ++k)
          op.d[k] = k % 3 == 2 ? M_PI * tidy(op.d[k] / M_PI, 2) : tidy(op.d[k], 1);
  if (o.unset) {
    for (size_t k = p.ops.size(); k-- > 0;)
      if (p.ops[k].kind == kOpCounts) p.ops.erase(p.ops.begin() + int64_t(k));
    if (g.chance(0.7)) {  // counts for the waypoints there are so far
      size_t at = 1 + g.below(p.ops.size());
      PathSpec before = p;
      before.ops.resize(at);
      size_t w = refModel(before).wpts;
      if (w >= 2) p.ops.insert(p.ops.begin() + int64_t(at), {kOpCounts, std::vector<int64_t>(counts.begin(), counts.begin() + int64_t(w) - 1), {}});
    }
  }
  return p;
}

// a path that differs from an earlier one in a detail or two
PathSpec sibling(Rng& g, const PathSpec& from, const PathOpt& o) {
  PathSpec p;
  p.ffi = from.ffi;
  for (auto& op : from.ops)
    if (op.kind != kOpCallback) p.ops.push_back(op);
  int n = int(g.below(3));
  for (int q = 0; q < n; ++q) {
    switch (g.below(4)) {
      case 0: {  // the same intervals in another order, or another number of them
        for (auto& op : p.ops)
          if (op.kind == kOpCounts) {
            for (size_t k = op.i.size() - 1; k > 0; --k) std::swap(op.i[k], op.i[g.below(k + 1)]);
            if (g.chance(0.3)) op.i[g.below(op.i.size())] = g.range(1, 4);
          }
        break;
      }
      case 1: {  // one guess point moves
        std::vector<size_t> at;
        for (size_t k = 0; k < p.ops.size(); ++k)
          if (p.ops[k].kind == kOpGuess || p.ops[k].kind == kOpSgmtGuess) at.push_back(k);
        if (at.empty()) break;
        auto& d = p.ops[g.pick(at)].d;
        d[g.below(d.size())] = g.uni(-3, 3);
        break;
      }
      case 2: {  // one number changes
        std::vector<size_t> at;
        for (size_t k = 0; k < p.ops.size(); ++k)
          if (p.ops[k].kind == kOpPose || p.ops[k].kind == kOpTrans || p.ops[k].kind == kOpWptCon ||
              p.ops[k].kind == kOpSgmtCon || p.ops[k].kind == kOpWptObst ||
              p.ops[k].kind == kOpSgmtObst || p.ops[k].kind == kOpBumpers ||
              p.ops[k].kind == kOpSetBumpers || p.ops[k].kind == kOpDrivetrain)
            at.push_back(k);
        if (at.empty()) break;
        auto& d = p.ops[g.pick(at)].d;
        double& x = d[g.below(d.size())];
        x = x >= 0 ? x * g.uni(0.7, 1.4) : x - g.uni(0, 0.3);
        break;
      }
      default: {  // a constraint is added or dropped
        std::vector<size_t> at;
        int64_t wpts = 0;
        for (size_t k = 0; k < p.ops.size(); ++k) {
          if (p.ops[k].kind == kOpWptCon || p.ops[k].kind == kOpSgmtCon) at.push_back(k);
          if (p.ops[k].kind == kOpCounts) wpts = int64_t(p.ops[k].i.size()) + 1;
        }
        if (!at.empty() && g.chance(0.5)) {
          p.ops.erase(p.ops.begin() + g.pick(at));
        } else {
          int type = int(g.below(p.ffi ? 5 : kConKinds));
          p.ops.insert(p.ops.end() - 1, {kOpWptCon, {g.range(0, wpts - 1), type}, conParams(g, type)});
        }
        break;
      }
    }
  }
  for (int k = 0; k < o.callbacks; ++k) p.ops.push_back({kOpCallback, {o.cbBase + k}, {}});
  return p;
}

std::vector<int64_t> durations(Rng& g, int n, int style) {
  std::vector<int64_t> v;
  for (int k = 0; k < n; ++k) {
    switch (style) {
      case 0: v.push_back(g.range(50, 2000)); break;
      case 1: v.push_back(g.range(2000, 30000)); break;
      case 2: v.push_back(g.pick<int64_t>({16600, 16666, 16667, 16668, 16700, 16650, 33334, 8333})); break;
      case 3: v.push_back(g.range(17000, 60000)); break;
      case 4: v.push_back(g.pick<int64_t>({1, 20, 400, 5000, 17000, 20000, 100000, 3000000})); break;
      default: v.push_back(g.range(0, 300)); break;
    }
  }
  return v;
}
int exitCode(Rng& g) {
  if (g.chance(0.45)) return 0;
  return int(g.pick<int>({0, 1, 1, 2, -1, -2, -3, -4, -5, -6, -7}));
}
Script freeScript(Rng& g, int minIter, int maxIter, int style) {
  Script s;
  s.mode = kModeFree;
  s.exit = exitCode(g);
  if (g.chance(0.15)) s.special = g.pick<int>({5, 30, 200});
  if (g.chance(0.12)) s.still = g.range(0, 3);
  s.iterUs = durations(g, int(g.range(minIter, maxIter)), style);
  return s;
}

void schedule(Rng& g, Plan& p, bool concurrent) {
  auto& c = p.sched;
  c.seed = g.next() >> 16;
  c.reuse = g.chance(0.4);
  // since the machine started: a moment, up to a year, or just before some
  // narrower count of microseconds, milliseconds or frames would be full
  const uint64_t full[] = {(1ull << 31) * 1000, (1ull << 32) * 1000, (1ull << 31) * 1000000,
                           (1ull << 32) * 1000000, (1ull << 31) * 16666667, 1ull << 53,
                           1ull << 31, 1ull << 32, (1ull << 24) * 1000000, (1ull << 24) * 1000};
  c.clockBase = g.chance(0.2) ? g.below(1000000) : g.below(1ull << 55);
  if (g.chance(0.15)) c.clockBase = full[g.below(10)] - g.below(200000000);
  if (!concurrent) {
    c.pSync = 0;
    return;
  }
  c.pSync = g.pick<double>({0.02, 0.1, 0.3, 0.6});
  c.memMean = g.pick<double>({0, 0, 30, 300, 3000});
  if (g.chance(0.35)) {
    c.pStall = g.pick<double>({0.001, 0.01, 0.05});
    c.stallMaxUs = uint32_t(g.pick<int>({50, 2000, 20000, 60000}));
  }
}
void clockFaults(Rng& g, Plan& p) {
  auto& c = p.sched;
  if (g.chance(0.35)) c.clockGrain = g.pick<uint64_t>({1000000, 4000000, 10000000, 15625000});
  if (g.chance(0.4)) c.pWallJump = g.pick<double>({0.1, 0.5});
}

// what one generation may pose, and one run, in expressions
constexpr int64_t kMaxWeight = 500000, kMaxTotal = 6000000;
// about how many expressions it takes to pose a path
int64_t weight(const PathSpec& p) {
  int64_t n = 1, mods = 0, corners = 0;
  for (auto& o : p.ops) {
    if (o.kind == kOpDrivetrain) mods = int64_t(o.d.size() - 2) / 5;
    if (o.kind == kOpBumpers) corners += int64_t(o.d.size()) / 2;
    if (o.kind == kOpSetBumpers) corners += 4;
  }
  auto counts = refModel(p).counts;
  for (auto c : counts) n += int64_t(c);
  int64_t all = n * (90 + 50 * mods);
  for (auto& o : p.ops) {
    int64_t at = 1;  // samples it applies at
    if (o.kind == kOpSgmtCon || o.kind == kOpSgmtObst)
      for (int64_t k = o.i[0]; k < o.i[1]; ++k) at += 1 + (size_t(k) < counts.size() ? int64_t(counts[k]) : 40);
    if (o.kind == kOpSgmtCon || o.kind == kOpWptCon) all += at * 60;
    if (o.kind == kOpSgmtObst || o.kind == kOpWptObst) all += at * corners * int64_t(o.d.size()) * 60;
  }
  return all;
}

// Do the interval counts name the segments there are when they are set?
bool consistent(const PathSpec& p) {
  for (size_t k = 0; k < p.ops.size(); ++k) {
    if (p.ops[k].kind != kOpCounts) continue;
    PathSpec before = p;
    before.ops.resize(k);
    if (size_t(refModel(before).wpts) != p.ops[k].i.size() + 1) return false;
  }
  return true;
}

void trim(PathSpec& p) {
  auto drop = [&](int kind) {
    for (size_t k = p.ops.size(); k-- > 0;)
      if (p.ops[k].kind == kind) p.ops.erase(p.ops.begin() + int64_t(k));
  };
  for (int q = 0;; ++q) {
    if (!consistent(p)) drop(kOpCounts);
    if (weight(p) <= kMaxWeight) return;
    if (q == 60) break;
    size_t worst = 0, at = 0;
    bool set = false, cut = false;
    for (size_t k = 0; k < p.ops.size(); ++k) {
      set |= p.ops[k].kind == kOpCounts;
      if (p.ops[k].kind == kOpSgmtObst || p.ops[k].kind == kOpWptObst)
        if (p.ops[k].d.size() > worst) worst = p.ops[k].d.size(), at = k;
    }
    if (worst) { p.ops.erase(p.ops.begin() + int64_t(at)); continue; }
    for (size_t k = 0; k < p.ops.size() && !cut; ++k)
      if (p.ops[k].kind == kOpSgmtCon) { p.ops.erase(p.ops.begin() + int64_t(k)); cut = true; }
    if (cut) continue;
    for (auto& o : p.ops)
      if (o.kind == kOpCounts)
        for (auto& n : o.i) n = std::max<int64_t>(1, n / 2);
    if (!set) break;
  }
  drop(kOpCounts);
  p.ops.push_back({kOpCounts, std::vector<int64_t>(size_t(refModel(p).wpts) - 1, 1), {}});
}

struct Ctx {
  Rng g;
  Plan p;
  bool thorough;
  double pBig = 0, pRich = 0.03, pUnset = 0, pVast = 0.002;
  bool rustOnly = false;  // every case through the Rust-facing layer
  int layer(double chance) { return rustOnly ? 1 : int(g.chance(chance)); }
  explicit Ctx(uint64_t seed, bool t) : g(seed), thorough(t) {}
  int cbNext = 0;
  int path(int ffi, int callbacks, bool small = true, bool anchor = false) {
    PathOpt o;
    o.ffi = ffi;
    o.callbacks = callbacks;
    o.cbBase = cbNext;
    o.small = small;
    o.anchorLast = anchor;
    cbNext += callbacks;
    o.big = g.chance(pBig);
    o.unset = !o.big && !anchor && g.chance(pUnset);
    if (!o.big && g.chance(pVast)) o.vast = true, o.unset = false;
    if (!anchor && !o.vast && g.chance(pRich)) {
      o.rich = true;
      if (callbacks > 0 && g.chance(0.6)) o.callbacks = int(g.range(3, 12));
      cbNext += o.callbacks - callbacks;
    }
    std::vector<int> like;
    if (!anchor)
      for (size_t k = 0; k < p.paths.size(); ++k)
        if (p.paths[k].ffi == ffi) like.push_back(int(k));
    if (!like.empty() && g.chance(0.4))
      p.paths.push_back(sibling(g, p.paths[g.pick(like)], o));
    else
      p.paths.push_back(randPath(g, o));
    trim(p.paths.back());
    return int(p.paths.size()) - 1;
  }
  int script(Script s) {
    p.scripts.push_back(std::move(s));
    return int(p.scripts.size()) - 1;
  }
  TaskOp op(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0) {
    TaskOp o;
    o.kind = kind;
    o.a = a; o.b = b; o.c = c; o.d = d;
    return o;
  }
  int firstCb(int path) {
    for (auto& o : p.paths[path].ops)
      if (o.kind == kOpCallback) return int(o.i[0]);
    return -1;
  }
  int64_t handle() {
    switch (g.below(5)) {
      case 0: return g.pick<int64_t>({0, -1, 1, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN});
      case 1: return int64_t(g.next());
      case 2: return (int64_t(g.range(-4, 4)) << 32) + g.range(-3, 3);
      default: return int64_t(g.below(1000000)) + 10;
    }
  }
  void act(int cb, int k, int kind, int64_t a = 0, int64_t b = 0) {
    if (cb < 0) return;
    CbAct x;
    x.cb = cb; x.k = k; x.kind = kind; x.a = a; x.b = b;
    p.acts.push_back(x);
  }
  // a generation started by callback `cb`, at times one within one within one
  void nest(int cb, int k, double ffi, int callbacks, int minIter, int maxIter, int style = -1) {
    if (cb < 0) return;
    int depth = g.chance(0.7) ? 1 : int(g.chance(0.1) ? g.range(5, 20) : g.range(2, 4));
    for (int d = 0; d < depth; ++d) {
      int np = path(g.chance(ffi), std::max(callbacks, int(d + 1 < depth)));
      act(cb, k, kActNested, np, script(freeScript(g, minIter, maxIter, style < 0 ? int(g.below(6)) : style)));
      cb = firstCb(np);
      if (cb < 0) break;
      if (d > 0 && g.chance(0.15)) act(cb, int(g.below(2)), kActCancel, g.below(2));
      k = int(g.below(2));
    }
  }
  // build path into slot `b`, make generator `s` (C++), run script
  void buildRun(Task& t, int slot, int path, int script, bool drop) {
    t.ops.push_back(op(kTBuild, slot, path));
    run(t, slot, path, script);
    if (drop) {
      if (!p.paths[path].ffi) t.ops.push_back(op(kTDropGen, slot));
      t.ops.push_back(op(kTDropBld, slot));
    }
  }
  void run(Task& t, int slot, int path, int script) {
    if (p.paths[path].ffi) {
      t.ops.push_back(op(kTFfi, slot, script, handle()));
    } else {
      t.ops.push_back(op(kTGen, slot, slot, handle()));
      t.ops.push_back(op(kTRun, slot, script));
    }
  }
};

// ------------------------------------------------------- physical trajectories
struct Phys {
  std::vector<int64_t> counts;
  std::vector<double> mods;  // x y r w tau
  double mass, moi;
  bool alike = false;  // all wheels and motors of one kind
  CutSolution t;
  size_t n;
  std::vector<double> heading;
  size_t at(size_t w) const {
    size_t k = 0;
    for (size_t q = 0; q < w; ++q) k += counts[q];
    return k;
  }
};
struct PhysOpt {
  bool calm = false;      // smaller steps, for geometry
  // samples with no velocity, angular velocity or acceleration (a constraint
  // type), except that one of them has some in one direction or in both
  int zeroType = -1, zeroFrom = -1, zeroTo = -1, zeroOff = -1, zeroAxis = 0;
  int parFrom = -1, parTo = -1;  // samples moving in one direction
  double parAngle = 0;
  int parOff = -1;        // ... except this one
  bool negDt = false;
  int maxCount = 4, maxWpts = 4;
  double pVast = 0.006;
};
void balance(Phys& f, Rng& g, size_t k) {
  auto& t = f.t;
  size_t nm = f.mods.size() / 5;
  double bx = 0, by = 0;
  std::vector<double> rx(nm), ry(nm);
  for (size_t j = 0; j < nm; ++j) {
    double mx = f.mods[5 * j], my = f.mods[5 * j + 1];
    rx[j] = t.c[k] * mx - t.s[k] * my;
    ry[j] = t.s[k] * mx + t.c[k] * my;
    bx += rx[j] / nm;
    by += ry[j] / nm;
  }
  double fx = f.mass * t.ax[k], fy = f.mass * t.ay[k];
  double tau = f.moi * t.al[k] - (bx * fy - by * fx);
  double q = 0;
  for (size_t j = 0; j < nm; ++j)
    q += (rx[j] - bx) * (rx[j] - bx) + (ry[j] - by) * (ry[j] - by);
  double lam = tau / q;
  t.fx[k].assign(nm, 0);
  t.fy[k].assign(nm, 0);
  for (size_t j = 0; j < nm; ++j) {
    t.fx[k][j] = fx / nm - lam * (ry[j] - by);
    t.fy[k][j] = fy / nm + lam * (rx[j] - bx);
  }
  // internal forces along the line between two modules cancel out
  for (size_t j = 0; j + 1 < nm; ++j) {
    double mu = g.uni(-0.3, 0.3) * (1 + hypot(fx, fy) / nm);
    double dx = rx[j] - rx[j + 1], dy = ry[j] - ry[j + 1];
    t.fx[k][j] += mu * dx; t.fy[k][j] += mu * dy;
    t.fx[k][j + 1] -= mu * dx; t.fy[k][j + 1] -= mu * dy;
  }
}
double wheelSpeed(const Phys& f, size_t k, size_t j) {
  const auto& t = f.t;
  double vx = t.c[k] * t.vx[k] + t.s[k] * t.vy[k], vy = -t.s[k] * t.vx[k] + t.c[k] * t.vy[k];
  return hypot(vx - f.mods[5 * j + 1] * t.w[k], vy + f.mods[5 * j] * t.w[k]);
}
double wheelForce(const Phys& f, size_t k, size_t j) { return hypot(f.t.fx[k][j], f.t.fy[k][j]); }

void integrate(Phys& f, const std::vector<double>& dts, Rng& g, double x0, double y0, double h0) {
  auto& t = f.t;
  size_t n = f.n;
  t.x.assign(n, 0); t.y = t.c = t.s = t.ax = t.ay = t.al = t.x;
  f.heading.assign(n, 0);
  t.fx.assign(n, {}); t.fy.assign(n, {});
  t.dt.clear();
  for (size_t s = 0; s < f.counts.size(); ++s)
    for (int64_t q = 0; q < f.counts[s]; ++q) t.dt.push_back(dts[s]);
  t.x[0] = x0; t.y[0] = y0; f.heading[0] = h0;
  t.ax[0] = g.uni(-3, 3); t.ay[0] = g.uni(-3, 3); t.al[0] = g.uni(-3, 3);
  for (size_t k = 1; k < n; ++k) {
    double dt = t.dt[k - 1];
    t.x[k] = t.x[k - 1] + t.vx[k] * dt;
    t.y[k] = t.y[k - 1] + t.vy[k] * dt;
    f.heading[k] = f.heading[k - 1] + t.w[k] * dt;
    t.ax[k] = (t.vx[k] - t.vx[k - 1]) / dt;
    t.ay[k] = (t.vy[k] - t.vy[k - 1]) / dt;
    t.al[k] = (t.w[k] - t.w[k - 1]) / dt;
  }
  for (size_t k = 0; k < n; ++k) {
    t.c[k] = cos(f.heading[k]);
    t.s[k] = sin(f.heading[k]);
  }
  for (size_t k = 0; k < n; ++k) balance(f, g, k);
}

// the least distance between modules along an axis; it bounds the time steps
double minWidth(const std::vector<double>& mods) {
  double w = INFINITY;
  for (size_t a = 0; a < mods.size(); a += 5)
    for (size_t b = 0; b < a; b += 5)
      for (size_t i = 0; i < 2; ++i)
        if (double d = fabs(mods[a + i] - mods[b + i]); d > 0) w = std::min(w, d);
  return w;
}
// the shape used last within this plan
bool g_haveLast = false;
Phys g_last;
Phys physical(Rng& g, const PhysOpt& o, const Phys* like = nullptr) {
  Phys f;
  if (!like && g_haveLast && g.chance(0.4)) {
    // same robot and as many segments, their intervals in another order
    auto& c = g_last.counts;
    for (size_t k = c.size() - 1; k > 0; --k) std::swap(c[k], c[g.below(k + 1)]);
    if (o.parTo >= 0 || o.zeroTo >= 0) c[0] = std::max<int64_t>(c[0], 2);
    like = &g_last;
  }
  if (like) {
    f.counts = like->counts;
    f.mass = like->mass;
    f.moi = like->moi;
    f.mods = like->mods;
    f.alike = like->alike;
  } else {
    f.alike = g.chance(0.3);
    int segs = int(g.range(1, o.maxWpts - 1));
    if (!o.calm && g.chance(0.04)) segs = int(g.range(5, 9));
    bool vast = g.chance(o.pVast);
    if (vast) segs = int(vastCount(g)) - 1;
    for (int k = 0; k < segs; ++k) f.counts.push_back(vast ? 1 + g.below(2) * g.below(2) : g.range(1, o.maxCount));
    if (g.chance(0.015) && o.maxWpts > 3) f.counts[g.below(f.counts.size())] = bigCount(g);
    if (o.parTo >= 0 || o.zeroTo >= 0) f.counts[0] = std::max<int64_t>(f.counts[0], 2);
    f.mass = g.uni(20, 80);
    f.moi = g.uni(2, 9);
    size_t nm = moduleCount(g);
    // forces grow as the steps shrink, and their rounding with them
    do {
      auto d = drivetrain(g, nm);
      f.mods.assign(d.begin() + 2, d.end());
    } while (minWidth(f.mods) < 1e-5);
  }
  if (!like) {
    g_last = f;
    g_haveLast = true;
  }
  size_t nm = f.mods.size() / 5;
  f.n = 1;
  for (auto c : f.counts) f.n += c;
  size_t n = f.n;
  auto& t = f.t;
  t.vx.resize(n); t.vy.resize(n); t.w.resize(n);
  // some drive or spin faster than others
  double minw = minWidth(f.mods);
  double speed = !o.calm && minw > 0.02 && g.chance(0.12) ? g.uni(1, 5) : 1;
  double spin = minw > 0.02 && g.chance(0.12) ? g.uni(1, 10) : 1;
  // some never turn, others never leave their place
  double turns = g.chance(0.06) ? 0 : spin, drives = o.parTo < 0 && g.chance(0.03) ? 0 : speed;
  for (size_t k = 0; k < n; ++k) {
    double v = drives * (o.calm ? g.uni(0.5, 2) : g.uni(0.2, 3)), a = g.uni(0, 2 * M_PI);
    if (int(k) >= o.parFrom && int(k) <= o.parTo && int(k) != o.parOff && o.parTo >= 0) {
      a = o.parAngle;
    } else if (int(k) == o.parOff) {
      a = o.parAngle + (g.chance(0.5) ? 1 : -1) * g.uni(0.4, 2.7);
      v = g.uni(0.8, 2.5);
    }
    t.vx[k] = v * cos(a);
    t.vy[k] = v * sin(a);
    t.w[k] = turns * g.uni(-2, 2);
    if (int(k) < o.zeroFrom || int(k) > o.zeroTo) continue;
    bool ex = int(k) == o.zeroOff && o.zeroAxis != 1, ey = int(k) == o.zeroOff && o.zeroAxis != 0;
    auto off = [&] { return (g.chance(0.5) ? 1 : -1) * g.uni(0.2, 1.5); };
    if (o.zeroType == kConVelMax) {
      t.vx[k] = ex ? off() : 0;
      t.vy[k] = ey ? off() : 0;
    } else if (o.zeroType == kConAngVelMax) {
      t.w[k] = ex || ey ? off() : 0;
    } else if (k > 0) {
      t.vx[k] = t.vx[k - 1] + (ex ? off() : 0);
      t.vy[k] = t.vy[k - 1] + (ey ? off() : 0);
    }
  }
  // a bound on speeds that needs no headings
  double vb = 0;
  for (size_t k = 0; k < n; ++k)
    for (size_t j = 0; j < nm; ++j)
      vb = std::max(vb, hypot(t.vx[k], t.vy[k]) +
                            hypot(f.mods[5 * j], f.mods[5 * j + 1]) * fabs(t.w[k]));
  vb = 2.2 * std::max(vb, 0.1);  // wheel limits are at most 2.2 times what is needed
  std::vector<double> dts;
  for (size_t s = 0; s < f.counts.size(); ++s) {
    double dt = g.uni(0.3, 0.9) * minw / vb;
    dts.push_back(dt);
  }
  if (o.negDt) dts[g.below(dts.size())] *= -1;
  double far = g.chance(0.15) ? 20 : 3;
  bool home = g.chance(0.1);  // off from the origin of the field
  double x0 = g.uni(-far, far), y0 = g.uni(-far, far), h0 = g.uni(-3, 3);
  if (g.chance(0.12)) h0 = M_PI_2 * double(g.range(-2, 2));
  if (g.chance(0.1)) h0 += 2 * M_PI * double(g.range(-3, 3));
  if (home) x0 = y0 = h0 = 0;
  integrate(f, dts, g, x0, y0, h0);
  if (o.zeroType == kConAccMax && o.zeroFrom == 0) {
    if (o.zeroOff != 0 || o.zeroAxis == 1) t.ax[0] = 0;
    if (o.zeroOff != 0 || o.zeroAxis == 0) t.ay[0] = 0;
    balance(f, g, 0);
  }
  return f;
}
// limits that leave room, per module
void roomyLimits(Phys& f, Rng& g, double lo = 1.05, double hi = 2.0) {
  size_t nm = f.mods.size() / 5;
  for (size_t j = 0; j < nm; ++j) {
    double v = 0, q = 0;
    for (size_t k = 0; k < f.n; ++k) {
      v = std::max(v, wheelSpeed(f, k, j));
      q = std::max(q, wheelForce(f, k, j));
    }
    double r = g.uni(0.03, 0.08);
    f.mods[5 * j + 2] = r;
    f.mods[5 * j + 3] = std::max(v, 0.1) * g.uni(lo, hi) / r;
    f.mods[5 * j + 4] = std::max(q, 1.0) * g.uni(lo, hi) * r;
  }
  if (!f.alike) return;
  double r = f.mods[2], v = 0, q = 0;
  for (size_t j = 0; j < nm; ++j) {
    v = std::max(v, f.mods[5 * j + 2] * f.mods[5 * j + 3]);
    q = std::max(q, f.mods[5 * j + 4] / f.mods[5 * j + 2]);
  }
  for (size_t j = 0; j < nm; ++j) {
    f.mods[5 * j + 2] = r;
    f.mods[5 * j + 3] = v / r;
    f.mods[5 * j + 4] = q * r;
  }
}
std::vector<double> makeDrivetrain(const Phys& f) {
  std::vector<double> d{f.mass, f.moi};
  d.insert(d.end(), f.mods.begin(), f.mods.end());
  return d;
}
// path with the drivetrain and plain waypoints
PathSpec physPath(const Phys& f, Rng& g, int ffi, int poseAt) {
  PathSpec p;
  p.ffi = ffi;
  p.ops.push_back({kOpDrivetrain, {}, makeDrivetrain(f)});
  size_t wpts = f.counts.size() + 1;
  for (size_t w = 0; w < wpts; ++w) {
    size_t k = f.at(w);
    double h = f.heading[k];
    if (g.chance(0.15)) h += 2 * M_PI * double(g.range(-2, 2));
    if (int(w) == poseAt || (poseAt == -2 && g.chance(0.4)))
      p.ops.push_back({kOpPose, {int64_t(w)}, {f.t.x[k], f.t.y[k], h}});
    else if (poseAt == -2 && g.chance(0.3))
      p.ops.push_back({kOpTrans, {int64_t(w)}, {f.t.x[k], f.t.y[k], h + g.uni(-1, 1)}});
    else
      p.ops.push_back({kOpGuess, {int64_t(w)}, {f.t.x[k] + g.uni(-1, 1), f.t.y[k], h}});
  }
  p.ops.push_back({kOpCounts, f.counts, {}});
  return p;
}
RefCon rangeCon(const Phys& f, int type, const std::vector<double>& d, size_t a, size_t b) {
  RefCon c{type, d, std::vector<char>(f.n, 0)};
  for (size_t k = f.at(a); k <= f.at(b) && k < f.n; ++k) c.at[k] = 1;
  return c;
}
int limitParam(int type) {
  switch (type) {
    case kConVelMax: case kConAngVelMax: case kConAccMax: return 0;
    case kConPointAt: return 2;
    case kConLinePoint: case kConPointLine: return 6;
    case kConPointPoint: return 4;
    default: return -1;
  }
}
bool isDistance(int type) {
  return type == kConLinePoint || type == kConPointLine || type == kConPointPoint;
}
// tries to give the constraint a limit with the wanted effect on the
// trajectory; informative = the choice tells in-range from out-of-range
bool fitLimit(Rng& g, const Phys& f, int type, std::vector<double>& d, size_t a, size_t b,
              bool bad, bool informative) {
  int lp = limitParam(type);
  d[lp] = 0;
  RefCon c = rangeCon(f, type, d, a, b);
  double w1 = -INFINITY, w2 = -INFINITY, outside = -INFINITY;
  size_t wk = 0, A = f.at(a), B = f.at(b);
  for (size_t k = 0; k < f.n; ++k) {
    double lim;
    double v = conMeasure(c, f.t, k, lim);
    if (std::isnan(v)) return false;
    if (c.at[k]) {
      if (v > w1) { w2 = w1; w1 = v; wk = k; }
      else w2 = std::max(w2, v);
    } else if (k + 1 == A || k == B + 1) {
      outside = std::max(outside, v);
    }
  }
  auto scale = [&](double l) { return std::max(0.1, fabs(l)); };
  double lim;
  if (bad && type == kConPointAt && w1 > 0.1 && g.chance(0.05)) {  // exactly there
    d[lp] = 0;
    return true;
  }
  if (bad) {
    // only the worst sample breaks it
    double lo = std::isinf(w2) ? w1 - 0.3 * scale(w1) : w2;
    if (w1 - lo < 0.1 * scale(w1)) return false;
    if (informative && wk != A && wk != B) return false;
    double m = 0.035 * scale(w1);
    lim = g.uni(lo + m, w1 - m);
  } else {
    double m = 0.03 * scale(w1);
    if (informative) {
      if (!(outside > w1 + 2 * m)) return false;
      lim = g.uni(w1 + m, outside - m);
    } else {
      lim = w1 + m + g.uni(0, 0.3) * scale(w1);
    }
  }
  if (isDistance(type)) {
    if (lim > -0.02) return false;
    d[lp] = -lim;
  } else {
    if (lim < 0.02) return false;
    if (type == kConPointAt && lim > 2.9) return false;
    d[lp] = lim;
  }
  return true;
}
// random parameters near the trajectory
std::vector<double> conNear(Rng& g, const Phys& f, int type, size_t a, size_t b) {
  size_t k = f.at(a) + g.below(f.at(b) - f.at(a) + 1);
  double ang = g.uni(0, 2 * M_PI), r = g.uni(0.3, 2.5);
  double px = f.t.x[k] + r * cos(ang), py = f.t.y[k] + r * sin(ang);
  auto d = conParams(g, type);
  double l = g.uni(0.3, 1.5), a2 = g.uni(0, 2 * M_PI);
  bool origin = g.chance(0.08);
  if (origin) px = py = 0;
  switch (type) {
    case kConPointAt: {
      if (origin) {
        d[0] = d[1] = 0;
        break;
      }
      double off = g.uni(-1.3, 1.3) + f.heading[k] + (g.chance(0.25) ? M_PI : 0);
      d[0] = f.t.x[k] + r * cos(off);
      d[1] = f.t.y[k] + r * sin(off);
      break;
    }
    case kConLinePoint: d[4] = px; d[5] = py; break;
    case kConPointLine:
      d[2] = px; d[3] = py; d[4] = px + l * cos(a2); d[5] = py + l * sin(a2);
      break;
    case kConPointPoint: d[2] = px; d[3] = py; break;
  }
  return d;
}

void addCase(Ctx& c, const PathSpec& path, const Phys& f, bool slow) {
  Rng& g = c.g;
  c.p.paths.push_back(path);
  int pi = int(c.p.paths.size()) - 1;
  c.p.trajs.push_back({f.t});
  Script s;
  s.mode = kModeAdversary;
  s.exit = g.chance(0.2) ? 1 : 0;
  s.cands = {int64_t(c.p.trajs.size()) - 1};
  if (slow) s.iterUs = durations(g, int(g.range(0, 3)), 1);
  int si = c.script(s);
  Task t;
  c.buildRun(t, pi, pi, si, true);
  c.p.tasks.push_back(t);
}
// several cases run one after the other on the main thread, or concurrently
void arrange(Ctx& c) {
  if (c.p.tasks.size() > 1 && c.g.chance(0.3)) {
    schedule(c.g, c.p, true);
    c.p.sched.memMean = c.p.sched.memMean ? 3000 : 0;
    c.p.tasks.insert(c.p.tasks.begin(), Task{});
    return;
  }
  schedule(c.g, c.p, false);
  Task all;
  for (auto& t : c.p.tasks) all.ops.insert(all.ops.end(), t.ops.begin(), t.ops.end());
  c.p.tasks = {all};
}

// heading vectors of the wrong length: one of them, or (at < 0) all of them
// with lengths r, 1/r, r, ...
void scaleHeadings(Phys& f, Rng& g, double r, int at) {
  for (size_t q = 0; q < f.n; ++q) {
    if (at >= 0 && int(q) != at) continue;
    double m = at >= 0 || q % 2 == 0 ? r : 1 / r;
    f.t.c[q] *= m;
    f.t.s[q] *= m;
    balance(f, g, q);
  }
}
// the one known way around the unit length: no heading is fixed anywhere
void headingNormCase(Ctx& c) {
  Phys f = physical(c.g, PhysOpt{});
  scaleHeadings(f, c.g, 1.1, -1);
  roomyLimits(f, c.g);
  addCase(c, physPath(f, c.g, 0, -1), f, false);
}

void physicsCase(Ctx& c) {
  Rng& g = c.g;
  PhysOpt o;
  int poison = g.chance(0.35) ? 0 : int(g.range(1, 15));
  o.negDt = poison == 13;
  Phys f = physical(g, o);
  roomyLimits(f, g);
  size_t nm = f.mods.size() / 5;
  size_t k = g.below(f.n), k1 = 1 + g.below(f.n - 1), j = g.below(nm);
  double sg = g.chance(0.5) ? 1 : -1;
  auto& t = f.t;
  int ffi = c.layer(0.25);
  PathSpec path;
  switch (poison) {
    case 1: {  // a jump in position that nothing else shows
      double by = sg * g.uni(0.01, 1);
      auto& v = g.chance(0.5) ? t.x : t.y;
      for (size_t q = k1; q < f.n; ++q) v[q] += by;
      break;
    }
    case 2: {  // a jump in heading: forces still balance
      double by = sg * g.uni(0.05, 2.9);
      for (size_t q = k1; q < f.n; ++q) {
        f.heading[q] += by;
        t.c[q] = cos(f.heading[q]);
        t.s[q] = sin(f.heading[q]);
        balance(f, g, q);
      }
      roomyLimits(f, g);
      break;
    }
    case 3: {  // acceleration inconsistent with velocity, forces follow it
      double by = sg * g.uni(0.05, 2);
      (g.chance(0.5) ? t.ax : t.ay)[k1] += by;
      balance(f, g, k1);
      roomyLimits(f, g);
      break;
    }
    case 4: {  // same for the angular acceleration
      t.al[k1] += sg * g.uni(0.05, 2);
      balance(f, g, k1);
      roomyLimits(f, g);
      break;
    }
    case 5: {  // net force does not match
      (g.chance(0.5) ? t.fx : t.fy)[k][j] += sg * g.uni(1, 50);
      roomyLimits(f, g);
      break;
    }
    case 6: {  // net torque does not match: an unbalanced couple
      size_t j2 = (j + 1) % nm;
      double rx = f.mods[5 * j] - f.mods[5 * j2], ry = f.mods[5 * j + 1] - f.mods[5 * j2 + 1];
      double wx = t.c[k] * rx - t.s[k] * ry, wy = t.s[k] * rx + t.c[k] * ry;
      double q = sg * g.uni(2, 30) / hypot(wx, wy);
      t.fx[k][j] += -wy * q; t.fy[k][j] += wx * q;
      t.fx[k][j2] -= -wy * q; t.fy[k][j2] -= wx * q;
      roomyLimits(f, g);
      break;
    }
    case 7: case 8: {  // one wheel too fast at one sample
      double w1 = 0, w2 = 0;
      for (size_t i = 0; i < nm; ++i)
        for (size_t q = 0; q < f.n; ++q) {
          if (i != j && !f.alike) continue;
          double v = wheelSpeed(f, q, i);
          if (v > w1) { w2 = w1; w1 = v; } else w2 = std::max(w2, v);
        }
      if (w1 < 0.1) break;
      double lim = std::max(w2 * 1.02, w1 * g.uni(0.6, 0.95));
      for (size_t i = 0; i < nm; ++i)
        if ((i == j || f.alike) && lim < w1 * 0.97) f.mods[5 * i + 3] = lim / f.mods[5 * i + 2];
      break;
    }
    case 9: case 10: {  // one module's force too high at one sample
      double w1 = 0, w2 = 0;
      for (size_t i = 0; i < nm; ++i)
        for (size_t q = 0; q < f.n; ++q) {
          if (i != j && !f.alike) continue;
          double v = wheelForce(f, q, i);
          if (v > w1) { w2 = w1; w1 = v; } else w2 = std::max(w2, v);
        }
      double lim = std::max(w2 * 1.02, w1 * g.uni(0.6, 0.95));
      for (size_t i = 0; i < nm; ++i)
        if ((i == j || f.alike) && lim < w1 * 0.97) f.mods[5 * i + 4] = lim * f.mods[5 * i + 2];
      break;
    }
    case 11: {  // the velocity of one sample is not what moves the robot
      (g.chance(0.5) ? t.vx : t.vy)[k1] += sg * g.uni(0.05, 1);
      double dt = t.dt[k1 - 1];
      t.ax[k1] = (t.vx[k1] - t.vx[k1 - 1]) / dt;
      t.ay[k1] = (t.vy[k1] - t.vy[k1 - 1]) / dt;
      balance(f, g, k1);
      if (k1 + 1 < f.n) {
        dt = t.dt[k1];
        t.ax[k1 + 1] = (t.vx[k1 + 1] - t.vx[k1]) / dt;
        t.ay[k1 + 1] = (t.vy[k1 + 1] - t.vy[k1]) / dt;
        balance(f, g, k1 + 1);
      }
      roomyLimits(f, g);
      break;
    }
    case 12: {  // the same for the angular velocity
      t.w[k1] += sg * g.uni(0.2, 2);
      t.al[k1] = (t.w[k1] - t.w[k1 - 1]) / t.dt[k1 - 1];
      balance(f, g, k1);
      if (k1 + 1 < f.n) {
        t.al[k1 + 1] = (t.w[k1 + 1] - t.w[k1]) / t.dt[k1];
        balance(f, g, k1 + 1);
      }
      roomyLimits(f, g);
      break;
    }
  }
  bool alternating = false;
  if (poison >= 14) {  // headings that are not unit vectors
    // with a heading fixed somewhere, even norms that cancel out between
    // neighbours are ruled out
    alternating = g.chance(0.5);
    double r = g.chance(0.5) ? g.uni(1.05, 1.6) : 1 / g.uni(1.05, 1.6);
    scaleHeadings(f, g, r, alternating ? -1 : int(k));
    roomyLimits(f, g);
  }
  // waypoint poses that the trajectory itself goes through
  path = physPath(f, g, ffi, alternating ? int(g.below(f.counts.size() + 1)) : g.chance(0.6) ? -2 : -1);
  addCase(c, path, f, false);
}

void constraintCase(Ctx& c) {
  Rng& g = c.g;
  int ffi = c.layer(0.3);
  PhysOpt o;
  o.calm = g.chance(0.5);
  o.maxCount = int(g.pick<int>({2, 4, 5}));
  Phys f;
  bool bad = g.chance(0.5);
  int special = int(g.below(10));
  std::vector<PathOp> cons;
  if (special == 0 || special == 1) {  // velocity direction over a range
    Phys shape = physical(g, o);
    size_t wp = shape.counts.size() + 1;
    bool sgmt = g.chance(0.6);
    size_t a = size_t(someWpt(g, 0, int64_t(sgmt ? wp - 2 : wp - 1))), b = sgmt ? size_t(someWpt(g, int64_t(a) + 1, int64_t(wp) - 1)) : a;
    o.parFrom = int(shape.at(a));
    o.parTo = int(shape.at(b));
    // along an axis of the field, or anywhere
    o.parAngle = g.chance(0.3) ? double(g.range(-4, 4)) * M_PI_4 : g.uni(-3, 3);
    if (bad)
      o.parOff = g.chance(0.6) ? (g.chance(0.5) ? o.parFrom : o.parTo)
                               : int(g.range(o.parFrom, o.parTo));
    f = physical(g, o, &shape);
    double ang = g.chance(0.3) ? o.parAngle + M_PI : o.parAngle;
    if (g.chance(0.2)) ang += 2 * M_PI * double(g.range(-2, 2));
    if (sgmt) cons.push_back({kOpSgmtCon, {int64_t(a), int64_t(b), kConVelDir}, {ang}});
    else cons.push_back({kOpWptCon, {int64_t(a), kConVelDir}, {ang}});
  } else if (special == 2) {  // at rest
    Phys shape = physical(g, o);
    size_t wp = shape.counts.size() + 1;
    bool sgmt = g.chance(0.4);
    size_t a = size_t(someWpt(g, 0, int64_t(sgmt ? wp - 2 : wp - 1))), b = sgmt ? size_t(someWpt(g, int64_t(a) + 1, int64_t(wp) - 1)) : a;
    int64_t type = g.pick<int64_t>({kConVelMax, kConAngVelMax, kConAccMax});
    o.zeroType = int(type);
    o.zeroFrom = int(shape.at(a));
    o.zeroTo = int(shape.at(b));
    if (bad) {
      o.zeroOff = g.chance(0.6) ? (g.chance(0.5) ? o.zeroFrom : o.zeroTo)
                                : int(g.range(o.zeroFrom, o.zeroTo));
      o.zeroAxis = int(g.below(3));
    }
    f = physical(g, o, &shape);
    if (sgmt) cons.push_back({kOpSgmtCon, {int64_t(a), int64_t(b), type}, {0.0}});
    else cons.push_back({kOpWptCon, {int64_t(a), type}, {0.0}});
  } else {
    f = physical(g, o);
    size_t wp = f.counts.size() + 1;
    if (special == 3 && !ffi) {  // equality of pose or position
      size_t a = size_t(someWpt(g, 0, int64_t(wp) - 1)), k = f.at(a);
      double x = f.t.x[k], y = f.t.y[k], h = f.heading[k];
      int which = bad ? int(g.below(3)) : -1;
      bool pose = g.chance(0.6);
      double by = (g.chance(0.5) ? 1 : -1) * g.uni(0.05, 1);
      if (which == 0) x += by;
      if (which == 1) y += by;
      if (which == 2) { pose = true; h += (by > 0 ? 1 : -1) * g.uni(0.1, 2.9); }
      if (g.chance(0.15)) {  // the origin of the field
        for (size_t q = 0; q < f.n; ++q) {
          f.t.x[q] -= x;
          f.t.y[q] -= y;
          f.heading[q] -= h;
          f.t.c[q] = cos(f.heading[q]);
          f.t.s[q] = sin(f.heading[q]);
          balance(f, g, q);
        }
        x = y = h = 0;
      }
      if (pose) {
        if (g.chance(0.5)) cons.push_back({kOpWptCon, {int64_t(a), kConPoseEq}, {x, y, h}});
        else cons.push_back({kOpPose, {int64_t(a)}, {x, y, h}});
      } else {
        if (g.chance(0.5)) cons.push_back({kOpWptCon, {int64_t(a), kConTransEq}, {x, y}});
        else cons.push_back({kOpTrans, {int64_t(a)}, {x, y, h}});
      }
    } else {
      int want = int(g.range(1, 3));
      // several of one kind on the same range
      bool stack = g.chance(0.3);
      int kind = int(g.range(1, ffi ? kConPointAt : kConPointPoint));
      if (stack) want = int(g.range(2, 4));
      bool sSgmt = g.chance(0.5);
      size_t sA = size_t(someWpt(g, 0, int64_t(sSgmt ? wp - 2 : wp - 1))), sB = sSgmt ? size_t(someWpt(g, int64_t(sA) + 1, int64_t(wp) - 1)) : sA;
      int poisonAt = bad ? int(g.below(want)) : -1;
      for (int q = 0; q < want; ++q) {
        for (int tries = 0; tries < 60; ++tries) {
          int type = stack && g.chance(0.9) ? kind : int(g.range(1, ffi ? kConPointAt : kConPointPoint));
          bool sgmt = g.chance(0.65);
          size_t a = size_t(someWpt(g, 0, int64_t(sgmt ? wp - 2 : wp - 1))), b = sgmt ? size_t(someWpt(g, int64_t(a) + 1, int64_t(wp) - 1)) : a;
          if (stack && g.chance(0.8)) {
            sgmt = sSgmt;
            a = sA;
            b = sB;
          }
          auto d = conNear(g, f, type, a, b);
          bool info = tries < 45;
          if (!fitLimit(g, f, type, d, a, b, q == poisonAt, info)) continue;
          if (sgmt) cons.push_back({kOpSgmtCon, {int64_t(a), int64_t(b), type}, d});
          else cons.push_back({kOpWptCon, {int64_t(a), type}, d});
          break;
        }
      }
    }
  }
  roomyLimits(f, g);
  PathSpec p = physPath(f, g, ffi, -1);
  // before or after the other calls, but counts last (they name every segment)
  size_t endPos = p.ops.size() - 1;
  size_t pos = g.chance(0.5) ? endPos : 1 + g.below(endPos);
  // waypoint guesses that follow must not undo a pose's guess
  p.ops.insert(p.ops.begin() + pos, cons.begin(), cons.end());
  addCase(c, p, f, false);
}

void obstacleCase(Ctx& c) {
  Rng& g = c.g;
  int ffi = c.layer(0.25);
  PhysOpt o;
  o.calm = g.chance(0.6);
  o.maxCount = 4;
  o.maxWpts = 3;
  Phys f = physical(g, o);
  roomyLimits(f, g);
  size_t wp = f.counts.size() + 1;
  bool bad = g.chance(0.55);
  for (int tries = 0; tries < 200; ++tries) {
    std::vector<std::pair<double, std::vector<double>>> bumpers;
    std::vector<PathOp> ops;
    int nb = ffi ? int(g.chance(0.1) ? g.range(2, 5) : 1) : int(g.chance(0.1) ? g.range(3, 6) : g.pick<int>({1, 1, 2}));
    double reach = 0.3;
    for (int b = 0; b < nb; ++b) {
      if (ffi) {
        double l = g.uni(0.3, 1.2), w = g.uni(0.3, 1.2);  // they add up
        ops.push_back({kOpSetBumpers, {}, {l, w}});
        bumpers.push_back({0.01, {l / 2, w / 2, -l / 2, w / 2, -l / 2, -w / 2, l / 2, -w / 2}});
        reach = std::max(reach, std::max(l, w) / 2);
      } else {
        int n = int(g.pick<int>({1, 1, 2, 3, 4, 4, 5, 4, 2, 9, 3, 4, 4, g.chance(0.7) ? cornerCount(g, 30) : 4}));
        double r = g.uni(0.2, 0.7);
        auto pts = outline(g, n, r, g.uni(-0.2, 0.2), g.uni(-0.2, 0.2));
        if (g.chance(0.06)) repeatCorner(g, pts);
        double safety = g.chance(0.3) ? 0.0 : g.uni(0, 0.3);
        std::vector<double> d{safety};
        d.insert(d.end(), pts.begin(), pts.end());
        ops.push_back({kOpBumpers, {}, d});
        bumpers.push_back({safety, pts});
        reach = std::max(reach, r);
      }
    }
    bool sgmt = ffi || g.chance(0.6);
    size_t a = size_t(someWpt(g, 0, int64_t(sgmt ? wp - 2 : wp - 1))), b = sgmt ? size_t(someWpt(g, int64_t(a) + 1, int64_t(wp) - 1)) : a;
    size_t k = f.at(a) + g.below(f.at(b) - f.at(a) + 1);
    int n = int(g.pick<int>({1, 1, 2, 3, 3, 4, 5, 1, 4, 10, 3, 4, 2, g.chance(0.7) ? cornerCount(g, 30) : 3}));
    double r = g.uni(0.15, 1.5), ang = g.uni(0, 2 * M_PI);
    double dist = (reach + r) * g.uni(0.6, 1.8);
    auto pts = outline(g, n, r, f.t.x[k] + dist * cos(ang), f.t.y[k] + dist * sin(ang));
    if (g.chance(0.35)) {  // a corner of one next to the middle of an edge of the other
      const auto& bp = g.pick(bumpers).second;
      bool ours = g.chance(0.5);
      const auto& e = ours ? bp : pts;
      const auto& q = ours ? pts : bp;
      size_t ne = e.size() / 2, i = g.below(ne), j = (i + 1) % ne, v = g.below(q.size() / 2);
      if (g.chance(0.7))  // the longest of a few
        for (int t = 0; t < 5; ++t) {
          size_t i2 = g.below(ne), j2 = (i2 + 1) % ne;
          if (hypot(e[2 * i2] - e[2 * j2], e[2 * i2 + 1] - e[2 * j2 + 1]) >
              hypot(e[2 * i] - e[2 * j], e[2 * i + 1] - e[2 * j + 1]))
            i = i2, j = j2;
        }
      double dx = e[2 * j] - e[2 * i], dy = e[2 * j + 1] - e[2 * i + 1], l = hypot(dx, dy);
      double at = g.uni(0.3, 0.7), off = (g.chance(0.5) ? 1 : -1) * g.uni(0.02, 0.5);
      double px = e[2 * i] + at * dx, py = e[2 * i + 1] + at * dy;
      if (l > 1e-6) px += off * dy / l, py -= off * dx / l;
      double cc = f.t.c[k], ss = f.t.s[k];
      auto wx = [&](double ux, double uy) { return f.t.x[k] + cc * ux - ss * uy; };
      auto wy = [&](double ux, double uy) { return f.t.y[k] + ss * ux + cc * uy; };
      double mx = ours ? wx(px, py) - q[2 * v] : wx(q[2 * v], q[2 * v + 1]) - px;
      double my = ours ? wy(px, py) - q[2 * v + 1] : wy(q[2 * v], q[2 * v + 1]) - py;
      for (size_t t = 0; t + 1 < pts.size(); t += 2) pts[t] += mx, pts[t + 1] += my;
    }
    if (g.chance(0.08)) {  // a corner at the origin of the field
      size_t v = g.below(pts.size() / 2);
      double cx = pts[2 * v], cy = pts[2 * v + 1];
      for (size_t q = 0; q < pts.size(); ++q) pts[q] -= q % 2 ? cy : cx;
      for (size_t q = 0; q < f.n; ++q) f.t.x[q] -= cx, f.t.y[q] -= cy;
    }
    if (!ffi && g.chance(0.05)) {  // one of the robot at its own
      size_t i = g.below(bumpers.size());
      auto& bq = bumpers[i].second;
      size_t v = g.below(bq.size() / 2);
      double cx = bq[2 * v], cy = bq[2 * v + 1];
      for (size_t q = 0; q < bq.size(); ++q) bq[q] -= q % 2 ? cy : cx;
      for (size_t q = 0; q < bq.size(); ++q) ops[i].d[q + 1] = bq[q];
    }
    if (g.chance(0.06)) repeatCorner(g, pts);
    double w1 = INFINITY, w2 = INFINITY, outside = INFINITY;
    for (size_t q = 0; q < f.n; ++q) {
      double m = INFINITY;
      for (auto& bu : bumpers)
        m = std::min(m, outlineClearance(bu.second, pts, f.t.x[q], f.t.y[q], f.t.c[q], f.t.s[q]) - bu.first);
      if (q >= f.at(a) && q <= f.at(b)) {
        if (m < w1) { w2 = w1; w1 = m; } else w2 = std::min(w2, m);
      } else {
        outside = std::min(outside, m);
      }
    }
    double safety;
    if (bad) {
      double hi = std::min(w2, w1 + 0.3);
      if (hi - w1 < 0.03 || hi < 0.06) continue;
      safety = g.uni(std::max(0.0, w1) + 0.4 * (hi - std::max(0.0, w1)), hi - 0.002);
      if (safety < 0.01) continue;
    } else {
      if (w1 < 0.06) continue;
      safety = w1 * g.uni(0.3, 0.95);
      if (tries < 60 && !(outside < safety)) continue;
    }
    std::vector<double> d{safety};
    d.insert(d.end(), pts.begin(), pts.end());
    size_t main = ops.size();
    if (sgmt) ops.push_back({kOpSgmtObst, {int64_t(a), int64_t(b)}, d});
    else ops.push_back({kOpWptObst, {int64_t(a)}, d});
    // further obstacles that are not in the way, around the one that may be
    int extra = g.chance(0.4) ? int(g.range(1, 4)) : 0;
    for (int e = 0; e < extra; ++e) {
      bool es = ffi || g.chance(0.5);
      size_t ea = a, eb = b;
      if (es != sgmt || g.chance(0.5)) {
        ea = g.below(es ? wp - 1 : wp);
        eb = es ? ea + 1 + g.below(wp - 1 - ea) : ea;
      }
      size_t ek = f.at(ea) + g.below(f.at(eb) - f.at(ea) + 1);
      double er = g.uni(0.1, 1), ed = (reach + er) * g.uni(1.1, 2.5), eg = g.uni(0, 2 * M_PI);
      auto ep = outline(g, int(g.range(1, 5)), er, f.t.x[ek] + ed * cos(eg), f.t.y[ek] + ed * sin(eg));
      double room = INFINITY;
      for (size_t q = f.at(ea); q <= f.at(eb); ++q)
        for (auto& bu : bumpers)
          room = std::min(room, outlineClearance(bu.second, ep, f.t.x[q], f.t.y[q], f.t.c[q], f.t.s[q]) - bu.first);
      if (room < 0.06) continue;
      std::vector<double> od{room * g.uni(0.2, 0.95)};
      od.insert(od.end(), ep.begin(), ep.end());
      PathOp o2{es ? int(kOpSgmtObst) : int(kOpWptObst), {int64_t(ea)}, od};
      if (es) o2.i.push_back(int64_t(eb));
      if (g.chance(0.5)) ops.insert(ops.begin() + int64_t(main++), o2);
      else ops.push_back(o2);
    }
    PathSpec p = physPath(f, g, ffi, -1);
    if (!ffi && g.chance(0.15)) {
      // bumpers added later are not part of earlier obstacles
      auto far = outline(g, 4, 3.0, 0, 0);
      std::vector<double> e{0.5};
      e.insert(e.end(), far.begin(), far.end());
      ops.push_back({kOpBumpers, {}, e});
    }
    p.ops.insert(p.ops.end() - 1, ops.begin(), ops.end());
    if (weight(p) > 2 * kMaxWeight) continue;
    addCase(c, p, f, false);
    return;
  }
}

void optimalCase(Ctx& c) {
  Rng& g = c.g;
  PhysOpt o;
  o.maxCount = 6;
  Phys a = physical(g, o);
  int cands = int(g.range(2, 4));
  std::vector<Phys> all{a};
  size_t nm = a.mods.size() / 5;
  for (int k = 1; k < cands; ++k) {
    Phys b = physical(g, o, &a);
    all.push_back(b);
  }
  // limits roomy for all of them
  for (size_t j = 0; j < nm; ++j) {
    double v = 0.1, q = 1;
    for (auto& f : all)
      for (size_t k = 0; k < f.n; ++k) {
        v = std::max(v, wheelSpeed(f, k, j));
        q = std::max(q, wheelForce(f, k, j));
      }
    a.mods[5 * j + 2] = 0.05;
    a.mods[5 * j + 3] = v * 1.1 / 0.05;
    a.mods[5 * j + 4] = q * 1.1 * 0.05;
  }
  // time steps must respect the step limit for the common wheels
  double minw = INFINITY, vm = 0;
  for (size_t p = 0; p < nm; ++p) {
    vm = std::max(vm, a.mods[5 * p + 2] * a.mods[5 * p + 3]);
    for (size_t q = 0; q < p; ++q) {
      double dx = fabs(a.mods[5 * p] - a.mods[5 * q]), dy = fabs(a.mods[5 * p + 1] - a.mods[5 * q + 1]);
      if (dx > 0) minw = std::min(minw, dx);
      if (dy > 0) minw = std::min(minw, dy);
    }
  }
  double top = 0.9 * minw / vm;
  PathSpec p = physPath(a, g, g.chance(0.2), -1);
  c.p.paths.push_back(p);
  int pi = int(c.p.paths.size()) - 1;
  Script s;
  s.mode = kModeBest;
  for (auto& f : all) {
    bool fits = true;
    for (double d : f.t.dt) fits &= d < top;
    if (!fits) {
      // slow enough everything is admissible: shrink the steps of all segments
      std::vector<double> dts;
      size_t at = 0;
      for (auto n : f.counts) {
        dts.push_back(top * g.uni(0.2, 0.95));
        at += n;
      }
      integrate(f, dts, g, 0, 0, 0);
      // forces grow with shorter steps
      for (size_t j = 0; j < nm; ++j)
        for (size_t k = 0; k < f.n; ++k) {
          double need = wheelForce(f, k, j) * 1.1 * 0.05;
          auto& d = c.p.paths[pi].ops[0].d;
          d[2 + 5 * j + 4] = std::max(d[2 + 5 * j + 4], need);
        }
    }
    c.p.trajs.push_back({f.t});
    s.cands.push_back(int64_t(c.p.trajs.size()) - 1);
  }
  int si = c.script(s);
  Task t;
  c.buildRun(t, pi, pi, si, true);
  c.p.tasks.push_back(t);
}

// -------------------------------------------------------------- per property
int64_t pause(Rng& g) {
  return g.pick<int64_t>({0, 100, 700, 3000, 9000, 17000, 25000, 60000});
}

void genCancel(Ctx& c, bool stale) {
  Rng& g = c.g;
  c.p.tasks.push_back(Task{});
  int nt = int(g.range(1, 3));
  int style = int(g.below(6));
  std::vector<int> cbs;
  for (int k = 0; k < nt; ++k) {
    Task t;
    int gens = int(g.range(1, stale ? 4 : 3));
    bool reuse = g.chance(0.3);
    int first = -1;
    for (int q = 0; q < gens; ++q) {
      int path = reuse && first >= 0 ? first : c.path(g.chance(0.25), int(g.below(3)));
      Script s = freeScript(g, stale ? 0 : 1, 7, g.chance(0.5) ? style : int(g.below(6)));
      if (!stale && g.chance(0.6)) s.exit = 0;
      if (g.chance(stale ? 0.2 : 0.08)) {
        s.throwAt = int(g.range(0, int64_t(s.iterUs.size())));
        s.throwKind = int(g.below(2));
      }
      int si = c.script(s);
      if (g.chance(0.4)) t.ops.push_back(c.op(kTSleep, pause(g)));
      if (stale && g.chance(0.25)) t.ops.push_back(c.op(kTCancel, g.below(2)));
      int slot = k * 20 + q;
      if (reuse && first >= 0 && !c.p.paths[path].ffi) {
        t.ops.push_back(c.op(kTRun, k * 20, si));
      } else if (reuse && first >= 0) {
        t.ops.push_back(c.op(kTFfi, k * 20, si, c.handle()));
      } else {
        c.buildRun(t, slot, path, si, !reuse && g.chance(0.5));
      }
      if (first < 0) first = path;
      int cb = c.firstCb(path);
      if (cb >= 0) cbs.push_back(cb);
      if (cb >= 0 && g.chance(0.3)) c.act(cb, int(g.below(3)), kActCancel, g.below(2));
      if (cb >= 0 && g.chance(0.1)) c.act(cb, int(g.below(3)), kActAwait, k + 1 + g.range(1, 3));
      if (cb >= 0 && g.chance(0.25)) {
        int k = int(g.below(3));
        c.nest(cb, k, 0.3, int(g.below(2)), 0, 4);
        if (g.chance(0.4)) c.act(cb, k, kActCancel, g.below(2));
      }
      if (cb >= 0 && g.chance(0.1)) c.act(cb, int(g.below(3)), kActThrow);
      if (cb >= 0 && g.chance(0.15)) c.act(cb, int(g.below(3)), kActSleep, pause(g));
    }
    c.p.tasks.push_back(t);
  }
  int nk = int(g.range(stale ? 0 : 1, 2));
  for (int k = 0; k < nk; ++k) {
    Task t;
    int n = int(g.range(1, 4));
    for (int q = 0; q < n; ++q) {
      t.ops.push_back(c.op(kTSleep, g.chance(0.5) ? pause(g) : g.range(0, 40000)));
      t.ops.push_back(c.op(kTCancel, g.below(2)));
    }
    c.p.tasks.push_back(t);
  }
  schedule(g, c.p, true);
}

void genOutcome(Ctx& c, int ffiMode) {
  Rng& g = c.g;
  if (g.chance(0.25)) {  // with physically meaningful trajectories
    int n = int(g.range(1, 2));
    for (int k = 0; k < n; ++k) {
      PhysOpt o;
      Phys f = physical(g, o);
      roomyLimits(f, g);
      addCase(c, physPath(f, g, ffiMode ? 1 : g.chance(0.2), -2), f, true);
    }
    arrange(c);
    return;
  }
  c.p.tasks.push_back(Task{});
  int nt = g.chance(0.4) ? 1 : int(g.range(2, 3));
  for (int k = 0; k < nt; ++k) {
    Task t;
    int gens = int(g.range(1, 3));
    for (int q = 0; q < gens; ++q) {
      int path = c.path(ffiMode ? g.chance(0.9) : g.chance(0.15), int(g.below(3)), g.chance(0.7));
      Script s = freeScript(g, 0, 5, int(g.below(6)));
      int si = c.script(s);
      c.buildRun(t, k * 20 + q, path, si, g.chance(0.3));
      int more = g.chance(0.3) ? int(g.range(1, 2)) : 0;
      for (int m = 0; m < more; ++m) {
        int s2 = c.script(freeScript(g, 0, 4, int(g.below(6))));
        if (c.p.paths[path].ffi) t.ops.push_back(c.op(kTFfi, k * 20 + q, s2, c.handle()));
        else t.ops.push_back(c.op(kTRun, k * 20 + q, s2));
      }
      int cb = c.firstCb(path);
      if (cb >= 0 && g.chance(0.15)) c.act(cb, int(g.below(2)), kActCancel, g.below(2));
      if (cb >= 0 && g.chance(0.15)) c.act(cb, int(g.below(2)), kActSleep, pause(g));
      if (cb >= 0 && !c.p.paths[path].ffi && g.chance(0.07)) c.act(cb, int(g.below(2)), kActThrow);
    }
    c.p.tasks.push_back(t);
  }
  if (g.chance(0.2)) {
    Task t;
    t.ops.push_back(c.op(kTSleep, g.range(0, 60000)));
    t.ops.push_back(c.op(kTCancel, g.below(2)));
    c.p.tasks.push_back(t);
  }
  schedule(g, c.p, nt > 1 || c.p.tasks.size() > 2);
}

void genProgress(Ctx& c, bool pacing) {
  Rng& g = c.g;
  c.p.tasks.push_back(Task{});
  int nt = g.chance(0.3) ? 1 : int(g.range(2, 3));
  int style = int(g.below(6));
  int shared = -1;
  if (g.chance(0.2)) {
    shared = c.path(0, int(g.range(1, 3)));
    c.p.tasks[0].ops.push_back(c.op(kTBuild, kSharedBase, shared));
  }
  for (int k = 0; k < nt; ++k) {
    Task t;
    int gens = int(g.range(1, 2));
    for (int q = 0; q < gens; ++q) {
      if (g.chance(0.3)) t.ops.push_back(c.op(kTSleep, pause(g)));
      int slot = k * 20 + q;
      int path;
      Script s = freeScript(g, 2, pacing ? 10 : 7, g.chance(0.6) ? style : int(g.below(6)));
      int si = c.script(s);
      if (shared >= 0 && g.chance(0.5)) {
        path = shared;
        t.ops.push_back(c.op(kTGen, slot, kSharedBase, c.handle()));
        if (g.chance(0.2)) t.ops.push_back(c.op(kTSleep, pause(g)));
        t.ops.push_back(c.op(kTRun, slot, si));
      } else {
        path = c.path(g.chance(0.25), int(g.chance(0.06) ? g.chance(0.1) ? g.pick<int>({64, 65, 127, 128, 129, 256, 257}) : g.range(8, 40) : g.range(1, 3)));
        t.ops.push_back(c.op(kTBuild, slot, path));
        if (g.chance(0.3)) t.ops.push_back(c.op(kTSleep, pause(g)));
        c.run(t, slot, path, si);
      }
      if (!c.p.paths[path].ffi && g.chance(0.4)) {
        if (g.chance(0.4)) t.ops.push_back(c.op(kTSleep, pause(g)));
        if (g.chance(0.3)) t.ops.push_back(c.op(kTMove, slot));
        t.ops.push_back(c.op(kTRun, slot, c.script(freeScript(g, 1, 6, int(g.below(6))))));
      }
      int cb = c.firstCb(path);
      if (g.chance(0.25)) c.act(cb, int(g.below(3)), kActSleep, pause(g));
      if (g.chance(0.1)) c.act(cb, int(g.below(3)), kActCancel, 0);
      if (!c.p.paths[path].ffi && g.chance(0.1)) c.act(cb + int(g.below(2)), int(g.below(3)), kActThrow);
      if (g.chance(0.15)) {
        c.nest(cb, int(g.below(2)), 0.3, int(g.range(1, 2)), 1, 4);
      }
    }
    c.p.tasks.push_back(t);
  }
  schedule(g, c.p, true);
  clockFaults(g, c.p);
  if (!pacing && g.chance(0.7)) c.p.sched.clockGrain = 1;
}

void genConcurrent(Ctx& c) {
  Rng& g = c.g;
  c.p.checkPosed = true;
  c.p.tasks.push_back(Task{});
  int shared = -1, sharedFfi = -1;
  if (g.chance(0.6)) {
    shared = c.path(0, int(g.below(3)));
    c.p.tasks[0].ops.push_back(c.op(kTBuild, kSharedBase, shared));
  }
  if (g.chance(0.3)) {
    sharedFfi = c.path(1, int(g.below(2)));
    c.p.tasks[0].ops.push_back(c.op(kTBuild, kSharedBase + 1, sharedFfi));
  }
  int nt = int(g.range(2, 4));
  for (int k = 0; k < nt; ++k) {
    Task t;
    int gens = int(g.range(1, 2));
    for (int q = 0; q < gens; ++q) {
      int slot = k * 20 + q;
      int si = c.script(freeScript(g, 0, 4, g.chance(0.6) ? 3 : int(g.below(6))));
      if (shared >= 0 && g.chance(0.5)) {
        if (g.chance(0.2)) t.ops.push_back(c.op(kTGuess, kSharedBase));
        t.ops.push_back(c.op(kTGen, slot, kSharedBase, c.handle()));
        t.ops.push_back(c.op(kTRun, slot, si));
        if (g.chance(0.5)) t.ops.push_back(c.op(kTDropGen, slot));
      } else if (sharedFfi >= 0 && g.chance(0.5)) {
        t.ops.push_back(c.op(kTFfi, kSharedBase + 1, si, c.handle()));
      } else {
        int path = c.path(g.chance(0.25), int(g.below(3)));
        c.buildRun(t, slot, path, si, g.chance(0.5));
        int cb = c.firstCb(path);
        if (g.chance(0.15)) c.act(cb, 0, kActCancel, g.below(2));
        if (cb >= 0 && k + 1 < nt && g.chance(0.2)) c.act(cb, int(g.below(2)), kActAwait, g.range(k + 2, nt));
        if (g.chance(0.1)) {
          c.nest(cb, 0, 0, 1, 0, 2, 3);
        }
      }
    }
    c.p.tasks.push_back(t);
  }
  if (g.chance(0.4)) {
    Task t;
    for (int q = 0; q < 2; ++q) {
      t.ops.push_back(c.op(kTSleep, g.range(0, 60000)));
      t.ops.push_back(c.op(kTCancel, g.below(2)));
    }
    c.p.tasks.push_back(t);
  }
  schedule(g, c.p, true);
  c.p.sched.races = true;
}

void genLifetime(Ctx& c) {
  Rng& g = c.g;
  c.p.checkPosed = true;
  c.p.tasks.push_back(Task{});
  int nt = g.chance(0.6) ? 1 : 2;
  for (int k = 0; k < nt; ++k) {
    Task t;
    int base = k * 40, nextG = base, nextB = base;
    struct Bl { int slot, path; };
    std::vector<Bl> bl;
    std::vector<int> gl;
    int steps = int(g.range(5, 14));
    for (int s = 0; s < steps; ++s) {
      int what = int(g.below(12));
      if (bl.empty() || (what == 0 && bl.size() < 3)) {
        int path = c.path(g.chance(0.2), int(g.range(0, 2)));
        t.ops.push_back(c.op(kTBuild, nextB, path));
        bl.push_back({nextB++, path});
        continue;
      }
      size_t bi = g.below(bl.size());
      Bl b = bl[bi];
      bool ffi = c.p.paths[b.path].ffi;
      int si = c.script(freeScript(g, 0, 4, g.chance(0.7) ? 3 : int(g.below(6))));
      if (ffi) {
        if (what == 5) {
          t.ops.push_back(c.op(kTDropBld, b.slot));
          bl.erase(bl.begin() + bi);
        } else {
          t.ops.push_back(c.op(kTFfi, b.slot, si, c.handle()));
        }
        continue;
      }
      switch (what) {
        case 1: case 2: case 3: {
          bool mv = g.chance(0.3);
          t.ops.push_back(c.op(kTGen, nextG, b.slot, c.handle(), mv));
          if (mv) bl.erase(bl.begin() + bi);
          gl.push_back(nextG++);
          break;
        }
        case 4:
          t.ops.push_back(c.op(kTTouch, b.slot));
          bl.erase(bl.begin() + bi);
          break;
        case 5:
          t.ops.push_back(c.op(kTDropBld, b.slot));
          bl.erase(bl.begin() + bi);
          break;
        case 6:
          t.ops.push_back(c.op(kTCopyBld, nextB, b.slot));
          bl.push_back({nextB++, b.path});
          break;
        case 7: {
          // the generators already made must not notice
          int other = c.path(0, int(g.below(2)));
          t.ops.push_back(c.op(kTReapply, b.slot, other));
          bl.erase(bl.begin() + bi);
          t.ops.push_back(c.op(kTDropBld, b.slot));
          break;
        }
        case 8:
          if (!gl.empty()) t.ops.push_back(c.op(kTMove, g.pick(gl)));
          break;
        default:
          if (!gl.empty()) {
            int x = g.pick(gl);
            if (g.chance(0.3)) t.ops.push_back(c.op(kTMove, x));
            t.ops.push_back(c.op(kTRun, x, si));
            if (g.chance(0.2)) {
              t.ops.push_back(c.op(kTDropGen, x));
              gl.erase(std::find(gl.begin(), gl.end(), x));
            }
          }
          break;
      }
    }
    for (int x : gl)
      if (g.chance(0.7)) {
        if (g.chance(0.3)) t.ops.push_back(c.op(kTMove, x));
        t.ops.push_back(c.op(kTRun, x, c.script(freeScript(g, 1, 3, 3))));
      }
    if (nt == 1) c.p.tasks[0] = t;
    else c.p.tasks.push_back(t);
  }
  for (int cb = 0; cb < c.cbNext; ++cb)
    if (g.chance(0.06)) c.act(cb, 0, kActThrow);
  schedule(g, c.p, nt > 1);
}

void genRerun(Ctx& c) {
  Rng& g = c.g;
  c.p.checkPosed = true;
  c.p.tasks.push_back(Task{});
  int nt = g.chance(0.6) ? 1 : 2;
  for (int k = 0; k < nt; ++k) {
    Task t;
    int path = c.path(g.chance(0.2), int(g.range(0, 2)), g.chance(0.8));
    int slot = k * 20;
    t.ops.push_back(c.op(kTBuild, slot, path));
    bool ffi = c.p.paths[path].ffi;
    if (!ffi) t.ops.push_back(c.op(kTGen, slot, slot, c.handle()));
    int runs = int(g.range(2, 5));
    int cb = c.firstCb(path);
    for (int q = 0; q < runs; ++q) {
      Script s = freeScript(g, 0, 4, g.chance(0.7) ? 3 : int(g.below(6)));
      if (g.chance(0.15)) {
        s.throwAt = int(g.range(0, int64_t(s.iterUs.size())));
        s.throwKind = int(g.below(2));
      }
      int si = c.script(s);
      if (g.chance(0.2)) t.ops.push_back(c.op(kTSleep, pause(g)));
      if (g.chance(0.2)) t.ops.push_back(c.op(kTCancel, g.below(2)));
      TaskOp o = ffi ? c.op(kTFfi, slot, si, c.handle()) : c.op(kTRun, slot, si);
      if (g.chance(0.12)) {
        o.failAt = 1 + g.below(20);
        o.sticky = g.chance(0.3);
      }
      t.ops.push_back(o);
      if (!ffi && g.chance(0.1)) t.ops.push_back(c.op(kTMove, slot));
    }
    if (cb >= 0) {
      int acts = int(g.below(4));
      for (int q = 0; q < acts; ++q) {
        int kind = int(g.below(3));
        if (kind == 0 && !ffi) c.act(cb, int(g.below(8)), g.chance(0.7) ? kActThrow : kActThrowAlloc);
        if (kind == 1) c.act(cb, int(g.below(8)), kActCancel, g.below(2));
        if (kind == 2) c.act(cb, int(g.below(8)), kActSleep, pause(g));
      }
    }
    if (nt == 1) c.p.tasks[0] = t;
    else c.p.tasks.push_back(t);
  }
  schedule(g, c.p, nt > 1);
}

uint64_t failIndex(Rng& g, double top) {
  return 1 + uint64_t(exp(g.uni() * log(top)) - 0.5);
}

void genBuilderFaults(Ctx& c) {
  Rng& g = c.g;
  c.p.checkPosed = true;
  Task t;
  int path = c.path(g.chance(0.3), int(g.below(3)), false, true);
  // some calls replace what an earlier one set
  auto& po = c.p.paths[path].ops;
  if (g.chance(0.3)) po.push_back({kOpDrivetrain, {}, drivetrain(g, moduleCount(g))});
  if (g.chance(0.15))
    for (size_t k = 0; k < po.size(); ++k)
      if (po[k].kind == kOpCounts) {
        PathOp again = po[k];
        for (auto& n : again.i) n = g.range(1, 5);
        po.push_back(again);
        break;
      }
  auto ops = po;
  auto replaces = [&](size_t k) {
    for (size_t q = 0; q < k; ++q)
      if (ops[q].kind == ops[k].kind) return true;
    return false;
  };
  TaskOp b = c.op(kTBuild, 0, path);
  int n = int(g.range(1, 3));
  bool abandon = g.chance(0.3), preferLast = g.chance(0.5);
  int alt = -1;
  for (int q = 0; q < n; ++q) {
    size_t k = g.below(ops.size());
    // constructing waypoints deserves attention
    if (g.chance(0.35)) k = 0;
    int64_t failAt = int64_t(failIndex(g, 40));
    int64_t react = 1;
    if (abandon && alt < 0) {
      for (int tries = 0; tries < 10; ++tries) {
        k = 1 + g.below(ops.size() - 1);
        int kd = ops[k].kind;
        if (tries < 5 && preferLast && !replaces(k)) continue;
        if ((kd != kOpDrivetrain && kd != kOpCounts) || replaces(k)) break;
        k = 0;
      }
      if (k > 0) {
        react = 0;
        PathSpec without = c.p.paths[path];
        without.ops.erase(without.ops.begin() + k);
        c.p.paths.push_back(without);
        alt = int(c.p.paths.size()) - 1;
        if (g.chance(0.5)) failAt = 1 + int64_t(g.below(4));
      }
    }
    b.i.insert(b.i.end(), {int64_t(k), failAt, int64_t(g.chance(0.4)), react});
  }
  b.c = alt;
  t.ops.push_back(b);
  if (g.chance(0.2)) t.ops.push_back(c.op(kTGuess, 0));
  int si = c.script(freeScript(g, 0, 2, 3));
  c.run(t, 0, path, si);
  if (g.chance(0.2)) c.run(t, 0, path, c.script(freeScript(g, 0, 2, 3)));
  c.p.failNodes = g.chance(0.3);
  c.p.tasks.push_back(t);
  schedule(g, c.p, false);
}

void genRunFaults(Ctx& c) {
  Rng& g = c.g;
  c.p.checkPosed = true;
  c.p.failNodes = g.chance(0.4);
  c.p.tasks.push_back(Task{});
  int nt = g.chance(0.5) ? 1 : int(g.range(2, 3));
  for (int k = 0; k < nt; ++k) {
    Task t;
    int gens = int(g.range(1, 3));
    for (int q = 0; q < gens; ++q) {
      int path = c.path(g.chance(0.3), int(g.below(3)));
      bool ffi = c.p.paths[path].ffi;
      int slot = k * 20 + q;
      Script s = freeScript(g, 0, 4, g.chance(0.7) ? 3 : int(g.below(6)));
      if (g.chance(0.2)) {
        s.throwAt = int(g.range(0, int64_t(s.iterUs.size())));
        s.throwKind = int(g.below(2));
      }
      int si = c.script(s);
      t.ops.push_back(c.op(kTBuild, slot, path));
      double top = c.p.failNodes ? 6000 : 1500;
      if (ffi) {
        TaskOp o = c.op(kTFfi, slot, si, c.handle());
        if (g.chance(0.6)) { o.failAt = failIndex(g, top); o.sticky = g.chance(0.3); }
        o.retry = g.chance(0.7);
        t.ops.push_back(o);
        t.ops.push_back(c.op(kTFfi, slot, c.script(freeScript(g, 0, 2, 3)), c.handle()));
      } else {
        TaskOp o = c.op(kTGen, slot, slot, c.handle());
        if (g.chance(0.4)) { o.failAt = failIndex(g, top); o.sticky = g.chance(0.3); }
        o.retry = 1;
        t.ops.push_back(o);
        TaskOp r = c.op(kTRun, slot, si);
        if (g.chance(0.5)) { r.failAt = failIndex(g, 60); r.sticky = g.chance(0.3); }
        r.retry = g.chance(0.7);
        t.ops.push_back(r);
        int cb = c.firstCb(path);
        if (cb >= 0 && g.chance(0.25))
          c.act(cb, int(g.below(3)), g.chance(0.7) ? kActThrow : kActThrowAlloc);
        if (g.chance(0.3)) t.ops.push_back(c.op(kTRun, slot, c.script(freeScript(g, 0, 3, 3))));
      }
      if (g.chance(0.4)) {
        if (!ffi) t.ops.push_back(c.op(kTDropGen, slot));
        t.ops.push_back(c.op(kTDropBld, slot));
      }
    }
    if (nt == 1) c.p.tasks[0] = t;
    else c.p.tasks.push_back(t);
  }
  if (g.chance(0.15)) {
    Task t;
    t.ops.push_back(c.op(kTSleep, g.range(0, 60000)));
    t.ops.push_back(c.op(kTCancel, g.below(2)));
    c.p.tasks.push_back(t);
  }
  schedule(g, c.p, c.p.tasks.size() > 1);
}

// Starting points between guess points: many of them, headings of any size.
void addGuesses(Rng& g, PathSpec& p) {
  auto angle = [&]() -> double {
    switch (g.below(6)) {
      case 0: return g.pick<double>({0, M_PI, -M_PI, M_PI / 2, -M_PI / 2, 2 * M_PI, 3 * M_PI, -2 * M_PI});
      case 1: return (g.chance(0.5) ? M_PI : -M_PI) + g.uni(-0.3, 0.3);
      case 2: return g.uni(-40, 40);
      case 3: return g.uni(-3.2, 3.2) + 2 * M_PI * double(g.range(-3, 3));
      default: return g.uni(-3.2, 3.2);
    }
  };
  int64_t wpts = 0;
  size_t countsAt = p.ops.size();
  for (size_t k = 0; k < p.ops.size(); ++k)
    if (p.ops[k].kind == kOpCounts) { wpts = int64_t(p.ops[k].i.size()) + 1; countsAt = k; }
  if (wpts < 2) return;
  auto& counts = p.ops[countsAt].i;
  for (auto& n : counts)
    if (n < 100) n = g.chance(0.5) ? n : g.range(1, wpts > 60 ? 3 : 24);
  std::vector<PathOp> extra;
  int n = int(g.range(1, 4));
  for (int q = 0; q < n; ++q) {
    int64_t w = g.range(0, wpts - 1);
    double x = g.uni(-4, 4), y = g.uni(-4, 4), h = angle();
    if (g.chance(0.08)) x = y = h = 0;
    if (w + 1 < wpts && g.chance(0.75)) {
      std::vector<double> d;
      int m = int(g.pick<int>({1, 1, 2, 2, 3, 4, 6}));
      for (int k = 0; k < m; ++k) {
        d.insert(d.end(), {x, y, h});
        if (!g.chance(0.1)) x = g.uni(-4, 4), y = g.uni(-4, 4);
        if (!g.chance(0.2)) h = angle();
      }
      extra.push_back({kOpSgmtGuess, {w}, d});
    } else {
      extra.push_back({int(g.pick<int>({kOpPose, kOpTrans, kOpGuess, kOpGuess})), {w}, {x, y, h}});
    }
  }
  for (auto& o : extra) p.ops.insert(p.ops.begin() + int64_t(g.below(countsAt + 1)), o), ++countsAt;
}
void genStart(Ctx& c) {
  Rng& g = c.g;
  c.p.tasks.push_back(Task{});
  int nt = g.chance(0.4) ? 1 : int(g.range(2, 3));
  for (int k = 0; k < nt; ++k) {
    Task t;
    int gens = int(g.range(1, 3));
    for (int q = 0; q < gens; ++q) {
      int path = c.path(c.layer(0.25), 0, g.chance(0.4));
      if (g.chance(0.25)) addGuesses(g, c.p.paths[size_t(path)]);
      int slot = k * 20 + q;
      int si = c.script(freeScript(g, 0, 2, 0));
      t.ops.push_back(c.op(kTBuild, slot, path));
      if (c.p.paths[path].ffi) {
        t.ops.push_back(c.op(kTFfi, slot, si, c.handle()));
        if (g.chance(0.3)) t.ops.push_back(c.op(kTFfi, slot, si, c.handle()));
      } else {
        TaskOp o = c.op(kTGen, slot, slot, c.handle());
        if (g.chance(0.3)) { o.failAt = failIndex(g, 1500); o.retry = 1; }
        t.ops.push_back(o);
        if (g.chance(0.3)) t.ops.push_back(c.op(kTGen, slot + 10, slot, c.handle()));
        if (g.chance(0.2)) t.ops.push_back(c.op(kTMove, slot));
        t.ops.push_back(c.op(kTRun, slot, si));
        t.ops.push_back(c.op(kTRun, slot + 10, si));
      }
    }
    if (nt == 1) c.p.tasks[0] = t;
    else c.p.tasks.push_back(t);
  }
  schedule(g, c.p, nt > 1);
}

void genInterpolation(Ctx& c) {
  genStart(c);
  for (auto& p : c.p.paths)
    if (c.g.chance(0.85)) addGuesses(c.g, p);
}

// Solves that take long, in time or in iterations, or stay imprecise.
void genSlow(Ctx& c) {
  Rng& g = c.g;
  c.p.tasks.push_back(Task{});
  int nt = g.chance(0.5) ? 1 : int(g.range(2, 3));
  for (int k = 0; k < nt; ++k) {
    Task t;
    int gens = int(g.range(1, 2));
    for (int q = 0; q < gens; ++q) {
      int path = c.path(g.chance(0.25), int(g.below(3)), g.chance(0.8));
      Script s = freeScript(g, 0, 3, int(g.below(6)));
      s.exit = g.chance(0.8) ? 0 : exitCode(g);
      switch (g.below(4)) {
        case 0:  // many iterations
          s.more = g.pick<int64_t>({20, 120, 700, 1200, 3500, 4990});
          s.moreUs = g.pick<int64_t>({1, 50, 900, 5000, 20000, 400000});
          if (g.chance(0.5)) s.more = g.range(1, s.more);
          if (g.chance(0.2)) s.still = g.range(0, 40);
          break;
        case 1:  // long ones: seconds to days
          s.more = g.range(1, 6);
          s.moreUs = g.pick<int64_t>({1000000, 3000000, 7000000, 45000000, 200000000, 4000000000, 90000000000});
          s.moreUs = s.moreUs / 2 + int64_t(g.below(uint64_t(s.moreUs)));
          break;
        case 2:  // stuck short of the optimum
          s.exit = 0;
          s.residual = g.pick<double>({1.2e-4, 1.6e-4, 3e-4, 9e-4, 4e-3, 0.02, 0.3, 5});
          break;
        default:
          s.exit = 0;
          s.residual = g.pick<double>({1e-12, 5e-9, 1e-7, 5e-7, 2e-6, 5e-5, 9e-5});
      }
      int si = c.script(s);
      c.buildRun(t, k * 20 + q, path, si, g.chance(0.3));
      if (g.chance(0.3)) {
        if (c.p.paths[path].ffi) t.ops.push_back(c.op(kTFfi, k * 20 + q, si, c.handle()));
        else t.ops.push_back(c.op(kTRun, k * 20 + q, si));
      }
      int cb = c.firstCb(path);
      if (cb >= 0 && g.chance(0.2)) c.act(cb, int(g.below(2)), kActSleep, g.pick<int64_t>({300, 40000, 6000000, 90000000}));
    }
    c.p.tasks.push_back(t);
  }
  schedule(g, c.p, nt > 1);
  clockFaults(g, c.p);
}

// Paths with everything that might divide by nothing: lines that are points,
// modules that share a place, waypoints and guesses on top of each other.
void genFinite(Ctx& c) {
  Rng& g = c.g;
  c.pRich = 0.1;
  c.p.tasks.push_back(Task{});
  int nt = g.chance(0.7) ? 1 : 2;
  for (int k = 0; k < nt; ++k) {
    Task t;
    int gens = int(g.range(1, 3));
    for (int q = 0; q < gens; ++q) {
      int path = c.path(c.layer(0.3), int(g.below(2)), g.chance(0.5));
      auto& ops = c.p.paths[path].ops;
      std::vector<std::pair<double, double>> places;
      for (auto& o : ops)
        if (o.kind == kOpPose || o.kind == kOpTrans || o.kind == kOpGuess) places.push_back({o.d[0], o.d[1]});
      auto place = [&](std::vector<double>& d, size_t at) {
        if (places.empty()) return;
        auto p = g.pick(places);
        d[at] = p.first;
        d[at + 1] = p.second;
      };
      for (auto& o : ops) {
        switch (o.kind) {
          case kOpPose: case kOpTrans: case kOpGuess:
            if (g.chance(0.2)) place(o.d, 0);
            if (g.chance(0.05)) o.d.assign(3, 0.0);
            if (g.chance(0.05)) o.d[2] = g.pick<double>({M_PI, -M_PI, 1e4, -3e5, M_PI / 2, 2 * M_PI});
            if (g.chance(0.02)) o.d[0] *= 1e4;
            break;
          case kOpSgmtGuess:
            for (size_t j = 0; j + 2 < o.d.size(); j += 3)
              if (g.chance(0.2)) place(o.d, j);
            break;
          case kOpWptCon: case kOpSgmtCon: {
            int type = int(o.i.back());
            if (g.chance(0.4)) {
              switch (type) {
                case kConLinePoint:
                  if (g.chance(0.5)) { o.d[2] = o.d[0]; o.d[3] = o.d[1]; break; }
                  // an end of the line, at the guess, where the point is
                  o.d[g.chance(0.7) ? 0 : 2] = 0;
                  o.d[o.d[0] == 0 ? 1 : 3] = 0;
                  place(o.d, 4);
                  break;
                case kConPointLine:
                  if (g.chance(0.5)) { o.d[4] = o.d[2]; o.d[5] = o.d[3]; break; }
                  o.d[0] = o.d[1] = 0;
                  place(o.d, g.chance(0.7) ? 2 : 4);
                  break;
                case kConPointAt: place(o.d, 0); break;
                case kConPointPoint: o.d[0] = o.d[1] = 0; place(o.d, 2); break;
                case kConVelMax: case kConAngVelMax: case kConAccMax: o.d[0] = 0; break;
              }
            }
            if (g.chance(0.1) && limitParam(type) >= 0) o.d[limitParam(type)] = 0;
            break;
          }
          case kOpBumpers: case kOpSgmtObst: case kOpWptObst:
            if (g.chance(0.15)) repeatCorner(g, o.d, 1);
            if (g.chance(0.05)) repeatCorner(g, o.d, 1);
            if (g.chance(0.1)) place(o.d, 1);
            if (g.chance(0.1)) o.d[0] = 0;
            break;
          case kOpDrivetrain: {
            size_t n = (o.d.size() - 2) / 5;
            if (g.chance(0.1)) o.d.resize(7), n = 1;
            if (g.chance(0.1))  // all in one place, or in a row
              for (size_t j = 1; j < n; ++j) {
                o.d[2 + 5 * j] = o.d[2];
                if (g.chance(0.8)) o.d[3 + 5 * j] = o.d[3];
              }
            if (g.chance(0.05)) o.d[2] = o.d[3] = 0;
            break;
          }
        }
      }
      Script s = freeScript(g, 0, 3, 0);
      s.special = 0;
      int slot = k * 20 + q;
      c.buildRun(t, slot, path, c.script(s), false);
      if (g.chance(0.2)) {
        if (c.p.paths[path].ffi) t.ops.push_back(c.op(kTFfi, slot, 0, c.handle()));
        else t.ops.push_back(c.op(kTRun, slot, 0));
      }
    }
    if (nt == 1) c.p.tasks[0] = t;
    else c.p.tasks.push_back(t);
  }
  schedule(g, c.p, nt > 1);
}

// The Rust-facing layer's own half of describing a path.
void genRust(Ctx& c) {
  Rng& g = c.g;
  c.rustOnly = true;
  if (g.chance(0.25)) {
    genStart(c);
    return;
  }
  int n = int(g.range(2, 3));
  for (int k = 0; k < n; ++k) {
    switch (g.below(4)) {
      case 0: physicsCase(c); break;
      case 1: obstacleCase(c); break;
      default: constraintCase(c);
    }
  }
  arrange(c);
}

}  // namespace

// Hundreds of generations in one process: counters and leftovers add up.
void genHistory(Ctx& c, const std::string& prop) {
  Rng& g = c.g;
  c.pRich = c.pBig = c.pUnset = c.pVast = 0;
  c.p.checkPosed = prop == "S08";
  c.p.tasks.push_back(Task{});
  bool clash = prop == "S01" || prop == "S02" || (prop != "S08" && g.chance(0.3));
  int nt = clash && g.chance(0.5) ? 2 : 1;
  int64_t len = g.pick<int64_t>({40, 70, 140, 270, 300});
  for (int k = 0; k < nt; ++k) {
    Task t;
    int slot = k * 20;
    int ffi = prop == "S12" ? 1 : int(g.chance(0.25));
    int path = c.path(ffi, int(g.below(2)));
    std::vector<int> scripts;
    for (int q = 0; q < 5; ++q) {
      Script s = freeScript(g, 0, 2, g.chance(0.5) ? 5 : 2);
      if (g.chance(0.7)) s.exit = 0;
      scripts.push_back(c.script(s));
    }
    int once = int(g.below(3));  // 0: one generator throughout
    t.ops.push_back(c.op(kTBuild, slot, path));
    if (!ffi) t.ops.push_back(c.op(kTGen, slot, slot, c.handle()));
    double pc = prop == "S02" ? g.pick<double>({0, 0.1, 0.9}) : g.pick<double>({0, 0, 0.1});
    for (int64_t q = 0; q < len; ++q) {
      if (g.chance(pc)) t.ops.push_back(c.op(kTCancel, g.below(2)));
      int si = g.pick(scripts);
      if (ffi) {
        t.ops.push_back(c.op(kTFfi, slot, si, c.handle()));
      } else {
        if (once && g.chance(once == 1 ? 0.1 : 0.9)) {
          t.ops.push_back(c.op(kTDropGen, slot));
          t.ops.push_back(c.op(kTGen, slot, slot, c.handle()));
        }
        t.ops.push_back(c.op(kTRun, slot, si));
      }
    }
    c.p.tasks.push_back(t);
  }
  if (clash) {
    Task t;
    int64_t n = g.pick<int64_t>({3, 20, 140, 300});
    for (int64_t q = 0; q < n; ++q) {
      if (g.chance(0.7)) t.ops.push_back(c.op(kTSleep, g.chance(0.5) ? g.range(0, 900) : g.range(0, 40000)));
      t.ops.push_back(c.op(kTCancel, g.below(2)));
    }
    c.p.tasks.push_back(t);
  }
  schedule(g, c.p, c.p.tasks.size() > 2);
  c.p.sched.memMean = 0;
  if (prop == "S05") clockFaults(g, c.p);
}

// One generation sits in a long iteration while requests come and go around
// it, as many as it takes for a narrow counter to come full circle.
void genManyRequests(Ctx& c) {
  Rng& g = c.g;
  c.pRich = c.pBig = c.pUnset = c.pVast = 0;
  c.p.tasks.push_back(Task{});
  int64_t n = g.pick<int64_t>({127, 128, 129, 255, 256, 256, 257, 300});
  bool consumed = g.chance(0.7);
  int64_t way = int64_t(g.below(3));  // the C++ way, the Rust way, either
  int slow = c.path(g.chance(0.25), int(g.below(2))), quick = c.path(g.chance(0.25), 0);
  Task a, b;
  Script s = freeScript(g, 1, 4, 3);
  s.exit = 0;
  int at = int(g.below(s.iterUs.size()));
  s.iterUs[at] = 3000000 + n * 20000;
  s.iterUs.resize(size_t(at) + 3, 20000);
  c.buildRun(a, 0, slow, c.script(s), false);
  if (g.chance(0.5)) c.run(a, 0, slow, c.script(freeScript(g, 0, 3, 3)));
  Script q = freeScript(g, 0, 0, 0);
  q.exit = 0;
  q.iterUs.assign(1, 200);
  int qs = c.script(q);
  b.ops.push_back(c.op(kTBuild, 20, quick));
  bool ffi = c.p.paths[quick].ffi;
  if (!ffi) b.ops.push_back(c.op(kTGen, 20, 20, c.handle()));
  b.ops.push_back(c.op(kTSleep, g.range(1000, 2000000)));
  for (int64_t k = 0; k < n; ++k) {
    b.ops.push_back(c.op(kTCancel, way < 2 ? way : g.below(2)));
    if (!consumed) continue;
    if (ffi) b.ops.push_back(c.op(kTFfi, 20, qs, c.handle()));
    else b.ops.push_back(c.op(kTRun, 20, qs));
  }
  if (g.chance(0.5)) {
    if (ffi) b.ops.push_back(c.op(kTFfi, 20, c.script(freeScript(g, 1, 3, 3)), c.handle()));
    else b.ops.push_back(c.op(kTRun, 20, c.script(freeScript(g, 1, 3, 3))));
  }
  c.p.tasks.push_back(a);
  c.p.tasks.push_back(b);
  schedule(g, c.p, true);
  c.p.sched.memMean = 0;
  c.p.sched.pStall = 0;
}

// many generations at once, each on a thread of its own
void genCrowd(Ctx& c, const std::string& prop) {
  Rng& g = c.g;
  c.pRich = c.pBig = c.pUnset = c.pVast = 0;
  c.p.tasks.push_back(Task{});
  bool progress = prop == "S04" || prop == "S05";
  int nt = g.chance(0.25) ? g.pick<int>({15, 16, 17, 31, 32, 33, 40}) : int(g.range(5, 14));
  int style = int(g.below(6));
  int shared = -1;
  if (g.chance(0.4)) {
    shared = c.path(0, 1);
    c.p.tasks[0].ops.push_back(c.op(kTBuild, kSharedBase, shared));
  }
  for (int k = 0; k < nt; ++k) {
    Task t;
    if (g.chance(0.3)) t.ops.push_back(c.op(kTSleep, pause(g)));
    Script s = freeScript(g, progress ? 2 : 0, progress ? 6 : 4, g.chance(0.7) ? style : int(g.below(6)));
    int si = c.script(s);
    int path = shared;
    if (shared >= 0 && g.chance(0.5)) {
      t.ops.push_back(c.op(kTGen, k * 20, kSharedBase, c.handle()));
      t.ops.push_back(c.op(kTRun, k * 20, si));
    } else {
      path = c.path(prop == "S12" ? g.chance(0.8) : g.chance(0.25), int(g.range(progress, 2)));
      c.buildRun(t, k * 20, path, si, g.chance(0.4));
      int cb = c.firstCb(path);
      if (g.chance(0.08)) c.act(cb, int(g.below(2)), kActCancel, g.below(2));
      if (g.chance(0.15)) c.act(cb, int(g.below(2)), kActSleep, pause(g));
      if (k + 1 < nt && g.chance(0.1)) c.act(cb, int(g.below(2)), kActAwait, g.range(k + 2, nt));
      if (g.chance(0.1)) c.nest(cb, int(g.below(2)), 0.3, 1, progress, 3);
    }
    if (!progress && g.chance(0.2)) c.run(t, k * 20, path, c.script(freeScript(g, 0, 3, 3)));
    c.p.tasks.push_back(t);
  }
  bool cancels = prop == "S01" || prop == "S02" || g.chance(0.3);
  if (cancels) {
    Task t;
    int n = int(g.range(1, 4));
    for (int q = 0; q < n; ++q) {
      t.ops.push_back(c.op(kTSleep, g.range(0, 60000)));
      t.ops.push_back(c.op(kTCancel, g.below(2)));
    }
    c.p.tasks.push_back(t);
  }
  schedule(g, c.p, true);
  if (progress) clockFaults(g, c.p);
  if (prop == "S04" && g.chance(0.7)) c.p.sched.clockGrain = 1;
  if (prop == "S06") c.p.checkPosed = c.p.sched.races = true;
}

Plan planGenerate(const std::string& prop, uint64_t seed, bool thorough) {
  uint64_t h = 1469598103934665603ull;
  for (char ch : prop) h = (h ^ uint8_t(ch)) * 1099511628211ull;
  Ctx c(seed * 1000003 ^ h, thorough);
  c.p.prop = prop;
  g_haveLast = false;
  if (prop == "S03" || prop == "S04" || prop == "S12" || prop == "S17") c.pBig = 0.02;
  if (prop == "S03" || prop == "S12" || prop == "S17" || prop == "S21" || prop == "S24") c.pUnset = 0.04;
  c.p.seed = seed;
  int n = 3;
  bool history = prop == "S01" || prop == "S02" || prop == "S03" || prop == "S05" || prop == "S08" || prop == "S12";
  if (history && c.g.chance(0.015)) genHistory(c, prop);
  else if ((prop == "S01" || prop == "S02") && c.g.chance(0.008)) genManyRequests(c);
  else if ((history || prop == "S04" || prop == "S06") && prop != "S08" && c.g.chance(0.01)) genCrowd(c, prop);
  else if (prop == "S01") genCancel(c, false);
  else if (prop == "S02") genCancel(c, true);
  else if (prop == "S03") genOutcome(c, 0);
  else if (prop == "S04") genProgress(c, false);
  else if (prop == "S05") genProgress(c, true);
  else if (prop == "S06") genConcurrent(c);
  else if (prop == "S07") genLifetime(c);
  else if (prop == "S08") genRerun(c);
  else if (prop == "S09") genBuilderFaults(c);
  else if (prop == "S10") genRunFaults(c);
  else if (prop == "S12") genOutcome(c, 1);
  else if (prop == "S13") { for (int k = 0; k < n; ++k) physicsCase(c); arrange(c); }
  else if (prop == "S14") { for (int k = 0; k < n; ++k) constraintCase(c); arrange(c); }
  else if (prop == "S15") { for (int k = 0; k < n; ++k) obstacleCase(c); arrange(c); }
  else if (prop == "S16") { optimalCase(c); arrange(c); }
  else if (prop == "S17") genStart(c);
  else if (prop == "S18") genRust(c);
  else if (prop == "S21") genInterpolation(c);
  else if (prop == "S19") genSlow(c);
  else if (prop == "S24") genFinite(c);
  else if (prop == "K13") { headingNormCase(c); arrange(c); c.p.prop = "S13"; }
  // keep what is posed within reason (S09's plans name calls by position: they
  // were kept so from the start)
  if (prop != "S09" && c.p.trajs.empty())
    for (auto& p : c.p.paths) trim(p);
  // and how often it is posed
  int64_t heaviest = 1;
  for (auto& p : c.p.paths) heaviest = std::max(heaviest, weight(p));
  for (auto& t : c.p.tasks) {
    int64_t left = std::max<int64_t>(3, kMaxTotal / heaviest / int64_t(c.p.tasks.size()));
    std::vector<TaskOp> keep;
    for (auto& o : t.ops)
      if ((o.kind != kTGen && o.kind != kTFfi) || left-- > 0) keep.push_back(o);
    t.ops = keep;
  }
  int64_t most = 1;  // values read per iteration
  for (auto& p : c.p.paths) {
    int64_t n = 1, mods = 0, cbs = 1;
    for (auto k : refModel(p).counts) n += int64_t(k);
    for (auto& o : p.ops) {
      if (o.kind == kOpDrivetrain) mods = int64_t(o.d.size() - 2) / 5;
      if (o.kind == kOpCallback) ++cbs;
    }
    most = std::max(most, n * (12 + 2 * mods) * cbs);
  }
  for (auto& s : c.p.scripts) s.more = std::min(s.more, std::max<int64_t>(20, 8000000 / most));
  // an exception cannot leave a Rust callback
  std::set<int> rust;
  for (auto& p : c.p.paths)
    if (p.ffi)
      for (auto& o : p.ops)
        if (o.kind == kOpCallback) rust.insert(int(o.i[0]));
  auto& a = c.p.acts;
  a.erase(std::remove_if(a.begin(), a.end(), [&](const CbAct& x) {
    return (x.kind == kActThrow || x.kind == kActThrowAlloc) && rust.count(x.cb);
  }), a.end());
  // some of it through the Rust interface itself
  Rng rg(c.p.seed ^ 0x52757374ull);
  for (auto& p : c.p.paths)
    if (p.ffi && rg.chance(0.6)) {
      p.ffi = 2;
      for (auto& o : p.ops)  // as many as there are Rust functions for
        if (o.kind == kOpCallback && o.i[0] >= 128) p.ffi = 1;
    }
  for (auto& t : c.p.tasks)
    for (auto& o : t.ops)
      if (o.kind == kTCancel && o.a && rg.chance(0.5)) o.a = 2;
  return c.p;
}
