// Reference model: what a path means, written from the documentation and
// independent of the library's code.
#include <math.h>
#include <stdarg.h>
#include <stdio.h>

#include <algorithm>

#include "engine.h"

static std::string fmtd(const char* f, ...) {
  char b[400];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

RefModel refModel(const PathSpec& p) {
  RefModel m;
  struct RawCon { int64_t from, to; int type; std::vector<double> d; };
  struct RawObst { int64_t from, to; RefObst o; };
  std::vector<RawCon> cons;
  std::vector<RawObst> obst;
  std::vector<std::pair<double, std::vector<double>>> bumpers;
  auto grow = [&](int64_t idx) {
    while (int64_t(m.wpts) <= idx) {
      if (m.wpts) m.counts.push_back(40);
      ++m.wpts;
      m.guess.push_back({0, 0, 0});
      m.via.emplace_back();
    }
  };
  for (const auto& op : p.ops) {
    const auto& i = op.i;
    const auto& d = op.d;
    switch (op.kind) {
      case kOpDrivetrain:
        m.mass = d[0];
        m.moi = d[1];
        m.mods.assign(d.begin() + 2, d.end());
        break;
      case kOpPose:
        grow(i[0]);
        cons.push_back({i[0], i[0], kConPoseEq, d});
        m.guess[i[0]] = d;
        break;
      case kOpTrans:
        grow(i[0]);
        cons.push_back({i[0], i[0], kConTransEq, d});
        m.guess[i[0]] = d;
        break;
      case kOpGuess:
        grow(i[0]);
        m.guess[i[0]] = d;
        break;
      case kOpSgmtGuess: {
        grow(i[0] + 1);
        auto& v = m.via[i[0] + 1];
        v.insert(v.begin(), d.begin(), d.end());
        break;
      }
      case kOpBumpers:
        bumpers.push_back({d[0], std::vector<double>(d.begin() + 1, d.end())});
        break;
      case kOpSetBumpers: {
        double l = d[0] / 2, w = d[1] / 2;
        bumpers.push_back({0.01, {l, w, -l, w, -l, -w, l, -w}});
        break;
      }
      case kOpWptObst:
      case kOpSgmtObst: {
        int64_t a = i[0], b = op.kind == kOpWptObst ? i[0] : i[1];
        // an obstacle constrains nothing without bumpers, and then creates
        // no waypoints either
        if (!bumpers.empty()) grow(b);
        RefObst o;
        o.safety = d[0];
        o.pts.assign(d.begin() + 1, d.end());
        o.bumpers = bumpers;
        obst.push_back({a, b, o});
        break;
      }
      case kOpWptCon:
        grow(i[0]);
        cons.push_back({i[0], i[0], int(i[1]), d});
        break;
      case kOpSgmtCon:
        grow(i[1]);
        cons.push_back({i[0], i[1], int(i[2]), d});
        break;
      case kOpCounts: m.counts.assign(i.begin(), i.end()); break;
      case kOpCallback: m.callbacks.push_back(i[0]); break;
    }
  }
  size_t n = m.samples();
  for (auto& c : cons) {
    RefCon r{c.type, c.d, std::vector<char>(n, 0)};
    if (size_t(c.to) < m.wpts && m.counts.size() + 1 == m.wpts)
      for (size_t k = m.sampleOf(c.from); k <= m.sampleOf(c.to) && k < n; ++k) r.at[k] = 1;
    m.cons.push_back(std::move(r));
  }
  for (auto& o : obst) {
    RefObst r = o.o;
    r.at.assign(n, 0);
    if (size_t(o.to) < m.wpts && m.counts.size() + 1 == m.wpts)
      for (size_t k = m.sampleOf(o.from); k <= m.sampleOf(o.to) && k < n; ++k) r.at[k] = 1;
    m.obst.push_back(std::move(r));
  }
  return m;
}

std::string interpolation(const RefModel& m, const CutSolution& s) {
  constexpr double tol = 1e-6;
  size_t at = 0;
  for (size_t w = 1; w < m.wpts; ++w) {
    std::vector<double> pts = m.guess[w - 1];
    pts.insert(pts.end(), m.via[w].begin(), m.via[w].end());
    pts.insert(pts.end(), m.guess[w].begin(), m.guess[w].end());
    size_t legs = pts.size() / 3 - 1, N = m.counts[w - 1];
    bool every = N >= legs;  // room to stop at every guess point
    if (at + N >= s.x.size()) return "too few samples";
    // is sample k at fraction t of this leg?
    auto on = [&](size_t k, size_t leg, double t) {
      const double* a = &pts[3 * leg];
      const double* b = a + 3;
      if (!(fabs(s.x[k] - a[0] - t * (b[0] - a[0])) < tol) ||
          !(fabs(s.y[k] - a[1] - t * (b[1] - a[1])) < tol))
        return false;
      double turn = remainder(b[2] - a[2], 2 * M_PI);
      for (double d : {turn, fabs(turn) > M_PI - 1e-9 ? -turn : turn}) {
        double h = a[2] + t * d;
        if (fabs(s.c[k] - cos(h)) < tol && fabs(s.s[k] - sin(h)) < tol) return true;
      }
      return false;
    };
    // legs are walked in order, each in some number of even steps; which
    // numbers is up to the library, as long as they use up the samples
    std::vector<char> reach(N + 1, 0);
    reach[0] = 1;
    size_t furthest = 0;
    for (size_t leg = 0; leg < legs; ++leg) {
      std::vector<char> next(N + 1, 0);
      for (size_t p = 0; p <= N; ++p) {
        if (!reach[p]) continue;
        for (size_t n = every ? 1 : 0; p + n <= N; ++n) {
          if (leg + 1 == legs && p + n != N) continue;
          bool ok = true;
          for (size_t k = 1; k <= n && ok; ++k) {
            ok = on(at + p + k, leg, double(k) / double(n));
            if (ok) furthest = std::max(furthest, p + k);
          }
          if (ok) next[p + n] = 1;
        }
      }
      reach = next;
    }
    if (!reach[N])
      return fmtd("waypoint %zu to %zu, %zu guess points in between, %zu samples: the starting point "
                  "leaves the straight line at sample %zu (%g, %g, %g)", w - 1, w, legs - 1, N,
                  furthest + 1, s.x[std::min(at + furthest + 1, s.x.size() - 1)],
                  s.y[std::min(at + furthest + 1, s.x.size() - 1)],
                  atan2(s.s[std::min(at + furthest + 1, s.x.size() - 1)],
                        s.c[std::min(at + furthest + 1, s.x.size() - 1)]));
    at += N;
  }
  return "";
}

static double segDist(double px, double py, double ax, double ay, double bx, double by) {
  double lx = bx - ax, ly = by - ay, vx = px - ax, vy = py - ay;
  double l2 = lx * lx + ly * ly;
  double t = l2 > 0 ? (vx * lx + vy * ly) / l2 : 0;
  t = std::min(1.0, std::max(0.0, t));
  return hypot(px - (ax + t * lx), py - (ay + t * ly));
}
static double pointToOutline(double px, double py, const std::vector<double>& o) {
  size_t n = o.size() / 2;
  if (n == 1) return hypot(px - o[0], py - o[1]);
  double best = INFINITY;
  for (size_t k = 0; k + 1 < n; ++k)
    best = std::min(best, segDist(px, py, o[2 * k], o[2 * k + 1], o[2 * k + 2], o[2 * k + 3]));
  if (n >= 3)
    best = std::min(best, segDist(px, py, o[2 * n - 2], o[2 * n - 1], o[0], o[1]));
  return best;
}
double outlineClearance(const std::vector<double>& bumper, const std::vector<double>& obst,
                        double x, double y, double c, double s) {
  std::vector<double> b;
  for (size_t k = 0; k + 1 < bumper.size(); k += 2) {
    b.push_back(x + c * bumper[k] - s * bumper[k + 1]);
    b.push_back(y + s * bumper[k] + c * bumper[k + 1]);
  }
  double best = INFINITY;
  for (size_t k = 0; k + 1 < b.size(); k += 2)
    best = std::min(best, pointToOutline(b[k], b[k + 1], obst));
  for (size_t k = 0; k + 1 < obst.size(); k += 2)
    best = std::min(best, pointToOutline(obst[k], obst[k + 1], b));
  return best;
}

double conMeasure(const RefCon& c, const CutSolution& t, size_t k, double& limit) {
  const auto& d = c.d;
  double x = t.x[k], y = t.y[k], co = t.c[k], si = t.s[k];
  auto fx = [&](double rx, double ry) { return x + co * rx - si * ry; };
  auto fy = [&](double rx, double ry) { return y + si * rx + co * ry; };
  switch (c.type) {
    case kConVelDir: {  // off-axis part of the velocity
      limit = 0;
      return fabs(t.vx[k] * sin(d[0]) - t.vy[k] * cos(d[0]));
    }
    case kConVelMax: limit = d[0]; return hypot(t.vx[k], t.vy[k]);
    case kConAngVelMax: limit = d[0]; return fabs(t.w[k]);
    case kConAccMax: limit = d[0]; return hypot(t.ax[k], t.ay[k]);
    case kConPointAt: {
      double dx = d[0] - x, dy = d[1] - y;
      double a = atan2(co * dy - si * dx, co * dx + si * dy);
      limit = d[2];
      return fabs(a);
    }
    case kConLinePoint:
      limit = -d[6];
      return -segDist(d[4], d[5], fx(d[0], d[1]), fy(d[0], d[1]), fx(d[2], d[3]), fy(d[2], d[3]));
    case kConPointLine:
      limit = -d[6];
      return -segDist(fx(d[0], d[1]), fy(d[0], d[1]), d[2], d[3], d[4], d[5]);
    case kConPointPoint:
      limit = -d[4];
      return -hypot(fx(d[0], d[1]) - d[2], fy(d[0], d[1]) - d[3]);
    case kConPoseEq:
      limit = 0;
      return std::max(hypot(x - d[0], y - d[1]),
                      // headings are compared as angles
                      fabs(remainder(atan2(si, co) - d[2], 2 * M_PI)));
    default:
      limit = 0;
      return hypot(x - d[0], y - d[1]);
  }
}

double totalTime(const CutSolution& s) {
  double t = 0;
  for (double d : s.dt) t += d;
  return t;
}

// A measured excess `v` over a limit: certainly bad above `bad`, certainly
// fine below `fine`.
namespace {
struct Judge {
  int state = -1;
  std::string tag, why;
  void add(double v, double bad, double fine, const char* t, const std::string& w) {
    if (std::isnan(v) || v > bad) {
      if (state != 1) {
        state = 1;
        tag = t;
        why = w;
      }
    } else if (v > fine && state == -1) {
      state = 0;
      why = w;
    }
  }
};
}  // namespace

int refVerdict(const RefModel& m, const CutSolution& s, std::string& tag, std::string& why) {
  size_t n = m.samples();
  size_t nm = m.mods.size() / 5;
  Judge j;
  auto sized = [&](const std::vector<double>& v, size_t k) { return v.size() == k; };
  if (!sized(s.x, n) || !sized(s.y, n) || !sized(s.c, n) || !sized(s.s, n) ||
      !sized(s.vx, n) || !sized(s.vy, n) || !sized(s.w, n) || !sized(s.ax, n) ||
      !sized(s.ay, n) || !sized(s.al, n) || s.fx.size() != n || s.fy.size() != n ||
      s.dt.size() + 1 != n) {
    tag = "phys";
    why = fmtd("%zu samples and %zu time steps for %zu control intervals", s.x.size(),
               s.dt.size(), n - 1);
    return 1;
  }
  const double kBad = 1e-4, kFine = 1e-8;  // equalities
  for (size_t k = 0; k < n; ++k) {
    j.add(fabs(hypot(s.c[k], s.s[k]) - 1), 1e-3, 1e-8, "phys",
          fmtd("heading of sample %zu is not a unit vector (%g, %g)", k, s.c[k], s.s[k]));
    if (s.fx[k].size() != nm || s.fy[k].size() != nm) {
      j.add(1, 0, 0, "phys", fmtd("sample %zu has %zu module forces", k, s.fx[k].size()));
      break;
    }
  }
  if (j.state == 1) { tag = j.tag; why = j.why; return 1; }
  for (size_t k = 1; k < n; ++k) {
    double dt = s.dt[k - 1];
    j.add(-dt, 1e-4, -1e-6, "phys", fmtd("time step %zu is %g", k - 1, dt));
    j.add(fabs(s.x[k - 1] + s.vx[k] * dt - s.x[k]), kBad, kFine, "phys",
          fmtd("x does not follow vx at sample %zu", k));
    j.add(fabs(s.y[k - 1] + s.vy[k] * dt - s.y[k]), kBad, kFine, "phys",
          fmtd("y does not follow vy at sample %zu", k));
    double dth = remainder(atan2(s.s[k], s.c[k]) - atan2(s.s[k - 1], s.c[k - 1]) - s.w[k] * dt,
                           2 * M_PI);
    j.add(fabs(dth), kBad, kFine, "phys",
          fmtd("heading does not follow the angular velocity at sample %zu", k));
    j.add(fabs(s.vx[k - 1] + s.ax[k] * dt - s.vx[k]), kBad, kFine, "phys",
          fmtd("vx does not follow ax at sample %zu", k));
    j.add(fabs(s.vy[k - 1] + s.ay[k] * dt - s.vy[k]), kBad, kFine, "phys",
          fmtd("vy does not follow ay at sample %zu", k));
    j.add(fabs(s.w[k - 1] + s.al[k] * dt - s.w[k]), kBad, kFine, "phys",
          fmtd("angular velocity does not follow its acceleration at sample %zu", k));
  }
  for (size_t k = 0; k < n; ++k) {
    double fx = 0, fy = 0, tau = 0;
    for (size_t q = 0; q < nm; ++q) {
      const double* d = &m.mods[5 * q];
      fx += s.fx[k][q];
      fy += s.fy[k][q];
      double rx = s.c[k] * d[0] - s.s[k] * d[1], ry = s.s[k] * d[0] + s.c[k] * d[1];
      tau += rx * s.fy[k][q] - ry * s.fx[k][q];
      // wheel speed limit
      double vrx = s.c[k] * s.vx[k] + s.s[k] * s.vy[k];
      double vry = -s.s[k] * s.vx[k] + s.c[k] * s.vy[k];
      double v = hypot(vrx - d[1] * s.w[k], vry + d[0] * s.w[k]);
      double vmax = d[2] * d[3];
      j.add(v / vmax - 1, 0.01, -0.01, "phys",
            fmtd("wheel speed %g of module %zu at sample %zu, limit %g", v, q, k, vmax));
      double f = hypot(s.fx[k][q], s.fy[k][q]);
      double fmax = d[4] / d[2];
      j.add(f / fmax - 1, 0.01, -0.01, "phys",
            fmtd("force %g of module %zu at sample %zu, limit %g", f, q, k, fmax));
    }
    double sc = 1e-4 * (1 + m.mass), sf = 1e-8 * (1 + m.mass);
    if (nm) {
      j.add(fabs(fx - m.mass * s.ax[k]), sc, sf, "phys",
            fmtd("forces in x give %g at sample %zu, mass times acceleration is %g", fx, k,
                 m.mass * s.ax[k]));
      j.add(fabs(fy - m.mass * s.ay[k]), sc, sf, "phys",
            fmtd("forces in y give %g at sample %zu, mass times acceleration is %g", fy, k,
                 m.mass * s.ay[k]));
      j.add(fabs(tau - m.moi * s.al[k]), sc, sf, "phys",
            fmtd("torque %g at sample %zu, inertia times acceleration is %g", tau, k,
                 m.moi * s.al[k]));
    }
  }
  static const char* kNames[] = {"velocity direction", "velocity limit",
                                 "angular velocity limit", "acceleration limit",
                                 "point-at", "line-point distance",
                                 "point-line distance", "point-point distance",
                                 "pose", "translation"};
  for (size_t ci = 0; ci < m.cons.size(); ++ci) {
    const auto& c = m.cons[ci];
    for (size_t k = 0; k < n; ++k) {
      if (!c.at[k]) continue;
      double lim;
      double v = conMeasure(c, s, k, lim);
      bool eq = c.type == kConVelDir || c.type == kConPoseEq || c.type == kConTransEq;
      std::string w = fmtd("%s constraint %zu at sample %zu: %g, limit %g", kNames[c.type], ci,
                           k, fabs(v), fabs(lim));
      if (!eq && lim == 0 && c.type <= kConAccMax) {  // none at all
        j.add(v, 0.002, 1e-9, "con", w);
      } else if (eq) {
        j.add(v - lim, c.type == kConVelDir ? 0.03 : 1e-3,
              c.type == kConVelDir ? 1e-6 : 1e-9, "con", w);
      } else {
        double sc = std::max(0.1, fabs(lim));
        j.add((v - lim) / sc, 0.02, -0.02, "con", w);
      }
    }
  }
  for (size_t oi = 0; oi < m.obst.size(); ++oi) {
    const auto& o = m.obst[oi];
    for (size_t k = 0; k < n; ++k) {
      if (!o.at[k]) continue;
      for (size_t b = 0; b < o.bumpers.size(); ++b) {
        double need = o.safety + o.bumpers[b].first;
        double have = outlineClearance(o.bumpers[b].second, o.pts, s.x[k], s.y[k], s.c[k], s.s[k]);
        j.add((need - have) / std::max(0.05, need), 0.02, -0.02, "obst",
              fmtd("bumper %zu is %g from obstacle %zu at sample %zu, needs %g", b, have, oi, k,
                   need));
      }
    }
  }
  tag = j.tag;
  why = j.why;
  return j.state;
}
