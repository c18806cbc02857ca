// Calls the real library. Compiled with the library's sources and with the
// same instrumentation; everything here runs as a user of the public API.
#include <new>
#include <utility>

#include "RustFFI.hpp"
#include "trajopt/SwerveTrajectoryGenerator.hpp"
#include "trajopt/util/Cancellation.hpp"
#include "trajoptlib/src/lib.rs.h"

#include "spec.h"
#ifdef SIM_RUST
#include <string_view>

#include "wire.h"
#endif

extern "C" {
void rt_cut_enter();
void rt_cut_leave();
int rt_cut_save();
void rt_cut_restore(int);
}
namespace {
struct Cut {
  Cut() { rt_cut_enter(); }
  ~Cut() { rt_cut_leave(); }
};
struct Host {
  int s;
  Host() : s(rt_cut_save()) {}
  ~Host() { rt_cut_restore(s); }
};
using B = trajopt::SwervePathBuilder;
using F = trajopt::rsffi::SwervePathBuilder;
using G = trajopt::SwerveTrajectoryGenerator;

std::vector<trajopt::Translation2d> points(const std::vector<double>& d,
                                           size_t from) {
  std::vector<trajopt::Translation2d> p;
  for (size_t k = from; k + 1 < d.size(); k += 2) p.emplace_back(d[k], d[k + 1]);
  return p;
}
trajopt::Constraint con(int type, const std::vector<double>& d) {
  using namespace trajopt;
  switch (type) {
    case kConVelDir: return LinearVelocityDirectionConstraint{d[0]};
    case kConVelMax: return LinearVelocityMaxMagnitudeConstraint{d[0]};
    case kConAngVelMax: return AngularVelocityMaxMagnitudeConstraint{d[0]};
    case kConAccMax: return LinearAccelerationMaxMagnitudeConstraint{d[0]};
    case kConPointAt: return PointAtConstraint{{d[0], d[1]}, d[2]};
    case kConLinePoint:
      return LinePointConstraint{{d[0], d[1]}, {d[2], d[3]}, {d[4], d[5]}, d[6]};
    case kConPointLine:
      return PointLineConstraint{{d[0], d[1]}, {d[2], d[3]}, {d[4], d[5]}, d[6]};
    case kConPointPoint:
      return PointPointConstraint{{d[0], d[1]}, {d[2], d[3]}, d[4]};
    case kConPoseEq: return PoseEqualityConstraint{d[0], d[1], d[2]};
    default: return TranslationEqualityConstraint{d[0], d[1]};
  }
}
// A progress callback with a payload too big for the small-object buffer, so
// that its storage is part of what lifetime checking sees.
struct Cb {
  int64_t id;
  int64_t pad[4];
  void operator()(trajopt::SwerveSolution& s, int64_t handle) const;
};
void copySolution(const trajopt::SwerveSolution& s, CutSolution& o) {
  o.dt = s.dt; o.x = s.x; o.y = s.y; o.c = s.thetacos; o.s = s.thetasin;
  o.vx = s.vx; o.vy = s.vy; o.w = s.omega; o.ax = s.ax; o.ay = s.ay;
  o.al = s.alpha; o.fx = s.moduleFX; o.fy = s.moduleFY;
}
void Cb::operator()(trajopt::SwerveSolution& s, int64_t handle) const {
  int64_t i = id ^ pad[3];
  Host h;
  CutSolution o;
  copySolution(s, o);
  EngineCallback(i, &o, nullptr, handle);
}
void copySamples(const trajopt::rsffi::HolonomicTrajectory& t,
                 std::vector<CutSample>& out) {
  for (size_t k = 0; k < t.samples.size(); ++k) {
    const auto& a = t.samples[k];
    CutSample s;
    s.t = a.timestamp; s.x = a.x; s.y = a.y; s.h = a.heading;
    s.vx = a.velocity_x; s.vy = a.velocity_y; s.w = a.angular_velocity;
    for (size_t j = 0; j < a.module_forces_x.size(); ++j) s.fx.push_back(a.module_forces_x[j]);
    for (size_t j = 0; j < a.module_forces_y.size(); ++j) s.fy.push_back(a.module_forces_y[j]);
    out.push_back(std::move(s));
  }
}
void rustTrampoline(trajopt::rsffi::HolonomicTrajectory t, int64_t handle,
                    void* fn) {
  Host h;
  std::vector<CutSample> s;
  copySamples(t, s);
  EngineCallback(reinterpret_cast<intptr_t>(fn), nullptr, &s, handle);
}
rust::Vec<double> rvec(const std::vector<double>& d, size_t from, size_t step) {
  rust::Vec<double> v;
  for (size_t k = from; k < d.size(); k += step) v.push_back(d[k]);
  return v;
}
void applyCpp(B& b, const PathOp& op) {
  const auto& i = op.i;
  const auto& d = op.d;
  switch (op.kind) {
    case kOpDrivetrain: {
      trajopt::SwerveDrivetrain t;
      t.mass = d[0];
      t.moi = d[1];
      for (size_t k = 2; k + 4 < d.size(); k += 5)
        t.modules.push_back({{d[k], d[k + 1]}, d[k + 2], d[k + 3], d[k + 4]});
      b.SetDrivetrain(std::move(t));
      break;
    }
    case kOpPose: b.PoseWpt(i[0], d[0], d[1], d[2]); break;
    case kOpTrans: b.TranslationWpt(i[0], d[0], d[1], d[2]); break;
    case kOpGuess: b.WptInitialGuessPoint(i[0], {d[0], d[1], {d[2]}}); break;
    case kOpSgmtGuess: {
      std::vector<trajopt::Pose2d> p;
      for (size_t k = 0; k + 2 < d.size(); k += 3)
        p.push_back({d[k], d[k + 1], {d[k + 2]}});
      b.SgmtInitialGuessPoints(i[0], p);
      break;
    }
    case kOpBumpers:
      b.AddBumpers(trajopt::Bumpers{d[0], points(d, 1)});
      break;
    case kOpSetBumpers:
      b.AddBumpers(trajopt::Bumpers{0.01, {{+d[0] / 2, +d[1] / 2},
                                           {-d[0] / 2, +d[1] / 2},
                                           {-d[0] / 2, -d[1] / 2},
                                           {+d[0] / 2, -d[1] / 2}}});
      break;
    case kOpWptObst:
      b.WptObstacle(i[0], trajopt::Obstacle{d[0], points(d, 1)});
      break;
    case kOpSgmtObst:
      b.SgmtObstacle(i[0], i[1], trajopt::Obstacle{d[0], points(d, 1)});
      break;
    case kOpWptCon: b.WptConstraint(i[0], con(i[1], d)); break;
    case kOpSgmtCon: b.SgmtConstraint(i[0], i[1], con(i[2], d)); break;
    case kOpCounts: {
      std::vector<size_t> c(i.begin(), i.end());
      b.ControlIntervalCounts(std::move(c));
      break;
    }
    case kOpCallback:
      b.AddIntermediateCallback(Cb{i[0], {0, 0, 0, 0}});
      break;
  }
}
void applyFfi(F& b, const PathOp& op) {
  const auto& i = op.i;
  const auto& d = op.d;
  switch (op.kind) {
    case kOpDrivetrain: {
      trajopt::rsffi::SwerveDrivetrain t;
      {
        t.mass = d[0];
        t.moi = d[1];
        for (size_t k = 2; k + 4 < d.size(); k += 5) {
          trajopt::rsffi::SwerveModule m;
          m.x = d[k]; m.y = d[k + 1]; m.wheel_radius = d[k + 2];
          m.wheel_max_angular_velocity = d[k + 3];
          m.wheel_max_torque = d[k + 4];
          t.modules.push_back(m);
        }
      }
      b.set_drivetrain(t);
      break;
    }
    case kOpPose: b.pose_wpt(i[0], d[0], d[1], d[2]); break;
    case kOpTrans: b.translation_wpt(i[0], d[0], d[1], d[2]); break;
    case kOpGuess: b.empty_wpt(i[0], d[0], d[1], d[2]); break;
    case kOpSgmtGuess: {
      rust::Vec<trajopt::rsffi::Pose2d> p;
      for (size_t k = 0; k + 2 < d.size(); k += 3) {
        trajopt::rsffi::Pose2d q;
        q.x = d[k]; q.y = d[k + 1]; q.heading = d[k + 2];
        p.push_back(q);
      }
      b.sgmt_initial_guess_points(i[0], p);
      break;
    }
    case kOpSetBumpers: b.set_bumpers(d[0], d[1]); break;
    case kOpSgmtObst:
      if (d.size() == 3)
        b.sgmt_circle_obstacle(i[0], i[1], d[1], d[2], d[0]);
      else
        b.sgmt_polygon_obstacle(i[0], i[1], rvec(d, 1, 2), rvec(d, 2, 2), d[0]);
      break;
    case kOpWptCon:
      switch (i[1]) {
        case kConVelDir: b.wpt_linear_velocity_direction(i[0], d[0]); break;
        case kConVelMax: b.wpt_linear_velocity_max_magnitude(i[0], d[0]); break;
        case kConAngVelMax: b.wpt_angular_velocity_max_magnitude(i[0], d[0]); break;
        case kConAccMax: b.wpt_linear_acceleration_max_magnitude(i[0], d[0]); break;
        case kConPointAt: b.wpt_point_at(i[0], d[0], d[1], d[2]); break;
        default: break;
      }
      break;
    case kOpSgmtCon:
      switch (i[2]) {
        case kConVelDir: b.sgmt_linear_velocity_direction(i[0], i[1], d[0]); break;
        case kConVelMax: b.sgmt_linear_velocity_max_magnitude(i[0], i[1], d[0]); break;
        case kConAngVelMax: b.sgmt_angular_velocity_max_magnitude(i[0], i[1], d[0]); break;
        case kConAccMax: b.sgmt_linear_acceleration_max_magnitude(i[0], i[1], d[0]); break;
        case kConPointAt: b.sgmt_point_at(i[0], i[1], d[0], d[1], d[2]); break;
        default: break;
      }
      break;
    case kOpCounts: {
      rust::Vec<size_t> c;
      for (auto n : i) c.push_back(n);
      b.set_control_interval_counts(c);
      break;
    }
    case kOpCallback:
      b.add_progress_callback(
          rust::Fn<void(trajopt::rsffi::HolonomicTrajectory, int64_t)>(
              rustTrampoline, reinterpret_cast<void*>(static_cast<intptr_t>(i[0]))));
      break;
    default: break;
  }
}
#ifdef SIM_RUST
// The same through the Rust API (src/lib.rs), see sim/rust.
extern "C" {
void* rsuser_new(bool);
void rsuser_delete(void*);
void rsuser_drivetrain(void*, double, double, const double*, size_t);
void rsuser_bumpers(void*, double, double);
void rsuser_counts(void*, const size_t*, size_t);
void rsuser_wpt(void*, int32_t, size_t, double, double, double);
void rsuser_guess(void*, size_t, const double*, size_t);
void rsuser_wpt_con(void*, int32_t, size_t, const double*);
void rsuser_sgmt_con(void*, int32_t, size_t, size_t, const double*);
void rsuser_circle(void*, size_t, size_t, double, double, double);
void rsuser_polygon(void*, size_t, size_t, const double*, size_t, const double*,
                    size_t, double);
void rsuser_callback_add(void*, size_t);
int32_t rsuser_generate(void*, bool, int64_t, void*);
void rsuser_cancel();
}
constexpr int64_t kSlots = 128;
void putSample(std::vector<CutSample>& out, const double* v, const double* fx,
               size_t nx, const double* fy, size_t ny) {
  CutSample s;
  s.t = v[0]; s.x = v[1]; s.y = v[2]; s.h = v[3];
  s.vx = v[4]; s.vy = v[5]; s.w = v[6];
  s.fx.assign(fx, fx + nx);
  s.fy.assign(fy, fy + ny);
  out.push_back(std::move(s));
}
// An exception of the C++ half reaches the caller as itself if the Rust half
// reported it as the bridge handed it over.
void rethrow(const char* msg) {
  std::exception_ptr e = std::exchange(simbridge::stash(), nullptr);
  if (!e) return;
  try {
    std::rethrow_exception(e);
  } catch (const std::exception& x) {
    if (!msg || std::string_view(msg) == x.what()) throw;
  }
}
void applyRust(void* b, const PathOp& op) {
  const auto& i = op.i;
  const auto& d = op.d;
  switch (op.kind) {
    case kOpDrivetrain:
      rsuser_drivetrain(b, d[0], d[1], d.data() + 2, (d.size() - 2) / 5);
      break;
    case kOpPose: rsuser_wpt(b, 0, i[0], d[0], d[1], d[2]); break;
    case kOpTrans: rsuser_wpt(b, 1, i[0], d[0], d[1], d[2]); break;
    case kOpGuess: rsuser_wpt(b, 2, i[0], d[0], d[1], d[2]); break;
    case kOpSgmtGuess: rsuser_guess(b, i[0], d.data(), d.size() / 3); break;
    case kOpSetBumpers: rsuser_bumpers(b, d[0], d[1]); break;
    case kOpSgmtObst:
      if (d.size() == 3) {
        rsuser_circle(b, i[0], i[1], d[1], d[2], d[0]);
      } else {
        Host h;
        std::vector<double> x, y;
        for (size_t k = 1; k < d.size(); ++k) (k % 2 ? x : y).push_back(d[k]);
        {
          Cut c;
          rsuser_polygon(b, i[0], i[1], x.data(), x.size(), y.data(), y.size(), d[0]);
        }
      }
      break;
    case kOpWptCon: rsuser_wpt_con(b, i[1], i[0], d.data()); break;
    case kOpSgmtCon: rsuser_sgmt_con(b, i[2], i[0], i[1], d.data()); break;
    case kOpCounts: {
      Host h;
      std::vector<size_t> c(i.begin(), i.end());
      {
        Cut k;
        rsuser_counts(b, c.data(), c.size());
      }
      break;
    }
    case kOpCallback:
      if (i[0] < 0 || i[0] >= kSlots) std::abort();
      rsuser_callback_add(b, i[0]);
      break;
    default: break;
  }
  rethrow(nullptr);
}
#endif
template <typename Fn>
void classify(CutOutcome& out, Fn&& fn) {
  try {
    fn();
  } catch (const UserError& e) {
    Host h; out.kind = kOutUser; out.token = e.token; out.msg = e.what();
  } catch (const SolverError& e) {
    Host h; out.kind = kOutSolver; out.token = e.token; out.msg = e.what();
  } catch (const std::bad_alloc& e) {
    Host h; out.kind = kOutBadAlloc; out.msg = e.what();
  } catch (const std::runtime_error& e) {
    Host h; out.kind = out.viaFfi ? kOutErr : kOutOther; out.msg = e.what();
  } catch (const std::exception& e) {
    Host h; out.kind = kOutOther; out.msg = e.what();
  } catch (...) {
    Host h; out.kind = kOutOther; out.msg = "unknown exception";
  }
}
}  // namespace

void* cut_builder_new(int ffi) {
  Cut c;
#ifdef SIM_RUST
  if (ffi == 2) {
    void* b = rsuser_new(false);
    rethrow(nullptr);
    return b;
  }
#endif
  if (ffi) return trajopt::rsffi::swerve_path_builder_new().release();
  return new B();
}
void cut_builder_apply(void* b, int ffi, const PathOp& op) {
  Cut c;
#ifdef SIM_RUST
  if (ffi == 2) return applyRust(b, op);
#endif
  if (ffi) applyFfi(*static_cast<F*>(b), op);
  else applyCpp(*static_cast<B*>(b), op);
}
void cut_builder_delete(void* b, int ffi) {
  Cut c;
#ifdef SIM_RUST
  if (ffi == 2) return rsuser_delete(b);
#endif
  if (ffi) delete static_cast<F*>(b);
  else delete static_cast<B*>(b);
}
void* cut_builder_copy(void* b, int ffi) {
  Cut c;
  if (ffi) return nullptr;
  return new B(*static_cast<B*>(b));
}
void cut_builder_counts(void* b, int ffi, std::vector<size_t>& out, size_t& w) {
  if (ffi) return;
  Cut c;
  const auto& n = static_cast<B*>(b)->GetControlIntervalCounts();
  w = static_cast<B*>(b)->GetPath().waypoints.size();
  for (auto x : n) {
    Host h;
    out.push_back(x);
  }
}
void cut_builder_touch(void* b, int ffi) {
  if (ffi) return;
  Cut c;
  auto& p = static_cast<B*>(b)->GetPath();
  p = std::remove_cvref_t<decltype(p)>{};
}
void cut_builder_guess(void* b, CutSolution& out) {
  Cut c;
  auto s = static_cast<const B*>(b)->CalculateInitialGuess();
  Host h;
  copySolution(s, out);
}
void* cut_gen_new(void* b, int64_t handle, bool mv) {
  Cut c;
  if (mv) return new G(std::move(*static_cast<B*>(b)), handle);
  return new G(*static_cast<B*>(b), handle);
}
void* cut_gen_move(void* g) {
  Cut c;
  G* n = new G(std::move(*static_cast<G*>(g)));
  delete static_cast<G*>(g);
  return n;
}
void cut_gen_delete(void* g) {
  Cut c;
  delete static_cast<G*>(g);
}
void cut_gen_run(void* g, bool diag, CutOutcome& out) {
  Cut c;
  classify(out, [&] {
    auto r = static_cast<G*>(g)->Generate(diag);
    Host h;
    if (r.has_value()) {
      copySolution(r.value(), out.sol);
      out.kind = kOutOk;
    } else {
      out.msg = r.error();
      out.kind = kOutErr;
    }
  });
}
void cut_ffi_generate(void* b, int ffi, bool diag, int64_t handle, CutOutcome& out) {
  Cut c;
  out.viaFfi = true;
  classify(out, [&] {
#ifdef SIM_RUST
    if (ffi == 2) {
      simbridge::stash() = nullptr;
      int r = rsuser_generate(b, diag, handle, &out);
      if (r) rethrow(out.msg.c_str());
      Host h;
      out.kind = r ? kOutErr : kOutOk;
      return;
    }
#endif
    auto t = static_cast<const F*>(b)->generate(diag, handle);
    Host h;
    copySamples(t, out.samples);
    out.kind = kOutOk;
  });
}
void cut_cancel(int ffi) {
  Cut c;
#ifdef SIM_RUST
  if (ffi == 2) return rsuser_cancel();
#endif
  if (ffi) trajopt::rsffi::cancel_all();
  else trajopt::GetCancellationFlag() = 1;
}
int cut_flag() {
  Cut c;
  return trajopt::GetCancellationFlag();
}
int cut_rust() {
#ifdef SIM_RUST
  return 1;
#else
  return 0;
#endif
}
#ifdef SIM_RUST
namespace simbridge {
std::exception_ptr& stash() {
  thread_local std::exception_ptr e;
  return e;
}
}  // namespace simbridge
extern "C" {
void simbridge_free(void* p) { rust::sim_rust_free(p); }
void rsuser_sample(void* out, const double* v, const double* fx, size_t nx,
                   const double* fy, size_t ny) {
  Host h;
  putSample(static_cast<CutOutcome*>(out)->samples, v, fx, nx, fy, ny);
}
void rsuser_error(void* out, const char* p, size_t n) {
  Host h;
  static_cast<CutOutcome*>(out)->msg.assign(p, n);
}
void* rsuser_samples_new() {
  Host h;
  return new std::vector<CutSample>();
}
void rsuser_sample_cb(void* out, const double* v, const double* fx, size_t nx,
                      const double* fy, size_t ny) {
  Host h;
  putSample(*static_cast<std::vector<CutSample>*>(out), v, fx, nx, fy, ny);
}
void rsuser_callback(size_t slot, void* out, int64_t handle) {
  Host h;
  auto* s = static_cast<std::vector<CutSample>*>(out);
  EngineCallback(slot, nullptr, s, handle);
  delete s;
}
}
#endif
