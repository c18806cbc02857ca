// Types shared by the simulator and the adapter that calls the library.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>

// kinds of path builder operations
enum PathOpKind : int {
  kOpDrivetrain, // d: mass, moi, then (x, y, wheelRadius, maxOmega, maxTorque)*
  kOpPose,       // i: index            d: x y heading
  kOpTrans,      // i: index            d: x y headingGuess
  kOpGuess,      // i: index            d: x y heading
  kOpSgmtGuess,  // i: from             d: (x y heading)*
  kOpBumpers,    // d: safety, (x y)*
  kOpSetBumpers, // d: length width     (Rust-facing layer)
  kOpWptObst,    // i: index            d: safety, (x y)*
  kOpSgmtObst,   // i: from to          d: safety, (x y)*
  kOpWptCon,     // i: index type       d: params
  kOpSgmtCon,    // i: from to type     d: params
  kOpCounts,     // i: counts
  kOpCallback,   // i: callback id
  kOpKinds
};
enum ConType : int {
  kConVelDir,   // angle
  kConVelMax,   // magnitude
  kConAngVelMax,// magnitude
  kConAccMax,   // magnitude
  kConPointAt,  // x y tolerance
  kConLinePoint,// sx sy ex ey px py min
  kConPointLine,// px py sx sy ex ey min
  kConPointPoint,// rx ry fx fy min
  kConPoseEq,   // x y heading
  kConTransEq,  // x y
  kConKinds
};
struct PathOp {
  int kind = 0;
  std::vector<int64_t> i;
  std::vector<double> d;
};

struct CutSolution {
  std::vector<double> dt, x, y, c, s, vx, vy, w, ax, ay, al;
  std::vector<std::vector<double>> fx, fy;
};
struct CutSample {
  double t = 0, x = 0, y = 0, h = 0, vx = 0, vy = 0, w = 0;
  std::vector<double> fx, fy;
};
enum OutKind : int {
  kOutNone, kOutOk, kOutErr, kOutBadAlloc, kOutUser, kOutSolver, kOutOther
};
struct CutOutcome {
  int kind = kOutNone;
  bool viaFfi = false;
  CutSolution sol;
  std::vector<CutSample> samples;
  std::string msg;
  int64_t token = 0;  // of an injected exception
};
// injected by progress callbacks / by the solver
struct UserError : std::runtime_error {
  int64_t token;
  explicit UserError(int64_t t) : std::runtime_error("user callback failed"), token(t) {}
};
struct SolverError : std::runtime_error {
  int64_t token;
  explicit SolverError(int64_t t) : std::runtime_error("solver failed"), token(t) {}
};

// ---- implemented by the simulator, called by the adapter
void EngineCallback(int64_t cb, const CutSolution* sol,
                    const std::vector<CutSample>* samples, int64_t handle);

// ---- implemented by the adapter (library under test), called by the simulator
#define CUT_API __attribute__((visibility("default")))
// ffi: 0 C++ interface, 1 Rust-facing layer, 2 Rust interface on top of it
CUT_API void* cut_builder_new(int ffi);
CUT_API void cut_builder_apply(void* b, int ffi, const PathOp& op);
CUT_API void cut_builder_delete(void* b, int ffi);
CUT_API void* cut_builder_copy(void* b, int ffi);
CUT_API void cut_builder_counts(void* b, int ffi, std::vector<size_t>& out,
                                size_t& waypoints);
CUT_API void cut_builder_touch(void* b, int ffi);  // mutate via GetPath()
CUT_API void cut_builder_guess(void* b, CutSolution& out);
CUT_API void* cut_gen_new(void* b, int64_t handle, bool moveBuilder);
CUT_API void* cut_gen_move(void* g);
CUT_API void cut_gen_delete(void* g);
CUT_API void cut_gen_run(void* g, bool diag, CutOutcome& out);
CUT_API void cut_ffi_generate(void* b, int ffi, bool diag, int64_t handle, CutOutcome& out);
CUT_API void cut_cancel(int ffi);
CUT_API int cut_flag();
CUT_API int cut_rust();  // the Rust interface is there
