#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <vector>
#include <rust/cxx.h>
#include "RustFFI.hpp"
namespace trajopt::rsffi {
struct SwerveModule final {
  double x{};
  double y{};
  double wheel_radius{};
  double wheel_max_angular_velocity{};
  double wheel_max_torque{};
};
struct SwerveDrivetrain final {
  double mass{};
  double moi{};
  ::rust::Vec<SwerveModule> modules{};
};
struct Pose2d final {
  double x{};
  double y{};
  double heading{};
};
struct HolonomicTrajectorySample final {
  double timestamp{};
  double x{};
  double y{};
  double heading{};
  double velocity_x{};
  double velocity_y{};
  double angular_velocity{};
  ::rust::Vec<double> module_forces_x{};
  ::rust::Vec<double> module_forces_y{};
};
struct HolonomicTrajectory final {
  ::rust::Vec<HolonomicTrajectorySample> samples{};
};
}
