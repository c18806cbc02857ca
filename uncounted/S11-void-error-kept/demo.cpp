#include "mini.hpp"
#include <atomic>
#include <chrono>
#include <thread>
using namespace trajopt;
static SwervePathBuilder line() {
  SwervePathBuilder b;
  b.SetDrivetrain(drivetrain());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  b.ControlIntervalCounts({4});
  return b;
}

#include <new>
static thread_local long failAt = 0, seenAllocs = 0;
static thread_local bool armed = false;
static std::atomic<long> live{0};
static bool due() { return armed && ++seenAllocs == failAt; }
__attribute__((noinline)) void* operator new(size_t n) {
  if (due()) throw std::bad_alloc{};
  ++live;
  return std::malloc(n ? n : 1);
}
__attribute__((noinline)) void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
__attribute__((noinline)) void operator delete(void* p, size_t) noexcept { if (p) --live; std::free(p); }

int main() {
  long before = live;
  {
    expected<void, std::string> e = unexpected{std::string(100, 'x')};
    expected<void, std::string> ok;
    e = ok;
    CHECK(e.has_value());
  }
  CHECK(live == before);
  return failures ? 1 : 0;
}
