#include "mini.hpp"
using namespace trajopt;
static bool fail = false;
struct V {
  int v;
  explicit V(int v) : v{v} {}
  V(const V& o) : v{o.v} {}
  V(V&& o) : v{o.v} { if (fail) throw 1; }
  V& operator=(const V&) = default;
  V& operator=(V&& o) { v = o.v; return *this; }
};
int main() {
  expected<V, std::string> a{V{5}}, b = unexpected{std::string(50, 'e')};
  fail = true;
  try { a.swap(b); CHECK(false); } catch (int) {}
  fail = false;
  CHECK(a.has_value() && a->v == 5);
  CHECK(!b.has_value() && b.error() == std::string(50, 'e'));
  return failures ? 1 : 0;
}
