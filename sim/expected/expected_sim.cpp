// Simulates sequences of operations on trajopt::expected with element
// operations (construction, copy, move, assignment, user functions, memory
// allocation) that fail at chosen points, against a value-or-error model.
// Same command line as the engine: gen, batch, replay, minimise.
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <initializer_list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "trajopt/solution/SwerveSolution.hpp"
#include "trajopt/util/expected"

// ------------------------------------------------------------------ the world
namespace {
struct Injected { int where; };

struct Host {  // work of the simulator itself, not of the code under test
  static int depth;
  Host() { ++depth; }
  ~Host() { --depth; }
};
int Host::depth = 0;

struct Sim {
  bool inLib = false;       // an operation of the library is running
  bool allocFaults = false; // allocations count as throwing events
  int64_t events = 0;       // throwing events of the current operation
  int64_t failAt = 0;
  bool fired = false;
  uint64_t hash = 1469598103934665603ull;
  std::map<const void*, int> live;    // element -> type
  std::set<void*> blocks;             // allocations of the library
  std::string tag, text;
  bool bad = false;
  uint64_t faults = 0, total = 0;
  uint64_t opDone[64] = {}, opFail[64] = {};
  void mix(uint64_t v) { hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29; }
};
Sim* S;
void bad(const char* tag, const std::string& text) {
  Host h;
  if (S->bad) return;
  S->bad = true;
  S->tag = tag;
  S->text = text;
}
void event(int kind) {
  S->mix(kind);
  ++S->total;
  ++S->events;
  if (S->failAt && S->events == S->failAt) {
    S->fired = true;
    ++S->faults;
    S->mix(7777);
    throw Injected{kind};
  }
}
const char* kName[] = {"?", "value", "error"};
void born(const void* p, int type) {
  Host h;
  S->mix(100 + type);
  if (auto it = S->live.find(p); it != S->live.end())
    bad("element", std::string("a ") + kName[type] + " was constructed over a live " + kName[it->second] +
                       ", which is never destroyed");
  S->live[p] = type;
}
void gone(const void* p, int type) {
  Host h;
  S->mix(200 + type);
  auto it = S->live.find(p);
  if (it == S->live.end())
    bad("element", std::string("a ") + kName[type] + " was destroyed that does not exist (destroyed twice or never built)");
  else if (it->second != type)
    bad("element", std::string("a ") + kName[it->second] + " was destroyed as a " + kName[type]);
  else
    S->live.erase(it);
}
void used(const void* p, int type, const char* how) {
  Host h;
  auto it = S->live.find(p);
  if (it == S->live.end() || it->second != type)
    bad("element", std::string("a ") + kName[type] + " that does not exist was " + how);
}

// ------------------------------------------------------------------- elements
struct Raw { int v; };
enum { kCopyThrows = 1, kMoveThrows = 2, kMakeThrows = 4 };

template <int Type, int F>
struct El {
  static constexpr bool ct = F & kCopyThrows, mt = F & kMoveThrows, kt = F & kMakeThrows;
  int v;
  El() noexcept(!kt) : v(0) { if (kt) event(1); born(this, Type); }
  El(const Raw& r) noexcept(!kt) : v(r.v) { if (kt) event(2); born(this, Type); }
  El(std::initializer_list<int> il, const Raw& r) noexcept(!kt) : v(r.v + int(il.size()) * 1000) {
    if (kt) event(3);
    born(this, Type);
  }
  El(const El& o) noexcept(!ct) : v(o.v) {
    used(&o, Type, "copied");
    if (ct) event(4);
    born(this, Type);
  }
  El(El&& o) noexcept(!mt) : v(o.v) {
    used(&o, Type, "moved");
    if (mt) event(5);
    o.v = -1;
    born(this, Type);
  }
  El& operator=(const El& o) noexcept(!ct) {
    used(&o, Type, "copied");
    used(this, Type, "assigned");
    if (ct) event(6);
    v = o.v;
    return *this;
  }
  El& operator=(El&& o) noexcept(!mt) {
    used(&o, Type, "moved");
    used(this, Type, "assigned");
    if (mt) event(7);
    if (this != &o) { v = o.v; o.v = -1; }
    return *this;
  }
  El& operator=(const Raw& r) noexcept(!kt) {
    used(this, Type, "assigned");
    if (kt) event(8);
    v = r.v;
    return *this;
  }
  ~El() { gone(this, Type); v = -99; }
  friend bool operator==(const El& a, const El& b) { used(&a, Type, "read"); used(&b, Type, "read"); return a.v == b.v; }
  friend bool operator!=(const El& a, const El& b) { used(&a, Type, "read"); used(&b, Type, "read"); return a.v != b.v; }
};

template <class X>
struct Acc {  // how to make and read a plain number
  static X make(int v) { return X(Raw{v}); }
  static int get(const X& x) { return x.v; }
};
template <>
struct Acc<int> {
  static int make(int v) { return v; }
  static int get(int x) { return x; }
};
template <>
struct Acc<std::string> {
  static std::string make(int v) { return "a message that does not fit in the object itself: " + std::to_string(v); }
  static int get(const std::string& s) {
    size_t p = s.rfind(' ');
    return p == std::string::npos ? -1 : atoi(s.c_str() + p);
  }
};
template <>
struct Acc<trajopt::SwerveSolution> {
  static trajopt::SwerveSolution make(int v) {
    trajopt::SwerveSolution s;
    s.dt = {double(v), 1};
    s.x = {double(v)};
    s.moduleFX = {{double(v), 2}, {3}};
    return s;
  }
  static int get(const trajopt::SwerveSolution& s) {
    if (s.dt.empty() && s.x.empty() && s.moduleFX.empty()) return -1;
    if (s.dt.empty()) return -2;
    int v = int(s.dt[0]);
    if (s.dt.size() != 2 || s.x.size() != 1 || s.x[0] != v || s.moduleFX.size() != 2 ||
        s.moduleFX[0].size() != 2 || s.moduleFX[0][0] != v)
      return -2;
    return v;
  }
};

// --------------------------------------------------------------------- plans
struct Op { int k, a, b, v, failAt; };
struct Plan {
  uint64_t seed = 0;
  int kind = 0;
  std::vector<Op> ops;
};
enum {
  kDefault, kInPlace, kInPlaceIl, kFromVal, kFromValMove, kFromErr, kFromErrMove, kUnexpect, kUnexpectIl, kCopy, kMove,
  kConvCopy, kConvMove, kDestroy, kAssign, kAssignMove, kAssignVal, kAssignValMove, kAssignRaw, kAssignErr,
  kAssignErrMove, kEmplace, kEmplaceIl, kEmplaceVal, kSwap, kAdlSwap, kValue, kValueMove, kError, kErrorMove, kStar,
  kValueOr, kValueOrMove, kAndThen, kMap, kMapVoid, kMapError, kMapErrorVoid, kOrElse, kOrElseVoid, kEq, kEqVal,
  kEqErr, kCount
};
const char* kOps[] = {"default", "in_place", "in_place_il", "from_value", "from_value_move", "from_error",
  "from_error_move", "unexpect", "unexpect_il", "copy", "move", "convert_copy", "convert_move", "destroy", "assign",
  "assign_move", "assign_value", "assign_value_move", "assign_raw", "assign_error", "assign_error_move", "emplace",
  "emplace_il", "emplace_value", "swap", "adl_swap", "value", "value_move", "error", "error_move", "star", "value_or",
  "value_or_move", "and_then", "map", "map_void", "map_error", "map_error_void", "or_else", "or_else_void", "eq",
  "eq_value", "eq_error"};
static_assert(sizeof kOps / sizeof *kOps == kCount);
constexpr int kKinds = 10, kSlots = 4;

struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int below(int n) { return int(next() % uint64_t(n)); }
};
Plan generate(uint64_t seed, bool thorough) {
  Rng r{seed * 0x2545F4914F6CDD1Dull + 11};
  for (int k = 0; k < 3; ++k) r.next();
  Plan p;
  p.seed = seed;
  p.kind = r.below(kKinds);
  int n = 4 + r.below(thorough ? 40 : 16);
  int rate = r.below(4) == 0 ? 0 : 20 + r.below(50);
  for (int k = 0; k < kSlots; ++k) {  // something to work on
    static const int mk[] = {kInPlace, kUnexpect, kDefault, kFromVal, kFromErr};
    p.ops.push_back({mk[r.below(5)], k, 0, 1 + k, 0});
  }
  for (int k = 0; k < n; ++k) {
    Op o;
    // assignments, emplacement and swap more often than the rest
    o.k = r.below(100) < 45 ? kAssign + r.below(kAdlSwap - kAssign + 1) : r.below(kCount);
    o.a = r.below(kSlots);
    o.b = r.below(kSlots);
    o.v = 10 + k;
    o.failAt = r.below(100) < rate ? 1 + (r.below(3) ? r.below(3) : r.below(10)) : 0;
    p.ops.push_back(o);
  }
  return p;
}
std::string planText(const Plan& p) {
  std::ostringstream o;
  o << "plan 1\nprop S11\nseed " << p.seed << "\nkind " << p.kind << "\n";
  for (auto& x : p.ops)
    o << "op " << kOps[x.k] << " " << x.a << " " << x.b << " " << x.v << " " << x.failAt << "\n";
  o << "end\n";
  return o.str();
}
bool parse(const std::string& t, Plan& p) {
  std::istringstream in(t);
  std::string l;
  bool end = false;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream w(l);
    std::string k, name;
    w >> k;
    if (k == "seed") w >> p.seed;
    else if (k == "kind") { if (!(w >> p.kind) || p.kind < 0 || p.kind >= kKinds) return false; }
    else if (k == "op") {
      Op o{-1, 0, 0, 0, 0};
      w >> name >> o.a >> o.b >> o.v >> o.failAt;
      for (int q = 0; q < kCount; ++q)
        if (name == kOps[q]) o.k = q;
      if (o.k < 0 || !w || o.a < 0 || o.b < 0 || o.a >= kSlots || o.b >= kSlots) return false;
      p.ops.push_back(o);
    } else if (k == "end") end = true;
  }
  return end;
}

// ------------------------------------------------------------------ execution
std::vector<std::string>* g_log;

template <class T, class E>
struct Machine {
  using X = trajopt::expected<T, E>;
  using Y = trajopt::expected<Raw, Raw>;
  using U = trajopt::unexpected<E>;
  static constexpr bool vd = std::is_void_v<T>;
  // elements of a type of ours can be told apart from garbage
  static constexpr bool trackedT = !vd && requires(T t) { T::ct; };
  static constexpr bool trackedE = requires { E::ct; };
  struct State {
    bool has = false, val = false;
    int v = 0;
    bool operator==(const State&) const = default;
  };
  struct Slot {
    bool full = false;
    alignas(X) unsigned char mem[sizeof(X)];
    X& x() { return *std::launder(reinterpret_cast<X*>(mem)); }
  };
  Slot slot[kSlots];
  State model[kSlots];
  std::string opText;
  bool assigns = false;  // the operation may assign to the contained object

  static int tv(const X& x) {
    if constexpr (vd) return 0;
    else return Acc<T>::get(*x);
  }
  State read(Slot& s) {
    Host h;
    State st;
    if (!s.full) return st;
    const X& x = s.x();
    st.has = true;
    st.val = x.has_value();
    if (st.val) {
      if constexpr (trackedT) {
        used(&*x, 1, "left in an expected object");
        if (S->bad) return st;
      }
      st.v = tv(x);
    } else {
      if constexpr (trackedE) {
        used(&x.error(), 2, "left in an expected object");
        if (S->bad) return st;
      }
      st.v = Acc<E>::get(x.error());
    }
    return st;
  }
  static std::string show(const State& s) {
    if (!s.has) return "empty";
    return std::string(s.val ? "value " : "error ") + std::to_string(s.v);
  }

  // Runs one library operation; tells whether an injected failure ended it.
  template <class F>
  bool call(const Op& o, F f) {
    S->events = 0;
    S->failAt = o.failAt;
    S->fired = false;
    bool threw = false;
    S->inLib = true;
    try {
      f();
      S->inLib = false;
    } catch (const Injected&) {
      S->inLib = false;
      threw = true;
    } catch (const std::bad_alloc&) {
      S->inLib = false;
      threw = true;
      if (!S->fired) bad("exception", opText + ": std::bad_alloc although no allocation failed");
    } catch (const trajopt::bad_expected_access<E>&) {
      S->inLib = false;
      bad("exception", opText + ": bad_expected_access from an operation that does not access");
    } catch (...) {
      S->inLib = false;
      bad("exception", opText + ": an unknown exception");
    }
    S->failAt = 0;
    if (S->fired && !threw) bad("exception", opText + ": the failure of an element operation did not reach the caller");
    if (threw && !S->fired) bad("exception", opText + ": an exception although nothing failed");
    return threw;
  }
  void expectEq(const char* what, int got, int want) {
    if (got != want)
      bad("model", opText + ": " + what + " is " + std::to_string(got) + ", expected " + std::to_string(want));
  }
  // After operation `o` on slot a (and b): successful operations must match
  // `want`, failed ones must leave old, new or moved-from contents.
  void settle(bool threw, int a, State want, int b = -1, State wantB = {}) {
    for (int k = 0; k < kSlots && !S->bad; ++k) {
      State got = read(slot[k]);
      if (S->bad) { S->text = opText + (threw ? " (failing)" : "") + ", slot " + std::to_string(k) + ": " + S->text; return; }
      State old = model[k], w = k == a ? want : k == b ? wantB : old;
      bool ok;
      if (!threw || (k != a && k != b)) ok = got == w;
      else {
        ok = got == old || got == w;
        if (!ok && got.has)  // moved-from, or overwritten by what was to go there
          ok = (got.v == -1 && (got.val == old.val || got.val == w.val));
        // a struct whose own assignment stopped half-way is the struct's
        // business: still one live value
        if (!ok && got.has && got.val && old.val && w.val && assigns && !trackedT) ok = true;
      }
      if (!ok) {
        bad("model", opText + (threw ? " (failing)" : "") + ": slot " + std::to_string(k) + " holds " + show(got) +
                         ", expected " + show(w) + (threw ? " or " + show(old) : ""));
        return;
      }
      model[k] = got;
    }
  }
  void drop(int k) {
    if (!slot[k].full) return;
    slot[k].full = false;
    S->inLib = true;
    slot[k].x().~X();
    S->inLib = false;
    model[k] = {};
  }
  // Constructs slot a afresh; on failure it stays empty.
  template <class F>
  void fresh(const Op& o, State want, F make, int b = -1, State wantB = {}) {
    drop(o.a);
    bool threw = call(o, [&] { make(static_cast<void*>(slot[o.a].mem)); });
    slot[o.a].full = !threw;
    settle(threw, o.a, threw ? State{} : want, b, wantB);
  }

  void step(const Op& o) {
    opText = std::string(kOps[o.k]) + " " + std::to_string(o.a) + " " + std::to_string(o.b);
    assigns = o.k == kAssign || o.k == kAssignMove || o.k == kAssignVal || o.k == kAssignValMove;
    if (!model[o.a].has && o.k >= kDestroy) return;
    bool two = o.k == kCopy || o.k == kMove || o.k == kAssign || o.k == kAssignMove || o.k == kSwap || o.k == kAdlSwap || o.k == kEq;
    if (two && !model[o.b].has) return;
    if ((o.k == kCopy || o.k == kMove) && o.a == o.b) return;
    const State A = model[o.a], B = model[o.b];
    State val{true, true, vd ? 0 : o.v}, err{true, false, o.v};
    State movedB = B;
    if (movedB.val ? !vd && !std::is_same_v<T, int> : !std::is_same_v<E, int>) movedB.v = -1;
    State movedA = A;
    if (movedA.val ? !vd && !std::is_same_v<T, int> : !std::is_same_v<E, int>) movedA.v = -1;
    auto& sa = slot[o.a];
    auto& sb = slot[o.b];
    switch (o.k) {
      case kDefault:
        if constexpr (std::is_default_constructible_v<X>) fresh(o, {true, true, trackedT || vd || std::is_same_v<T, int> ? 0 : -1}, [&](void* p) { new (p) X(); });
        break;
      case kInPlace:
        if constexpr (vd) fresh(o, val, [&](void* p) { if constexpr (requires { X(trajopt::in_place); }) new (p) X(trajopt::in_place); else new (p) X(); });
        else if constexpr (std::is_constructible_v<X, trajopt::in_place_t, Raw>) fresh(o, val, [&](void* p) { new (p) X(trajopt::in_place, Raw{o.v}); });
        break;
      case kInPlaceIl:
        if constexpr (trackedT) { val.v += 2000; fresh(o, val, [&](void* p) { new (p) X(trajopt::in_place, {1, 2}, Raw{o.v}); }); }
        break;
      case kFromVal:
        if constexpr (!vd) { T t = Acc<T>::make(o.v); fresh(o, val, [&](void* p) { new (p) X(static_cast<const T&>(t)); }); }
        break;
      case kFromValMove:
        if constexpr (!vd) { T t = Acc<T>::make(o.v); fresh(o, val, [&](void* p) { new (p) X(std::move(t)); }); }
        break;
      case kFromErr: { U u{Acc<E>::make(o.v)}; fresh(o, err, [&](void* p) { new (p) X(static_cast<const U&>(u)); }); break; }
      case kFromErrMove: { U u{Acc<E>::make(o.v)}; fresh(o, err, [&](void* p) { new (p) X(std::move(u)); }); break; }
      case kUnexpect:
        if constexpr (std::is_constructible_v<E, Raw>) fresh(o, err, [&](void* p) { new (p) X(trajopt::unexpect, Raw{o.v}); });
        else { E e = Acc<E>::make(o.v); fresh(o, err, [&](void* p) { new (p) X(trajopt::unexpect, static_cast<const E&>(e)); }); }
        break;
      case kUnexpectIl:
        if constexpr (trackedE) { err.v += 1000; fresh(o, err, [&](void* p) { new (p) X(trajopt::unexpect, {1}, Raw{o.v}); }); }
        break;
      case kCopy: fresh(o, B, [&](void* p) { new (p) X(static_cast<const X&>(sb.x())); }, o.b, B); break;
      case kMove: fresh(o, B, [&](void* p) { new (p) X(std::move(sb.x())); }, o.b, movedB); break;
      case kConvCopy:
      case kConvMove:
        if constexpr (std::is_constructible_v<X, const Y&>) {
          Y y = o.b % 2 ? Y(Raw{o.v}) : Y(trajopt::unexpect, Raw{o.v});
          if (o.k == kConvCopy) fresh(o, o.b % 2 ? val : err, [&](void* p) { new (p) X(static_cast<const Y&>(y)); });
          else fresh(o, o.b % 2 ? val : err, [&](void* p) { new (p) X(std::move(y)); });
        }
        break;
      case kDestroy: drop(o.a); settle(false, o.a, {}); break;
      case kAssign: { bool t = call(o, [&] { sa.x() = static_cast<const X&>(sb.x()); }); settle(t, o.a, B, o.b, B); break; }
      case kAssignMove: {
        if (o.a == o.b) break;
        bool t = call(o, [&] { sa.x() = std::move(sb.x()); });
        settle(t, o.a, B, o.b, movedB);
        break;
      }
      case kAssignVal:
        if constexpr (!vd)
          if constexpr (std::is_assignable_v<X&, const T&>) {
            T t = Acc<T>::make(o.v);
            settle(call(o, [&] { sa.x() = static_cast<const T&>(t); }), o.a, val);
          }
        break;
      case kAssignValMove:
        if constexpr (!vd)
          if constexpr (std::is_assignable_v<X&, T&&>) {
            T t = Acc<T>::make(o.v);
            settle(call(o, [&] { sa.x() = std::move(t); }), o.a, val);
          }
        break;
      case kAssignRaw:
        if constexpr (trackedT && std::is_assignable_v<X&, const Raw&>) {
          Raw r{o.v};
          settle(call(o, [&] { sa.x() = r; }), o.a, val);
        }
        break;
      case kAssignErr:
        if constexpr (std::is_assignable_v<X&, const U&>) {
          U u{Acc<E>::make(o.v)};
          settle(call(o, [&] { sa.x() = static_cast<const U&>(u); }), o.a, err);
        }
        break;
      case kAssignErrMove:
        if constexpr (std::is_assignable_v<X&, U&&>) {
          U u{Acc<E>::make(o.v)};
          settle(call(o, [&] { sa.x() = std::move(u); }), o.a, err);
        }
        break;
      case kEmplace:
        if constexpr (trackedT) settle(call(o, [&] { sa.x().emplace(Raw{o.v}); }), o.a, val);
        break;
      case kEmplaceIl:
        if constexpr (trackedT) { val.v += 3000; settle(call(o, [&] { sa.x().emplace({1, 2, 3}, Raw{o.v}); }), o.a, val); }
        break;
      case kEmplaceVal:
        if constexpr (!vd) {
          T t = Acc<T>::make(o.v);
          settle(call(o, [&] { sa.x().emplace(static_cast<const T&>(t)); }), o.a, val);
        }
        break;
      case kSwap:
        if constexpr (requires { sa.x().swap(sb.x()); }) {
          if (o.a == o.b && !(S->allocFaults || trackedT || vd || true)) break;
          settle(call(o, [&] { sa.x().swap(sb.x()); }), o.a, B, o.b, A);
        }
        break;
      case kAdlSwap:
        if constexpr (requires { sa.x().swap(sb.x()); }) settle(call(o, [&] { swap(sa.x(), sb.x()); }), o.a, B, o.b, A);
        break;
      case kValue:
      case kValueMove:
        if constexpr (!vd) {
          int got = -5, acc = -5;
          bool moved = o.k == kValueMove && o.b % 2;
          bool t = call(o, [&] {
            try {
              if (o.k == kValue) got = Acc<T>::get(o.b % 2 ? sa.x().value() : static_cast<const X&>(sa.x()).value());
              else if (moved) { T tmp = std::move(sa.x()).value(); got = Acc<T>::get(tmp); }
              else { T tmp = static_cast<const X&&>(sa.x()).value(); got = Acc<T>::get(tmp); }
            } catch (const trajopt::bad_expected_access<E>& e) { Host h; acc = Acc<E>::get(e.error()); }
          });
          if (!t) {
            expectEq("value()", got, A.val ? A.v : -5);
            expectEq("the error thrown by value()", acc, A.val ? -5 : A.v);
          }
          settle(t, o.a, moved ? movedA : A);
        }
        break;
      case kError:
      case kErrorMove:
        if (!A.val) {
          int got = -5;
          bool moved = o.k == kErrorMove;
          bool t = call(o, [&] {
            if (moved) { E e = std::move(sa.x()).error(); got = Acc<E>::get(e); }
            else got = Acc<E>::get(o.b % 2 ? sa.x().error() : static_cast<const X&>(sa.x()).error());
          });
          if (!t) expectEq("error()", got, A.v);
          settle(t, o.a, moved ? movedA : A);
        } else expectEq("operator bool", bool(sa.x()), 1);
        break;
      case kStar:
        if constexpr (!vd)
          if (A.val) {
            bool moved = o.b == 3;
            int got = -5;
            bool t = call(o, [&] {
              if (o.b == 0) got = Acc<T>::get(*sa.x());
              else if (o.b == 1) got = Acc<T>::get(*static_cast<const X&>(sa.x()));
              else if (o.b == 2) got = Acc<T>::get(*sa.x().operator->());
              else { T tmp = *std::move(sa.x()); got = Acc<T>::get(tmp); }
            });
            if (!t) expectEq("the value", got, A.v);
            settle(t, o.a, moved ? movedA : A);
          }
        break;
      case kValueOr:
      case kValueOrMove:
        if constexpr (!vd) {
          T d = Acc<T>::make(o.v);
          int got = -5;
          bool moved = o.k == kValueOrMove;
          bool t = call(o, [&] {
            T r = moved ? std::move(sa.x()).value_or(static_cast<const T&>(d)) : sa.x().value_or(static_cast<const T&>(d));
            got = Acc<T>::get(r);
          });
          if (!t) expectEq("value_or", got, A.val ? A.v : o.v);
          settle(t, o.a, moved && A.val ? movedA : A);
        }
        break;
      default: step2(o, A, B, movedA); break;
    }
  }

  void step2(const Op& o, const State A, const State B, const State movedA) {
    auto& sa = slot[o.a];
    auto& sb = slot[o.b];
    using R = trajopt::expected<Raw, E>;
    int arg = -5, got = -5, isv = -5;
    bool rv = o.b == 3;
    auto hit = [&](const auto&... t) {
      event(9);
      if constexpr (sizeof...(t) == 1) { Host h; arg = (Acc<std::decay_t<decltype(t)>>::get(t), ...); }
      else arg = 0;
    };
    // calls member M in one of the four value categories
#define VIA(EXPR)                                                                             \
  [&](auto&& fn) {                                                                            \
    if (o.b == 0) { auto r = sa.x().EXPR(fn); post(r); }                                      \
    else if (o.b == 1) { auto r = static_cast<const X&>(sa.x()).EXPR(fn); post(r); }          \
    else if (o.b == 2) { auto r = static_cast<const X&&>(sa.x()).EXPR(fn); post(r); }         \
    else { auto r = std::move(sa.x()).EXPR(fn); post(r); }                                    \
  }
    auto post = [&](auto& r) {
      Host h;
      using RR = std::decay_t<decltype(r)>;
      isv = r.has_value();
      if (!r.has_value()) {
        if constexpr (std::is_same_v<typename RR::error_type, trajopt::monostate>) got = -1;
        else got = Acc<typename RR::error_type>::get(r.error());
      } else if constexpr (std::is_void_v<typename RR::value_type>) got = 0;
      else if constexpr (std::is_same_v<typename RR::value_type, Raw>) got = (*r).v;
      else got = Acc<typename RR::value_type>::get(*r);
    };
    auto done = [&](bool t, bool wantVal, int want, bool called, const char* what) {
      if (!t) {
        expectEq(what, isv, wantVal);
        if (!S->bad) expectEq(what, got, want);
        if (!S->bad) expectEq("the argument seen by the function", arg, called ? A.v : -5);
      }
      settle(t, o.a, rv ? movedA : A);
    };
    // a function that takes its argument by reference does not consume it
    bool errPassed = !A.val, valPassed = A.val;
    switch (o.k) {
      case kAndThen: {
        auto f = [&](const auto&... t) -> R { hit(t...); return o.v % 2 ? R(Raw{o.v}) : R(trajopt::unexpect, Acc<E>::make(o.v)); };
        bool t = call(o, [&] { VIA(and_then)(f); });
        if (rv && valPassed) { rv = false; }
        done(t, A.val ? o.v % 2 : 0, A.val ? o.v : A.v, A.val, "and_then");
        break;
      }
      case kMap: {
        auto f = [&](const auto&... t) -> Raw { hit(t...); return Raw{o.v}; };
        bool t = call(o, [&] { if (o.v % 2) VIA(map)(f); else VIA(transform)(f); });
        if (rv && valPassed) rv = false;
        done(t, A.val, A.val ? o.v : A.v, A.val, "map");
        break;
      }
      case kMapVoid: {
        auto f = [&](const auto&... t) { hit(t...); };
        bool t = call(o, [&] { if (o.v % 2) VIA(map)(f); else VIA(transform)(f); });
        if (rv && valPassed) rv = false;
        done(t, A.val, A.val ? 0 : A.v, A.val, "map to void");
        break;
      }
      case kMapError: {
        auto f = [&](const auto& e) -> int { hit(e); return o.v; };
        bool t = call(o, [&] { if (o.v % 2) VIA(map_error)(f); else VIA(transform_error)(f); });
        if (rv && errPassed) rv = false;
        done(t, A.val, A.val ? A.v : o.v, !A.val, "map_error");
        break;
      }
      case kMapErrorVoid: {
        auto f = [&](const auto& e) { hit(e); };
        bool t = call(o, [&] { if (o.v % 2) VIA(map_error)(f); else VIA(transform_error)(f); });
        if (rv && errPassed) rv = false;
        done(t, A.val, A.val ? A.v : -1, !A.val, "map_error to void");
        break;
      }
      case kOrElse: {
        auto f = [&](const auto& e) -> X { hit(e); return X(trajopt::unexpect, Acc<E>::make(o.v)); };
        bool t = call(o, [&] { VIA(or_else)(f); });
        if (rv && errPassed) rv = false;
        done(t, A.val, A.val ? A.v : o.v, !A.val, "or_else");
        break;
      }
      case kOrElseVoid: {
        auto f = [&](const auto& e) { hit(e); };
        bool t = call(o, [&] { VIA(or_else)(f); });
        done(t, A.val, A.v, !A.val, "or_else with a void function");
        break;
      }
      case kEq: if constexpr (vd || trackedT || std::is_same_v<T, int>) {
        const X &a = sa.x(), &b = sb.x();
        int e = -5, n = -5;
        bool t = call(o, [&] { e = a == b; n = a != b; });
        expectEq("==", e, A == B);
        if (!S->bad) expectEq("!=", n, !(A == B));
        settle(t, o.a, A);
      }
        break;
      case kEqVal:
        if constexpr (trackedT || std::is_same_v<T, int>) {
          int w = o.b % 2 ? o.v : A.v;
          T v = Acc<T>::make(w);
          int e = -5, n = -5, e2 = -5, n2 = -5;
          const X& a = sa.x();
          bool t = call(o, [&] { e = a == v; n = a != v; e2 = v == a; n2 = v != a; });
          int want = A.val && A.v == w;
          expectEq("== value", e, want);
          if (!S->bad) expectEq("!= value", n, !want);
          if (!S->bad) expectEq("value ==", e2, want);
          if (!S->bad) expectEq("value !=", n2, !want);
          settle(t, o.a, A);
        }
        break;
      case kEqErr:
        if constexpr (!vd) {
          int w = o.b % 2 ? o.v : A.v;
          if (w == -1 && !trackedE) break;
          const U u{Acc<E>::make(w)};
          int e = -5, n = -5, e2 = -5, n2 = -5;
          const X& a = sa.x();
          bool t = call(o, [&] { e = a == u; n = a != u; e2 = u == a; n2 = u != a; });
          int want = !A.val && A.v == w;
          expectEq("== unexpected", e, want);
          if (!S->bad) expectEq("!= unexpected", n, !want);
          if (!S->bad) expectEq("unexpected ==", e2, want);
          if (!S->bad) expectEq("unexpected !=", n2, !want);
          settle(t, o.a, A);
        }
        break;
    }
#undef VIA
  }

  void run(const Plan& p) {
    for (auto& o : p.ops) {
      S->mix(uint64_t(o.k) * 131 + o.a * 17 + o.b);
      step(o);
      ++(S->fired ? S->opFail : S->opDone)[o.k];
      if (g_log && model[o.a].has) {
        Host h;
        g_log->push_back(opText + (o.failAt ? " fail@" + std::to_string(o.failAt) + (S->fired ? " (failed)" : "") : "") + " -> " +
                         show(model[o.a]));
      }
      S->fired = false;
      if (S->bad) return;
    }
    for (int k = 0; k < kSlots; ++k) drop(k);
    if (!S->bad && !S->live.empty())
      bad("element", std::to_string(S->live.size()) + " element(s) never destroyed, a " + kName[S->live.begin()->second] + " among them");
    if (!S->bad && !S->blocks.empty()) bad("element", std::to_string(S->blocks.size()) + " memory block(s) never freed");
  }
};

void runKind(const Plan& p) {
  constexpr int C = kCopyThrows, M = kMoveThrows, K = kMakeThrows;
  // a machine with the library's own types counts allocations instead
  S->allocFaults = p.kind == 0 || p.kind == 9;
#define GO(...) { auto m = std::make_unique<Machine<__VA_ARGS__>>(); m->run(p); if (S->bad) m.release(); break; }
  using SolutionT = trajopt::SwerveSolution;
  switch (p.kind) {
    case 0: GO(SolutionT, std::string)
    case 1: GO(El<1, C | K>, El<2, C | K>)
    case 2: GO(El<1, C | M | K>, El<2, C | K>)
    case 3: GO(El<1, C | K>, El<2, C | M | K>)
    case 4: GO(El<1, K>, El<2, C | K>)
    case 5: GO(El<1, C | K>, int)
    case 6: GO(int, El<2, C | K>)
    case 7: GO(void, El<2, C | K>)
    case 8: GO(void, El<2, C | M | K>)
    case 9: GO(SolutionT, int)
  }
#undef GO
}

// ------------------------------------------------------------- run in a child
struct Shared {
  uint64_t runs, bad;       // finished runs of this child; one was bad
  uint64_t faults, total, faulty, opDone[64], opFail[64];
  uint64_t hash[1 << 12];
  char busy[1 << 12];
  uint64_t n;
  char tag[32], text[1024], log[1 << 16];
};
Shared* g;
void finishBad() {
  snprintf(g->tag, sizeof g->tag, "%s", S->tag.c_str());
  snprintf(g->text, sizeof g->text, "%s", S->text.c_str());
  g->bad = 1;
}
void fatal(const char* tag, const char* text) {
  if (!S->bad) {
    S->bad = true;
    S->tag = tag;
    S->text = text;
  }
  g->hash[g->n & 4095] = S->hash;
  finishBad();
  _exit(0);
}
void onSignal(int s) {
  Host h;
  fatal(s == SIGXCPU ? "hang" : "crash", s == SIGXCPU ? "a run did not end" : s == SIGABRT ? "abort" : "memory fault");
}
void childSetup() {
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU}) signal(s, onSignal);
  struct rlimit rl{20, 25};
  setrlimit(RLIMIT_CPU, &rl);
  std::set_terminate([] {
    Host h;
    fatal("terminate", "std::terminate was called: the failure of an element operation ended the process");
  });
}
void flushQuarantine();
void runOne(const Plan& p) {
  static Sim s;
  {
    Host h;
    flushQuarantine();
    s = Sim{};
  }
  S = &s;
  runKind(p);
}
void resetShared() { memset(g, 0, offsetof(Shared, hash)); g->n = 0; g->tag[0] = g->text[0] = g->log[0] = 0; }

struct Result { bool ran, bad; std::string tag, text, log; uint64_t hash; };
Result runPlan(const Plan& p, bool keep) {
  resetShared();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    childSetup();
    std::vector<std::string> log;
    if (keep) g_log = &log;
    runOne(p);
    if (S->bad) finishBad();
    g->hash[0] = S->hash;
    g->n = 1;
    std::string t;
    for (auto& l : log) t += "  " + l + "\n";
    snprintf(g->log, sizeof g->log, "%s", t.c_str());
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  return {g->n || g->bad, g->bad != 0, g->tag, g->text, g->log, g->hash[0]};
}
double wall() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20) o += ' ';
    else o += char(c);
  }
  return o + "\"";
}

int batch(int argc, char** argv) {
  uint64_t base = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10);
  double secs = atof(argv[5]), t0 = wall();
  uint64_t maxRuns = strtoull(argv[6], nullptr, 10), maxViol = strtoull(argv[7], nullptr, 10);
  bool thorough = argc > 8 && atoi(argv[8]);
  FILE* hf = argc > 9 ? fopen(argv[9], "w") : nullptr;
  uint64_t runs = 0, viols = 0, harness = 0, faults = 0, total = 0, faulty = 0;
  std::map<int, uint64_t> opDone, opFail;
  std::set<uint64_t> hashes;
  while (runs < maxRuns && wall() - t0 < secs && viols < maxViol) {
    resetShared();
    uint64_t todo = std::min<uint64_t>(4000, maxRuns - runs);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      childSetup();
      for (uint64_t k = 0; k < todo; ++k) {
        runOne(generate(base + (runs + k) * stride, thorough));
        g->hash[g->n] = S->hash;
        g->busy[g->n] = S->faults > 0;
        g->faults += S->faults;
        g->total += S->total;
        g->faulty += S->faults > 0;
        for (int q = 0; q < kCount; ++q) {
          g->opDone[q] += S->opDone[q];
          g->opFail[q] += S->opFail[q];
        }
        if (S->bad) { finishBad(); _exit(0); }
        ++g->n;
      }
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    uint64_t n = g->n + (g->bad ? 1 : 0);
    if (!g->bad && g->n != todo) {
      ++harness;
      ++n;
      printf("{\"harness\":\"a run ended without a result\",\"seed\":%llu}\n", (unsigned long long)(base + (runs + g->n) * stride));
    }
    for (uint64_t k = 0; k < n; ++k) {
      hashes.insert(g->hash[k]);
      if (hf) fprintf(hf, "%llu %llu %d\n", (unsigned long long)(base + (runs + k) * stride), (unsigned long long)g->hash[k], g->busy[k]);
    }
    faults += g->faults;
    total += g->total;
    faulty += g->faulty;
    for (int q = 0; q < kCount; ++q) {
      opDone[q] += g->opDone[q];
      opFail[q] += g->opFail[q];
    }
    if (g->bad) {
      ++viols;
      printf("{\"violation\":%s,\"tag\":%s,\"seed\":%llu,\"hash\":%llu}\n", jstr(g->text).c_str(), jstr(g->tag).c_str(),
             (unsigned long long)(base + (runs + g->n) * stride), (unsigned long long)g->hash[g->n]);
      fflush(stdout);
    }
    runs += n;
  }
  std::string ops;
  for (int q = 0; q < kCount; ++q)
    ops += std::string(",\"op.") + kOps[q] + "\":" + std::to_string(opDone[q]) + ",\"failed." + kOps[q] + "\":" + std::to_string(opFail[q]);
  printf("{\"summary\":{\"runs\":%llu,\"multi\":0,\"violations\":%llu,\"harness\":%llu,\"distinct\":%zu,\"wall\":%f,"
         "\"counts\":{\"runs\":%llu,\"fault.throw\":%llu,\"element.events\":%llu,\"runs.with.faults\":%llu%s},\"stats\":{},\"other\":{}}}\n",
         (unsigned long long)runs, (unsigned long long)viols, (unsigned long long)harness, hashes.size(), wall() - t0,
         (unsigned long long)runs, (unsigned long long)faults, (unsigned long long)total, (unsigned long long)faulty, ops.c_str());
  if (hf) fclose(hf);
  return 0;
}
}  // namespace

// ------------------------------------------------- memory of the code under test
// Blocks freed by the code under test stay quarantined until their run ends.
namespace {
constexpr uint64_t kLive = 0x6c69766521212121ull, kDead = 0x6465616421212121ull;
struct Head { uint64_t magic; Head* next; };
Head* g_quarantine;
void flushQuarantine() {
  while (g_quarantine) {
    Head* h = g_quarantine;
    g_quarantine = h->next;
    h->magic = 0;
    free(h);
  }
}
}  // namespace
void* operator new(size_t n) {
  bool lib = S && S->inLib && !Host::depth;
  if (lib && S->allocFaults) {
    try { event(10); } catch (const Injected&) { throw std::bad_alloc(); }
  }
  Head* h = static_cast<Head*>(malloc(n + sizeof(Head)));
  if (!h) throw std::bad_alloc();
  h->magic = kLive;
  if (lib) { Host d; S->blocks.insert(h + 1); }
  return h + 1;
}
void operator delete(void* p) noexcept {
  if (!p) return;
  Head* h = static_cast<Head*>(p) - 1;
  if (S && !Host::depth) {
    Host d;
    if (h->magic != kLive) {
      bad("memory", h->magic == kDead ? "memory was freed twice" : "something was freed that was never allocated");
      return;
    }
    S->blocks.erase(p);
    h->magic = kDead;
    h->next = g_quarantine;
    g_quarantine = h;
    return;
  }
  h->magic = kDead;
  free(h);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  g = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string mode = argv[1];
  if (mode == "gen") {
    printf("%s", planText(generate(strtoull(argv[3], nullptr, 10), argc > 4 && atoi(argv[4]))).c_str());
    return 0;
  }
  if (mode == "batch") return batch(argc, argv);
  std::ifstream in(argv[2]);
  std::stringstream ss;
  ss << in.rdbuf();
  Plan p;
  if (!parse(ss.str(), p)) {
    fprintf(stderr, "bad plan\n");
    return 2;
  }
  if (mode == "replay") {
    Result r = runPlan(p, true);
    if (!r.ran) return 2;
    if (argc > 3) printf("%s", r.log.c_str());
    if (r.bad) printf("VIOLATED %s: %s\n", r.tag.c_str(), r.text.c_str());
    printf("hash %llu\n", (unsigned long long)r.hash);
    return r.bad ? 1 : 0;
  }
  if (mode == "minimise") {
    auto fails = [&](const Plan& q) { Result r = runPlan(q, false); return r.bad && r.tag == argv[4]; };
    if (!fails(p)) return 3;
    for (bool go = true; go;) {
      go = false;
      for (size_t k = 0; k < p.ops.size();) {
        Plan q = p;
        q.ops.erase(q.ops.begin() + k);
        if (fails(q)) { p = q; go = true; }
        else ++k;
      }
      for (size_t k = 0; k < p.ops.size(); ++k)
        while (p.ops[k].failAt) {
          Plan q = p;
          --q.ops[k].failAt;
          if (!fails(q)) break;
          p = q;
          go = true;
        }
    }
    Result r = runPlan(p, true);
    std::ofstream o(argv[3]);
    o << "# property S11\n# " << r.tag << ": " << r.text << "\n" << planText(p) << "# execution:\n";
    std::istringstream l(r.log);
    for (std::string x; std::getline(l, x);) o << "# " << x << "\n";
    printf("%s\nhash %llu same\n", r.text.c_str(), (unsigned long long)r.hash);
    return 0;
  }
  return 2;
}
