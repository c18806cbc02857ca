// The C++ half of the bridge stand-in (see cxx.rs). Its buffers belong to the
// bridge: they are not the library's and never fail.
#pragma once
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <vector>

#include <rust/cxx.h>

namespace simbridge {
using Buf = std::vector<unsigned char, rust::SimRustAllocator<unsigned char>>;
struct Reader { const unsigned char* p; size_t n; };
struct Reply { unsigned char* data; size_t len; int32_t status; };

// The exception most recently turned into an error on this thread.
std::exception_ptr& stash();

template <typename T>
struct Wire;  // structures: generated
template <typename T>
  requires std::is_arithmetic_v<T>
struct Wire<T> {
  static void put(Buf& o, const T& v) {
    const unsigned char* p = reinterpret_cast<const unsigned char*>(&v);
    o.insert(o.end(), p, p + sizeof(T));
  }
  static void get(Reader& r, T& v) {
    if (r.n < sizeof(T)) std::abort();
    std::memcpy(&v, r.p, sizeof(T));
    r.p += sizeof(T);
    r.n -= sizeof(T);
  }
};
template <typename T>
struct Wire<rust::Vec<T>> {
  static void put(Buf& o, const rust::Vec<T>& v) {
    Wire<size_t>::put(o, v.size());
    for (const auto& x : v) Wire<T>::put(o, x);
  }
  static void get(Reader& r, rust::Vec<T>& v) {
    size_t n;
    Wire<size_t>::get(r, n);
    for (size_t k = 0; k < n; ++k) {
      T x{};
      Wire<T>::get(r, x);
      v.push_back(std::move(x));
    }
  }
};
template <typename T, size_t N>
struct Wire<std::array<T, N>> {
  static void put(Buf& o, const std::array<T, N>& v) { for (const auto& x : v) Wire<T>::put(o, x); }
  static void get(Reader& r, std::array<T, N>& v) { for (auto& x : v) Wire<T>::get(r, x); }
};
template <>
struct Wire<rust::String> {
  static void put(Buf& o, const rust::String& v) {
    Wire<size_t>::put(o, v.size());
    o.insert(o.end(), v.data(), v.data() + v.size());
  }
  static void get(Reader& r, rust::String& v) {
    size_t n;
    Wire<size_t>::get(r, n);
    if (r.n < n) std::abort();
    v = rust::String(reinterpret_cast<const char*>(r.p), n);
    r.p += n;
    r.n -= n;
  }
};
template <typename T>
T take(Reader& r) {
  T v{};
  Wire<T>::get(r, v);
  return v;
}
inline void reply(Reply* out, const void* p, size_t n, int status) {
  out->data = static_cast<unsigned char*>(rust::sim_rust_alloc(n ? n : 1));
  std::memcpy(out->data, p, n);
  out->len = n;
  out->status = status;
}
template <typename T>
void reply(Reply* out, const T& v) {
  Buf b;
  Wire<T>::put(b, v);
  reply(out, b.data(), b.size(), 0);
}
// Real cxx lets exceptions end the process except in functions that return a
// Result. Here any exception travels to the adapter.
template <typename F>
void guarded(Reply* out, F&& f) {
  try {
    f();
  } catch (const std::exception& e) {
    stash() = std::current_exception();
    reply(out, e.what(), std::strlen(e.what()), 1);
  } catch (...) {
    stash() = std::current_exception();
    reply(out, "unknown exception", 17, 1);
  }
}
}  // namespace simbridge
