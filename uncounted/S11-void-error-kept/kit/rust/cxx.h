// Stand-in for the cxx crate's C++ header: the few types RustFFI.cpp uses.
// rust::Vec storage is owned by the "Rust side": allocation failure there
// aborts in real life, so it is exempt from allocation faults here.
#pragma once

#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace rust {

void* sim_rust_alloc(std::size_t n);
void sim_rust_free(void* p);

template <typename T>
struct SimRustAllocator {
  using value_type = T;
  SimRustAllocator() = default;
  template <typename U>
  SimRustAllocator(const SimRustAllocator<U>&) {}  // NOLINT
  T* allocate(std::size_t n) {
    return static_cast<T*>(sim_rust_alloc(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t) { sim_rust_free(p); }
  friend bool operator==(const SimRustAllocator&, const SimRustAllocator&) {
    return true;
  }
};

template <typename T>
class Vec {
 public:
  using value_type = T;
  using store = std::vector<T, SimRustAllocator<T>>;
  using iterator = typename store::iterator;
  using const_iterator = typename store::const_iterator;
  Vec() noexcept = default;
  Vec(std::initializer_list<T> il) : v(il) {}
  Vec(const Vec&) = default;
  Vec(Vec&&) noexcept = default;
  Vec& operator=(const Vec&) & = default;
  Vec& operator=(Vec&&) & noexcept = default;
  std::size_t size() const noexcept { return v.size(); }
  bool empty() const noexcept { return v.empty(); }
  const T* data() const noexcept { return v.data(); }
  T* data() noexcept { return v.data(); }
  std::size_t capacity() const noexcept { return v.capacity(); }
  const T& operator[](std::size_t i) const noexcept { return v[i]; }
  T& operator[](std::size_t i) noexcept { return v[i]; }
  const T& at(std::size_t i) const { return v.at(i); }
  T& at(std::size_t i) { return v.at(i); }
  const T& front() const noexcept { return v.front(); }
  T& front() noexcept { return v.front(); }
  const T& back() const noexcept { return v.back(); }
  T& back() noexcept { return v.back(); }
  void reserve(std::size_t n) { v.reserve(n); }
  void push_back(const T& x) { v.push_back(x); }
  void push_back(T&& x) { v.push_back(std::move(x)); }
  template <typename... A>
  void emplace_back(A&&... a) {
    v.push_back(T{std::forward<A>(a)...});
  }
  void truncate(std::size_t n) { v.resize(n); }
  void clear() { v.clear(); }
  iterator begin() noexcept { return v.begin(); }
  iterator end() noexcept { return v.end(); }
  const_iterator begin() const noexcept { return v.begin(); }
  const_iterator end() const noexcept { return v.end(); }
  const_iterator cbegin() const noexcept { return v.begin(); }
  const_iterator cend() const noexcept { return v.end(); }

 private:
  store v;
};

// A Rust `fn` pointer. A Rust panic cannot unwind into C++, hence noexcept.
template <typename Sig>
class Fn;
template <typename Ret, typename... Args>
class Fn<Ret(Args...)> {
 public:
  using Tramp = Ret (*)(Args..., void* fn);
  Fn() = default;
  Fn(Tramp t, void* f) : trampoline(t), fn(f) {}
  Ret operator()(Args... args) const noexcept {
    return trampoline(std::move(args)..., fn);
  }
  Fn operator*() const noexcept { return *this; }

 private:
  Tramp trampoline = nullptr;
  void* fn = nullptr;
};

}  // namespace rust
