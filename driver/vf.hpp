// Opaque client types: only declared, the analysis supplies their meaning.
#pragma once
#include <cassert>
#include <chrono>
#include <cstddef>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <algorithm>

namespace vf {
struct X { X(const X&); X(X&&); X& operator=(const X&); X& operator=(X&&); ~X(); };  // key argument
struct Y { Y(const Y&); Y(Y&&); Y& operator=(const Y&); Y& operator=(Y&&); ~Y(); };  // value argument
struct K {
  K(const K&);
  K(K&&);
  K& operator=(const K&);
  K& operator=(K&&);
  ~K();
  explicit K(const X&);
  explicit K(X&&);
  K(const X&, const Y&);
  K(X&&, Y&&);
};
bool operator==(const K&, const K&);
bool operator!=(const K&, const K&);
struct V {
  V(const V&);
  V(V&&);
  V& operator=(const V&);
  V& operator=(V&&);
  ~V();
  explicit V(const Y&);
  explicit V(Y&&);
  V(const X&, const Y&);
  V(X&&, Y&&);
};
bool operator==(const V&, const V&);
bool operator!=(const V&, const V&);
struct H {
  H();
  H(const H&);
  H& operator=(const H&);
  ~H();
  std::size_t operator()(const K&) const;
};
struct E {
  E();
  E(const E&);
  E& operator=(const E&);
  ~E();
  bool operator()(const K&, const K&) const;
};
// callback functors
struct FH { FH(const FH&); ~FH(); void operator()(const K&, const V&) const; };
struct FM { FM(const FM&); ~FM(); void operator()(const K&) const; };
struct FA { FA(const FA&); ~FA(); void operator()(const K&, bool) const; };
struct Obs {
  bool b, b2, end;
  std::size_t n, n2, n3;
  const K* key;
  const V* val;
  const void* p;
};
}  // namespace vf
namespace std {
template <>
struct hash<vf::K> {
  std::size_t operator()(const vf::K&) const;
};
template <>
struct hash<vf::X> {
  std::size_t operator()(const vf::X&) const;
};
template <>
struct hash<vf::Y> {
  std::size_t operator()(const vf::Y&) const;
};
}  // namespace std
