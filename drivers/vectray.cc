// Contracts of Vectray: it behaves as a sequence whatever storage holds it; every element is constructed and destroyed exactly once and only through its own constructors.
#include "vf.h"
#include "swoc/Vectray.h"
using namespace swoc;
static int64_t live;
struct E { // an element that knows its address and whether it is alive
  uint64_t id; E *me; bool moved = false;
  E() : E(0) {} E(uint64_t i) : id(i), me(this) { ++live; }
  E(E const &t) : id(t.id), me(this), moved(t.moved) { vf_check(t.me == &t, "only live elements are copied"); ++live; }
  E(E &&t) noexcept : id(t.id), me(this), moved(t.moved) { vf_check(t.me == &t, "only live elements are moved"); t.moved = true; ++live; }
  E &operator=(E const &t) { vf_check(me == this && t.me == &t, "only live elements are assigned"); id = t.id; moved = t.moved; return *this; }
  E &operator=(E &&t) noexcept { vf_check(me == this && t.me == &t, "only live elements are assigned"); id = t.id; moved = t.moved; t.moved = true; return *this; }
  ~E() { vf_check(me == this, "only live elements are destroyed"); me = nullptr; --live; } };
template <size_t N> using V = Vectray<E, N>;
template <size_t N> static void is(V<N> &v, uint64_t const *id, size_t n) { // the content is the sequence id[0..n)
  V<N> const &c = v; vf_check(v.size() == n && c.size() == n && v.empty() == (n == 0), "the size is the number of elements"); size_t k = 0;
  for (E &e : v) { vf_check(k < n && e.me == &e && !e.moved && e.id == id[k] && &v[k] == &e && &c[k] == &e, "elements are in order and alive"); ++k; } vf_check(k == n, "iteration covers every element"); k = 0;
  for (E const &e : c) { vf_check(k < n && &e == &v[k], "constant iteration"); ++k; } vf_check(k == n, "constant iteration covers every element");
  if (n) vf_check(&v.front() == &v[0] && &c.front() == &v[0] && &v.back() == &v[n - 1] && &c.back() == &v[n - 1] && v.data() == &v[0] && c.data() == &v[0], "ends and data");
  typename V<N>::span sp = v; typename V<N>::const_span cs = c; vf_check(sp.size() == n && cs.size() == n && (n == 0 || (sp.data() == &v[0] && cs.data() == &v[0])), "span conversion is the elements"); }
#define MK(N, K) live = 0; vf_opt("unroll", 30); vf_opt("peel_all", 1); uint64_t id[K + 6]; for (size_t i = 0; i < K + 6; ++i) id[i] = 0; { V<N> v; for (size_t i = 0; i < K; ++i) { id[i] = vf_word("id"); v.push_back(E(id[i])); }
#define END } vf_check(live == 0, "every element is destroyed exactly once");
template <size_t N, size_t K> static void push() { MK(N, K) is<N>(v, id, K); vf_check(live == int64_t(K), "one live object for each element"); E x(id[K] = vf_word("x")); vf_check(&v.push_back(x) == &v, "returns the container"); vf_check(!x.moved, "a pushed lvalue is copied"); is<N>(v, id, K + 1); END }
template <size_t N, size_t K> static void pushmv() { MK(N, K) E x(id[K] = vf_word("x")); vf_check(&v.push_back(std::move(x)) == &v, "returns the container"); vf_check(x.moved, "a pushed rvalue is moved"); is<N>(v, id, K + 1); END }
template <size_t N, size_t K> static void emplace() { MK(N, K) id[K] = vf_word("x"); vf_check(&v.emplace_back(id[K]) == &v, "returns the container"); is<N>(v, id, K + 1); END }
template <size_t N, size_t K> static void alias() { if constexpr (K > 0) { MK(N, K) id[K] = id[K / 2]; v.push_back(v[K / 2]); is<N>(v, id, K + 1); id[K + 1] = id[K]; v.emplace_back(v[K]); is<N>(v, id, K + 2); END } else vf_check(true, "nothing to alias"); }
template <size_t N, size_t K> static void pop() { if constexpr (K > 0) { MK(N, K) vf_check(&v.pop_back() == &v, "returns the container"); is<N>(v, id, K - 1); vf_check(live == int64_t(K - 1), "the element is destroyed"); id[K - 1] = 5; v.emplace_back(uint64_t(5)); is<N>(v, id, K); END } else vf_check(true, "nothing to remove"); }
template <size_t N, size_t K> static void reserve() { MK(N, K) size_t r = vf_range("r", 0, 6); for (size_t i = 0; i <= 6; ++i) if (r == i) { r = i; break; } v.reserve(r); is<N>(v, id, K); E *p = v.data(); if (r > K) { id[K] = 3; v.emplace_back(uint64_t(3)); is<N>(v, id, K + 1); vf_check(K == 0 || v.data() == p, "reserved space needs no reallocation"); } END }
template <size_t N, size_t K> static void copy() { MK(N, K) { V<N> w(static_cast<V<N> const &>(v)); is<N>(w, id, K); is<N>(v, id, K); w.emplace_back(uint64_t(1)); is<N>(v, id, K); } is<N>(v, id, K); END }
template <size_t N, size_t K> static void move() { MK(N, K) { V<N> w(std::move(v)); is<N>(w, id, K); } END }
template <size_t N, size_t K, size_t J> static void assign() { MK(N, K) { uint64_t z[J + 1]; V<N> w; for (size_t i = 0; i < J; ++i) { z[i] = vf_word("z"); w.emplace_back(z[i]); } w = static_cast<V<N> const &>(v); is<N>(w, id, K); is<N>(v, id, K); } is<N>(v, id, K); END }
template <size_t N, size_t K, size_t J> static void assignmv() { MK(N, K) { uint64_t z[J + 1]; V<N> w; for (size_t i = 0; i < J; ++i) { z[i] = vf_word("z"); w.emplace_back(z[i]); } w = std::move(v); is<N>(w, id, K); } END }
template <size_t N, size_t K, size_t M> static void convert() { MK(N, K) { V<M> w(std::move(v)); is<M>(w, id, K); } END }
template <size_t N> static void sized() { live = 0; vf_opt("unroll", 30); vf_opt("peel_all", 1); size_t k = vf_range("k", 0, 5); for (size_t i = 0; i <= 5; ++i) if (k == i) { k = i; break; } uint64_t id[6] = {0, 0, 0, 0, 0, 0}; { V<N> v(k); is<N>(v, id, k); std::allocator<E> a; V<N> u(a); is<N>(u, id, 0); V<N> w(std::move(v), a); is<N>(w, id, k); } vf_check(live == 0, "every element is destroyed exactly once"); }
#define OPS(N, K) VF_ENTRY(chk_push_##N##_##K) { push<N, K>(); } VF_ENTRY(chk_pushmv_##N##_##K) { pushmv<N, K>(); } VF_ENTRY(chk_emplace_##N##_##K) { emplace<N, K>(); } VF_ENTRY(chk_alias_##N##_##K) { alias<N, K>(); } VF_ENTRY(chk_pop_##N##_##K) { pop<N, K>(); } VF_ENTRY(chk_reserve_##N##_##K) { reserve<N, K>(); } VF_ENTRY(chk_copy_##N##_##K) { copy<N, K>(); } VF_ENTRY(chk_move_##N##_##K) { move<N, K>(); } \
 VF_ENTRY(chk_assign_##N##_##K) { assign<N, K, 1>(); assign<N, K, N + 1>(); } VF_ENTRY(chk_assignmv_##N##_##K) { assignmv<N, K, 1>(); assignmv<N, K, N + 1>(); } VF_ENTRY(chk_convert_##N##_##K) { convert<N, K, 1>(); convert<N, K, 2>(); convert<N, K, 4>(); }
OPS(1, 0) OPS(1, 1) OPS(1, 2) OPS(1, 3) OPS(3, 0) OPS(3, 2) OPS(3, 3) OPS(3, 4)
#ifdef THOROUGH
OPS(2, 0) OPS(2, 1) OPS(2, 2) OPS(2, 3) OPS(2, 4) OPS(4, 3) OPS(4, 4) OPS(4, 6) OPS(5, 5) OPS(5, 8)
#endif
VF_ENTRY(chk_sized_1) { sized<1>(); } VF_ENTRY(chk_sized_3) { sized<3>(); }
struct alignas(32) Big { char c[32]; }; // storage is usable for any element type
VF_ENTRY(chk_align) { static_assert(alignof(Vectray<Big, 2>) >= alignof(Big)); static_assert(alignof(Vectray<E, 1>) >= alignof(E)); static_assert(alignof(Vectray<char, 8>::FixedStore) >= 1); vf_check(alignof(Vectray<Big, 2>::FixedStore) >= alignof(Big), "fixed storage is aligned for the element type"); }
template <class T> struct Al { using value_type = T; int tag = 0; Al() = default; Al(int t) : tag(t) {} template <class U> Al(Al<U> const &u) : tag(u.tag) {} T *allocate(size_t n) { vf_check(tag == 7, "the given allocator is used"); return static_cast<T *>(::operator new(n * sizeof(T))); } void deallocate(T *p, size_t) { vf_check(tag == 7, "the given allocator is used"); ::operator delete(p); } bool operator==(Al const &a) const { return tag == a.tag; } bool operator!=(Al const &a) const { return tag != a.tag; } };
VF_ENTRY(chk_allocator) { live = 0; vf_opt("unroll", 30); vf_opt("peel_all", 1); { Vectray<E, 2, Al<E>> v(size_t(3), Al<E>(7)), u(Al<E>(7)); u.emplace_back(uint64_t(1)); u.emplace_back(uint64_t(2)); u.emplace_back(uint64_t(3)); vf_check(u.size() == 3 && v.size() == 3 && u[2].id == 3, "content"); Vectray<E, 2, Al<E>> w(std::move(u), Al<E>(7)); vf_check(w.size() == 3 && w[0].id == 1, "content"); } vf_check(live == 0, "every element is destroyed exactly once"); }
VF_ENTRY(chk_self) { MK(2, 2) v = static_cast<V<2> const &>(v); is<2>(v, id, 2); END }
