// Contracts of DiscreteRange over several metrics. v is an arbitrary metric value: set relations are stated pointwise.
#include "vf.h"
#include "swoc/DiscreteRange.h"
using namespace swoc;
template <typename T> struct M; // arbitrary metric values
template <> struct M<uint32_t> { static uint32_t any(char const *n) { return vf_range(n, 0, 0xffffffffu); } };
template <> struct M<uint8_t> { static uint8_t any(char const *n) { return vf_range(n, 0, 255); } };
template <> struct M<int32_t> { static int32_t any(char const *n) { int32_t x = vf_srange(n, -0x7fffffffl - 1, 0x7fffffff); vf_split(x < 0); return x; } };
struct K { uint64_t w; static K const MIN, MAX; constexpr K(uint64_t x) : w(x) {} bool operator==(K const &t) const { return w == t.w; } bool operator!=(K const &t) const { return w != t.w; } bool operator<(K const &t) const { return w < t.w; } bool operator<=(K const &t) const { return w <= t.w; } bool operator>(K const &t) const { return w > t.w; } bool operator>=(K const &t) const { return w >= t.w; } K &operator++() { ++w; return *this; } K &operator--() { --w; return *this; } }; // a class metric
inline constexpr K K::MIN{0}; inline constexpr K K::MAX{(1ul << 40)};
template <> struct M<K> { static K any(char const *n) { return K{vf_range(n, 0, 1ul << 40)}; } };
template <typename T> static bool in(DiscreteRange<T> const &r, T v) { return r._min <= v && v <= r._max; }
template <typename T> static T lo() { if constexpr (std::is_class_v<T>) return T::MIN; else return std::numeric_limits<T>::min(); }
template <typename T> static T hi() { if constexpr (std::is_class_v<T>) return T::MAX; else return std::numeric_limits<T>::max(); }
template <typename T> static T inc(T v) { ++v; return v; }
#define RNG using R = DiscreteRange<T>; T a = M<T>::any("a"), b = M<T>::any("b"), v = M<T>::any("v"); R r(a, b); (void)v;
#define RNG2 RNG T c = M<T>::any("c"), d = M<T>::any("d"); R s(c, d); vf_split(a <= b); vf_split(c <= d); bool e = a > b, f = c > d; (void)e; (void)f;
#define BOTH vf_assume(a <= b && c <= d);
template <typename T> static void basic() { RNG
  vf_check(r.min() == a && r.max() == b && r.empty() == (a > b) && !r == (a > b) && bool(r) == (a <= b) && r.is_singleton() == (a == b), "bounds and emptiness"); vf_check(r.contains(v) == (a <= v && v <= b), "contains is exactly the values between the bounds"); if (r.contains(v)) vf_check(!r.empty(), "an empty range contains nothing");
  R z; vf_check(z.empty() && !z.contains(v), "the default range is empty"); vf_check(R(v).min() == v && R(v).max() == v, "singleton"); vf_check(r.is_maximal() == (a == lo<T>() && b == hi<T>()), "maximal exactly when every value is contained");
  T m = M<T>::any("m"); R t; vf_check(&t.assign(a, b) == &t && t._min == a && t._max == b, "assign"); vf_check(&t.assign_min(m) == &t && t._min == m && t._max == b, "assign_min"); t.assign(a, b); vf_check(&t.assign_max(m) == &t && t._min == a && t._max == m, "assign_max"); t.assign(v); vf_check(t._min == v && t._max == v, "assign singleton"); t.clear(); vf_check(t.empty() && !t.contains(v), "clear empties the range");
  if (a < b) { t.assign(a, b); vf_check(t.clip_max()._min == a && inc(t._max) == b, "clip_max drops the maximum"); } }
template <typename T> static void sets() { RNG2
  bool q = in(r, v), w = in(s, v); R i = r.intersection(s); vf_check(in(i, v) == (q && w), "the intersection contains exactly the common values"); R j(r); j &= s; vf_check(j._min == i._min && j._max == i._max, "&= is the intersection");
  bool h = r.has_intersection_with(s); vf_check(h == !i.empty() && h == s.has_intersection_with(r) && h == (r ^ s), "ranges intersect exactly when they have a common value"); if (e || f) vf_check(!h, "an empty range intersects nothing"); if (q && w) vf_check(h, "ranges with a common value intersect"); 
  R u = r.hull(s), o(r); o |= s; if (q || w) vf_check(in(u, v) && in(o, v), "the hull contains both ranges"); if (e) vf_check(u._min == c && u._max == d && o._min == c && o._max == d, "the hull with an empty range is the other range"); else if (f) vf_check(u._min == a && u._max == b && o._min == a && o._max == b, "the hull with an empty range is the other range");
  else vf_check((u._min == a || u._min == c) && (u._max == b || u._max == d) && u._min <= a && u._min <= c && u._max >= b && u._max >= d && o._min == u._min && o._max == u._max, "the hull is the smallest range containing both"); }
template <typename T> static void order() { RNG2
  vf_check((r == s) == (a == c && b == d) && (r != s) == !(a == c && b == d), "equality is equality of bounds"); vf_check(swoc::operator==(r, s) == (a == c && b == d) && swoc::operator!=(r, s) == !(a == c && b == d), "equality is equality of bounds"); typename R::lexicographic_order lx; vf_check(lx(r, s) == (a < c || (a == c && b < d)), "lexicographic order"); }
template <typename T> static void subset() { RNG2 BOTH
  bool sup = a <= c && d <= b, eq = a == c && b == d; vf_check(r.is_superset_of(s) == sup && s.is_subset_of(r) == sup && (r >= s) == sup && (s <= r) == sup, "superset exactly when every value is contained"); vf_check(r.is_strict_superset_of(s) == (sup && !eq) && s.is_strict_subset_of(r) == (sup && !eq) && (r > s) == (sup && !eq) && (s < r) == (sup && !eq), "strict superset exactly when also different"); }
template <typename T> static void adj() { RNG2 BOTH
  bool left = b < c && inc(b) == c, right = d < a && inc(d) == a, ov = a <= d && c <= b, eq = a == c && b == d; vf_check(r.is_left_adjacent_to(s) == left, "left adjacent exactly when the next value starts the other"); vf_check(r.is_adjacent_to(s) == (left || right) && s.is_adjacent_to(r) == (left || right), "adjacency"); vf_check(r.has_union(s) == (left || right || ov), "a union exists exactly when the hull has only values of the two");
  using L = DiscreteRangeRelation; L x = r.relationship(s); vf_check(x == (eq ? L::EQUAL : (a >= c && b <= d) ? L::SUBSET : (a <= c && d <= b) ? L::SUPERSET : ov ? L::OVERLAP : (left || right) ? L::ADJACENT : L::NONE), "relationship is the most specific relation that holds");
  using E = DiscreteRangeEdgeRelation; E y = r.left_edge_relationship(s); vf_check(y == (c < a ? E::NONE : c <= b ? E::OVLP : left ? E::ADJ : E::GAP), "left edge relation"); }
#define ALL(N, T) VF_ENTRY(chk_basic_##N) { basic<T>(); } VF_ENTRY(chk_sets_##N) { sets<T>(); } VF_ENTRY(chk_order_##N) { order<T>(); } VF_ENTRY(chk_subset_##N) { subset<T>(); } VF_ENTRY(chk_adj_##N) { adj<T>(); }
ALL(u32, uint32_t) ALL(u8, uint8_t) ALL(i32, int32_t) ALL(cls, K)
