// Contracts of DiscreteSpace. The space has K ranges at arbitrary positions with arbitrary payloads, in any valid red black tree; the operand is an arbitrary non-empty range.
#include "vf.h"
#include "swoc/DiscreteRange.h"
#include <cstdlib>
using namespace swoc;
struct M { uint32_t v; static M const MIN, MAX; M() = default; constexpr M(uint32_t x) : v(x) {} bool operator==(M const &t) const { return v == t.v; } bool operator!=(M const &t) const { return v != t.v; } bool operator<(M const &t) const { return v < t.v; } bool operator<=(M const &t) const { return v <= t.v; } bool operator>(M const &t) const { return v > t.v; } bool operator>=(M const &t) const { return v >= t.v; } M &operator++() { ++v; return *this; } M &operator--() { --v; return *this; } }; // a metric that wraps
inline constexpr M M::MIN{0}; inline constexpr M M::MAX{0xffffffffu};
using S = DiscreteSpace<M, int>; using Nd = S::Node; using Col = Nd::Color;
template <size_t K> struct Fix { S s; Nd *n[K + 1]; uint32_t a[K + 1], b[K + 1]; int p[K + 1]; Nd *sp[4]; };
struct T { // a valid red black subtree over nodes [lo,hi) of black height bh; every shape and colouring
  static size_t minsz(int bh) { return (size_t(1) << bh) - 1; } static size_t maxsz(int bh, bool red) { return red ? 2 * ((size_t(1) << 2 * bh) - 1) + 1 : (size_t(1) << 2 * bh) - 1; }
  static Nd *gen(Nd **n, size_t lo, size_t hi, int bh, bool red_ok) { size_t c = hi - lo; if (c == 0) { vf_assume(bh == 0); return nullptr; }
    bool red = bh == 0; if (red) { vf_assume(red_ok && c == 1); } else if (red_ok) { red = vf_bool("red"); vf_split(red); }
    if (red) vf_assume(c >= 2 * minsz(bh) + 1 && c <= 2 * maxsz(bh, false) + 1); else vf_assume(c >= minsz(bh) && c <= maxsz(bh, false));
    size_t r = vf_range("r", lo, hi - 1); for (size_t i = lo; i < hi; ++i) if (i == r) { r = i; break; }
    int cb = red ? bh : bh - 1; Nd *x = n[r]; x->_color = red ? Col::RED : Col::BLACK; Nd *l = gen(n, lo, r, cb, !red), *g = gen(n, r + 1, hi, cb, !red); x->_left = l; x->_right = g; if (l) l->_parent = x; if (g) g->_parent = x;
    x->_hull._min = n[lo]->_range._min; x->_hull._max = n[hi - 1]->_range._max; return x; } };
template <size_t K> static void build(Fix<K> &f, int bh) { vf_opt("peel_all", 1); vf_opt("unroll", 24);
  for (size_t i = 0; i < K; ++i) { f.n[i] = new (malloc(sizeof(Nd))) Nd; f.a[i] = vf_range("a", 0, 0xffffffffu); f.b[i] = vf_range("b", 0, 0xffffffffu); vf_assume(f.a[i] <= f.b[i]); if (i) vf_assume(f.b[i - 1] < f.a[i]); f.p[i] = vf_srange("p", -1000, 1000); f.n[i]->_range._min.v = f.a[i]; f.n[i]->_range._max = f.b[i]; f.n[i]->_payload = f.p[i]; f.n[i]->_prev = i ? f.n[i - 1] : nullptr; if (i) f.n[i - 1]->_next = f.n[i]; }
  f.s._root = T::gen(f.n, 0, K, bh, K == 1); f.s._list._head = K ? f.n[0] : nullptr; f.s._list._tail = K ? f.n[K - 1] : nullptr; f.s._list._count = K;
  for (size_t i = 0; i < 4; ++i) { f.sp[i] = static_cast<Nd *>(malloc(sizeof(Nd))); auto it = reinterpret_cast<FixedArena<Nd>::Item *>(f.sp[i]); it->_next = f.s._fa._list._next; f.s._fa._list._next = it; } }
struct V { // structural validity; returns black height
  static int tree(Nd *x, Nd *par, M &mn, M &mx, size_t &cnt, Nd *&last) { // in-order walk against the list
    if (!x) return 0; vf_check(x->_parent == par, "parent link"); vf_check(!(par && par->_color == Col::RED && x->_color == Col::RED), "no red node has a red child"); M m1, m2; Nd *l = x->left(), *r = x->right();
    int h1 = tree(l, x, mn, m1, cnt, last); vf_check((last ? last->_next : nullptr) == (last ? x : nullptr), "tree order is list order"); last = x; ++cnt; int h2 = tree(r, x, m2, mx, cnt, last); vf_check(h1 == h2, "black heights agree"); if (!l) mn = x->_range._min; if (!r) mx = x->_range._max;
    vf_check((!par && !l && !r) || (x->_hull._min == mn && x->_hull._max == mx), "the hull is the extent of the subtree"); return h1 + (x->_color == Col::BLACK); }
  static void all(S &s) { size_t c = 0; Nd *p = nullptr, *n = s._list._head; for (; n && c < 12; n = static_cast<Nd *>(n->_next)) { vf_check(n->_prev == p, "back link"); vf_check(n->_range._min <= n->_range._max, "every range is non-empty"); if (p) vf_check(p->_range._max < n->_range._min, "ranges are in order and disjoint"); p = n; ++c; }
    vf_check(n == nullptr && s._list._tail == p && s._list._count == c && s.count() == c && s.empty() == (c == 0), "list end and count"); vf_check(c < 2 || s._root->_color == Col::BLACK, "the root is black"); size_t k = 0; Nd *last = nullptr; M mn, mx; tree(s._root, nullptr, mn, mx, k, last); vf_check(k == c && last == s._list._tail, "the tree has every range once"); }
  static size_t freed(S &s) { size_t c = 0; for (auto i = s._fa._list._next; i; i = i->_next) ++c; return c; }
};
static bool at(S &s, uint32_t v, int &p) { for (Nd *n = s._list._head; n; n = static_cast<Nd *>(n->_next)) if (n->_range._min.v <= v && v <= n->_range._max.v) { p = n->_payload; return true; } return false; }
template <size_t K> static bool was(Fix<K> &f, uint32_t v, int &p) { for (size_t i = 0; i < K; ++i) if (f.a[i] <= v && v <= f.b[i]) { p = f.p[i]; return true; } return false; }
template <size_t K> static bool norm(Fix<K> &f) { for (size_t i = 1; i < K; ++i) if (f.b[i - 1] + 1 == f.a[i] && f.p[i - 1] == f.p[i]) return false; return true; }
static void normed(S &s) { Nd *p = nullptr; for (Nd *n = s._list._head; n; p = n, n = static_cast<Nd *>(n->_next)) if (p && p->_range._max.v + 1 == n->_range._min.v) vf_check(p->_payload != n->_payload, "adjacent ranges with the same payload are one range"); }
#define FIX(K, BH) union U { Fix<K> f; U() { new (&f) Fix<K>; } ~U() {} } u_; Fix<K> &f = u_.f; S &s = f.s; build<K>(f, BH); (void)s;
#define ARGS uint32_t lo = vf_range("lo", 0, 0xffffffffu), hi = vf_range("hi", 0, 0xffffffffu); vf_assume(lo <= hi); int pay = vf_srange("pay", -1000, 1000); (void)pay; DiscreteRange<M> rg{lo, hi};
#define POST V::all(s); vf_check(s._list._count + V::freed(s) == K + 4, "no node is lost");
#define VAL uint32_t v = vf_range("v", 0, 0xffffffffu); int p0 = 0, p1 = 0; bool h0 = was(f, v, p0), in = lo <= v && v <= hi; bool h1 = at(s, v, p1); (void)p0; (void)p1; (void)h0; (void)h1;
#define NORM if (norm(f)) normed(s);
template <size_t K, int BH> static void mark() { FIX(K, BH) ARGS vf_check(&s.mark(rg, pay) == &s, "returns the space"); POST { NORM } VAL if (in) vf_check(h1 && p1 == pay, "marked values have the payload"); else vf_check(h1 == h0 && (!h0 || p1 == p0), "other values are unchanged"); }
template <size_t K, int BH> static void fill() { FIX(K, BH) ARGS vf_check(&s.fill(rg, pay) == &s, "returns the space"); POST { NORM } VAL if (in && !h0) vf_check(h1 && p1 == pay, "unmarked values in the range get the payload"); else vf_check(h1 == h0 && (!h0 || p1 == p0), "other values are unchanged"); }
template <size_t K, int BH> static void erase() { FIX(K, BH) ARGS vf_check(&s.erase(rg) == &s, "returns the space"); POST { NORM } VAL if (in) vf_check(!h1, "erased values have no payload"); else vf_check(h1 == h0 && (!h0 || p1 == p0), "other values are unchanged"); }
struct Bl { int x[8], q[8]; bool ok[8]; size_t n = 0; void add(int v) { x[n] = v; q[n] = vf_srange("q", -1000, 1000); ok[n] = vf_bool("ok"); ++n; } size_t idx(int v) const { for (size_t i = 0; i < n; ++i) if (x[i] == v) return i; vf_never("only original payloads are blended"); return 0; } }; // an arbitrary blend function of the payload
template <size_t K, int BH, size_t J, size_t E, int W = -1> static void blend() { vf_opt("max_steps", 60000000); vf_opt("max_states", 4000000); FIX(K, BH) ARGS if (J > 0) vf_assume(f.b[J - 1] < lo); if (J < K) vf_assume(f.b[J] >= lo); if (E > 0) vf_assume(f.a[E - 1] <= hi); if (E < K) vf_assume(f.a[E] > hi); if (W >= 0) { if (W & 1) vf_assume(lo < f.a[J]); else vf_assume(lo >= f.a[J]); if (W & 2) vf_assume(f.b[E - 1] <= hi); else vf_assume(f.b[E - 1] > hi); } /* J ranges precede the operand, E start by its end */ Bl t; t.add(0); for (size_t i = 0; i < K; ++i) t.add(f.p[i]); vf_check(&s.blend(rg, 7, [&](int &x, int c) { vf_check(c == 7, "the color is passed to the blender"); size_t i = t.idx(x); x = t.q[i]; return t.ok[i]; }) == &s, "returns the space"); POST { NORM } VAL
  if (in) { size_t i = t.idx(h0 ? p0 : 0); vf_check(h1 == t.ok[i] && (!h1 || p1 == t.q[i]), "values in the range have the blended payload"); } else vf_check(h1 == h0 && (!h0 || p1 == p0), "other values are unchanged"); }
template <size_t K, int BH> static void find() { FIX(K, BH) ARGS vf_assume(lo == hi); VAL auto i = s.find(v); auto j = static_cast<S const &>(s).find(v); vf_check((i._v != nullptr) == h0 && j._v == i._v && (i == s.end()) == !h0, "find succeeds exactly for values in the space"); if (h0) vf_check(i->range().contains(v) && i->payload() == p0, "find selects the range containing the value"); POST }
template <size_t K, int BH> static void bound() { FIX(K, BH) uint32_t v = vf_range("v", 0, 0xffffffffu); auto i = s.lower_bound(v), j = s.upper_bound(v); Nd *l = nullptr, *u = nullptr; for (size_t k = 0; k < K; ++k) { if (f.a[k] <= v) l = f.n[k]; else if (!u) u = f.n[k]; } vf_check(i._v == l, "lower bound is the last range that starts at or before the value"); vf_check(j._v == u, "upper bound is the first range that starts after the value"); vf_check(i._list == &s._list && j._list == &s._list, "the iterators belong to the space"); }
template <size_t K, int BH> static void isect() { FIX(K, BH) ARGS auto [i, j] = s.intersection(rg); Nd *l = nullptr, *e = nullptr; for (size_t k = 0; k < K; ++k) { if (f.b[k] >= lo && f.a[k] <= hi) { if (!l) l = f.n[k]; e = k + 1 < K ? f.n[k + 1] : nullptr; } } vf_check(l ? (i._v == l && j._v == e) : i._v == j._v, "intersection selects exactly the ranges that intersect"); }
template <size_t K, int BH> static void clear() { FIX(K, BH) s.clear(); vf_check(s._root == nullptr && s._list._head == nullptr && s._list._count == 0 && s._fa._list._next == nullptr && s._list._tail == nullptr, "clear empties the space"); s.mark({M{3}, M{5}}, 9); s.mark({M{7}, M{9}}, 9); V::all(s); vf_check(s.count() == 2, "a cleared space is usable"); }
#define OPS(K, BH) VF_ENTRY(chk_mark_##K##_##BH) { mark<K, BH>(); } VF_ENTRY(chk_fill_##K##_##BH) { fill<K, BH>(); } VF_ENTRY(chk_erase_##K##_##BH) { erase<K, BH>(); } VF_ENTRY(chk_find_##K##_##BH) { find<K, BH>(); } VF_ENTRY(chk_bound_##K##_##BH) { bound<K, BH>(); } VF_ENTRY(chk_isect_##K##_##BH) { isect<K, BH>(); }
OPS(0, 0) OPS(1, 1) OPS(1, 0) OPS(2, 1) OPS(3, 1) OPS(3, 2)
#define BL(K, BH, J, E) VF_ENTRY(chk_blend_##K##_##BH##_##J##_##E) { blend<K, BH, J, E>(); }
#define BW(K, BH, J, E, W) VF_ENTRY(chk_blend_##K##_##BH##_##J##_##E##_##W) { blend<K, BH, J, E, W>(); }
BL(0, 0, 0, 0) BL(1, 1, 0, 0) BL(1, 1, 0, 1) BL(1, 1, 1, 1) BL(1, 0, 0, 0) BL(1, 0, 0, 1) BL(1, 0, 1, 1) BL(2, 1, 0, 0) BL(2, 1, 0, 1) BL(2, 1, 0, 2) BL(2, 1, 1, 1) BL(2, 1, 1, 2) BL(2, 1, 2, 2) BL(3, 1, 0, 0) BL(3, 1, 0, 1) BL(3, 1, 0, 2) BW(3, 1, 0, 3, 0) BW(3, 1, 0, 3, 1) BW(3, 1, 0, 3, 2) BW(3, 1, 0, 3, 3) BL(3, 1, 1, 1) BL(3, 1, 1, 2) BL(3, 1, 1, 3) BL(3, 1, 2, 2) BL(3, 1, 2, 3) BL(3, 1, 3, 3)
#ifdef THOROUGH
OPS(4, 2) BL(3, 2, 0, 0) BL(3, 2, 0, 1) BL(3, 2, 0, 2) BL(3, 2, 0, 3) BL(3, 2, 1, 1) BL(3, 2, 1, 2) BL(3, 2, 1, 3) BL(3, 2, 2, 2) BL(3, 2, 2, 3) BL(3, 2, 3, 3)
#endif
VF_ENTRY(chk_clear_0) { clear<0, 0>(); } VF_ENTRY(chk_clear_2) { clear<2, 1>(); }
// structure only: every valid tree of N nodes, one insertion at or removal of any position
template <size_t K, int BH> static void remove() { constexpr size_t N = K; FIX(K, BH) size_t i = vf_range("i", 0, N - 1); for (size_t k = 0; k < N; ++k) if (i == k) { i = k; break; } s.remove(f.n[i]); V::all(s); vf_check(s._list._count == N - 1 && !s._list.contains(f.n[i]), "exactly the node is removed"); }
template <size_t K, int BH> static void insert(int how) { constexpr size_t N = K; FIX(K, BH) size_t i = vf_range("i", 0, N); for (size_t k = 0; k <= N; ++k) if (i == k) { i = k; break; } uint32_t x = vf_range("x", 0, 0xffffffffu); if (i < N) vf_assume(x < f.a[i]); if (i > 0) vf_assume(x > f.b[i - 1]); Nd *y = new (malloc(sizeof(Nd))) Nd; y->_range._min = y->_range._max = x;
  if (how == 0) { if (i < N) s.insert_before(f.n[i], y); else s.append(y); } else { if (i > 0) s.insert_after(f.n[i - 1], y); else s.prepend(y); } V::all(s); vf_check(s._list._count == N + 1 && s._list.contains(y), "exactly the node is added"); }
#define TR(N, BH) VF_ENTRY(chk_tree_remove_##N##_##BH) { remove<N, BH>(); } VF_ENTRY(chk_tree_insert_before_##N##_##BH) { insert<N, BH>(0); } VF_ENTRY(chk_tree_insert_after_##N##_##BH) { insert<N, BH>(1); }
TR(1, 1) TR(2, 1) TR(3, 1) TR(3, 2) TR(4, 2) TR(5, 2) TR(6, 2) TR(7, 2) TR(7, 3) TR(8, 2) TR(8, 3) TR(9, 3)
#ifdef THOROUGH
TR(10, 3) TR(11, 3) TR(12, 3)
#endif
