// Contracts of IntrusiveDList: every operation is the corresponding operation on a sequence.
// The list has symbolic length n; its nodes are laid out in order (the code only compares node addresses for equality).
// One arbitrary node w is tracked exactly; since w is arbitrary, what holds for it holds for every node.
#include "vf.h"
#include "swoc/IntrusiveDList.h"
using namespace swoc;
struct N { N *_next; N *_prev; uint64_t pay; };
using L = IntrusiveDList<IntrusiveLinkage<N>>;
static void wit(N *p) { vf_witness_cell(&p->_next, 8); vf_witness_cell(&p->_prev, 8); }
static void mk(L &l, N *&a, size_t &n) { n = vf_range("n", 0, 1u << 30); a = reinterpret_cast<N *>(vf_list(n, sizeof(N), 0, 8)); l._head = n ? a : nullptr; l._tail = n ? a + (n - 1) : nullptr; l._count = n; }
static size_t pick(const char *, size_t n) { size_t i = vf_range("i", 0, 1u << 30); vf_assume(i < n); return i; }
#define LIST L l; N *a; size_t n; mk(l, a, n);
#define NE LIST vf_assume(n > 0);                           // non-empty list
#define W size_t w = pick("w", n); wit(a + w);              // arbitrary tracked node
#define NX(i) ((i) + 1 < n ? a + ((i) + 1) : nullptr)
#define PV(i) ((i) > 0 ? a + ((i) - 1) : nullptr)
#define SAME(i) vf_check(a[i]._next == NX(i) && a[i]._prev == PV(i), "every other link is unchanged")
#define ENDS(h, t, c) vf_check(l._head == (h) && l._tail == (t) && l._count == (c), "head, tail and count match the sequence"); vf_check(l.head() == (h) && l.tail() == (t) && l.count() == (c) && l.empty() == ((c) == 0), "accessors match the sequence")
#define LINK(p, x, v) vf_check((p)->_next == (x) && (p)->_prev == (v), "links of the node match its place in the sequence")
VF_ENTRY(chk_prepend_empty) { L l; N v; vf_check(l.empty() && l.count() == 0 && !l.head() && !l.tail() && l.begin() == l.end(), "a new list is empty"); vf_check(&l.prepend(&v) == &l, "returns the list"); ENDS(&v, &v, 1); LINK(&v, nullptr, nullptr); }
VF_ENTRY(chk_append_empty) { L l; N v; vf_check(&l.append(&v) == &l, "returns the list"); ENDS(&v, &v, 1); LINK(&v, nullptr, nullptr); }
VF_ENTRY(chk_prepend) { NE W N v; l.prepend(&v); ENDS(&v, a + (n - 1), n + 1); LINK(&v, a, nullptr); LINK(a + w, NX(w), w ? a + (w - 1) : &v); }
VF_ENTRY(chk_append) { NE W N v; l.append(&v); ENDS(a, &v, n + 1); LINK(&v, nullptr, a + (n - 1)); LINK(a + w, w + 1 < n ? a + (w + 1) : &v, PV(w)); }
VF_ENTRY(chk_take_head) { NE W N *r = l.take_head(); vf_check(r == a, "take_head returns the first element"); LINK(a, nullptr, nullptr); ENDS(n > 1 ? a + 1 : nullptr, n > 1 ? a + (n - 1) : nullptr, n - 1); vf_assume(w > 0); LINK(a + w, NX(w), w == 1 ? nullptr : a + (w - 1)); }
VF_ENTRY(chk_take_tail) { NE W N *r = l.take_tail(); vf_check(r == a + (n - 1), "take_tail returns the last element"); LINK(r, nullptr, nullptr); ENDS(n > 1 ? a : nullptr, n > 1 ? a + (n - 2) : nullptr, n - 1); vf_assume(w + 1 < n); LINK(a + w, w + 2 == n ? nullptr : a + (w + 1), PV(w)); }
VF_ENTRY(chk_take_empty) { L l; vf_check(l.take_head() == nullptr && l.take_tail() == nullptr, "nothing to take from an empty list"); ENDS(nullptr, nullptr, 0); }
template <typename F> static void after(F f) { NE W size_t t = pick("t", n); N v; vf_check(f(l, a + t, &v) == &l, "returns the list"); ENDS(a, t + 1 == n ? &v : a + (n - 1), n + 1); LINK(&v, NX(t), a + t); LINK(a + w, w == t ? &v : NX(w), w == t + 1 ? &v : PV(w)); }
template <typename F> static void before(F f) { NE W size_t t = pick("t", n); N v; vf_check(f(l, a + t, &v) == &l, "returns the list"); ENDS(t == 0 ? &v : a, a + (n - 1), n + 1); LINK(&v, a + t, PV(t)); LINK(a + w, w + 1 == t ? &v : NX(w), w == t ? &v : PV(w)); }
VF_ENTRY(chk_insert_after) { after([](L &l, N *t, N *v) { return &l.insert_after(t, v); }); }
VF_ENTRY(chk_insert_before) { before([](L &l, N *t, N *v) { return &l.insert_before(t, v); }); }
VF_ENTRY(chk_insert_after_it) { after([](L &l, N *t, N *v) { return &l.insert_after(l.iterator_for(t), v); }); }
VF_ENTRY(chk_insert_before_it) { before([](L &l, N *t, N *v) { return &l.insert_before(l.iterator_for(t), v); }); }
VF_ENTRY(chk_insert_end) { NE W N v; l.insert_before(l.end(), &v); ENDS(a, &v, n + 1); LINK(&v, nullptr, a + (n - 1)); LINK(a + w, w + 1 < n ? a + (w + 1) : &v, PV(w)); }
VF_ENTRY(chk_insert_end2) { NE W N v; l.insert_after(l.end(), &v); ENDS(a, &v, n + 1); LINK(&v, nullptr, a + (n - 1)); LINK(a + w, w + 1 < n ? a + (w + 1) : &v, PV(w)); }
VF_ENTRY(chk_erase) { NE W size_t t = pick("t", n); N *nx = NX(t), *r = l.erase(a + t); vf_check(r == nx, "erase returns the next element"); LINK(a + t, nullptr, nullptr);
  ENDS(n == 1 ? nullptr : t == 0 ? a + 1 : a, n == 1 ? nullptr : t + 1 == n ? a + (n - 2) : a + (n - 1), n - 1);
  vf_assume(w != t); LINK(a + w, w + 1 == t ? nx : NX(w), w == t + 1 ? PV(t) : PV(w)); }
VF_ENTRY(chk_erase_it) { NE W size_t t = pick("t", n); N *nx = NX(t); auto r = l.erase(l.iterator_for(a + t)); vf_check(r._v == nx && r._list == &l, "erase returns an iterator at the next element"); LINK(a + t, nullptr, nullptr);
  ENDS(n == 1 ? nullptr : t == 0 ? a + 1 : a, n == 1 ? nullptr : t + 1 == n ? a + (n - 2) : a + (n - 1), n - 1);
  vf_assume(w != t); LINK(a + w, w + 1 == t ? nx : NX(w), w == t + 1 ? PV(t) : PV(w)); }
template <size_t K> static void erase_range() { // K elements starting anywhere
  vf_opt("peel_all", 1); LIST size_t t = vf_range("t", 0, 1u << 30); vf_assume(t + K <= n); vf_assume(n > 0); W N *f = t < n ? a + t : nullptr, *e = t + K < n ? a + (t + K) : nullptr; auto r = l.erase(l.iterator_for(f), l.iterator_for(e));
  vf_check(r._v == e && r._list == &l, "erase returns the limit"); size_t m = n - K;
  ENDS(m == 0 ? nullptr : t == 0 ? a + K : a, m == 0 ? nullptr : t + K == n ? a + (t - 1) : a + (n - 1), m);
  if (t <= w && w < t + K) { LINK(a + w, nullptr, nullptr); } else { LINK(a + w, w + 1 == t ? e : NX(w), w == t + K ? PV(t) : PV(w)); }
}
VF_ENTRY(chk_erase_range_0) { erase_range<0>(); } VF_ENTRY(chk_erase_range_1) { erase_range<1>(); } VF_ENTRY(chk_erase_range_2) { erase_range<2>(); } VF_ENTRY(chk_erase_range_3) { erase_range<3>(); }
#define LIST2 LIST N *b; size_t m; L s; mk(s, b, m); vf_assume(n > 0 && m > 0); size_t w = pick("w", n), x = pick("x", m); wit(a + w); wit(b + x);
#define GONE vf_check(s._head == nullptr && s._tail == nullptr && s._count == 0, "the source list is left empty")
#define BNX(i) ((i) + 1 < m ? b + ((i) + 1) : nullptr)
#define BPV(i) ((i) > 0 ? b + ((i) - 1) : nullptr)
VF_ENTRY(chk_append_list) { LIST2 l.append(s); GONE; ENDS(a, b + (m - 1), n + m); LINK(a + w, w + 1 < n ? a + (w + 1) : b, PV(w)); LINK(b + x, BNX(x), x ? b + (x - 1) : a + (n - 1)); }
VF_ENTRY(chk_prepend_list) { LIST2 l.prepend(s); GONE; ENDS(b, a + (n - 1), n + m); LINK(a + w, NX(w), w ? a + (w - 1) : b + (m - 1)); LINK(b + x, x + 1 < m ? b + (x + 1) : a, BPV(x)); }
template <typename F> static void lafter(F f) { LIST2 size_t t = pick("t", n); f(l, a + t, s); GONE; ENDS(a, t + 1 == n ? b + (m - 1) : a + (n - 1), n + m); LINK(a + w, w == t ? b : NX(w), w == t + 1 ? b + (m - 1) : PV(w)); LINK(b + x, x + 1 < m ? b + (x + 1) : NX(t), x ? b + (x - 1) : a + t); }
template <typename F> static void lbefore(F f) { LIST2 size_t t = pick("t", n); f(l, a + t, s); GONE; ENDS(t == 0 ? b : a, a + (n - 1), n + m); LINK(a + w, w + 1 == t ? b : NX(w), w == t ? b + (m - 1) : PV(w)); LINK(b + x, x + 1 < m ? b + (x + 1) : a + t, x ? b + (x - 1) : PV(t)); }
VF_ENTRY(chk_insert_list_after) { lafter([](L &l, N *t, L &s) { l.insert_after(t, s); }); }
VF_ENTRY(chk_insert_list_before) { lbefore([](L &l, N *t, L &s) { l.insert_before(t, s); }); }
VF_ENTRY(chk_insert_list_after_it) { lafter([](L &l, N *t, L &s) { l.insert_after(l.iterator_for(t), s); }); }
VF_ENTRY(chk_insert_list_before_it) { lbefore([](L &l, N *t, L &s) { l.insert_before(l.iterator_for(t), s); }); }
VF_ENTRY(chk_list_empty) { NE W L s; l.append(s); l.prepend(s); l.insert_after(a, s); l.insert_before(a, s); ENDS(a, a + (n - 1), n); SAME(w); vf_check(s.empty() && s.count() == 0, "unchanged"); s.append(l); vf_check(s._head == a && s._tail == a + (n - 1) && s._count == n, "appending to an empty list moves the elements"); ENDS(nullptr, nullptr, 0); l.prepend(s); ENDS(a, a + (n - 1), n); SAME(w); }
VF_ENTRY(chk_move) { LIST L c{std::move(l)}; vf_check(c._head == (n ? a : nullptr) && c._tail == (n ? a + (n - 1) : nullptr) && c._count == n, "move construction takes the elements"); ENDS(nullptr, nullptr, 0); N v; L d; d.append(&v); d = std::move(c); vf_check(d._head == (n ? a : nullptr) && d._tail == (n ? a + (n - 1) : nullptr) && d._count == n && c._head == nullptr && c._tail == nullptr && c._count == 0, "move assignment takes the elements"); L &e = d; d = std::move(e); vf_check(d._count == n && d._head == (n ? a : nullptr), "self assignment changes nothing"); d.clear(); vf_check(d.empty() && d._tail == nullptr && d.count() == 0, "clear() empties the list"); }
VF_ENTRY(chk_nth) { LIST unsigned k = vf_range("k", 0, 0xffffffffu); auto r = l.nth(k); vf_check(r._v == (k < n ? a + k : nullptr), "nth selects the element"); ENDS(n ? a : nullptr, n ? a + (n - 1) : nullptr, n); if (k < n) vf_check(r._list == &l, "the iterator belongs to the list"); }
#define PART(NAME, OP, WHOLE, TAKEN, REST, ZH, ZT)                                                                                                                                                        \
  VF_ENTRY(chk_##NAME) { NE W unsigned k = vf_range("k", 0, 0xffffffffu); L z = l.OP(k);                                                                                                                    \
    if (k > n) { if (WHOLE) { vf_check(z._head == a && z._tail == a + (n - 1) && z._count == n, "the whole list is taken"); ENDS(nullptr, nullptr, 0); } else { vf_check(z._head == nullptr && z._tail == nullptr && z._count == 0, "nothing is split off"); ENDS(a, a + (n - 1), n); } SAME(w); } \
    else { size_t c = TAKEN; /* elements [0,c) and [c,n) */ L &x = ZH ? z : l; L &y = ZH ? l : z;                                                                                                            \
      vf_check(x._count == c && x._head == (c ? a : nullptr) && x._tail == (c ? a + (c - 1) : nullptr), "the leading part"); vf_check(y._count == n - c && y._head == (c < n ? a + c : nullptr) && y._tail == (c < n ? a + (n - 1) : nullptr), "the trailing part"); \
      LINK(a + w, w + 1 == c ? nullptr : NX(w), w == c ? nullptr : PV(w)); } }
PART(take_prefix, take_prefix, true, k, , true, ) PART(split_prefix, split_prefix, false, k, , true, ) PART(take_suffix, take_suffix, true, n - k, , false, ) PART(split_suffix, split_suffix, false, n - k, , false, )
VF_ENTRY(chk_iter) { NE size_t t = pick("t", n); auto i = l.iterator_for(a + t); L const &cl = l; auto ci = cl.iterator_for(a + t);
  vf_check(&*i == a + t && i.operator->() == a + t && static_cast<N *>(i) == a + t && &*ci == a + t && i == ci, "iterator selects its element"); vf_check(l.begin()._v == a && cl.begin()._v == a && l.end()._v == nullptr && cl.end()._v == nullptr && l.begin() != l.end(), "begin and end");
  vf_check(i.has_next() && !l.end().has_next() && i.has_prev() == (t > 0) && i.has_predecessor() == (t > 0) && i.has_successor() == (t + 1 < n) && l.end().has_prev() && l.end().has_predecessor() && !l.end().has_successor(), "neighbour predicates");
  auto j = i; vf_check(&++j == &j && j._v == NX(t), "++ moves to the next element"); auto k = i; vf_check((k++)._v == a + t && k._v == NX(t), "post increment"); auto cj = ci; ++cj; vf_check(cj._v == NX(t), "const ++"); auto ck = ci; vf_check((ck++)._v == a + t && ck._v == NX(t), "const post increment");
  auto e = l.end(); --e; vf_check(e._v == a + (n - 1), "decrement of end is the last element"); auto p = i; vf_check((p--)._v == a + t && p._v == PV(t), "post decrement"); auto q = i; --q; vf_check(q._v == PV(t), "-- moves to the previous element"); auto cq = ci; --cq; vf_check(cq._v == PV(t), "const --"); auto cp = ci; vf_check((cp--)._v == a + t && cp._v == PV(t), "const post decrement"); }
VF_ENTRY(chk_contains) { NE size_t t = pick("t", n); vf_witness(a + t); vf_check(l.contains(a + t), "every element is contained"); }
VF_ENTRY(chk_not_contains) { LIST N v; vf_check(!l.contains(&v), "nothing else is contained"); }
VF_ENTRY(chk_apply_ptr) { LIST size_t k = 0; l.apply([&](N *v) { vf_check(k < n && v == a + k, "apply visits the elements in order"); ++k; }); vf_check(k == n, "apply visits every element once"); ENDS(n ? a : nullptr, n ? a + (n - 1) : nullptr, n); }
VF_ENTRY(chk_apply_ref) { LIST size_t k = 0; l.apply([&](N &v) { vf_check(k < n && &v == a + k, "apply visits the elements in order"); ++k; }); vf_check(k == n, "apply visits every element once"); }
VF_ENTRY(chk_iterate) { LIST size_t k = 0; for (auto &v : l) { vf_check(k < n && &v == a + k, "iteration visits the elements in order"); ++k; } vf_check(k == n, "iteration visits every element once"); }
VF_ENTRY(chk_iterate_back) { NE size_t k = n; auto i = l.end(); do { --i; --k; vf_check(i._v == a + k, "backward iteration visits the elements in reverse order"); } while (i != l.begin()); vf_check(k == 0, "backward iteration visits every element"); }
struct X { X *nx; X *pv; }; using LX = IntrusiveDList<IntrusiveLinkage<X, &X::nx, &X::pv>>;
struct Y : X {}; using LY = IntrusiveDList<IntrusiveLinkageRebind<Y, IntrusiveLinkage<X, &X::nx, &X::pv>>>;
VF_ENTRY(chk_rebind) { Y a, b; LY l; l.append(&a); l.append(&b); vf_check(a.nx == &b && b.pv == &a && a.pv == nullptr && b.nx == nullptr && l.head() == &a && l.tail() == &b, "a rebound linkage uses the links of the base"); l.erase(&a); vf_check(l.head() == &b && b.pv == nullptr, "erase"); }
VF_ENTRY(chk_insert_list_after_empty) { NE W size_t t = pick("t", n); L s; l.insert_after(a + t, s); ENDS(a, a + (n - 1), n); SAME(w); vf_check(s.empty() && s.count() == 0, "unchanged"); }
VF_ENTRY(chk_insert_list_before_empty) { NE W size_t t = pick("t", n); L s; l.insert_before(a + t, s); ENDS(a, a + (n - 1), n); SAME(w); vf_check(s.empty() && s.count() == 0, "unchanged"); }
