// Contracts of IPSpace and IPRangeSet: two spaces, one for each family, seen as one.
#include "vf.h"
#include "swoc/swoc_ip.h"
using namespace swoc;
extern "C" void vf_init_swoc_ip();
#define GO vf_opt("memcmp_split", 1); vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 20000000); vf_init_swoc_ip();
using W = uint64_t; using S = IPSpace<int>;
static IP4Addr a4(char const *n) { return IP4Addr{uint32_t(vf_range(n, 0, 0xffffffffu))}; }
static IP6Addr a6(char const *n) { (void)n; return IP6Addr(vf_range("hi", 0, ~W(0)), vf_range("lo", 0, ~W(0))); }
// a space of K ranges of IPv4 and L ranges of IPv6
template <unsigned K, unsigned L> struct Fix { S s; IP4Addr a[K + 1], b[K + 1]; int p[K + 1]; IP6Addr c[L + 1], d[L + 1]; int q[L + 1];
  void build() { for (unsigned i = 0; i < K; ++i) { uint32_t x = vf_range("a", 0, 0xffffffffu), y = vf_range("b", 0, 0xffffffffu); vf_assume(x <= y); if (i) vf_assume(b[i - 1].host_order() < x); a[i] = IP4Addr{x}; b[i] = IP4Addr{y}; p[i] = vf_srange("p", 1, 1000); if (i) vf_assume(p[i] > p[i - 1]); s._ip4.mark(IP4Range{a[i], b[i]}, p[i]); }
    for (unsigned i = 0; i < L; ++i) { W h = vf_range("h", 0, ~W(0)), x = vf_range("c", 0, ~W(0)), y = vf_range("d", 0, ~W(0)); vf_assume(x <= y); if (i) vf_assume(c[i - 1]._addr._store[0] < h); c[i] = IP6Addr(h, x); d[i] = IP6Addr(h, y); q[i] = vf_srange("q", 1, 1000); if (i) vf_assume(q[i] > q[i - 1]); IP6Range r; r.assign(c[i], d[i]); s._ip6.mark(r, q[i]); } }
  bool at4(IP4Addr x, int &v) const { for (unsigned i = 0; i < K; ++i) if (a[i] <= x && x <= b[i]) { v = p[i]; return true; } return false; }
  bool at6(IP6Addr const &x, int &v) const { for (unsigned i = 0; i < L; ++i) if (c[i] <= x && x <= d[i]) { v = q[i]; return true; } return false; }
  template <typename I> bool is(I const &i, unsigned n) const { if (n >= K + L) return false; bool e = n < K ? (*i).range_view().is_ip4() && (*i)._rv.ip4() == IP4Range{a[n], b[n]} : (*i)._rv.is_ip6() && (*i)._rv.ip6().min() == c[n - K] && (*i)._rv.ip6().max() == d[n - K]; return e && i->payload() == (n < K ? p[n] : q[n - K]) && i->range() == (*i).range_view(); } };
template <unsigned K, unsigned L> struct Un { union { Fix<K, L> f; }; Un() { new (&f) Fix<K, L>; f.build(); } ~Un() {} };
#define FIX Un<K, L> u; auto &f = u.f; S &s = f.s; S const &cs = s; (void)cs;
template <typename I, typename F> static void walk(F &f, I b, I e, unsigned from, unsigned to) { I i = b; for (unsigned n = from; n < to; ++n) { vf_check(i != e && !(i == e) && f.is(i, n), "forward iteration yields the ranges of IPv4 and then of IPv6 in order"); if (n & 1) ++i; else { I o = i++; vf_check(f.is(o, n), "post increment yields the previous position"); } } vf_check(i == e && !(i != e), "and ends after the last"); for (unsigned n = to; n > from; --n) { if (n & 1) --i; else i--; vf_check(i != e && f.is(i, n - 1), "backward iteration yields them in reverse"); } vf_check(i == b, "back at the start"); }
template <unsigned K, unsigned L> static void iter() { GO FIX walk(f, s.begin(), s.end(), 0, K + L); walk(f, cs.begin(), cs.end(), 0, K + L); walk(f, s.begin_ip4(), s.end_ip4(), 0, K); walk(f, cs.begin_ip4(), cs.end_ip4(), 0, K); walk(f, s.begin_ip6(), s.end_ip6(), K, K + L); walk(f, cs.begin_ip6(), cs.end_ip6(), K, K + L); walk(f, cs.begin(AF_INET), cs.end(AF_INET), 0, K); walk(f, cs.begin(AF_INET6), cs.end(AF_INET6), K, K + L); vf_check(cs.begin(AF_UNIX) == cs.end(AF_UNIX), "no ranges of other families");
  vf_check(s.count() == K + L && s.count_ip4() == K && s.count_ip6() == L && s.count(AF_INET) == K && s.count(AF_INET6) == L && s.count(AF_UNIX) == 0 && s.empty() == (K + L == 0), "counts"); if (K + L) { auto i = s.begin(); i->payload() = 5000; vf_check(s.begin()->payload() == 5000 && (*cs.begin()).payload() == 5000, "the payload can be changed in place"); auto &[r, v] = *i; v = 6000; vf_check((*s.begin()).payload() == 6000 && &r == &i->_rv && cs.begin()->payload() == 6000, "structured access"); S::iterator j; j = i; vf_check(j == i && j->payload() == 6000, "assigned"); S::const_iterator k; k = i; vf_check(k == i && k->payload() == 6000, "assigned"); } S::iterator n = s.end(); s.clear(); vf_check(s.empty() && s.count() == 0 && s.begin() == s.end(), "a cleared space is empty"); (void)n; }
template <typename I> static bool hit(I const &i, I const &e, bool had, int v) { return had ? i != e && i->payload() == v : i == e; }
template <unsigned K, unsigned L> static void find() { GO FIX IP4Addr x = a4("x"); IP6Addr y = a6("y"); int v = 0, w = 0; bool h = f.at4(x, v), k = f.at6(y, w); vf_check(hit(s.find(x), s.end(), h, v) && hit(s.find(IPAddr{x}), s.end(), h, v) && hit(cs.find(x), cs.end(), h, v) && hit(cs.find(IPAddr{x}), cs.end(), h, v), "an IPv4 address is found exactly if it is in a range, with its payload"); S::const_iterator cx = s.find(x), cy = s.find(y); vf_check(cx == cs.find(x) && cx == cs.find(IPAddr{x}) && s.find(IPAddr{x}) == s.find(x) && cy == cs.find(y) && cy == cs.find(IPAddr{y}) && s.find(IPAddr{y}) == s.find(y), "every find yields the same position"); if (h) { auto i = s.find(x); vf_check(i->range_view().contains(x) && i->range().contains(IPAddr{x}), "the range contains the address"); unsigned n = 0; for (; n < K + L && !f.is(i, n); ++n) {} vf_check(n < K, "the iterator is in the space"); for (; n < K + L; ++n, ++i) vf_check(f.is(i, n), "iteration continues from there"); vf_check(i == s.end(), "to the end"); }
  vf_check(hit(s.find(y), s.end(), k, w) && hit(s.find(IPAddr{y}), s.end(), k, w) && hit(cs.find(y), cs.end(), k, w) && hit(cs.find(IPAddr{y}), cs.end(), k, w), "an IPv6 address is found exactly if it is in a range, with its payload"); if (k) { auto i = s.find(y); vf_check(i->range_view().contains(y), "the range contains the address"); unsigned n = K; for (; n < K + L && !f.is(i, n); ++n) {} for (; n < K + L; ++n, ++i) vf_check(f.is(i, n), "iteration continues from there"); vf_check(i == s.end(), "to the end"); } vf_check(s.find(IPAddr{}) == s.end() && cs.find(IPAddr{}) == cs.end(), "an invalid address is not found"); }
template <unsigned K, unsigned L> static void isect() { GO FIX bool six = L > 0 && (K == 0 || vf_bool("six")); vf_split(six); unsigned lo = 0, hi = 0; bool any = false; auto note = [&](unsigned n, bool x) { if (x) { if (!any) lo = n; hi = n + 1; any = true; } };
  IPRange g; std::pair<S::iterator, S::iterator> r{s.end(), s.end()}; if (six) { IP6Addr x = a6("x"), y = a6("y"); vf_assume(x <= y); IP6Range q; q.assign(x, y); g = q; r = s.intersection(q); for (unsigned i = 0; i < L; ++i) note(K + i, f.c[i] <= y && x <= f.d[i]); } else { IP4Addr x = a4("x"), y = a4("y"); vf_assume(x <= y); IP4Range q{x, y}; g = q; r = s.intersection(q); for (unsigned i = 0; i < K; ++i) note(i, f.a[i] <= y && x <= f.b[i]); }
  auto i = r.first; for (unsigned n = lo; n < hi; ++n, ++i) vf_check(i != r.second && f.is(i, n), "the ranges that share an address with the argument"); vf_check(i == r.second, "and no others"); auto t = s.intersection(g); vf_check(t.first == r.first && t.second == r.second, "either family"); auto z = s.intersection(IPRange{}); vf_check(z.first == z.second, "an invalid range intersects nothing"); }
// the operation O on a range reaches exactly the space of its family
template <unsigned O> static void op(S &s, IPRange const &r) { if (O == 0) vf_check(&s.mark(r, 7777) == &s, "returns itself"); if (O == 1) vf_check(&s.fill(r, 7777) == &s, "returns itself"); if (O == 2) vf_check(&s.erase(r) == &s, "returns itself"); if (O == 3) vf_check(&s.blend(r, 5, [](int &p, int c) { p = 10 * p + c; return p != 5; }) == &s, "returns itself"); }
template <unsigned O> static bool after(bool had, int &v) { if (O == 0) { v = 7777; return true; } if (O == 1) { if (!had) v = 7777; return true; } if (O == 2) return false; v = had ? 10 * v + 5 : 5; return v != 5; }
template <unsigned O, unsigned K, unsigned L, int SIX> static void oper() { GO FIX IP4Addr x = a4("x"), lo = a4("lo"), hi = a4("hi"); IP6Addr y = a6("y"); W ph = vf_range("ph", 0, ~W(0)), pl = vf_range("pl", 0, ~W(0)), pu = vf_range("pu", 0, ~W(0)); int v = 0, w = 0; bool h = f.at4(x, v), k = f.at6(y, w); if (SIX < 0) { op<O>(s, IPRange{}); IPRange c{lo, hi}; c.clear(); op<O>(s, c); } else if (SIX) { vf_assume(pl <= pu); IP6Range r; r.assign(IP6Addr(ph, pl), IP6Addr(ph, pu)); op<O>(s, r); if (r.min() <= y && y <= r.max()) k = after<O>(k, w); } else { vf_assume(lo <= hi); op<O>(s, IP4Range{lo, hi}); if (lo <= x && x <= hi) h = after<O>(h, v); }
  vf_check(hit(s.find(x), s.end(), h, v), "only the addresses of the range and its family are changed"); vf_check(hit(s.find(y), s.end(), k, w), "only the addresses of the range and its family are changed"); unsigned n = 0; for (auto i = s.begin(); i != s.end() && n < 9; ++i) ++n; vf_check(n == s.count(), "iteration visits every range"); }
#define SP(K, L) VF_ENTRY(chk_space_iter_##K##_##L) { iter<K, L>(); } VF_ENTRY(chk_space_find_##K##_##L) { find<K, L>(); } VF_ENTRY(chk_space_isect_##K##_##L) { isect<K, L>(); }
SP(0, 0) SP(1, 0) SP(0, 1) SP(1, 1) SP(2, 1) SP(1, 2) SP(2, 2)
#define OP(O, K, L) VF_ENTRY(chk_space_op##O##_4_##K##_##L) { oper<O, K, L, 0>(); } VF_ENTRY(chk_space_op##O##_6_##K##_##L) { oper<O, K, L, 1>(); } VF_ENTRY(chk_space_op##O##_none_##K##_##L) { oper<O, K, L, -1>(); }
OP(0, 0, 0) OP(1, 0, 0) OP(2, 0, 0) OP(3, 0, 0) OP(0, 1, 1) OP(1, 1, 1) OP(2, 1, 1) OP(3, 1, 1)
// IPRangeSet
template <int SIX> static void set() { GO union U { IPRangeSet t; U() { new (&t) IPRangeSet; } ~U() {} } u; IPRangeSet &s = u.t; IPRangeSet const &cs = s; vf_check(s.empty() && s.count() == 0 && cs.begin() == cs.end() && !s.contains(IPAddr{}), "a default set is empty");
  IP4Addr a = a4("a"), b = a4("b"), x = a4("x"); vf_assume(a <= b); IP6Range r; W h = vf_range("h", 0, ~W(0)), c = vf_range("c", 0, ~W(0)), d = vf_range("d", 0, ~W(0)); vf_assume(c <= d); r.assign(IP6Addr(h, c), IP6Addr(h, d)); IP6Addr y = a6("y"); vf_check(&s.mark(r) == &s && &s.fill(IPRange{IP4Range{a, b}}) == &s, "returns itself"); s.mark(IPRange{}); s.fill(IPRange{});
  IP4Addr e = a, g = b; bool two = false; if (SIX == 0) { e = a4("e"); g = a4("g"); vf_assume(e <= g); bool m = vf_bool("mark"); vf_split(m); if (m) s.mark(IP4Range{e, g}); else s.fill(IP4Range{e, g}); two = (b._addr != 0xffffffffu && b._addr + 1 < e._addr) || (g._addr != 0xffffffffu && g._addr + 1 < a._addr); }
  bool in = (a <= x && x <= b) || (e <= x && x <= g), is = r.min() <= y && y <= r.max(); vf_check(s.contains(x) == in && s.contains(y) == is && !s.contains(IPAddr{}) && !s.empty(), "contains exactly the addresses of the marked ranges"); vf_check(s.count() == (two ? 3u : 2u), "overlapping and adjacent ranges are one");
  auto i = s.begin(); IP4Addr lo = a < e ? a : e, hi = b < g ? g : b; vf_check(i->is_ip4() && (*i).min() == IPAddr{lo} && (two || i->max() == IPAddr{hi}), "IPv4 ranges come first"); if (two) { auto o = i++; vf_check(o == s.begin() && o != i && i->is_ip4() && i->max() == IPAddr{hi}, "in order"); } auto l = i; ++i; vf_check(i->is_ip6() && i->ip6() == r, "then IPv6"); auto o = i++; vf_check(i == s.end() && o->ip6() == r, "to the end"); --i; vf_check(i == o, "back"); auto p = i--; vf_check(i == l && p == o && i->is_ip4() && i->max() == IPAddr{hi}, "back"); s.clear(); vf_check(s.empty() && s.count() == 0 && s.begin() == s.end() && !s.contains(x) && !s.contains(y), "a cleared set is empty"); }
VF_ENTRY(chk_space_set4) { set<0>(); } VF_ENTRY(chk_space_set6) { set<1>(); }
// an element equals a tuple exactly if the range and the payload are the same; its parts
template <int SIX> static void value() { GO constexpr unsigned K = !SIX, L = SIX; FIX IP4Addr a = a4("x"), b = a4("y"); vf_assume(a <= b); W h = vf_range("h", 0, ~W(0)), c = vf_range("c", 0, ~W(0)), d = vf_range("d", 0, ~W(0)); vf_assume(c <= d); IP6Range q; q.assign(IP6Addr(h, c), IP6Addr(h, d)); int v = int(vf_srange("v", -1000, 1000)); IPRange r{IP4Range{a, b}}; if (SIX) r = IPRange{q}; IPRange o{IP4Range{a, b}}; if (!SIX) o = IPRange{q};
  auto i = s.begin(); bool e; int w; if constexpr (SIX) { e = f.c[0] == q.min() && f.d[0] == q.max(); w = f.q[0]; } else { e = f.a[0] == a && f.b[0] == b; w = f.p[0]; } vf_split(e); vf_split(v == w);
  vf_check((*i == std::tuple<IPRange, int>{r, v}) == (e && v == w), "an element equals a tuple of its range and payload"); vf_check(!(*i == std::tuple<IPRange, int>{o, w}), "an element does not equal a range of the other family"); auto &&[x, y] = *i; vf_check((x == r) == e && y == w && &y == &i->payload(), "the parts of an element"); y = v; vf_check(cs.begin()->payload() == v && i->payload() == v, "the payload is that of the space"); auto t = i->tuple(); vf_check(&std::get<1>(t) == &y && (IPRange(std::get<0>(t)) == r) == e && (i->range() == r) == e, "the parts of an element"); }
VF_ENTRY(chk_space_value4) { value<0>(); } VF_ENTRY(chk_space_value6) { value<1>(); }
