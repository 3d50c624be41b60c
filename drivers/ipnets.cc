// Contracts of splitting a range into networks and of the range types for either family.
#include "vf.h"
#include "swoc/swoc_ip.h"
using namespace swoc;
extern "C" void vf_init_swoc_ip();
#define GO vf_opt("memcmp_split", 1); vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_init_swoc_ip();
using W = uint64_t;
struct A6 { W hi, lo; };
static IP6Addr mk6(A6 a) { return IP6Addr(a.hi, a.lo); }
static A6 bits6() { return {vf_bits("hi", 64), vf_bits("lo", 64)}; }
static bool is6(IP6Addr const &a, A6 w) { return a._addr._store[0] == w.hi && a._addr._store[1] == w.lo; }
#define ONE if (!vf_bool("form")) continue;
// IPv4: an address with exactly z trailing zero bits
static uint32_t low4(unsigned z) { return z >= 32 ? ~uint32_t(0) : (uint32_t(1) << z) - 1; }
static uint32_t addr4(unsigned z) { uint32_t a = vf_bits("a", 32) & ~low4(z); return z < 32 ? a | (uint32_t(1) << z) : a; }
// the number of host bits of the largest network that starts at a (with z trailing zero bits) and ends by max
static unsigned host4(uint32_t a, unsigned z, uint32_t max) { unsigned h = 0; while (h < z && (a | low4(h + 1)) <= max) ++h; return h; }
VF_ENTRY(chk_nets_first4) { GO for (unsigned z = 0; z <= 32; ++z) { ONE uint32_t a = addr4(z), b = vf_range("max", 0, 0xffffffffu); vf_assume(a <= b); IP4Range r{IP4Addr{a}, IP4Addr{b}}; unsigned h = host4(a, z, b);
    auto n = r.networks(); vf_check(!n.empty() && n.addr().host_order() == a && n.mask().width() == 32 - h && (*n).min().host_order() == a && (*n).mask().width() == 32 - h && (*n).max().host_order() == (a | low4(h)), "the first network is the largest that starts at the minimum");
    vf_check(n._range.max().host_order() == b, "up to the maximum"); return; } }
// the network [a, a|low(h)] was visited: the next one starts behind it
template <unsigned F, unsigned T> static void next4() { GO for (unsigned z = F; z < T; ++z) for (unsigned h = 0; h <= z; ++h) { ONE uint32_t c = vf_bits("a", 32) & ~low4(z + 1), b = c | (uint32_t(1) << z), a = c | (low4(z) & ~low4(h)), max = vf_range("max", 0, 0xffffffffu); vf_assume(b <= max);
    IP4Range::NetSource n{IP4Range{}}; n._range._min = IP4Addr{a}; n._range._max = IP4Addr{max}; n._cidr = 32 - h; n._mask = IP4Addr{~low4(h)}; unsigned k = host4(b, z, max);
    vf_check(&++n == &n && !n.empty() && n.addr().host_order() == b && n.mask().width() == 32 - k && n._mask.host_order() == ~low4(k) && n._range.max().host_order() == max, "the next network is the largest that starts behind the last one"); return; } }
VF_ENTRY(chk_nets_next4_0) { next4<0, 8>(); } VF_ENTRY(chk_nets_next4_8) { next4<8, 16>(); } VF_ENTRY(chk_nets_next4_16) { next4<16, 24>(); } VF_ENTRY(chk_nets_next4_24) { next4<24, 28>(); } VF_ENTRY(chk_nets_next4_28) { next4<28, 30>(); } VF_ENTRY(chk_nets_next4_30) { next4<30, 32>(); }
VF_ENTRY(chk_nets_last4) { GO for (unsigned h = 0; h <= 32; ++h) { ONE uint32_t a = vf_bits("a", 32) & ~low4(h); IP4Range::NetSource n{IP4Range{}}; n._range._min = IP4Addr{a}; n._range._max = IP4Addr{a | low4(h)}; n._cidr = 32 - h; n._mask = IP4Addr{~low4(h)}; auto e = IP4Range::NetSource::end(); vf_check(n != e && !n.empty(), "a network is not the end"); auto o = n++; vf_check(n.empty() && n == e && n == n.end() && o.addr().host_order() == a && o.mask().width() == 32 - h, "the network that ends at the maximum is the last"); return; } IP4Range r; auto n = r.networks(); vf_check(n.empty() && n.begin() == n.end(), "an empty range has no networks"); }
// IPv6
static A6 low6(unsigned z) { return z >= 128 ? A6{~W(0), ~W(0)} : z >= 64 ? A6{(W(1) << (z - 64)) - 1, ~W(0)} : A6{0, (W(1) << z) - 1}; }
static A6 and_not(A6 a, A6 b) { return {a.hi & ~b.hi, a.lo & ~b.lo}; }
static A6 or6(A6 a, A6 b) { return {a.hi | b.hi, a.lo | b.lo}; }
static A6 bit6(unsigned z) { return z >= 128 ? A6{0, 0} : z >= 64 ? A6{W(1) << (z - 64), 0} : A6{0, W(1) << z}; }
static bool le6(A6 a, A6 b) { return a.hi != b.hi ? a.hi < b.hi : a.lo <= b.lo; }
static A6 any6(char const *) { return {vf_range("maxhi", 0, ~W(0)), vf_range("maxlo", 0, ~W(0))}; }
static unsigned host6(A6 a, unsigned z, A6 max) { unsigned h = 0; while (h < z && le6(or6(a, low6(h + 1)), max)) ++h; return h; }
template <unsigned Z> static void first6() { GO vf_opt("max_steps", 20000000); A6 a = or6(and_not(bits6(), low6(Z)), bit6(Z)), b = any6("max"); vf_assume(le6(a, b)); IP6Range r; r.assign(mk6(a), mk6(b)); unsigned h = host6(a, Z, b);
    auto n = r.networks(); vf_check(!n.empty() && is6(n.addr(), a) && n.mask().width() == 128 - h && is6((*n).min(), a) && (*n).mask().width() == 128 - h && is6((*n).max(), or6(a, low6(h))) && is6(n._range.max(), b), "the first network is the largest that starts at the minimum"); }
VF_ENTRY(chk_nets_first6_0) { first6<0>(); } VF_ENTRY(chk_nets_first6_3) { first6<3>(); } VF_ENTRY(chk_nets_first6_63) { first6<63>(); } VF_ENTRY(chk_nets_first6_64) { first6<64>(); } VF_ENTRY(chk_nets_first6_65) { first6<65>(); } VF_ENTRY(chk_nets_first6_96) { first6<96>(); } VF_ENTRY(chk_nets_first6_128) { first6<128>(); }
#define BIG vf_opt("max_steps", 20000000);
template <unsigned Z, unsigned H> static void next6() { GO BIG A6 c = and_not(bits6(), low6(Z + 1)), b = or6(c, bit6(Z)), a = or6(c, and_not(low6(Z), low6(H))), max = any6("max"); vf_assume(le6(b, max));
  IP6Range::NetSource n{IP6Range{}}; n._range._min = mk6(a); n._range._max = mk6(max); n._mask = IPMask{IPMask::raw_type(128 - H)}; unsigned k = host6(b, Z, max);
  vf_check(&++n == &n && !n.empty() && is6(n.addr(), b) && n.mask().width() == 128 - k && is6(n._range.max(), max), "the next network is the largest that starts behind the last one"); }
#define NEXT6(Z, H) VF_ENTRY(chk_nets_next6_##Z##_##H) { next6<Z, H>(); }
NEXT6(0, 0) NEXT6(3, 0) NEXT6(3, 2) NEXT6(3, 3) NEXT6(32, 17) NEXT6(63, 0) NEXT6(63, 63) NEXT6(64, 0) NEXT6(64, 63) NEXT6(64, 64) NEXT6(65, 1) NEXT6(65, 64) NEXT6(65, 65) NEXT6(96, 65) NEXT6(96, 30)
#ifdef THOROUGH
NEXT6(1, 0) NEXT6(1, 1) NEXT6(2, 1) NEXT6(8, 0) NEXT6(8, 4) NEXT6(8, 8) NEXT6(16, 16) NEXT6(31, 15) NEXT6(32, 32) NEXT6(33, 0) NEXT6(62, 62) NEXT6(66, 63) NEXT6(66, 64) NEXT6(66, 65) NEXT6(80, 3) NEXT6(96, 96) NEXT6(112, 64) NEXT6(112, 112) NEXT6(127, 0) NEXT6(127, 64) NEXT6(127, 127)
#endif
VF_ENTRY(chk_nets_last6) { GO BIG for (unsigned h = 0; h <= 128; ++h) { ONE A6 a = and_not(bits6(), low6(h)); IP6Range::NetSource n{IP6Range{}}; n._range._min = mk6(a); n._range._max = mk6(or6(a, low6(h))); n._mask = IPMask{IPMask::raw_type(128 - h)}; auto e = n.end(); vf_check(n != e && !n.empty(), "a network is not the end"); ++n; vf_check(n.empty() && n == e, "the network that ends at the maximum is the last"); return; } IP6Range r; auto n = r.networks(); vf_check(n.empty() && n.begin() == n.end(), "an empty range has no networks"); }
// either family
// either family, with few networks
VF_ENTRY(chk_nets_any) { GO uint32_t c = vf_bits("a", 32), a = c & ~low4(6); bool six = vf_bool("six"); vf_split(six);
  if (!six) { IP4Range r{IP4Addr{a | 2}, IP4Addr{a | 9}}; IPRange g{r}; IPRangeView v; v.assign(r); auto n = g.networks(); auto m = v.networks(); auto k = r.networks(); unsigned i = 0; for (; n != n.end() && i < 4; ++n, ++m, ++k, ++i) { vf_check(k != k.end() && n == m && n.addr() == k.addr() && n.mask() == k.mask() && *n == *k && (*n).is_ip4() && (*n).ip4() == *k && n->addr() == k->addr(), "the networks of either family are those of the specific range"); } vf_check(i == 3 && k == k.end() && m == m.end() && n == m, "exactly as many networks"); }
  else { A6 x{vf_bits("hi", 64), vf_bits("lo", 64)}; IP6Range r; x = and_not(x, low6(70)); r.assign(mk6(or6(x, {0, ~W(0) - 1})), mk6(or6(x, {1, 5}))); IPRange g{r}; IPRangeView v; v.assign(r); auto n = g.networks(); auto m = v.networks(); auto k = r.networks(); unsigned i = 0; for (; n != n.end() && i < 4; ++n, ++m, ++k, ++i) { vf_check(k != k.end() && n == m && n.addr() == k.addr() && n.mask() == k.mask() && *n == *k && (*n).is_ip6() && (*n).ip6() == *k && n->addr() == k->addr(), "the networks of either family are those of the specific range"); } vf_check(i == 3 && k == k.end() && m == m.end() && n == m, "exactly as many networks"); }
  IPRange e; auto n = e.networks(); vf_check(n == n.end() && n.begin() == n.end(), "an invalid range has no networks"); IPRangeView w; auto m = w.networks(); vf_check(m == m.end(), "an invalid view has no networks"); IPRange g{IP4Range{}}; auto o = g.networks(); vf_check(o == o.end(), "an empty range has no networks"); }
VF_ENTRY(chk_nets_mask4) { GO for (unsigned h = 0; h <= 32; ++h) { ONE uint32_t a = vf_bits("a", 32) & ~low4(h), b = a | low4(h); IP4Range r{IP4Addr{a}, IP4Addr{b}}; vf_check(r.network_mask().is_valid() && r.network_mask().width() == 32 - h && IPRange{r}.network_mask() == r.network_mask(), "a range that is a network has its mask"); if (h >= 2) { IP4Range s{IP4Addr{a}, IP4Addr{b - 1}}, t{IP4Addr{a + 1}, IP4Addr{b}}; vf_check(!s.network_mask().is_valid() && !t.network_mask().is_valid() && !IPRange{s}.network_mask().is_valid(), "other ranges have no mask"); } return; } vf_check(!IP4Range{}.network_mask().is_valid() && !IPRange{}.network_mask().is_valid(), "an empty range has no mask"); uint32_t c = vf_bits("c", 32) & ~low4(8); IP4Range u{IP4Addr{c | 0x7f}, IP4Addr{c | 0x80}}; vf_check(!u.network_mask().is_valid(), "other ranges have no mask"); }
template <unsigned F, unsigned T> static void netmask6() { GO BIG for (unsigned h = F; h <= T; ++h) { ONE A6 a = and_not(bits6(), low6(h)), b = or6(a, low6(h)); IP6Range r; r.assign(mk6(a), mk6(b)); vf_check(r.network_mask().is_valid() && r.network_mask().width() == 128 - h && IPRange{r}.network_mask() == r.network_mask(), "a range that is a network has its mask"); if (h >= 2) { IP6Range s, t; s.assign(mk6(a), mk6({b.hi, b.lo - 1})); t.assign(mk6({a.hi, a.lo + 1}), mk6(b)); vf_check(!s.network_mask().is_valid() && !t.network_mask().is_valid() && !IPRange{s}.network_mask().is_valid(), "other ranges have no mask"); } return; } vf_check(!IP6Range{}.network_mask().is_valid(), "an empty range has no mask"); }
VF_ENTRY(chk_nets_mask6_0) { netmask6<0, 48>(); } VF_ENTRY(chk_nets_mask6_48) { netmask6<49, 80>(); } VF_ENTRY(chk_nets_mask6_80) { netmask6<81, 100>(); } VF_ENTRY(chk_nets_mask6_100) { netmask6<101, 115>(); } VF_ENTRY(chk_nets_mask6_115) { netmask6<116, 128>(); }
// IPRange and IPRangeView agree with the range of the family
template <typename R, typename A> static void agree(R const &r, A const &lo, A const &hi, A const &x, IPAddr const &other, bool four) { IPRange g{r}, h, k{lo, hi}, l{IPAddr{lo}, IPAddr{hi}}; IPRangeView v; v.assign(r); h = v; IPRange z{v}; bool in = r.contains(x);
  vf_check(g.is_ip4() == four && g.is_ip6() == !four && g.is(g.family()) && g.family() == (four ? AF_INET : AF_INET6) && !g.is(four ? AF_INET6 : AF_INET) && v.is_ip4() == four && v.is_ip6() == !four && v.valid() && v.is(g.family()), "the family");
  vf_check(g.min() == IPAddr{lo} && g.max() == IPAddr{hi} && v.min() == IPAddr{lo} && v.max() == IPAddr{hi} && g.empty() == r.empty() && v.empty() == r.empty(), "minimum and maximum");
  vf_check(g.contains(x) == in && g.contains(IPAddr{x}) == in && v.contains(x) == in && v.contains(IPAddr{x}) == in && !g.contains(other) && !v.contains(other) && !g.contains(IPAddr{}) && !v.contains(IPAddr{}), "contains exactly the addresses of the range");
  vf_check(g == h && g == z && g == k && g == l && v == g && !(g != h) && v == v, "every construction is the same range"); IPRange c{g}; c.clear(); vf_check(c.empty() && !c.is_ip4() && !c.is_ip6() && c != g && !c.contains(x) && !c.contains(IPAddr{x}) && !c.min().is_valid() && !c.max().is_valid(), "a cleared range is invalid"); IPRangeView w; vf_check(!w.valid() && w.empty() && w != v && !(w == g) && w == c && !w.contains(x) && !w.contains(IPAddr{x}) && !w.min().is_valid() && !w.max().is_valid(), "a default view is invalid"); c = v; vf_check(c == g, "assigned from a view"); c = w; vf_check(c.empty() && !c.is_ip4() && !c.is_ip6(), "assigned from an invalid view"); v.clear(); vf_check(!v.valid() && v.empty() && v == w, "a cleared view is invalid"); IPRange m{IPAddr{lo}, other}, n{other, IPAddr{lo}}; vf_check(m.empty() && !m.is_ip4() && !m.is_ip6() && n.empty() && !n.is_ip4() && !n.is_ip6(), "no range between families"); IPRange o{IPAddr{lo}}, p{lo}; vf_check(o == p && o.min() == IPAddr{lo} && o.max() == IPAddr{lo}, "an address is a range of one"); }
static IP6Addr any6a(char const *n) { (void)n; return mk6(any6("x")); }
VF_ENTRY(chk_nets_agree4) { GO IP4Addr a{uint32_t(vf_range("a", 0, 0xffffffffu))}, b{uint32_t(vf_range("b", 0, 0xffffffffu))}, x{uint32_t(vf_range("x", 0, 0xffffffffu))}; vf_assume(a <= b); IP4Range r{a, b}; agree(r, a, b, x, IPAddr{any6a("o")}, true); }
VF_ENTRY(chk_nets_agree6) { GO IP6Addr a = any6a("a"), b = any6a("b"), x = any6a("x"); vf_assume(a <= b); IP6Range r; r.assign(a, b); IPAddr o{IP4Addr{uint32_t(vf_range("o", 0, 0xffffffffu))}}; agree(r, a, b, x, o, false); }
VF_ENTRY(chk_nets_eq) { GO IP4Addr a{uint32_t(vf_range("a", 0, 0xffffffffu))}, b{uint32_t(vf_range("b", 0, 0xffffffffu))}, c{uint32_t(vf_range("c", 0, 0xffffffffu))}, d{uint32_t(vf_range("d", 0, 0xffffffffu))}; vf_assume(a <= b && c <= d); IP4Range r{a, b}, s{c, d}; bool eq = a == c && b == d; IPRangeView v, w; v.assign(r); w.assign(s); vf_check((IPRange{r} == IPRange{s}) == eq && (v == w) == eq && (v == IPRange{s}) == eq && (v != w) == !eq && (IPRange{r} != IPRange{s}) == !eq, "equal if the same addresses"); IP6Range t, u; t.assign(any6a("e"), any6a("f")); u.assign(any6a("g"), any6a("h")); vf_assume(t.min() <= t.max() && u.min() <= u.max()); bool e2 = t.min() == u.min() && t.max() == u.max(); v.assign(t); w.assign(u); vf_check((IPRange{t} == IPRange{u}) == e2 && (v == w) == e2 && (v == IPRange{u}) == e2, "equal if the same addresses"); w.assign(r); vf_check(v != w && IPRange{r} != IPRange{t} && v != IPRangeView{} && !(v == IPRange{r}), "different families differ"); }
