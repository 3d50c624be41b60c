// Contracts of the IP address, mask and endpoint types: numeric value in every representation, shifts, masks, classification and order, for every address.
#include "vf.h"
#include "swoc/swoc_ip.h"
#include "swoc/swoc_ip_util.h"
using namespace swoc;
extern "C" void vf_init_swoc_ip();
#define GO vf_opt("memcmp_split", 1); vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_init_swoc_ip();
using W = uint64_t;
struct A6 { W hi, lo; uint8_t at(unsigned i) const { return i < 8 ? hi >> (56 - 8 * i) : lo >> (56 - 8 * (i - 8)); } };
static IP6Addr mk6(A6 a) { return IP6Addr(a.hi, a.lo); }
static A6 bits6() { return {vf_bits("hi", 64), vf_bits("lo", 64)}; }
static A6 word6(char const *n) { return {vf_word(n), vf_word(n)}; }
static bool is6(IP6Addr const &a, A6 w) { return a._addr._store[0] == w.hi && a._addr._store[1] == w.lo; }
static uint32_t net4(uint32_t a) { return (a << 24) | ((a & 0xff00) << 8) | ((a >> 8) & 0xff00) | (a >> 24); }
static uint16_t net2(uint16_t p) { return (p << 8) | (p >> 8); }
static void bytes(uint8_t const *p, A6 w, char const *) { for (unsigned i = 0; i < 16; ++i) vf_check(p[i] == w.at(i), "the bytes are in network order"); }
// --- I01 representation
VF_ENTRY(chk_rep_4) { GO uint32_t w = vf_bits("a", 32); IP4Addr const a{w}; uint32_t n = net4(w); vf_check(a.host_order() == w && a.network_order() == n && IP4Addr::reorder(w) == n && IP4Addr::reorder(n) == w, "host and network order"); for (unsigned i = 0; i < 4; ++i) vf_check(a[i] == ((w >> (24 - 8 * i)) & 0xff), "octets are numbered from the most significant");
  IP4Addr b; vf_check(b.host_order() == 0 && b.is_any(), "default is any"); b = n; vf_check(b == a && !(b != a) && b.cmp(a) == 0, "assigned from network order"); vf_check(a.family() == AF_INET, "family");
  sockaddr_in sin; memset(&sin, 0x55, sizeof(sin)); vf_check(a.copy_to(&sin) == &sin && sin.sin_family == AF_INET && sin.sin_addr.s_addr == n && sin.sin_port == 0x5555, "copied to a socket address"); vf_check(IP4Addr{&sin} == a, "from a socket address"); b = IP4Addr{}; b = &sin; vf_check(b == a, "from a socket address");
  sockaddr_storage ss; sockaddr *sa = reinterpret_cast<sockaddr *>(&ss); a.copy_to(sa); vf_check(sa->sa_family == AF_INET && reinterpret_cast<sockaddr_in *>(sa)->sin_addr.s_addr == n, "copied to a generic socket address"); std::hash<IP4Addr> h; vf_check(h(a) == h(b), "equal addresses have equal hashes"); }
VF_ENTRY(chk_rep_6) { GO A6 w = bits6(); in6_addr n; for (unsigned i = 0; i < 16; ++i) n.s6_addr[i] = w.at(i); IP6Addr const a{n}; vf_check(is6(a, w), "from network order"); for (unsigned i = 0; i < 16; ++i) vf_check(a[i] == w.at(i), "octets are numbered from the most significant"); bytes(a.network_order().s6_addr, w, ""); in6_addr d; vf_check(&a.network_order(d) == &d, "returns the destination"); bytes(d.s6_addr, w, ""); vf_check(a.family() == AF_INET6, "family");
  in6_addr h = a.host_order(), h2; a.host_order(h2); for (unsigned i = 0; i < 16; ++i) vf_check(h.s6_addr[i] == w.at(15 - i) && h2.s6_addr[i] == w.at(15 - i), "host order is the reverse of network order"); IP6Addr b; vf_check(b.is_any() && is6(b, {0, 0}), "default is any"); b = n; vf_check(b == a && !(b != a) && b.cmp(a) == 0, "assigned from network order");
  sockaddr_in6 sin; memset(&sin, 0x55, sizeof(sin)); vf_check(a.copy_to(&sin) == &sin && sin.sin6_family == AF_INET6 && sin.sin6_port == 0x5555, "copied to a socket address"); bytes(sin.sin6_addr.s6_addr, w, ""); IP6Addr c{&sin}; vf_check(c == a, "from a socket address"); c.clear(); vf_check(is6(c, {0, 0}), "clear"); c = &sin; vf_check(c == a, "from a socket address"); sockaddr_storage ss; sockaddr *sa = reinterpret_cast<sockaddr *>(&ss); a.copy_to(sa); vf_check(sa->sa_family == AF_INET6, "family"); bytes(reinterpret_cast<sockaddr_in6 *>(sa)->sin6_addr.s6_addr, w, ""); std::hash<IP6Addr> hh; vf_check(hh(a) == hh(c), "equal addresses have equal hashes"); }
VF_ENTRY(chk_rep_mapped) { GO uint32_t w = vf_bits("a", 32); IP6Addr a{IP4Addr{w}}; vf_check(is6(a, {0, (W(0xffff) << 32) | w}) && a.is_mapped_ip4(), "an IPv4 address is mapped"); A6 x = bits6(); vf_check(mk6(x).is_mapped_ip4() == (x.hi == 0 && (x.lo >> 32) == 0xffff), "mapped addresses are recognized"); }
VF_ENTRY(chk_rep_limits) { GO vf_check(IP4Addr::MIN.host_order() == 0 && IP4Addr::MAX.host_order() == 0xffffffffu && is6(IP6Addr::MIN, {0, 0}) && is6(IP6Addr::MAX, {~W(0), ~W(0)}) && !IPAddr::INVALID.is_valid(), "limits"); }
VF_ENTRY(chk_rep_incr) { GO A6 w = word6("w"); IP6Addr a = mk6(w); vf_check(&++a == &a && is6(a, w.lo == ~W(0) ? A6{w.hi == ~W(0) ? 0 : w.hi + 1, 0} : A6{w.hi, w.lo + 1}), "increment carries"); vf_check(&--a == &a && is6(a, w), "decrement undoes increment"); --a; vf_check(is6(a, w.lo == 0 ? A6{w.hi == 0 ? ~W(0) : w.hi - 1, ~W(0)} : A6{w.hi, w.lo - 1}), "decrement borrows"); uint32_t v = vf_range("v", 0, 0xffffffffu); IP4Addr b{v}; ++b; vf_check(b.host_order() == (v == 0xffffffffu ? 0 : v + 1), "increment"); --b; vf_check(b.host_order() == v, "decrement"); }
template <unsigned F, unsigned T> static void shift() { GO A6 w = bits6(); uint32_t v = vf_bits("v", 32); for (unsigned n = F; n < T; ++n) { IP6Addr l = mk6(w), r = l; vf_check(&(l <<= n) == &l && &(r >>= n) == &r, "returns itself"); A6 el = n == 0 ? w : n < 64 ? A6{(w.hi << n) | (w.lo >> (64 - n)), w.lo << n} : A6{w.lo << (n - 64), 0}, er = n == 0 ? w : n < 64 ? A6{w.hi >> n, (w.lo >> n) | (w.hi << (64 - n))} : A6{0, w.hi >> (n - 64)}; vf_check(is6(l, el), "left shift over the whole address"); vf_check(is6(r, er), "right shift over the whole address");
    if (n < 32) { IP4Addr x{v}, y{v}; x <<= n; y >>= n; vf_check(x.host_order() == uint32_t(v << n) && y.host_order() == v >> n, "shift"); } } }
VF_ENTRY(chk_rep_shift_a) { shift<0, 32>(); } VF_ENTRY(chk_rep_shift_b) { shift<32, 64>(); } VF_ENTRY(chk_rep_shift_c) { shift<64, 96>(); } VF_ENTRY(chk_rep_shift_d) { shift<96, 128>(); }
VF_ENTRY(chk_rep_logic) { GO A6 w = bits6(), x = bits6(); IP6Addr a = mk6(w), b = mk6(w); a &= mk6(x); b |= mk6(x); vf_check(is6(a, {w.hi & x.hi, w.lo & x.lo}) && is6(b, {w.hi | x.hi, w.lo | x.lo}), "bitwise operators"); uint32_t u = vf_bits("u", 32), v = vf_bits("v", 32); IP4Addr c{u}, d{u}; c &= IP4Addr{v}; d |= IP4Addr{v}; vf_check(c.host_order() == (u & v) && d.host_order() == (u | v), "bitwise operators"); }
// the same address and port through every container
VF_ENTRY(chk_rep_any4) { GO uint32_t w = vf_bits("a", 32); uint32_t n = net4(w); IP4Addr const a{w}; IPAddr g{a}; vf_check(g.is_valid() && g.is_ip4() && !g.is_ip6() && g.family() == AF_INET && g.ip4() == a && IP4Addr(g) == a && g == a && a == g && !(g != a) && !(a != g), "an address of either family"); IPAddr h; vf_check(!h.is_valid() && h != g && h == IPAddr{}, "default is invalid"); h = n; vf_check(h == g, "assigned from network order"); IPAddr k; k.assign(n); vf_check(k == g, "assigned from network order");
  sockaddr_storage ss; sockaddr *sa = reinterpret_cast<sockaddr *>(&ss); g.copy_to(sa); IPAddr m{sa}, o; vf_check(m == g && g == sa && sa == g && !(g != sa), "through a socket address"); o.assign(reinterpret_cast<sockaddr_in const *>(sa)); vf_check(o == g, "through a socket address"); o.invalidate(); vf_check(!o.is_valid(), "invalidate"); o = sa; vf_check(o == g, "through a socket address"); o.assign(static_cast<sockaddr const *>(nullptr)); vf_check(!o.is_valid(), "no socket address is invalid");
  IPEndpoint e{g}; vf_check(e.is_valid() && e.is_ip4() && !e.is_ip6() && e.family() == AF_INET && e.sa4.sin_addr.s_addr == n && e.network_order_port() == 0 && e.size() == sizeof(sockaddr_in) && e.sa_size() == sizeof(sockaddr_in), "endpoint"); vf_check(IPAddr{e} == g && e == g && g == e && !(e != g) && e.ip4() == &e.sa4 && e.ip6() == nullptr, "through an endpoint"); auto raw = e.raw_addr(); vf_check(raw.data() == &e.sa4.sin_addr && raw.size() == 4, "raw address"); IPEndpoint f{e}, q; vf_check(!q.is_valid(), "default is invalid"); q = e; vf_check(IPAddr{f} == g && IPAddr{q} == g, "copied"); q.assign(a); vf_check(IPAddr{q} == g, "assigned"); std::hash<IPAddr> hh; vf_check(hh(g) == hh(h), "equal addresses have equal hashes"); }
VF_ENTRY(chk_rep_any6) { GO A6 w = bits6(); IP6Addr const a = mk6(w); in6_addr n; for (unsigned i = 0; i < 16; ++i) n.s6_addr[i] = w.at(i); IPAddr g{a}; vf_check(g.is_valid() && g.is_ip6() && !g.is_ip4() && g.family() == AF_INET6 && g.ip6() == a && IP6Addr(g) == a && g == a && a == g && !(g != a) && !(a != g), "an address of either family"); IPAddr h; h = n; vf_check(h == g, "assigned from network order"); IPAddr k, z{n}; k.assign(n); vf_check(k == g && z == g, "assigned from network order");
  sockaddr_storage ss; sockaddr *sa = reinterpret_cast<sockaddr *>(&ss); g.copy_to(sa); IPAddr m{sa}, o; vf_check(m == g && g == sa && sa == g && !(g != sa), "through a socket address"); o.assign(reinterpret_cast<sockaddr_in6 const *>(sa)); vf_check(o == g, "through a socket address"); o = IPAddr{}; o = sa; vf_check(o == g, "through a socket address");
  IPEndpoint e{g}; vf_check(e.is_valid() && e.is_ip6() && !e.is_ip4() && e.family() == AF_INET6 && e.network_order_port() == 0 && e.size() == sizeof(sockaddr_in6) && e.sa_size() == sizeof(sockaddr_in6), "endpoint"); bytes(e.sa6.sin6_addr.s6_addr, w, ""); vf_check(IPAddr{e} == g && e == g && g == e && e.ip6() == &e.sa6 && e.ip4() == nullptr, "through an endpoint"); auto raw = e.raw_addr(); vf_check(raw.data() == &e.sa6.sin6_addr && raw.size() == 16, "raw address"); IPEndpoint f{e}, q; q = e; vf_check(IPAddr{f} == g && IPAddr{q} == g, "copied"); q.assign(a); vf_check(IPAddr{q} == g, "assigned"); }
VF_ENTRY(chk_rep_none) { GO IPAddr g; IPEndpoint e{g}; vf_check(!e.is_valid(), "an invalid address makes an invalid endpoint"); sockaddr_in6 sb; memset(&sb, 0, sizeof(sb)); sb.sin6_family = AF_UNIX; vf_check(!IPAddr(reinterpret_cast<sockaddr *>(&sb)).is_valid(), "other families are invalid"); IPEndpoint f{reinterpret_cast<sockaddr *>(&sb)}; vf_check(!f.is_valid(), "other families are invalid"); IPSrv s; vf_check(!s.is_valid(), "default is invalid"); IPEndpoint h{s}; vf_check(!h.is_valid(), "an invalid service makes an invalid endpoint"); vf_check(!IPSrv(g, 80).is_valid() && !IPSrv(f).is_valid(), "an invalid address makes an invalid service"); }
// address + port
VF_ENTRY(chk_rep_srv4) { GO uint32_t w = vf_bits("a", 32); uint16_t p = vf_bits("p", 16), pn = net2(p); IP4Addr const a{w}; IP4Srv s{a, p}; vf_check(s.addr() == a && s.host_order_port() == p && s.network_order_port() == pn && IP4Srv::family() == AF_INET, "address and port"); IPEndpoint e; e.assign(s); vf_check(e.is_ip4() && e.sa4.sin_addr.s_addr == net4(w) && e.sa4.sin_port == pn && e.host_order_port() == p && e.network_order_port() == pn && IPEndpoint::host_order_port(&e.sa) == p && IPEndpoint::port(&e.sa) == pn, "to an endpoint and back");
  IP4Srv t{&e.sa4}, u; u.assign(&e.sa4); vf_check(t == s && u == s && !(t != s), "from a socket address"); IPSrv g{a, p}, h{IPAddr{a}, p}, i{e}, j{&e.sa4}, k{&e.sa}, l{s}; vf_check(l == s && l.host_order_port() == p && g == s && s == g && h == s && i == s && j == s && k == s && !(g != s), "a service of either family"); vf_check(g.is_valid() && g.is_ip4() && !g.is_ip6() && g.family() == AF_INET && g.addr() == a && g.host_order_port() == p && g.network_order_port() == pn && g.ip4() == s && IP4Srv{g} == s && IP6Srv{g} == IP6Srv{}, "a service of either family"); IPEndpoint f{g}; vf_check(f.sa4.sin_addr.s_addr == net4(w) && f.sa4.sin_port == pn && f.sa4.sin_family == AF_INET, "to an endpoint");
  IPSrv m; m.assign(a, p); IPSrv n; n.assign(IPAddr{a}, p); IPSrv o{IP4Addr{}, p}; o.assign(a); IPSrv q{a}; q.assign(p); IPSrv r; r = s; IPSrv x{IP6Addr{}, p}; x.assign(a); vf_check(m == s && n == s && o == s && q == s && r == s && x == s, "assigned"); }
VF_ENTRY(chk_rep_srv6) { GO A6 w = bits6(); uint16_t p = vf_bits("p", 16), pn = net2(p); IP6Addr const a = mk6(w); IP6Srv s{a, p}; vf_check(s.addr() == a && s.host_order_port() == p && s.network_order_port() == pn && IP6Srv::family() == AF_INET6, "address and port"); IPEndpoint e; e.assign(s); vf_check(e.is_ip6() && e.sa6.sin6_port == pn && e.host_order_port() == p && e.network_order_port() == pn && IPEndpoint::host_order_port(&e.sa) == p && IPEndpoint::port(&e.sa) == pn, "to an endpoint and back"); bytes(e.sa6.sin6_addr.s6_addr, w, "");
  IP6Srv t{&e.sa6}, u; u.assign(&e.sa6); vf_check(t == s && u == s && !(t != s), "from a socket address"); IPSrv g{a, p}, h{IPAddr{a}, p}, i{e}, j{&e.sa6}, k{&e.sa}, l{s}; vf_check(l == s && l.host_order_port() == p && g == s && s == g && h == s && i == s && j == s && k == s && !(g != s), "a service of either family"); vf_check(g.is_valid() && g.is_ip6() && !g.is_ip4() && g.family() == AF_INET6 && g.addr() == a && g.host_order_port() == p && g.network_order_port() == pn && g.ip6() == s && IP6Srv{g} == s && IP4Srv{g} == IP4Srv{}, "a service of either family"); IPEndpoint f{g}; vf_check(f.sa6.sin6_port == pn && f.sa6.sin6_family == AF_INET6, "to an endpoint"); bytes(f.sa6.sin6_addr.s6_addr, w, "");
  IPSrv m; m.assign(a, p); IPSrv n; n.assign(IPAddr{a}, p); IPSrv o{IP6Addr{}, p}; o.assign(a); IPSrv q{a}; q.assign(p); IPSrv r; r = s; IPSrv x{IP4Addr{}, p}; x.assign(a); vf_check(m == s && n == s && o == s && q == s && r == s && x == s, "assigned"); }
// --- I02 masks
static uint32_t m4(unsigned n) { return n == 0 ? 0 : n >= 32 ? 0xffffffffu : ~((uint32_t(1) << (32 - n)) - 1); }
static A6 m6(unsigned n) { W const F = ~W(0); return n == 0 ? A6{0, 0} : n < 64 ? A6{F << (64 - n), 0} : n == 64 ? A6{F, 0} : n < 128 ? A6{F, F << (128 - n)} : A6{F, F}; }
VF_ENTRY(chk_mask_4) { GO uint32_t w = vf_bits("a", 32); IP4Addr const a{w}; for (unsigned n = 0; n <= 32; ++n) { IPMask m{IPMask::raw_type(n)}; uint32_t b = m4(n); vf_check(m.is_valid() && m.width() == n && m.as_ip4().host_order() == b, "a mask of n bits has the top n bits"); IP4Addr x{a}, y{a}; x &= m; y |= m; vf_check(x.host_order() == (w & b) && (a & m) == x, "masking keeps the network bits only"); vf_check(y.host_order() == (w | ~b) && (a | m) == y, "inverse masking sets the host bits only"); IPAddr g{a}, h{a}; g &= m; h |= m; vf_check(g == x && h == y && (IPAddr{a} & m) == x && (IPAddr{a} | m) == y, "either family");
    IP4Range r{a, m}; vf_check(r.min() == x && r.max() == y, "the range of a network"); IP4Net t{a, m}, u; u.assign(a, m); vf_check(t.min() == x && t.max() == y && t.mask() == m && !t.empty() && t == u && !(t != u) && t.as_range() == r, "a network"); IPNet v{a, m}; vf_check(v.min() == x && v.max() == y && v.mask() == m && v.width() == n && v.is_ip4() && !v.is_ip6() && v.family() == AF_INET && v.ip4() == t && v == t && t == v && v.as_range() == IPRange{r}, "a network of either family"); t.clear(); v.clear(); vf_check(t.empty() && v.empty(), "a cleared network is empty"); } }
template <unsigned F, unsigned T> static void mask6() { GO A6 w = bits6(); IP6Addr const a = mk6(w); for (unsigned n = F; n <= T; ++n) { IPMask m{IPMask::raw_type(n)}; A6 b = m6(n); vf_check(m.is_valid() && m.width() == n && is6(m.as_ip6(), b), "a mask of n bits has the top n bits"); IP6Addr x{a}, y{a}; x &= m; y |= m; vf_check(is6(x, {w.hi & b.hi, w.lo & b.lo}) && (a & m) == x, "masking keeps the network bits only"); vf_check(is6(y, {w.hi | ~b.hi, w.lo | ~b.lo}) && (a | m) == y, "inverse masking sets the host bits only"); IPAddr g{a}, h{a}; g &= m; h |= m; vf_check(g == x && h == y && (IPAddr{a} & m) == x && (IPAddr{a} | m) == y, "either family");
    IP6Range r; r.assign(a, m); vf_check(r.min() == x && r.max() == y, "the range of a network"); IP6Net t{a, m}, u; u.assign(a, m); vf_check(t.min() == x && t.max() == y && t.mask() == m && !t.empty() && t == u && !(t != u) && t.as_range() == r, "a network"); IPNet v{a, m}; vf_check(v.min() == x && v.max() == y && v.mask() == m && v.width() == n && v.is_ip6() && !v.is_ip4() && v.family() == AF_INET6 && v.ip6() == t && v == t && t == v && v.as_range() == IPRange{r}, "a network of either family"); t.clear(); v.clear(); vf_check(t.empty() && v.empty(), "a cleared network is empty"); } }
VF_ENTRY(chk_mask_6_a) { mask6<0, 31>(); } VF_ENTRY(chk_mask_6_b) { mask6<32, 63>(); } VF_ENTRY(chk_mask_6_c) { mask6<64, 95>(); } VF_ENTRY(chk_mask_6_d) { mask6<96, 128>(); }
VF_ENTRY(chk_mask_invalid) { GO uint32_t w = vf_bits("a", 32); A6 z = bits6(); IP4Addr a{w}; IP6Addr b = mk6(z); IPMask m; vf_check(!m.is_valid() && (a & m) == a && (a | m) == a && (b & m) == b && (b | m) == b, "an invalid mask changes nothing"); IPMask k{7}; k.clear(); vf_check(!k.is_valid() && k == m, "clear makes a mask invalid"); IPNet n; vf_check(n.empty() && IP4Net{}.empty() && IP6Net{}.empty(), "default networks are empty"); IP4Range r{a, m}; vf_check(r.min() == a && r.max() == a, "an invalid mask selects the address"); IP6Range s; s.assign(b, m); vf_check(s.min() == b && s.max() == b, "an invalid mask selects the address"); }
VF_ENTRY(chk_mask_change) { GO for (unsigned n = 0; n <= 128; ++n) for (unsigned k = 0; k <= 128; k += 1 + (k > 8) * 13) { if (k <= n) { IPMask m{IPMask::raw_type(n)}; vf_check(&(m <<= k) == &m && m.width() == n - k, "widening a mask"); } if (n + k <= 128) { IPMask m{IPMask::raw_type(n)}; vf_check(&(m >>= k) == &m && m.width() == n + k, "narrowing a mask"); } } }
VF_ENTRY(chk_mask_for_4) { GO uint32_t w = vf_bits("a", 32); IP4Addr const a{w}; IPMask m = IPMask::mask_for(a); unsigned n = m.width(); vf_check(n <= 32 && (w & m4(n)) == w, "the largest network starting at an address starts there"); vf_check(n == 0 || (w & m4(n - 1)) != w, "and no larger network does"); vf_check(IPMask::mask_for(IPAddr{a}) == m, "either family"); }
VF_ENTRY(chk_mask_for_6) { GO A6 w = bits6(); IP6Addr const a = mk6(w); IPMask m = IPMask::mask_for(a); unsigned n = m.width(); A6 b = m6(n); vf_check(n <= 128 && (w.hi & b.hi) == w.hi && (w.lo & b.lo) == w.lo, "the largest network starting at an address starts there"); if (n) { b = m6(n - 1); vf_check(!((w.hi & b.hi) == w.hi && (w.lo & b.lo) == w.lo), "and no larger network does"); } vf_check(IPMask::mask_for(IPAddr{a}) == m, "either family"); }
VF_ENTRY(chk_mask_order) { GO uint8_t x = vf_range("x", 0, 255), y = vf_range("y", 0, 255); IPMask a{x}, b{y}; vf_check((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y), "masks compare by width"); }
// --- I03 classification
VF_ENTRY(chk_class_4) { GO uint32_t w = vf_bits("a", 32); IP4Addr const a{w}; IPAddr const g{a}; IPEndpoint e{g}; uint32_t n = net4(w); bool lo = (w >> 24) == 127, mc = (w >> 28) == 14, ll = (w >> 16) == 0xA9FE, pv = (w >> 24) == 10 || (w >> 20) == 0xAC1 || (w >> 16) == 0xC0A8 || (w >> 22) == (0x6440u >> 6);
  vf_check(a.is_loopback() == lo && g.is_loopback() == lo && e.is_loopback() == lo && ip::is_loopback_host_order(w) == lo && ip::is_loopback_network_order(n) == lo && ip::is_loopback(&e.sa) == lo, "loopback is 127/8"); }
VF_ENTRY(chk_class_4m) { GO uint32_t w = vf_bits("a", 32); IP4Addr const a{w}; IPAddr const g{a}; IPEndpoint e{g}; uint32_t n = net4(w); bool mc = (w >> 28) == 14; vf_check(a.is_multicast() == mc && g.is_multicast() == mc && e.is_multicast() == mc && IPEndpoint::is_multicast(&e.sa) == mc && ip::is_multicast_host_order(w) == mc && ip::is_multicast_network_order(n) == mc, "multicast is 224/4"); bool any = w == 0; vf_check(a.is_any() == any && e.is_any() == any, "any is 0"); }
VF_ENTRY(chk_class_4l) { GO uint32_t w = vf_bits("a", 32); IP4Addr const a{w}; IPAddr const g{a}; IPEndpoint e{g}; uint32_t n = net4(w); bool ll = (w >> 16) == 0xA9FE; vf_check(a.is_link_local() == ll && g.is_link_local() == ll && e.is_link_local() == ll && IPEndpoint::is_link_local(&e.sa) == ll && ip::is_link_local_host_order(w) == ll && ip::is_link_local_network_order(n) == ll, "link local is 169.254/16"); }
VF_ENTRY(chk_class_4p) { GO uint32_t w = vf_bits("a", 32); IP4Addr const a{w}; IPAddr const g{a}; IPEndpoint e{g}; uint32_t n = net4(w); bool pv = (w >> 24) == 10 || (w >> 20) == 0xAC1 || (w >> 16) == 0xC0A8 || (w >> 22) == (0x6440u >> 6); vf_check(a.is_private() == pv && g.is_private() == pv && e.is_private() == pv && IPEndpoint::is_private(&e.sa) == pv && ip::is_private_host_order(w) == pv && ip::is_private_network_order(n) == pv, "private is 10/8, 172.16/12, 192.168/16 and 100.64/10"); }
VF_ENTRY(chk_class_6) { GO A6 w = bits6(); IP6Addr const a = mk6(w); IPAddr const g{a}; IPEndpoint e{g}; bool lo = w.hi == 0 && w.lo == 1; vf_check(a.is_loopback() == lo && g.is_loopback() == lo && e.is_loopback() == lo && ip::is_loopback(&e.sa) == lo && ip::is_loopback_network_order(a.network_order()) == lo, "loopback is ::1"); }
VF_ENTRY(chk_class_6a) { GO A6 w = bits6(); IP6Addr const a = mk6(w); IPEndpoint e{IPAddr{a}}; bool any = w.hi == 0 && w.lo == 0; vf_check(a.is_any() == any && e.is_any() == any, "any is ::"); }
VF_ENTRY(chk_class_6m) { GO A6 w = bits6(); IP6Addr const a = mk6(w); IPAddr const g{a}; IPEndpoint e{g}; bool mc = (w.hi >> 56) == 0xff; vf_check(a.is_multicast() == mc && g.is_multicast() == mc && e.is_multicast() == mc && ip::is_multicast_network_order(a.network_order()) == mc, "multicast is ff00::/8"); }
VF_ENTRY(chk_class_6l) { GO A6 w = bits6(); IP6Addr const a = mk6(w); IPAddr const g{a}; IPEndpoint e{g}; bool ll = (w.hi >> 54) == (0xfe80u >> 6); vf_check(a.is_link_local() == ll && g.is_link_local() == ll && e.is_link_local() == ll && ip::is_link_local_network_order(a.network_order()) == ll, "link local is fe80::/10"); }
VF_ENTRY(chk_class_6p) { GO A6 w = bits6(); IP6Addr const a = mk6(w); IPAddr const g{a}; IPEndpoint e{g}; bool pv = (w.hi >> 57) == (0xfcu >> 1); vf_check(a.is_private() == pv && g.is_private() == pv && e.is_private() == pv && ip::is_private_network_order(a.network_order()) == pv, "private is fc00::/7"); }
VF_ENTRY(chk_class_none) { GO IPAddr g; vf_check(!g.is_loopback() && !g.is_multicast() && !g.is_link_local() && !g.is_private(), "an invalid address has no class"); IPEndpoint e; vf_check(!e.is_loopback() && !e.is_multicast() && !e.is_link_local() && !e.is_private() && !e.is_any(), "an invalid address has no class"); for (int f : {AF_INET, AF_INET6}) { e.set_to_any(f); vf_check(e.family() == f && e.is_any() && !e.is_loopback() && e.host_order_port() == 0, "set to any"); e.set_to_loopback(f); vf_check(e.family() == f && e.is_loopback() && !e.is_any() && e.host_order_port() == 0, "set to loopback"); } }
// --- I04 order
static IPAddr any(char const *n) { if (vf_bool("v4")) return IPAddr{IP4Addr{in_addr_t(vf_range(n, 0, 0xffffffffu))}}; if (vf_bool("v6")) return IPAddr{mk6(word6(n))}; return {}; }
template <typename T> static void order2(T const &x, T const &y) { bool lt = x < y, gt = x > y, eq = x == y; vf_check(lt + gt + eq == 1, "exactly one of less, equal and greater"); vf_check((x <= y) == (lt || eq) && (x >= y) == (gt || eq) && (x != y) == !eq && (y > x) == lt && (y < x) == gt && (y == x) == eq, "the operators agree"); }
template <typename T> static void order3(T const &x, T const &y, T const &z) { if (x < y && y < z) vf_check(x < z, "less is transitive"); if (x == y && y == z) vf_check(x == z, "equality is transitive"); if (x == y && y < z) vf_check(x < z, "equals order alike"); }
template <typename T> static void cmp2(T const &x, T const &y) { int c = x.cmp(y); vf_check((c < 0) == (x < y) && (c == 0) == (x == y) && (c > 0) == (x > y), "the comparison agrees with the operators"); }
VF_ENTRY(chk_order_addr) { GO IPAddr x = any("x"), y = any("y"); order2(x, y); cmp2(x, y); vf_check(x.is_same_family(y) == (x.is_valid() && x.family() == y.family()), "same family"); if (x.is_ip4() && y.is_ip6()) vf_check(x < y, "IPv4 is before IPv6"); if (!x.is_valid() && y.is_valid()) vf_check(x < y, "invalid is before valid"); if (x.is_ip4() && y.is_ip4()) vf_check((x < y) == (x.ip4() < y.ip4()), "in a family the order is that of the addresses"); if (x.is_ip6() && y.is_ip6()) vf_check((x < y) == (x.ip6() < y.ip6()), "in a family the order is that of the addresses"); }
VF_ENTRY(chk_order_addr3) { GO IPAddr x = any("x"), y = any("y"), z = any("z"); order3(x, y, z); }
VF_ENTRY(chk_order_4) { GO uint32_t a = vf_range("a", 0, 0xffffffffu), b = vf_range("b", 0, 0xffffffffu); IP4Addr x{a}, y{b}; order2(x, y); cmp2(x, y); vf_check((x < y) == (a < b), "the order is numeric"); uint16_t p = vf_range("p", 0, 65535), q = vf_range("q", 0, 65535); IP4Srv s{x, p}, t{y, q}; order2(s, t); vf_check((s < t) == (a < b || (a == b && p < q)), "services order by address then port"); }
VF_ENTRY(chk_order_6) { GO A6 a = word6("a"), b = word6("b"); IP6Addr x = mk6(a), y = mk6(b); order2(x, y); cmp2(x, y); vf_check((x < y) == (a.hi < b.hi || (a.hi == b.hi && a.lo < b.lo)), "the order is numeric"); }
VF_ENTRY(chk_order_6s) { GO A6 a = word6("a"), b = word6("b"); IP6Addr x = mk6(a), y = mk6(b); uint16_t p = vf_range("p", 0, 65535), q = vf_range("q", 0, 65535); IP6Srv s{x, p}, t{y, q}; order2(s, t); vf_check((s < t) == (x < y || (x == y && p < q)), "services order by address then port"); }
template <typename S> static void mixed(IPSrv const &g, S const &t, bool same, S const &own) { vf_check((g == t) == (same && own == t) && (t == g) == (g == t) && (g != t) == !(g == t) && (t != g) == !(t == g), "a service of either family is equal to one of its family with the same value"); vf_check((g < t) == (same && own < t) && (t > g) == (g < t) && (g <= t) == (same && own <= t) && (t >= g) == (g <= t) && (g > t) == (same && own > t) && (t < g) == (g > t) && (g >= t) == (same && own >= t) && (t <= g) == (g >= t), "the order against a specific service is that of its family"); }
VF_ENTRY(chk_order_srv) { GO uint32_t a = vf_range("a", 0, 0xffffffffu), b = vf_range("b", 0, 0xffffffffu); uint16_t p = vf_range("p", 0, 65535), q = vf_range("q", 0, 65535); A6 c = word6("c"); IP4Srv s{IP4Addr{a}, p}, t{IP4Addr{b}, q}; IP6Srv u{mk6(c), p}; IPSrv g; g = s; IPSrv h; h = u; mixed(g, t, true, s); mixed(h, t, false, s); mixed(IPSrv{}, t, false, s); vf_check((g == IP4Addr{b}) == (a == b) && (IP4Addr{b} == g) == (a == b) && (g != IP4Addr{b}) == (a != b) && (IP4Addr{b} != g) == (a != b) && !(h == IP4Addr{b}) && h != IP4Addr{b} && !(IPSrv{} == IP4Addr{b}), "equality with an address is that of the addresses"); }
VF_ENTRY(chk_order_srv6) { GO A6 a = word6("a"), b = word6("b"); uint16_t p = vf_range("p", 0, 65535), q = vf_range("q", 0, 65535); IP6Srv s{mk6(a), p}, t{mk6(b), q}; IP4Srv u{IP4Addr{}, p}; IPSrv g; g = s; IPSrv h; h = u; mixed(g, t, true, s); mixed(h, t, false, s); mixed(IPSrv{}, t, false, s); IP6Addr x = mk6(a), y = mk6(b); vf_check((g == y) == (x == y) && (y == g) == (x == y) && (g != y) == (x != y) && (y != g) == (x != y) && !(h == y) && h != y && !(IPSrv{} == y), "equality with an address is that of the addresses"); }
VF_ENTRY(chk_order_mixed) { GO IPAddr x = any("x"); uint32_t a = vf_range("a", 0, 0xffffffffu); IP4Addr y{a}; A6 b = word6("b"); IP6Addr z = mk6(b); bool ey = x.is_ip4() && x.ip4() == y, ez = x.is_ip6() && x.ip6() == z; vf_check((x == y) == ey && (y == x) == ey && (x != y) == !ey && (y != x) == !ey && (x == z) == ez && (z == x) == ez && (x != z) == !ez && (z != x) == !ez, "an address of either family is equal to one of its family with the same value"); }
// copying one socket address to another, itself included
VF_ENTRY(chk_rep_sockaddr_copy) { GO for (unsigned k = 0; k < 4; ++k) { if (!vf_bool("form")) continue; auto s = reinterpret_cast<sockaddr *>(vf_buffer(sizeof(IPEndpoint))), d = reinterpret_cast<sockaddr *>(vf_buffer(sizeof(IPEndpoint))); unsigned f = k == 0 ? AF_INET : k == 1 ? AF_INET6 : k == 2 ? vf_range("family", 3, 9) : AF_UNSPEC; s->sa_family = f; bool self = vf_bool("self"); vf_split(self); char keep[28]; std::memcpy(keep, s, 28); auto kw = reinterpret_cast<uint32_t *>(keep); auto ph = reinterpret_cast<uint16_t *>(s)[1];
  bool r = IPEndpoint::assign(self ? s : d, s); vf_check(r == (k < 2), "whether the result is an IP address"); vf_check(s->sa_family == f, "the source is unchanged"); auto x = self ? s : d; if (k < 2) { vf_check(reinterpret_cast<uint16_t *>(x)[0] == f && reinterpret_cast<uint16_t *>(x)[1] == ph, "the family and port"); for (unsigned i = 1; i < (k ? 7 : 4); ++i) vf_check(reinterpret_cast<uint32_t *>(x)[i] == kw[i], "every part of the address"); } else if (!self) vf_check(x->sa_family == AF_UNSPEC, "not an address"); return; } }
// what is not an IP address has no port and no address
VF_ENTRY(chk_rep_sockaddr_none) { GO IPEndpoint e; e.sa.sa_family = sa_family_t(vf_range("family", 3, 9)); sockaddr *s = &e.sa; vf_check(!e.is_valid() && !e.is_ip4() && !e.is_ip6(), "not an IP address"); vf_check(e.host_order_port() == 0 && e.network_order_port() == 0 && IPEndpoint::host_order_port(s) == 0, "no port"); vf_check(!IPAddr{s}.is_valid() && !IPSrv{s}.is_valid() && !IPAddr{e}.is_valid() && !IPSrv{e}.is_valid(), "no address"); vf_check(IPEndpoint{s}.family() == AF_UNSPEC || !IPEndpoint{s}.is_valid(), "not an IP address"); }
