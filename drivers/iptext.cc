// Contracts of parsing IP text: every accepted text means the value it spells, everything else is rejected and leaves nothing valid behind.
#include "vf.h"
#include "swoc/swoc_ip.h"
using namespace swoc;
extern "C" void vf_init_swoc_ip();
#define GO vf_opt("memcmp_split", 1); vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 20000000); vf_init_swoc_ip();
using W = uint64_t;
// one of the forms of a loop: the paths of the others are analysed on their own
#define ONE if (!vf_bool("form")) continue;
struct Txt { char b[96]; size_t n = 0; Txt &c(char x) { b[n++] = x; return *this; } Txt &s(char const *t) { while (*t) c(*t++); return *this; } std::string_view v() const { return {b, n}; } operator std::string_view() const { return v(); } TextView t() const { return {b, n}; } };
// a decimal number of n digits, any value without leading zero
static W num(Txt &t, unsigned n) { W v = 0; for (unsigned i = 0; i < n; ++i) { unsigned d = vf_range("d", i == 0 && n > 1, 9); t.c(48 + d); v = v * 10 + d; } return v; }
static W dec1(Txt &t, unsigned lo) { unsigned d = vf_range("d", lo, 9); t.c(48 + d); return d; }
// a hexadecimal number of n digits, digit k is any (in upper or lower case), the others are decimal
static W hexn(Txt &t, unsigned n, unsigned k) { W v = 0; for (unsigned i = 0; i < n; ++i) { unsigned d; if (i != k) { d = dec1(t, i == 0 && n > 1); } else { d = vf_range("h", i == 0 && n > 1, 15); if (d < 10) t.c(48 + d); else t.c((vf_bool("upper") ? 'A' : 'a') + (d - 10)); } v = v * 16 + d; } return v; }
static W small(Txt &t) { unsigned d = vf_range("d", 1, 9); t.c(char(48 + d)); return d; }
// a character that is no part of any address text
static char odd(char const *n) { if (vf_bool("o1")) return vf_range(n, 0x21, 0x2c); if (vf_bool("o2")) return vf_range(n, 0x3b, 0x40); if (vf_bool("o3")) return vf_range(n, 1, 8); return vf_range(n, 0x7b, 0xff); }
static void yes4(Txt const &t, uint32_t v) { IP4Addr a{0xdeadbeef}; vf_check(a.load(t.v()) && a.host_order() == v, "the text is accepted with the value it spells"); IPAddr g{IP6Addr{1, 2}}; if (t.v().find('.') < 5) vf_check(g.load(t.v()) && g.is_ip4() && g.ip4().host_order() == v, "the text is accepted with the value it spells"); }
static void no4(Txt const &t) { IP4Addr a{0xdeadbeef}; vf_check(!a.load(t.v()) && a.host_order() == 0, "the text is rejected and leaves the zero address"); IPAddr g{IP6Addr{1, 2}}; vf_check(!g.load(t.v()) && !g.is_valid(), "the text is rejected and leaves an invalid address"); }
static void is4(Txt const &t, bool ok, uint32_t v) { if (ok) yes4(t, v); else no4(t); }
static bool is6(IP6Addr const &a, W hi, W lo) { return a._addr._store[0] == hi && a._addr._store[1] == lo; }
static void yes6(Txt const &t, W hi, W lo) { IP6Addr a{0x123456789, 0xabcdef12}; vf_check(a.load(t.v()) && is6(a, hi, lo), "the text is accepted with the value it spells"); IPAddr g{IP4Addr{1}}; vf_check(g.load(t.v()) && g.is_ip6() && is6(g.ip6(), hi, lo), "the text is accepted with the value it spells"); }
static void no6(Txt const &t) { IP6Addr a{0x123456789, 0xabcdef12}; vf_check(!a.load(t.v()) && is6(a, 0, 0), "the text is rejected and leaves the zero address"); IPAddr g{IP4Addr{1}}; vf_check(!g.load(t.v()) && !g.is_valid(), "the text is rejected and leaves an invalid address"); }
// --- IPv4
template <unsigned P> static void v4pos() { GO for (unsigned n = 1; n <= 5; ++n) { ONE Txt t; uint32_t v = 0; bool ok = true; for (unsigned i = 0; i < 4; ++i) { if (i) t.c('.'); W o = i == P ? num(t, n) : small(t); ok = ok && o <= 255; v = v * 256 + o; } is4(t, ok, v); return; } }
VF_ENTRY(chk_v4_octet0) { v4pos<0>(); } VF_ENTRY(chk_v4_octet1) { v4pos<1>(); } VF_ENTRY(chk_v4_octet2) { v4pos<2>(); } VF_ENTRY(chk_v4_octet3) { v4pos<3>(); }
// fewer numbers: the last one fills the remaining octets
VF_ENTRY(chk_v4_short) { GO for (unsigned k = 0; k < 3; ++k) for (unsigned n = 1; n <= 11; ++n) { ONE Txt t; W v = 0, max = 0xffffffffu >> 8 * k; for (unsigned i = 0; i < k; ++i) { v = (v << 8) + small(t); t.c('.'); } W x = num(t, n); IP4Addr a{0xdeadbeef}; if (x <= max) vf_check(a.load(t.v()) && a.host_order() == (v << (32 - 8 * k)) + x, "the last number fills the remaining octets"); else vf_check(!a.load(t.v()) && a.host_order() == 0, "a number that is too large is rejected"); return; } }
VF_ENTRY(chk_v4_full) { GO Txt t; W a = num(t, 3); t.c('.'); W b = num(t, 3); t.c('.'); W c = num(t, 3); t.c('.'); W d = num(t, 3); vf_assume(a <= 255 && b <= 255 && c <= 255 && d <= 255); yes4(t, (a << 24) + (b << 16) + (c << 8) + d); }
VF_ENTRY(chk_v4_empty) { GO for (unsigned m = 0; m < 15; ++m) { ONE Txt t; for (unsigned i = 0; i < 4; ++i) { if (i) t.c('.'); if (m & (1 << i)) small(t); } no4(t); return; } }
VF_ENTRY(chk_v4_five) { GO Txt t; for (unsigned i = 0; i < 5; ++i) { if (i) t.c('.'); small(t); } no4(t); t.n = 0; t.s("1.2.3.4."); no4(t); t.n = 0; t.s(".1.2.3"); no4(t); t.n = 0; t.s("1.2.3."); no4(t); t.n = 0; no4(t); t.s(" "); no4(t); }
VF_ENTRY(chk_v4_junk) { GO for (unsigned p = 0; p < 8; ++p) { ONE Txt t; for (unsigned i = 0; i < 4; ++i) { if (i) t.c('.'); if (p == 2 * i) t.c(odd("c")); small(t); if (p == 2 * i + 1) t.c(odd("c")); } no4(t); return; } }
VF_ENTRY(chk_v4_wrap) { GO for (unsigned k = 0; k < 4; ++k) { ONE Txt t; if (k & 1) t.c(' '); if (k & 2) t.c('['); W v = 0; for (unsigned i = 0; i < 4; ++i) { if (i) t.c('.'); v = (v << 8) + small(t); } if (k & 2) t.c(']'); if (k & 1) t.c('\n'); yes4(t, v); return; } Txt t; t.s("[1.2.3.4"); no4(t); t.n = 0; t.s("1.2.3.4]"); no4(t); t.n = 0; t.s("["); no4(t); t.n = 0; t.s("[]"); no4(t); t.n = 0; t.s("]1.2.3.4["); no4(t); }
// --- IPv6
template <unsigned P> static void v6pos() { GO for (unsigned n = 1; n <= 5; ++n) for (unsigned k = 0; k < n; ++k) { ONE Txt t; W w[2] = {0, 0}; bool ok = true; for (unsigned i = 0; i < 8; ++i) { if (i) t.c(':'); W o = i == P ? hexn(t, n, k) : small(t); ok = ok && o <= 0xffff; w[i / 4] = (w[i / 4] << 16) + o; } if (ok) yes6(t, w[0], w[1]); else no6(t); return; } }
VF_ENTRY(chk_v6_quad0) { v6pos<0>(); } VF_ENTRY(chk_v6_quad3) { v6pos<3>(); } VF_ENTRY(chk_v6_quad4) { v6pos<4>(); } VF_ENTRY(chk_v6_quad7) { v6pos<7>(); }
static void quads(Txt &t, unsigned n, unsigned at, W *w) { for (unsigned i = 0; i < n; ++i) { if (i) t.c(':'); W o = small(t) + 0x10 * 0; unsigned q = at + i; w[q / 4] += o << (48 - 16 * (q % 4)); } }
VF_ENTRY(chk_v6_short) { GO for (unsigned i = 0; i <= 7; ++i) for (unsigned j = 0; i + j <= 7; ++j) { ONE Txt t; W w[2] = {0, 0}; quads(t, i, 0, w); t.s("::"); quads(t, j, 8 - j, w); yes6(t, w[0], w[1]); return; } }
VF_ENTRY(chk_v6_toomany) { GO for (unsigned i = 0; i <= 9; ++i) { ONE Txt t; W w[4] = {}; quads(t, i, 0, w); t.s("::"); quads(t, 9 - i, 0, w); no6(t); if (i != 8) { t.n = 0; if (i) { quads(t, i, 0, w); no6(t); } } if (i <= 8) { t.n = 0; quads(t, i, 0, w); t.s("::"); quads(t, 8 - i, 0, w); no6(t); } return; } }
VF_ENTRY(chk_v6_twice) { GO W w[4] = {}; for (unsigned i = 0; i <= 3; ++i) for (unsigned j = 1; j <= 3; ++j) for (unsigned k = 0; k <= 2; ++k) { ONE Txt t; quads(t, i, 0, w); t.s("::"); quads(t, j, 0, w); t.s("::"); quads(t, k, 0, w); no6(t); return; } Txt t; t.s(":::"); no6(t); t.n = 0; t.s("1:::2"); no6(t); t.n = 0; t.s("::::"); no6(t); }
VF_ENTRY(chk_v6_edge) { GO W w[4] = {}; for (unsigned i = 1; i <= 8; ++i) { ONE Txt t; quads(t, i, 0, w); t.c(':'); no6(t); t.n = 0; t.c(':'); quads(t, i, 0, w); no6(t); if (i < 7) { t.n = 0; quads(t, i, 0, w); t.s("::1:"); no6(t); t.n = 0; t.s(":1::"); quads(t, i, 0, w); no6(t); t.n = 0; t.s("::"); quads(t, i, 0, w); t.c(':'); no6(t); } return; } Txt t; no6(t); t.s(":"); no6(t); t.n = 0; t.s("["); no6(t); t.n = 0; t.s("[]"); no6(t); t.n = 0; t.s("[::1"); no6(t); t.n = 0; t.s("::1]"); no6(t); t.n = 0; t.s("[:]"); no6(t); }
VF_ENTRY(chk_v6_junk) { GO W w[4] = {}; for (unsigned i = 0; i <= 7; ++i) for (unsigned p = 0; p < 3; ++p) { ONE char c = odd("c"); char const g[] = {c, 0}; Txt t; quads(t, i, 0, w); if (i) t.c(':'); if (p == 0) t.c('3').s(g); if (p == 1) t.s(g).c('3'); if (p == 2) t.s(g); if (i < 7) { t.c(':'); quads(t, 7 - i, 0, w); } no6(t); if (i < 6) { t.n = 0; quads(t, i, 0, w); t.s("::"); if (p == 0) t.c('3').s(g); if (p == 1) t.s(g).c('3'); if (p == 2) t.s(g); no6(t); } return; } Txt t; t.s("::g"); no6(t); t.n = 0; t.s("1::-1"); no6(t); t.n = 0; t.s("1:-1:1:1:1:1:1:1"); no6(t); t.n = 0; t.s("1:+1:1:1:1:1:1:1"); no6(t); t.n = 0; t.s("1: 1:1:1:1:1:1:1"); no6(t); }
VF_ENTRY(chk_v6_wrap) { GO for (unsigned k = 0; k < 4; ++k) { ONE Txt t; W w[2] = {}; if (k & 1) t.c(' '); if (k & 2) t.c('['); quads(t, 2, 0, w); t.s("::"); quads(t, 3, 5, w); if (k & 2) t.c(']'); if (k & 1) t.c('\t'); yes6(t, w[0], w[1]); t.n = 0; if (k & 1) t.c(' '); if (k & 2) t.c('['); t.s("::"); W x = hexn(t, 1, 0); if (k & 2) t.c(']'); yes6(t, 0, x); t.n = 0; if (k & 2) t.c('['); t.s("::"); if (k & 2) t.c(']'); yes6(t, 0, 0); return; } }
// --- masks
VF_ENTRY(chk_mask_text) { GO for (unsigned n = 1; n <= 4; ++n) { ONE Txt t; W v = num(t, n); IPMask m{7}; bool ok = m.load(t.v()); vf_check(ok == (v <= 128), "a mask is a number from 0 to the address width"); if (ok) vf_check(m.is_valid() && m.width() == v, "the mask has the width it spells"); if (vf_bool("good")) return; IPMask k{7}; Txt j; j.c(odd("c")); W x = num(j, n); (void)x; vf_check(!k.load(j.v()), "other text is rejected"); j.n = 0; num(j, n); j.c(odd("c")); vf_check(!k.load(j.v()), "other text is rejected"); return; } IPMask e{7}; vf_check(!e.load(std::string_view{}) && !e.load(std::string_view{"", 0}), "empty text is rejected"); Txt b; num(b, 25); vf_check(!e.load(b.v()), "a huge number is rejected"); }
// --- ranges and networks
static uint32_t a4(Txt &t) { uint32_t v = 0; for (unsigned i = 0; i < 4; ++i) { if (i) t.c('.'); v = (v << 8) + small(t); } return v; }
static void none(IPRange &r) { vf_check(r.empty() && !r.is_ip4() && !r.is_ip6(), "a rejected text leaves an invalid range"); }
static void dec(Txt &t, unsigned n) { if (n >= 100) t.c('0' + n / 100); if (n >= 10) t.c('0' + n / 10 % 10); t.c('0' + n % 10); }
VF_ENTRY(chk_range_4) { GO { Txt t; uint32_t a = a4(t); IP4Range r{IP4Addr{9}, IP4Addr{10}}; vf_check(r.load(t.v()) && r.min().host_order() == a && r.max().host_order() == a, "an address is a range of one"); IPRange g; vf_check(g.load(t.v()) && g.is_ip4() && g.ip4() == r, "either family"); t.c('-'); uint32_t b = a4(t); vf_assume(a <= b); vf_check(r.load(t.v()) && r.min().host_order() == a && r.max().host_order() == b, "a range of two addresses"); IPRange h; vf_check(h.load(t.v()) && h.is_ip4() && h.ip4() == r, "either family"); } }
VF_ENTRY(chk_range_4c) { GO for (unsigned n = 0; n <= 140; n += n < 34 ? 1 : n < 126 ? 13 : 1) { ONE Txt t; t.s("172.19.203.77/"); dec(t, n); IP4Addr a{0xAC13CB4D}; IP4Range r{IP4Addr{9}, IP4Addr{10}}, e; IPRange g{IP4Range{IP4Addr{9}, IP4Addr{10}}}; IP4Net x{a, IPMask{9}}; IPNet y{a, IPMask{9}}; bool k = r.load(t.v()), l = g.load(t.v()), u = x.load(t.t()), v = y.load(t.t()); vf_check(k == (n <= 32) && l == k && u == k && v == k, "the width is at most that of the address"); if (k) { IPMask m{IPMask::raw_type(n)}; e.assign(a, m); vf_check(r == e && g.is_ip4() && g.ip4() == e && x.mask() == m && x.as_range() == e && y.mask() == m && y.is_ip4() && y.ip4() == x, "the range of the network"); } else { vf_check(r.empty() && x.empty() && y.empty(), "a rejected text leaves an empty range"); none(g); } return; } }
VF_ENTRY(chk_range_4m) { GO for (unsigned n = 1; n <= 31; n += 3) { uint32_t m = ~((uint32_t(1) << (32 - n)) - 1); Txt t; t.s("172.19.203.77/"); for (unsigned i = 0; i < 4; ++i) { if (i) t.c('.'); dec(t, (m >> (24 - 8 * i)) & 0xff); } IP4Addr a{0xAC13CB4D}; IP4Net x; IPNet y; vf_check(x.load(t.t()) && x.mask().width() == n && x == IP4Net(a, IPMask{IPMask::raw_type(n)}) && y.load(t.t()) && y == x, "a mask in address form"); } Txt t; t.s("172.19.203.77/255.0.255.0"); IP4Net x{IP4Addr{9}, IPMask{9}}; IPNet y{IP4Addr{9}, IPMask{9}}; vf_check(!x.load(t.t()) && x.empty() && !y.load(t.t()) && y.empty(), "an address that is no mask is rejected"); }
static void bad(Txt const &t) { IP4Range r{IP4Addr{9}, IP4Addr{10}}; vf_check(!r.load(t.v()) && r.empty(), "a malformed text leaves an empty range"); IP6Range s; s.assign(IP6Addr{1, 2}, IP6Addr{3, 4}); vf_check(!s.load(t.v()) && s.empty(), "a malformed text leaves an empty range"); IPRange g{r}, h{s}; g.assign(IP4Addr{1}, IP4Addr{2}); h.assign(IP6Addr{1, 2}, IP6Addr{3, 4}); vf_check(!g.load(t.v()) && !h.load(t.v()), "a malformed text is rejected"); none(g); none(h); IP4Net x{IP4Addr{9}, IPMask{9}}; IP6Net y{IP6Addr{1, 2}, IPMask{9}}; IPNet z{IP4Addr{9}, IPMask{9}}, w{IP6Addr{1, 2}, IPMask{9}}; vf_check(!x.load(t.t()) && x.empty() && !y.load(t.t()) && y.empty() && !z.load(t.t()) && z.empty() && !w.load(t.t()) && w.empty(), "a malformed text leaves an empty network"); }
VF_ENTRY(chk_range_bad) { GO for (char const *s : {"", "-", "/", "1.2.3.4-", "1.2.3.4/", "-1.2.3.4", "/8", "1.2.3.4/x", "1.2.3.4/-1", "1.2.3.4-5.6.7.8-9.9.9.9", "1.2.3-x", "::1-", "::1/", "::/129", "::/256", "::/300", "-::1", "::1-1.2.3.4", "1.2.3.4-::1", "::1/8/8", "1.2.3.4/8/8", "1.2.3.4/8-", "zz", "::zz", "1.2.3.4.5", "300.1.1.1-301.1.1.1", "1.2.3.4/256", "1.2.3.4/260", "1.2.3.4/18446744073709551624"}) { ONE Txt t; t.s(s); bad(t); return; } }
VF_ENTRY(chk_range_6) { GO { Txt t; W a[2] = {}, b[2] = {}; quads(t, 3, 0, a); t.s("::"); quads(t, 2, 6, a); IP6Range r; vf_check(r.load(t.v()) && is6(r.min(), a[0], a[1]) && is6(r.max(), a[0], a[1]), "an address is a range of one"); IPRange g; vf_check(g.load(t.v()) && g.is_ip6() && g.ip6() == r, "either family"); t.c('-'); quads(t, 3, 0, b); t.s("::"); quads(t, 1, 7, b); vf_assume(a[0] < b[0]); vf_check(r.load(t.v()) && is6(r.min(), a[0], a[1]) && is6(r.max(), b[0], b[1]), "a range of two addresses"); IPRange h; vf_check(h.load(t.v()) && h.is_ip6() && h.ip6() == r, "either family"); } }
VF_ENTRY(chk_range_6c) { GO for (unsigned n = 0; n <= 140; ++n) { ONE Txt t; t.s("2001:fedc:ba98:7654:3210:abcd:8421:1248/"); dec(t, n); IP6Addr a{0x2001fedcba987654, 0x3210abcd84211248}; IP6Range r, e; r.assign(IP6Addr{1, 2}, IP6Addr{3, 4}); IPRange g; g.assign(IP6Addr{1, 2}, IP6Addr{3, 4}); IP6Net x{a, IPMask{9}}; IPNet y{a, IPMask{9}}; bool k = r.load(t.v()), l = g.load(t.v()), u = x.load(t.t()), v = y.load(t.t()); vf_check(k == (n <= 128) && l == k && u == k && v == k, "the width is at most that of the address"); if (k) { IPMask m{IPMask::raw_type(n)}; e.assign(a, m); vf_check(r == e && g.is_ip6() && g.ip6() == e && x.mask() == m && x.as_range() == e && y.mask() == m && y.is_ip6() && y.ip6() == x, "the range of the network"); } else { vf_check(r.empty() && x.empty() && y.empty(), "a rejected text leaves an empty range"); none(g); } return; } }
// --- services
VF_ENTRY(chk_srv_4) { GO for (unsigned n = 0; n <= 6; ++n) { ONE Txt t; uint32_t a = a4(t); W p = 0; if (n) { t.c(':'); p = num(t, n); } IP4Srv s; IPSrv g; IPEndpoint e; bool k = s.load(t.t()), l = g.load(t.t()), m = e.parse(t.v()); vf_check(k == (p <= 65535) && l == k && m == k, "the port is at most 65535"); if (k) vf_check(s.addr().host_order() == a && s.host_order_port() == p && g == s && e.is_ip4() && e.sa4.sin_port == s.network_order_port() && e.sa4.sin_addr.s_addr == s.addr().network_order(), "the address and port"); return; } }
VF_ENTRY(chk_srv_6) { GO for (unsigned n = 0; n <= 6; ++n) { ONE Txt t; t.c('['); W a[2] = {}; quads(t, 2, 0, a); t.s("::"); quads(t, 1, 7, a); t.c(']'); W p = 0; if (n) { t.c(':'); p = num(t, n); } IP6Srv s; IPSrv g; IPEndpoint e; bool k = s.load(t.t()), l = g.load(t.t()), m = e.parse(t.v()); vf_check(k == (p <= 65535) && l == k && m == k, "the port is at most 65535"); if (k) vf_check(is6(s.addr(), a[0], a[1]) && s.host_order_port() == p && g == s && e.is_ip6() && e.sa6.sin6_port == s.network_order_port(), "the address and port"); return; } Txt t; W a[2] = {}; quads(t, 8, 0, a); IPSrv g; vf_check(g.load(t.t()) && g.is_ip6() && is6(g.ip6().addr(), a[0], a[1]) && g.host_order_port() == 0, "an address without port"); }
VF_ENTRY(chk_srv_bad) { GO for (char const *s : {"", " ", "[", "[]", "[]:80", ":80", "1.2.3.4:", "1.2.3.4:x", "1.2.3.4:80x", "1.2.3.4:80:80", "[::1]:", "[::1]x", "[::1]:80x", "[::1]80", "1.2.3:4.5", "::zz", "[::zz]:80", "300.1.1.1:80", "1.2.3.4:-80", "1.2.3.4: 80", "1.2.3.4:70000"}) { ONE Txt t; t.s(s); IP4Srv a; IP6Srv b; IPSrv c; IPEndpoint e; vf_check(!a.load(t.t()) && !b.load(t.t()) && !c.load(t.t()) && !e.parse(t.v()) && !c.is_valid() && !e.is_valid(), "a malformed service is rejected"); return; } }
