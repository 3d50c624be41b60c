// Contracts of printing IP addresses: the text spells the address.
#include "vf.h"
#include "swoc/bwf_ip.h"
#include "swoc/swoc_ip.h"
using namespace swoc;
extern "C" void vf_init_bw_format(); extern "C" void vf_init_swoc_ip();
#define GO vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 40000000); vf_opt("init_globals", 1); vf_init_bw_format(); vf_init_swoc_ip(); vf_nothrow();
using W = uint64_t; using Spec = bwf::Spec;
#define ONE if (!vf_bool("form")) continue;
// the expected text: characters, and the decimal digits of values
struct Txt { char b[128]; size_t n = 0; struct { size_t at, k; W v; } num[16]; unsigned m = 0; Txt &c(char x) { b[n++] = x; return *this; } Txt &s(char const *t) { while (*t) c(*t++); return *this; } Txt &dec(W v, size_t k) { num[m++] = {n, k, v}; for (size_t i = 0; i < k; ++i) b[n++] = 0; return *this; } Txt &sub(Txt const &t, size_t from, size_t to) { for (unsigned i = 0; i < t.m; ++i) if (t.num[i].at >= from && t.num[i].at < to) num[m++] = {n + t.num[i].at - from, t.num[i].k, t.num[i].v}; for (size_t i = from; i < to; ++i) c(t.b[i]); return *this; } };
struct Out { char b[128]; FixedBufferWriter w{b, sizeof(b)}; };
static void same(FixedBufferWriter const &w, char const *b, Txt const &e) { vf_check(w.extent() == e.n, "exactly the text of the address"); for (size_t i = 0; i < e.n; ++i) if (e.b[i]) vf_check(b[i] == e.b[i], "the text of the address"); for (unsigned i = 0; i < e.m; ++i) { W v = 0; for (size_t j = 0; j < e.num[i].k; ++j) { char c = b[e.num[i].at + j]; vf_check(c >= '0' && c <= '9', "digits"); v = v * 10 + (c - '0'); } vf_check(v == e.num[i].v, "the digits of the value"); } }
template <typename T> static void is(T const &t, Spec const &s, Txt const &e) { Out o; bwformat(o.w, s, t); same(o.w, o.b, e); }
// a number of n digits without leading zero, and its text right justified in a width
static W num(Txt &t, unsigned n, unsigned width = 0, char fill = ' ', W max = ~W(0)) { W lo = n == 1 ? 0 : 1, hi = 9; for (unsigned i = 1; i < n; ++i) { lo *= 10; hi = hi * 10 + 9; } W v = vf_range("n", lo, hi < max ? hi : max); for (unsigned i = n; i < width; ++i) t.c(fill); t.dec(v, n); return v; }
static W octet(Txt &t, unsigned n, unsigned width = 0, char fill = ' ') { return num(t, n, width, fill, 255); }
static Spec ext(char const *e) { Spec s; s._ext = e; return s; }
static uint32_t ip4(Txt &t, unsigned k, unsigned width = 0, char fill = ' ') { W v = 0; for (unsigned i = 0; i < 4; ++i, k /= 3) { if (i) t.c('.'); v = v * 256 + octet(t, 1 + k % 3, width, fill); } return v; }
#ifdef THOROUGH
#define FORMS(k) for (unsigned k = 0; k < 81; ++k)
#else
#define FORMS(k) for (unsigned k : {0, 1, 3, 9, 27, 42, 80, 64, 16})
#endif
VF_ENTRY(chk_text_v4) { GO for (unsigned k = 0; k < 81; ++k) { ONE Txt t; IP4Addr a{ip4(t, k)}; is(a, Spec::DEFAULT, t); is(IPAddr{a}, Spec::DEFAULT, t); is(IPAddr{a}, ext("a"), t); t.s(" ipv4"); is(IPAddr{a}, ext("fa"), t); return; } }
VF_ENTRY(chk_text_v4_fill) { GO FORMS(k) for (unsigned g = 0; g < 3; ++g) { ONE Txt t; char f = g == 0 ? (char)48 : char(vf_range("f", 0x20, 0x7e)); vf_assume(f != (char)61); char e[3] = {f, '=', 0}; Spec s; s._ext = g == 0 ? std::string_view("=") : std::string_view(e, 2); IP4Addr a{ip4(t, k, 3, f)}; is(a, s, t); is(IPAddr{a}, s, t); return; } }
// services and socket addresses
VF_ENTRY(chk_text_v4_srv) { GO for (unsigned p = 0; p <= 5; ++p) for (unsigned k : {0, 80}) { ONE Txt t; IP4Addr a{ip4(t, k)}; Txt r; r.sub(t, 0, t.n); size_t n = t.n; W port = 0; if (p) { t.c(':'); port = num(t, p, 0, ' ', 65535); if (p == 1) vf_assume(port > 0); } IP4Srv s{a, in_port_t(port)}; is(s, Spec::DEFAULT, t); is(IPSrv{s}, Spec::DEFAULT, t); if (!p) t.s(":0"); IPEndpoint ep{IPSrv{s}}; is(ep, Spec::DEFAULT, t); is(ep, ext("pa"), t); is(&ep.sa4, ext("ap"), t); Txt q, z, f; q.sub(t, n + 1, t.n); is(ep, ext("p"), q); for (size_t i = q.n; i < 5; ++i) z.c('0'); z.sub(q, 0, q.n); is(ep, ext("=p"), z); is(ep, ext("a"), r); f.s("ipv4"); is(ep, ext("f"), f); t.s(" ipv4"); is(ep, ext("fpa"), t); return; } }
// IPv6: M is the set of quads that are zero, the others have K digits
static bool zero(unsigned m, unsigned i) { return m >> i & 1; }
static void quad(Txt &t, unsigned n, unsigned x, W &v) { v = 0; for (unsigned i = 0; i < n; ++i) { unsigned d; if (i == x) { d = vf_range("x", 10, 15); t.c('a' + d - 10); } else { d = vf_range("d", i == 0 && n > 1, 9); t.c(48 + d); } v = v * 16 + d; } }
static IP6Addr ip6(Txt &t, unsigned m, unsigned n, unsigned x) { unsigned b = 8, len = 1, any = m % 8; while (zero(m, any) && m != 255) any = (any + 1) % 8; for (unsigned i = 0; i < 8; ++i) { unsigned j = i; while (j < 8 && zero(m, j)) ++j; if (j - i > len) { b = i; len = j - i; } } W w[2] = {0, 0}; bool sep = false; for (unsigned i = 0; i < 8;) { if (i == b) { t.s("::"); sep = false; i += len; continue; } if (sep) t.c(':'); sep = true; W v = 0; if (zero(m, i)) t.c('0'); else if (i == any) { quad(t, n, x, v); if (n == 1 && x) vf_assume(v > 0); } else { t.c('1' + i); v = 1 + i; } w[i / 4] += v << (48 - 16 * (i % 4)); ++i; } return IP6Addr{w[0], w[1]}; }
template <unsigned F> static void v6() { GO for (unsigned m = F; m < F + 32; ++m) { ONE unsigned n = 1 + (m * 7 + m / 16) % 4; Txt t; IP6Addr a = ip6(t, m, n, m % (n + 1)); is(a, Spec::DEFAULT, t); return; } }
VF_ENTRY(chk_text_v6_0) { v6<0>(); } VF_ENTRY(chk_text_v6_1) { v6<32>(); } VF_ENTRY(chk_text_v6_2) { v6<64>(); } VF_ENTRY(chk_text_v6_3) { v6<96>(); } VF_ENTRY(chk_text_v6_4) { v6<128>(); } VF_ENTRY(chk_text_v6_5) { v6<160>(); } VF_ENTRY(chk_text_v6_6) { v6<192>(); } VF_ENTRY(chk_text_v6_7) { v6<224>(); }
VF_ENTRY(chk_text_v6_srv) { GO for (unsigned p = 0; p <= 5; ++p) for (unsigned m : {0u, 0xfeu, 0x7cu}) { ONE Txt t, u, q; IP6Addr a = ip6(t, m, 2, 9); W port = 0; u.c('[').sub(t, 0, t.n).s("]:"); if (p) { port = num(q, p, 0, ' ', 65535); if (p == 1) vf_assume(port > 0); } else q.c('0'); u.sub(q, 0, q.n); is(IPAddr{a}, Spec::DEFAULT, t); IP6Srv s{a, in_port_t(port)}; is(s, Spec::DEFAULT, p ? u : t); is(IPSrv{s}, Spec::DEFAULT, p ? u : t); IPEndpoint ep{IPSrv{s}}; is(ep, Spec::DEFAULT, u); is(ep, ext("a"), t); is(&ep.sa6, ext("a"), t); is(ep, ext("p"), q); u.s(" ipv6"); is(ep, ext("apf"), u); t.s(" ipv6"); is(ep, ext("af"), t); is(IPAddr{a}, ext("af"), t); return; } }
VF_ENTRY(chk_text_v6_fill) { GO for (unsigned m = 0; m < 32; ++m) { ONE Txt t; W w[2] = {0, 0}; for (unsigned i = 0; i < 8; ++i) { if (i) t.c(':'); unsigned n = 1 + (i + m) % 4; for (unsigned j = n; j < 4; ++j) t.c('0'); W v; if (i == m % 8) quad(t, n, m / 8, v); else { v = 0; for (unsigned j = 0; j < n; ++j) { t.c('1' + j); v = v * 16 + 1 + j; } } w[i / 4] += v << (48 - 16 * (i % 4)); } is(IP6Addr{w[0], w[1]}, ext("="), t); return; } }
// ranges, networks and masks
VF_ENTRY(chk_text_range4) { GO for (unsigned k : {0, 42, 80}) { ONE Txt t; W a = ip4(t, k); size_t n = t.n; t.c('-'); W b = ip4(t, k); vf_assume(a <= b); is(IP4Range{IP4Addr(a), IP4Addr(b)}, Spec::DEFAULT, t); is(IPRange{IP4Addr(a), IP4Addr(b)}, Spec::DEFAULT, t); IP4Range r{IP4Addr(a), IP4Addr(b)}; IPRangeView rv; rv.assign(r); is(rv, Spec::DEFAULT, t); Txt e; e.s("*-*"); is(IP4Range{}, Spec::DEFAULT, e); is(IPRange{}, Spec::DEFAULT, e); is(IPRangeView{}, Spec::DEFAULT, e); is(IP6Range{}, Spec::DEFAULT, e); Txt q; q.sub(t, 0, n); is(IP4Range{IP4Addr(a)}, ext("c"), q); return; } }
VF_ENTRY(chk_text_net4) { GO for (unsigned w = 0; w <= 32; ++w) { ONE Txt t; uint32_t m = w == 0 ? 0 : ~uint32_t(0) << (32 - w); uint32_t a = 0xC9A5E7BBu & m; char z[4][4]; for (unsigned i = 0; i < 4; ++i) { if (i) t.c('.'); unsigned o = a >> (24 - 8 * i) & 255; if (o >= 100) t.c('0' + o / 100); if (o >= 10) t.c('0' + o / 10 % 10); t.c('0' + o % 10); } size_t n = t.n; t.c('/'); if (w >= 10) t.c('0' + w / 10); t.c('0' + w % 10); is(IP4Net{IP4Addr(a), IPMask(w)}, Spec::DEFAULT, t); is(IPNet{IPAddr{IP4Addr(a)}, IPMask(w)}, Spec::DEFAULT, t); Txt k; for (size_t i = n + 1; i < t.n; ++i) k.c(t.b[i]); is(IPMask(w), Spec::DEFAULT, k); if (w == 32) t.n = n; is(IP4Range{IP4Addr(a), IP4Addr(a | ~m)}, ext("c"), t); is(IPRange{IP4Addr(a), IP4Addr(a | ~m)}, ext("c"), t); return; } }
VF_ENTRY(chk_text_net6) { GO for (unsigned w = 0; w <= 128; ++w) { ONE Txt t; W h = w >= 16 ? 0x2001000000000000 : w >= 3 ? 0x2000000000000000 : 0, l = 0; t.s(w >= 16 ? "2001::/" : w >= 3 ? "2000::/" : "::/"); if (w >= 100) t.c('1'); if (w >= 10) t.c('0' + w / 10 % 10); t.c('0' + w % 10); IP6Addr a{h, l}; IP6Net net{a, IPMask(w)}; is(net, Spec::DEFAULT, t); is(IPNet{IPAddr{a}, IPMask(w)}, Spec::DEFAULT, t); if (w == 128) t.n = 6; is(net.as_range(), ext("c"), t); is(IPRange{net.as_range()}, ext("c"), t); return; } }
VF_ENTRY(chk_text_range6) { GO Txt t; W d = vf_range("d", 1, 9), f = vf_range("e", 1, 9); t.c('0' + d).s("::").c('0' + f).s("-ffff::"); IP6Range r{IP6Addr{d << 48, f}, IP6Addr{0xffff000000000000, 0}}; is(r, Spec::DEFAULT, t); is(IPRange{r}, Spec::DEFAULT, t); is(r, ext("c"), t); Txt n; n.s("*invalid*"); is(IPNet{}, Spec::DEFAULT, n); }
