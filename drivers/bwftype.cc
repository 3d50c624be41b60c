// Contracts of formatting values of other types.
#include "vf.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
using namespace swoc;
extern "C" void vf_init_bw_format();
#define GO vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 40000000); vf_opt("init_globals", 1); vf_init_bw_format(); vf_nothrow();
using W = uint64_t; using Spec = bwf::Spec;
#define ONE if (!vf_bool("form")) continue;
struct Txt { char b[128]; size_t n = 0; Txt &c(char x) { b[n++] = x; return *this; } Txt &s(char const *t) { while (*t) c(*t++); return *this; } Txt &raw(char const *p, size_t k) { for (size_t i = 0; i < k; ++i) c(p[i]); return *this; } };
struct Out { char b[128]; FixedBufferWriter w{b, sizeof(b)}; };
static void same(Out const &o, Txt const &e) { vf_check(o.w.extent() == e.n, "exactly the text of the value"); for (size_t i = 0; i < e.n; ++i) vf_check(o.b[i] == e.b[i], "the text of the value"); }
static Spec type(char t) { Spec s; s._type = t; return s; }
static char hx(unsigned d, bool up) { return d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; }
static char *bytes(Txt &t, unsigned n, bool up, unsigned block = 0, bool lead = false) { char *p = vf_buffer(n); for (unsigned i = 0; i < n; ++i) { unsigned h = vf_range("h", 0, 15), l = vf_range("l", 0, 15); p[i] = char(16 * h + l); if (block && i % block == 0) { if (i) t.c(' '); if (lead) t.c('0').c(up ? 'X' : 'x'); } t.c(hx(h, up)).c(hx(l, up)); } return p; }
// hexadecimal dump of text and memory
VF_ENTRY(chk_dump_text) { GO for (unsigned n = 0; n <= 3; ++n) for (unsigned g = 0; g < 4; ++g) { ONE Txt t; if (g & 1) t.c('0').c(g & 2 ? 'X' : 'x'); char *p = bytes(t, n, g & 2); Out o; Spec s = type(g & 2 ? 'X' : 'x'); s._radix_lead_p = g & 1; bwformat(o.w, s, std::string_view{p, n}); same(o, t); Out q; bwformat(q.w, s, bwf::HexDump(p, n)); same(q, t); return; } }
VF_ENTRY(chk_dump_span) { GO for (unsigned n = 0; n <= 3; ++n) for (unsigned b = 1; b <= 4; ++b) for (unsigned g = 0; g < 4; ++g) { if (g && (b > 2 || n > 2)) continue; ONE Txt t; char *p = bytes(t, n, g & 2, b, g & 1); Out o; Spec s = type(g & 2 ? 'X' : 'x'); s._radix_lead_p = g & 1; s._prec = b; bwformat(o.w, s, MemSpan<void const>{p, n}); same(o, t); Out q; bwformat(q.w, s, MemSpan<void>{p, n}); same(q, t); if (b == 1) { Out r; s._prec = -1; bwformat(r.w, s, MemSpan<char>{p, n}); same(r, t); } return; } }
VF_ENTRY(chk_dump_span2) { GO for (unsigned n = 0; n <= 2; ++n) { ONE Txt t; char *p = bytes(t, 2 * n, false, 2); Out o; bwformat(o.w, type('x'), MemSpan<uint16_t>{reinterpret_cast<uint16_t *>(p), n}); same(o, t); return; } }
VF_ENTRY(chk_dump_as) { GO for (unsigned g = 0; g < 2; ++g) { ONE Txt t; char *p = bytes(t, 2, g); Out o; bwformat(o.w, type(g ? 'X' : 'x'), bwf::As_Hex(*reinterpret_cast<uint16_t *>(p))); same(o, t); return; } }
// and back
static unsigned digit(char &c) { switch (vf_range("dk", 0, 2)) { case 0: { unsigned d = vf_range("dg", 0, 9); c = '0' + d; return d; } case 1: { unsigned d = vf_range("dg", 10, 15); c = 'a' + d - 10; return d; } default: { unsigned d = vf_range("dg", 10, 15); c = 'A' + d - 10; return d; } } }
VF_ENTRY(chk_dump_unhex) { GO for (unsigned n = 0; n <= 5; ++n) { ONE char *p = vf_buffer(n); Txt t; unsigned v = 0; for (unsigned i = 0; i < n; ++i) { v = (v << 4) | digit(p[i]); if (i & 1) { t.c(char(v)); v = 0; } } Out o; bwformat(o.w, Spec::DEFAULT, bwf::UnHex(MemSpan<void const>{p, n})); same(o, t); return; } }
// text in lower and upper case, and plain
VF_ENTRY(chk_text_case) { GO for (unsigned n = 0; n <= 2; ++n) { ONE char *p = vf_buffer(n); for (unsigned i = 0; i < n; ++i) vf_assume(p[i] >= 0); Txt l, u, g; g.raw(p, n); for (unsigned i = 0; i < n; ++i) { l.c(p[i] >= 'A' && p[i] <= 'Z' ? p[i] + 32 : p[i]); u.c(p[i] >= 'a' && p[i] <= 'z' ? p[i] - 32 : p[i]); } Out a, b, c; std::string_view v{p, n}; bwformat(a.w, type('s'), v); same(a, l); bwformat(b.w, type('S'), v); same(b, u); bwformat(c.w, Spec::DEFAULT, TextView{v}); same(c, g); return; } }
VF_ENTRY(chk_text_cstr) { GO for (unsigned n = 0; n <= 3; ++n) { ONE char *p = vf_buffer(n + 1); p[n] = 0; for (unsigned i = 0; i < n; ++i) vf_assume(p[i] != 0); Txt t; t.raw(p, n); Out o; bwformat(o.w, Spec::DEFAULT, static_cast<char const *>(p)); same(o, t); return; } }
VF_ENTRY(chk_text_null) { GO Txt e, l, u; l.s("null"); u.s("NULL"); Out a, b, c, d; bwformat(a.w, Spec::DEFAULT, static_cast<char const *>(nullptr)); same(a, e); bwformat(b.w, type('s'), static_cast<char const *>(nullptr)); same(b, l); bwformat(c.w, type('S'), static_cast<char const *>(nullptr)); same(c, u); bwformat(d.w, Spec::DEFAULT, nullptr); same(d, e); Out f; bwformat(f.w, type('s'), static_cast<void const *>(nullptr)); same(f, l); Out g; Txt z; z.s("0x0"); bwformat(g.w, type('p'), nullptr); same(g, z); Out h; Txt Z; Z.s("0X0"); bwformat(h.w, type('P'), nullptr); same(h, Z); }
VF_ENTRY(chk_text_pointer) { GO for (char const *t = "gpxPX"; *t; ++t) { ONE Txt e; W v = 0; bool up = *t == 'P' || *t == 'X'; e.c('0').c(up ? 'X' : 'x'); for (unsigned i = 0; i < 12; ++i) { unsigned d = i == 5 ? vf_range("x", 10, 15) : vf_range("d", i == 0, 9); e.c(hx(d, up)); v = v * 16 + d; } Out o; bwformat(o.w, type(*t), reinterpret_cast<void const *>(v)); same(o, e); return; } }
VF_ENTRY(chk_text_char) { GO Txt t; char c = vf_range("c", 0, 255); t.c(c); Out o; bwformat(o.w, Spec::DEFAULT, c); same(o, t); }
VF_ENTRY(chk_text_bool) { GO bool b = vf_bool("b"); vf_split(b); Txt l, u, n; l.s(b ? "true" : "false"); u.s(b ? "TRUE" : "FALSE"); n.c(b ? '1' : '0'); Out o, p, q; bwformat(o.w, type('s'), b); same(o, l); bwformat(p.w, type('S'), b); same(p, u); bwformat(q.w, Spec::DEFAULT, b); same(q, n); }
// wrappers
VF_ENTRY(chk_wrap_pattern) { GO for (int n = 0; n <= 3; ++n) for (unsigned k = 0; k <= 2; ++k) { ONE char *p = vf_buffer(k); Txt t; for (int i = 0; i < n; ++i) t.raw(p, k); Out o; bwformat(o.w, Spec::DEFAULT, bwf::Pattern{n, {p, k}}); same(o, t); return; } }
VF_ENTRY(chk_wrap_first) { GO for (unsigned a = 0; a <= 1; ++a) for (unsigned b = 0; b <= 1; ++b) for (unsigned c = 0; c <= 1; ++c) { ONE char *p = vf_buffer(3); std::string_view x{p, a}, y{p + 1, b}, z{p + 2, c}; std::string_view r = bwf::FirstOf(x, nullptr, y, static_cast<char const *>(nullptr), z); std::string_view w = a ? x : b ? y : z; vf_check(r.size() == w.size() && (w.empty() || r.data() == w.data()), "the first text that is not empty"); return; } }
VF_ENTRY(chk_wrap_if) { GO bool b = vf_bool("b"); vf_split(b); char *p = vf_buffer(2); TextView v{p, 2}, e; Txt t, z; t.c('<').raw(p, 2).c('>'); Out o; o.w.print("{}", bwf::If(b, "<{}>", v)); same(o, b ? t : z); Out q; q.w.print("{}", bwf::Optional("<{}>", b ? v : e)); same(q, b ? t : z); Out r; r.w.print("{}{}", bwf::Optional("<{}>", v), bwf::Optional("<{}>", e)); same(r, t); }
// a time is what strftime makes of it, whether it fits in the space left or not; in local time with extension "local"
#include <ctime>
static unsigned dlen, dzone; static char const *dfmt; static time_t dwhen; static char dtext[16];
extern "C" size_t strftime(char *p, size_t max, char const *f, struct tm const *t) noexcept { vf_check(f == dfmt && t->tm_isdst == int(dzone) && t->tm_year == 17, "the format and the time in the zone"); if (dlen >= max) return 0; for (unsigned i = 0; i < dlen; ++i) p[i] = dtext[i]; p[dlen] = 0; return dlen; }
extern "C" struct tm *gmtime_r(time_t const *t, struct tm *r) noexcept { vf_check(*t == dwhen, "the time"); r->tm_isdst = 1; r->tm_year = 17; return r; }
extern "C" struct tm *localtime_r(time_t const *t, struct tm *r) noexcept { vf_check(*t == dwhen, "the time"); r->tm_isdst = 2; r->tm_year = 17; return r; }
VF_ENTRY(chk_text_date) { GO vf_opt("memcmp_split", 1); for (unsigned n = 0; n <= 6; ++n) for (unsigned c = 0; c <= 8; ++c) { ONE char *p = vf_buffer(n), *b = vf_buffer(c); for (unsigned i = 0; i < n; ++i) dtext[i] = p[i]; dlen = n; dwhen = time_t(vf_srange("t", -1000000, 1000000)); static char const F[] = "%Y-%j"; dfmt = F; bool loc = vf_bool("local"); vf_split(loc); dzone = loc ? 2 : 1; Spec s; if (loc) s._ext = "local"; FixedBufferWriter w{b, c}; bwformat(w, s, bwf::Date{dwhen, std::string_view{F, 5}}); vf_check(w.extent() == n, "all of the text is counted"); for (unsigned i = 0; i < n && i < c; ++i) if (i + 1 < c || n <= c) vf_check(b[i] == p[i], "the text of the time"); return; } }
VF_ENTRY(chk_text_date_num) { GO Spec s = type('d'); static char const F[] = "%Y"; W d = vf_range("d", 100, 999); Txt t; t.c('0' + d / 100).c('0' + d / 10 % 10).c('0' + d % 10); Out o, e; bwformat(o.w, s, bwf::Date{time_t(d), F}); same(o, t); bwformat(e.w, Spec::DEFAULT, bwf::Date{time_t(d), std::string_view{}}); vf_check(e.w.extent() == 0, "an empty format writes nothing"); }
