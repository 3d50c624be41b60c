// Contracts of parsing format specifiers and format strings.
#include "vf.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
using namespace swoc;
extern "C" void vf_init_bw_format();
#define GO vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 20000000); vf_opt("init_globals", 1); vf_init_bw_format();
using W = uint64_t; using Spec = bwf::Spec; using Al = Spec::Align;
#define ONE if (!vf_bool("form")) continue;
struct Txt { char b[64]; size_t n = 0; Txt &c(char x) { b[n++] = x; return *this; } Txt &s(char const *t) { while (*t) c(*t++); return *this; } TextView exact() const { char *p = vf_buffer(n); memcpy(p, b, n); return {p, n}; } };
static W num(Txt &t, unsigned n) { W v = 0; for (unsigned i = 0; i < n; ++i) { unsigned d = vf_range("d", i == 0 && n > 1, 9); t.c(48 + d); v = v * 10 + d; } return v; }
static char pick(char const *n, char const *s, unsigned k) { unsigned r = vf_range(n, 0, k - 1); for (unsigned i = 0; i < k; ++i) if (i == r) return s[i]; return 0; }
static Al align_char(char c) { return c == '<' ? Al::LEFT : c == '>' ? Al::RIGHT : c == '^' ? Al::CENTER : c == '=' ? Al::SIGN : Al::NONE; }
static bool in(char c, char const *s) { for (; *s; ++s) if (*s == c) return true; return false; }
VF_ENTRY(chk_spec_chars) { GO for (int i = 0; i < 256; ++i) { char c = char(i); Spec s; s._type = c; vf_check(Spec::is_type(c) == (c && in(c, "bBdgopPsSxX")), "the types"); vf_check(Spec::is_numeric_type(c) == (c && in(c, "bBdoxX")) && s.has_numeric_type() == Spec::is_numeric_type(c), "the numeric types"); vf_check(Spec::is_upper_case_type(c) == (c && in(c, "BPSX")) && s.has_upper_case_type() == Spec::is_upper_case_type(c), "the upper case types"); vf_check(s.is_sign(c) == (c && in(c, "+- ")), "the signs"); vf_check(s.align_of(c) == align_char(c), "the alignments"); vf_check(s.has_pointer_type() == (c == 'p' || c == 'P') && s.has_valid_type() == (c != 0), "pointer and valid types"); } }
// a well formed specification: every part is what it spells, absent parts have their default
struct Want { Al al = Al::NONE; char fill = ' ', sign = '-', type = 'g'; bool lead = false; W min = 0, prec = ~W(0), max = 0xffffffffu; };
static void is(Spec const &s, Want const &w, TextView name, int idx, TextView ext) { vf_check(s._align == w.al && s._fill == w.fill, "fill and alignment"); vf_check(s._sign == w.sign && s._radix_lead_p == w.lead, "sign and radix mark"); vf_check(s._min == w.min && s._prec == (w.prec == ~W(0) ? -1 : int(w.prec)) && s._max == w.max, "minimum, precision and maximum"); vf_check(s._type == w.type, "type"); vf_check(s._name.size() == name.size() && (name.empty() || s._name.data() == name.data()) && (s._idx == idx || (name.empty() && s._idx <= 0)), "name and index"); vf_check(s._ext.size() == ext.size() && (ext.empty() || s._ext.data() == ext.data()), "extension"); }
static unsigned digit(char &c) { switch (vf_range("dk", 0, 2)) { case 0: { unsigned d = vf_range("dg", 0, 9); c = '0' + d; return d; } case 1: { unsigned d = vf_range("dg", 10, 15); c = 'a' + d - 10; return d; } default: { unsigned d = vf_range("dg", 10, 15); c = 'A' + d - 10; return d; } } }
// K selects the form of the alignment: none, mark, fill and mark, escaped fill and mark
template <unsigned K> static void part(Txt &t, Want &w) { if (K == 0) return; char a = pick("al", "<>^=", 4); w.al = align_char(a); if (K == 2) { char f = vf_range("fill", 0, 255); vf_assume(f != ':' && f != '%'); t.c(f); w.fill = f; } if (K == 3) { char hx[2]; unsigned h = digit(hx[0]), l = digit(hx[1]); t.c('%').c(hx[0]).c(hx[1]); w.fill = char(16 * h + l); } t.c(a); }
template <unsigned K, unsigned F> static void spec() { GO vf_nothrow(); for (unsigned m = F; m < F + 32; ++m) { if (K == 3 && (m & (m - 1)) && m != 127) continue; ONE Txt t; Want w; t.c(':'); part<K>(t, w); if (m & 1) { w.sign = pick("sg", "+- ", 3); t.c(w.sign); } if (m & 2) { t.c('#'); w.lead = true; } if (m & 4) { t.c('0'); w.fill = '0'; if (K == 0) w.al = Al::SIGN; } if (m & 8) { unsigned d = vf_range("d1", 1, 9), e = vf_range("d2", 0, 9); t.c('0' + d).c('0' + e); w.min = 10 * d + e; } if (m & 16) { t.c('.'); w.prec = num(t, 2); } if (m & 32) { w.type = K < 2 ? pick("ty", "bBdgopPsSxX", 11) : pick("ty", "gSx", 3); t.c(w.type); } if (m & 64) { t.c(','); w.max = num(t, 2); if (!(m & 32) && vf_bool("after")) { w.type = pick("ty", "dS", 2); t.c(w.type); } } Spec s; TextView v = t.exact(); vf_check(s.parse(v), "a well formed specification is accepted"); is(s, w, {}, 0, {}); return; } }
VF_ENTRY(chk_spec_0_0) { spec<0, 0>(); } VF_ENTRY(chk_spec_0_32) { spec<0, 32>(); } VF_ENTRY(chk_spec_0_64) { spec<0, 64>(); } VF_ENTRY(chk_spec_0_96) { spec<0, 96>(); }
VF_ENTRY(chk_spec_1_0) { spec<1, 0>(); } VF_ENTRY(chk_spec_1_32) { spec<1, 32>(); } VF_ENTRY(chk_spec_1_64) { spec<1, 64>(); } VF_ENTRY(chk_spec_1_96) { spec<1, 96>(); }
VF_ENTRY(chk_spec_2_0) { spec<2, 0>(); } VF_ENTRY(chk_spec_2_32) { spec<2, 32>(); } VF_ENTRY(chk_spec_2_64) { spec<2, 64>(); } VF_ENTRY(chk_spec_2_96) { spec<2, 96>(); }
VF_ENTRY(chk_spec_3_0) { spec<3, 0>(); } VF_ENTRY(chk_spec_3_32) { spec<3, 32>(); } VF_ENTRY(chk_spec_3_64) { spec<3, 64>(); } VF_ENTRY(chk_spec_3_96) { spec<3, 96>(); }
// name, index and extension
VF_ENTRY(chk_spec_name) { GO vf_nothrow(); for (unsigned k = 0; k < 12; ++k) { ONE Txt t; Want w; W idx = ~W(0); if (k % 4 == 1) idx = num(t, 1 + (k / 4) * 4); if (k % 4 == 2) { t.c(vf_range("c", 0x3b, 255)); num(t, 1); t.c(':' - 11); } if (k % 4 == 3) { num(t, 2); t.c(vf_range("c", 0x3b, 255)); } size_t n = t.n; if (k >= 4) { t.c(':'); if (k >= 8) { t.s("<7"); w.al = Al::LEFT; w.min = 7; } } size_t e = 0; if (k >= 4) { t.c(':'); e = 3; t.c(vf_range("e", 0, 255)).c(':').c(vf_range("e", 0, 255)); } Spec s; TextView v = t.exact(); vf_check(s.parse(v), "a well formed specification is accepted"); is(s, w, v.prefix(n), idx == ~W(0) ? -1 : int(idx), v.suffix(e)); Spec z{v}; is(z, w, v.prefix(n), idx == ~W(0) ? -1 : int(idx), v.suffix(e)); return; } }
// malformed specifications are rejected
static void bad(Txt const &t) { Spec s; s.parse(t.exact()); vf_never("a malformed specification is rejected"); }
VF_ENTRY(chk_spec_bad) { GO vf_maythrow(); vf_opt("table_runs", 48); vf_check(true, "entry"); for (unsigned k = 0; k < 10; ++k) { ONE Txt t; t.c(':'); switch (k) { case 0: t.s("%"); break; case 1: t.s("%4"); break; case 2: t.s("%41"); break; case 3: { char c = vf_range("c", 0, 255); vf_assume(!in(c, "<>^=") && c != ':'); t.s("%41").c(c); break; } case 4: { char c = vf_range("c", 0x67, 255); t.c('%').c(c).s("1<"); break; } case 5: { char c = vf_range("c", 0x67, 255); t.s("%1").c(c).c('<'); break; } case 6: t.s("."); break; case 7: { char c = vf_range("c", 0x3b, 255); t.s("5.").c(c); break; } case 8: t.s("x,"); break; case 9: { char c = vf_range("c", 0x3b, 255); vf_assume(!in(c, "<>^=")); t.s(",").c(c); break; } } bad(t); return; } }
// every text is parsed without leaving it
template <unsigned N> static void any() { GO vf_maythrow(); Spec s; s.parse(TextView{vf_buffer(N), N}); vf_reach("parsed"); vf_check(s._name.size() <= N && s._ext.size() <= N, "parts of the text"); }
VF_ENTRY(chk_spec_any_0) { any<0>(); } VF_ENTRY(chk_spec_any_1) { any<1>(); } VF_ENTRY(chk_spec_any_2) { any<2>(); } VF_ENTRY(chk_spec_any_3) { any<3>(); } VF_ENTRY(chk_spec_any_4) { any<4>(); } VF_ENTRY(chk_spec_any_5) { any<5>(); } 
#ifdef THOROUGH
VF_ENTRY(chk_spec_any_6) { any<6>(); }
#endif
