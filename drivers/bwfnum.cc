// Contracts of formatting numbers: the text spells the value, in the width and alignment of the specifier.
#include "vf.h"
#include "swoc/bwf_base.h"
using namespace swoc;
extern "C" void vf_init_bw_format();
#define GO vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 20000000); vf_opt("init_globals", 1); vf_init_bw_format();
using W = uint64_t; using Spec = bwf::Spec;
#define ONE if (!vf_bool("form")) continue;
struct Out { char b[128]; FixedBufferWriter w{b, sizeof(b)}; };
// digit of a character in lower (upper) case
static unsigned dig(char c, bool up) { if (c >= '0' && c <= '9') return c - '0'; return c - (up ? 'A' : 'a') + 10; }
static W p10(unsigned k) { W v = 1; while (k--) v *= 10; return v; }
VF_ENTRY(chk_num_dec) { GO for (unsigned k = 1; k <= 20; ++k) { ONE W lo = k == 1 ? 0 : p10(k - 1), n = vf_range("n", lo, k == 20 ? ~W(0) : p10(k) - 1); Out o; Spec s; vf_check(&bwf::Format_Integer(o.w, s, n, false) == &o.w, "returns the writer"); vf_check(o.w.extent() == k, "exactly the digits of the value"); W v = 0; for (unsigned i = 0; i < k; ++i) { vf_check(o.b[i] >= '0' && o.b[i] <= '9', "digits"); v = v * 10 + (o.b[i] - '0'); } vf_check(v == n, "the digits spell the value"); return; } }
// digits of a radix, least significant last; digit J is any digit, the others are decimal (so that the value has one digit that may be a letter)
template <unsigned R> static W radix(unsigned k, unsigned j, unsigned *d) { W v = 0; for (unsigned i = 0; i < k; ++i) { unsigned m = (i == j || R < 10) ? R - 1 : 9; if (R == 8 && k == 22 && i == 0) m = 1; d[i] = vf_range("d", i == 0 && k > 1, m); v = v * R + d[i]; } return v; }
template <unsigned R> static void inradix(char type, unsigned k) { GO for (unsigned j = 0; j < (R < 10 ? 1 : k); ++j) for (unsigned lead = 0; lead < 2; ++lead) { ONE unsigned d[64]; W n = radix<R>(k, j, d); Out o; Spec s; s._type = type; s._radix_lead_p = lead; bool up = type == 'X' || type == 'B'; bwf::Format_Integer(o.w, s, n, false); unsigned p = lead ? (R == 8 ? 1 : 2) : 0; vf_check(o.w.extent() == k + p, "exactly the prefix and the digits of the value"); if (lead) vf_check(o.b[0] == '0' && (R == 8 || o.b[1] == type), "the prefix of the radix"); for (unsigned i = 0; i < k; ++i) vf_check(dig(o.b[p + i], up) == d[i], "the digits spell the value"); return; } }
template <unsigned R> static void radices(char type, unsigned n) { for (unsigned k = 1; k <= n; ++k) { ONE inradix<R>(type, k); return; } }
VF_ENTRY(chk_num_hex) { radices<16>('x', 16); } VF_ENTRY(chk_num_HEX) { radices<16>('X', 16); } VF_ENTRY(chk_num_oct) { radices<8>('o', 22); } VF_ENTRY(chk_num_bin) { radices<2>('b', 64); } VF_ENTRY(chk_num_BIN) { radices<2>('B', 64); }
// signed and unsigned types of every size
template <typename T> static void typed(int64_t lo, int64_t hi) { GO T v = T(vf_srange("v", lo, hi)); for (unsigned g = 0; g < 3; ++g) { ONE Out a, b; Spec s; s._sign = g == 0 ? '-' : g == 1 ? '+' : ' '; bwformat(a.w, s, v); W m = v < 0 ? W(0) - W(int64_t(v)) : W(v); bwf::Format_Integer(b.w, s, m, v < 0); size_t n = a.w.extent(); vf_check(n == b.w.extent() && n >= 1 && n <= 21, "the magnitude and the sign"); for (size_t i = 0; i < n; ++i) vf_check(a.b[i] == b.b[i], "the magnitude and the sign"); char sg = v < 0 ? (g == 2 ? 0 : '-') : g == 1 ? '+' : 0; vf_check(sg ? a.b[0] == sg : (a.b[0] >= '0' && a.b[0] <= '9'), "the sign"); return; } }
VF_ENTRY(chk_num_i8) { typed<signed char>(-128, 127); } VF_ENTRY(chk_num_i16) { typed<short>(-32768, 32767); } VF_ENTRY(chk_num_i32) { typed<int>(INT32_MIN, INT32_MAX); } VF_ENTRY(chk_num_i64) { typed<long>(INT64_MIN, INT64_MAX); } VF_ENTRY(chk_num_u32) { GO unsigned v = vf_range("v", 0, 0xffffffffu); Out a, b; bwformat(a.w, Spec::DEFAULT, v); bwf::Format_Integer(b.w, Spec::DEFAULT, v, false); vf_check(a.w.extent() == b.w.extent(), "the value"); for (size_t i = 0; i < a.w.extent(); ++i) vf_check(a.b[i] == b.b[i], "the value"); }
// width, alignment, sign and prefix: the text is the expected string
struct Exp { char b[64]; size_t n = 0; void c(char x) { b[n++] = x; } void fill(char x, int k) { while (k-- > 0) c(x); } };
static void same(FixedBufferWriter &w, char const *b, Exp const &e) { vf_check(w.extent() == e.n, "the text has the minimum width or the width of the content"); for (size_t i = 0; i < e.n; ++i) vf_check(b[i] == e.b[i], "content and fill are where the alignment puts them"); }
using Al = Spec::Align; static constexpr Al AL[] = {Al::NONE, Al::LEFT, Al::RIGHT, Al::CENTER, Al::SIGN};
static void field(Exp &e, Al al, int min, char fill, char neg, char const *pre, unsigned np, char const *body, unsigned nb) { int width = min - int(nb) - int(np) - (neg ? 1 : 0); if (width < 0) width = 0; auto num = [&] { for (unsigned i = 0; i < np; ++i) e.c(pre[i]); for (unsigned i = 0; i < nb; ++i) e.c(body[i]); };
  switch (al) { case Al::NONE: if (neg) e.c(neg); num(); break; case Al::LEFT: if (neg) e.c(neg); num(); e.fill(fill, width); break; case Al::RIGHT: e.fill(fill, width); if (neg) e.c(neg); num(); break; case Al::CENTER: e.fill(fill, width / 2); if (neg) e.c(neg); num(); e.fill(fill, width - width / 2); break; case Al::SIGN: if (neg) e.c(neg); for (unsigned i = 0; i < np; ++i) e.c(pre[i]); e.fill(fill, width); for (unsigned i = 0; i < nb; ++i) e.c(body[i]); break; } }
template <unsigned A> static void align() { GO char f = vf_range("fill", 0, 255); for (int min = 0; min <= 11; ++min) for (char const *t = "gdxXboB"; *t; ++t) for (unsigned g = 0; g < 3; ++g) for (unsigned lead = 0; lead < 2; ++lead) { ONE Out o; Spec s; s._align = AL[A]; s._min = min; s._fill = f; s._type = *t; s._sign = "-+ "[g]; s._radix_lead_p = lead; bool neg = vf_bool("neg"); vf_split(neg); unsigned a = vf_range("a", 1, 1), b = vf_range("b", 0, 1), c = vf_range("c", 0, 1); unsigned r = (*t == 'x' || *t == 'X') ? 16 : *t == 'o' ? 8 : (*t == 'b' || *t == 'B') ? 2 : 10; bwf::Format_Integer(o.w, s, (a * r + b) * r + c, neg); char body[3] = {char('0' + a), char('0' + b), char('0' + c)}, pre[2] = {'0', *t}; Exp e; field(e, AL[A], min, f, g == 2 ? 0 : neg ? '-' : g == 1 ? '+' : 0, pre, !lead || r == 10 ? 0 : r == 8 ? 1 : 2, body, 3); same(o.w, o.b, e); return; } }
VF_ENTRY(chk_align_int_0) { align<0>(); } VF_ENTRY(chk_align_int_1) { align<1>(); } VF_ENTRY(chk_align_int_2) { align<2>(); } VF_ENTRY(chk_align_int_3) { align<3>(); } VF_ENTRY(chk_align_int_4) { align<4>(); }
// text: the precision limits the source, the case is mapped, the width and alignment apply
template <unsigned A> static void text() { GO char f = vf_range("fill", 0, 255); for (int n = 0; n <= 4; ++n) for (int min = 0; min <= 7; ++min) for (int prec = -1; prec <= 5; ++prec) { ONE Out o; char *p = vf_buffer(n); Spec s; s._align = AL[A]; s._min = min; s._fill = f; s._prec = prec; bwformat(o.w, s, std::string_view{p, size_t(n)}); unsigned k = prec > 0 && prec < n ? prec : n; Exp e; field(e, AL[A], min, f, 0, nullptr, 0, p, k); same(o.w, o.b, e); return; } }
VF_ENTRY(chk_align_text_0) { text<0>(); } VF_ENTRY(chk_align_text_1) { text<1>(); } VF_ENTRY(chk_align_text_2) { text<2>(); } VF_ENTRY(chk_align_text_3) { text<3>(); } VF_ENTRY(chk_align_text_4) { text<4>(); }
// the final adjustment of a field of e characters in a writer of capacity c: exactly the content, filled to the minimum and cut at the maximum
template <unsigned A> static void adjust() { GO char f = vf_range("fill", 0, 255); for (unsigned n = 0; n <= 4; ++n) for (unsigned cap = 0; cap <= 9; ++cap) for (unsigned min = 0; min <= 7; ++min) { ONE char *p = vf_buffer(n), *b = vf_buffer(cap); char g[4]; for (unsigned i = 0; i < n; ++i) g[i] = p[i]; FixedBufferWriter w{b, cap}; w.write(p, n); Spec s; s._align = AL[A]; s._min = min; s._fill = f; if (vf_bool("max")) { s._max = vf_range("mx", 0, 9); } bwf::Adjust_Alignment(w, s); unsigned k = n; Exp e; if (n < min) field(e, AL[A] == Al::NONE || AL[A] == Al::SIGN ? Al::LEFT : AL[A], min, f, 0, nullptr, 0, g, n); else { if (s._max < n) k = s._max; field(e, Al::NONE, 0, f, 0, nullptr, 0, g, k); } vf_check(w.extent() == e.n, "the text has the minimum width or the width of the content"); for (unsigned i = 0; i < e.n && i < cap; ++i) vf_check(b[i] == e.b[i], "content and fill are where the alignment puts them"); return; } }
VF_ENTRY(chk_align_adjust_0) { adjust<0>(); } VF_ENTRY(chk_align_adjust_1) { adjust<1>(); } VF_ENTRY(chk_align_adjust_2) { adjust<2>(); } VF_ENTRY(chk_align_adjust_3) { adjust<3>(); } VF_ENTRY(chk_align_adjust_4) { adjust<4>(); }
// a view written to a stream fills the width of the stream; nothing more is written to a stream that failed
struct Strm { using char_type = char; static constexpr unsigned adjustfield = 0xb0, left = 0x20; unsigned fl, room; size_t wd; char fc; char b[64]; size_t n = 0; unsigned flags() const { return fl; } size_t width() const { return wd; } char fill() const { return fc; } bool good() const { return n < room; } Strm &write(char const *p, size_t k) { for (size_t i = 0; i < k; ++i) b[n++] = p[i]; return *this; } };
VF_ENTRY(chk_align_stream) { GO for (unsigned k = 0; k <= 3; ++k) for (unsigned w = 0; w <= 21; ++w) for (unsigned a = 0; a < 3; ++a) { if (k == 3 && w % 8 > 3) continue; ONE char *p = vf_buffer(k), f = vf_range("fill", 0, 255); Strm s; s.fl = a == 0 ? 0x20 : a == 1 ? 0x80 : 0x10; s.room = 1000; s.wd = w; s.fc = f; TextView v{p, k}; v.stream_write(s, v); unsigned m = w > k ? w - k : 0, b = a == 0 ? 0 : m; vf_check(s.n == k + m, "the text, filled to the width"); for (unsigned i = 0; i < k + m; ++i) vf_check(s.b[i] == (i >= b && i < b + k ? p[i - b] : f), "the text, filled to the width"); return; } }
VF_ENTRY(chk_align_stream_bad) { GO for (unsigned r = 0; r <= 2; ++r) for (unsigned a = 0; a < 2; ++a) { ONE char *p = vf_buffer(2); Strm s; s.fl = a ? 0x20 : 0x80; s.room = 4 * r; s.wd = 20; s.fc = ' '; TextView v{p, 2}; v.stream_write(s, v); vf_check(r ? s.n <= 20 : s.n == 0, "nothing more is written to a failed stream"); for (unsigned i = 0; i < s.n; ++i) vf_check(s.b[i] == (a ? (i < 2 ? p[i] : ' ') : i < 18 ? ' ' : p[i - 18]), "what is written is the start of the field"); return; } }
