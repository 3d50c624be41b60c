// Contracts of formatting floating point values: the text is the value rounded to the precision.
#include "vf.h"
#include <limits>
#include "swoc/bwf_base.h"
using namespace swoc;
extern "C" void vf_init_bw_format();
extern "C" double vf_real(uint64_t whole, bool fraction); ///< exactly whole (+ any fraction in (0,1) that a double can have)
extern "C" double vf_large(void);                         ///< any finite double of at least 2^64
#define GO vf_opt("unroll", 400); vf_opt("peel_all", 1); vf_opt("max_steps", 2000000); vf_opt("init_globals", 1); vf_init_bw_format();
using W = uint64_t; using Spec = bwf::Spec;
#define ONE if (!vf_bool("form")) continue;
struct Out { char b[400]; FixedBufferWriter w{b, sizeof(b)}; };
static constexpr W p10(unsigned k) { W v = 1; while (k--) v *= 10; return v; }
static W num(char const *p, unsigned k) { W v = 0; for (unsigned i = 0; i < k; ++i) { vf_check(p[i] >= '0' && p[i] <= '9', "digits"); v = v * 10 + (p[i] - '0'); } return v; }
// digits of the whole part and of the fraction: the fraction is the multiple of the last place that is nearest to the fraction of the value, and it carries into the whole part
static void places(int prec) { GO for (unsigned k = 1; k <= 16; ++k) { ONE W n = vf_range("n", k == 1 ? 0 : p10(k - 1), k == 16 ? (W(1) << 52) - 1 : p10(k) - 1); double f = vf_real(n, true); Out o; Spec s; s._prec = prec; bool neg = vf_bool("neg"); vf_split(neg); vf_check(&bwf::Format_Float(o.w, s, f, neg) == &o.w, "returns the writer");
    unsigned p = prec == -1 ? 2 : prec, d = p < 19 ? p : 19; W q = static_cast<W>((f - static_cast<double>(n)) * static_cast<double>(p10(d)) + 0.5); bool carry = q >= p10(d); vf_split(carry); unsigned k2 = k; if (carry) { q -= p10(d); n += 1; if (k < 16) { bool more = n >= p10(k); vf_split(more); if (more) ++k2; } }
    char const *t = o.b; if (neg) { vf_check(*t == '-', "the sign"); ++t; } vf_check(o.w.extent() == neg + k2 + 1 + p, "the digits of the whole part, a point, as many digits as the precision"); vf_check(num(t, k2) == n, "the whole part, rounded up if the fraction rounds to one"); vf_check(t[k2] == '.', "a point"); vf_check(num(t + k2 + 1, d) == q, "the fraction, rounded to the precision"); for (unsigned i = d; i < p; ++i) vf_check(t[k2 + 1 + i] == '0', "places past the last are zeros"); return; } }
#define PL(N) VF_ENTRY(chk_float_places_##N) { places(N); }
VF_ENTRY(chk_float_places_default) { places(-1); } PL(1) PL(2) PL(3) PL(4) PL(6) PL(9) PL(10) PL(11) PL(15) PL(16) PL(18) PL(19) PL(20) PL(24)
// a value without a fraction is written as an integer; precision 0 drops the fraction
VF_ENTRY(chk_float_whole) { GO for (unsigned k = 1; k <= 20; ++k) { ONE W n = vf_range("n", k == 1 ? 1 : p10(k - 1), k == 20 ? ~W(0) : p10(k) - 1); bool fr = k <= 15 && vf_bool("fraction"); vf_split(fr); double f = vf_real(n, fr); Out o; Spec s; s._prec = fr ? 0 : int(vf_srange("p", -1, 30)); bool neg = vf_bool("neg"); vf_split(neg); bwf::Format_Float(o.w, s, f, neg); vf_check(o.w.extent() == k + neg, "the whole part only"); if (neg) vf_check(o.b[0] == '-', "the sign"); vf_check(num(o.b + neg, k) == n, "the whole part"); return; } }
// the sign is the sign of the value
template <typename T> static void sign() { GO for (unsigned c = 0; c < 8; ++c) { ONE bool fr = c & 1, plus = c & 2, neg = c & 4; W n = vf_range("n", 1, 99999); double f = vf_real(n, fr); Out a, b; Spec s; s._sign = plus ? '+' : '-'; bwformat(a.w, s, static_cast<T>(neg ? -f : f)); bwf::Format_Float(b.w, Spec::DEFAULT, f, false); unsigned x = neg || plus; size_t k = b.w.extent(); vf_check(a.w.extent() == k + x, "the magnitude and the sign"); if (x) vf_check(a.b[0] == (neg ? '-' : '+'), "the sign"); for (size_t i = 0; i < k; ++i) vf_check(a.b[x + i] == b.b[i], "the magnitude"); return; } }
VF_ENTRY(chk_float_sign) { sign<double>(); }
// width, alignment and fill
struct Exp { char b[64]; size_t n = 0; void c(char x) { b[n++] = x; } void fill(char x, int k) { while (k-- > 0) c(x); } };
using Al = Spec::Align; static constexpr Al AL[] = {Al::NONE, Al::LEFT, Al::RIGHT, Al::CENTER, Al::SIGN};
template <unsigned A> static void align() { GO char f = vf_range("fill", 0, 255); for (int min = 0; min <= 12; ++min) for (int prec = -1; prec <= 3; ++prec) for (unsigned c = 0; c < 4; ++c) { ONE bool fr = c & 1; double v = vf_real(vf_range("n", 10, 99), fr); bool neg = c & 2; Out a, b; Spec s; s._prec = prec; bwf::Format_Float(b.w, s, v, false); s._align = AL[A]; s._min = min; s._fill = f; bwf::Format_Float(a.w, s, v, neg); int n = b.w.extent(), w = min - n - neg; if (w < 0) w = 0; Exp e; auto body = [&] { for (int i = 0; i < n; ++i) e.c(b.b[i]); }; int before = A == 2 ? w : A == 3 ? w / 2 : 0, mid = A == 4 ? w : 0, after = A == 1 ? w : A == 3 ? w - w / 2 : 0; e.fill(f, before); if (neg) e.c('-'); e.fill(f, mid); body(); e.fill(f, after); vf_check(a.w.extent() == e.n, "the text has the minimum width or the width of the content"); for (size_t i = 0; i < e.n; ++i) vf_check(a.b[i] == e.b[i], "content and fill are where the alignment puts them"); return; } }
VF_ENTRY(chk_float_align_0) { align<0>(); } VF_ENTRY(chk_float_align_1) { align<1>(); } VF_ENTRY(chk_float_align_2) { align<2>(); } VF_ENTRY(chk_float_align_3) { align<3>(); } VF_ENTRY(chk_float_align_4) { align<4>(); }
VF_ENTRY(chk_float_align_long) { GO for (int prec = 17; prec <= 22; ++prec) { ONE double v = vf_real(vf_range("n", 10, 99), true); Out a; Spec s; s._prec = prec; s._align = Al::RIGHT; s._min = prec + 5; s._fill = '*'; bwf::Format_Float(a.w, s, v, false); vf_check(a.w.extent() == size_t(prec) + 5 && a.b[0] == '*', "the text has the minimum width"); return; } }
// values that are not normal
static void is(Out &o, char const *t) { size_t n = strlen(t); vf_check(o.w.extent() == n, "the name of the value"); for (size_t i = 0; i < n; ++i) vf_check(o.b[i] == t[i], "the name of the value"); }
VF_ENTRY(chk_float_special) { GO using L = std::numeric_limits<double>; for (unsigned c = 0; c < 6; ++c) { ONE Out o; Spec s; s._prec = int(vf_srange("p", -1, 30)); bwformat(o.w, s, c == 0 ? L::infinity() : c == 1 ? -L::infinity() : c == 2 ? L::quiet_NaN() : c == 3 ? 0.0 : c == 4 ? L::denorm_min() : -0.0); is(o, c == 0 ? "Inf" : c == 1 ? "-Inf" : c == 2 ? "NaN" : c == 4 ? "subnormal" : "0"); return; } }
// a value that no integer type holds: the digits the C library gives, in the field
static char G[310]; static unsigned GN;
extern "C" int snprintf(char *b, size_t n, char const *f, ...) noexcept { vf_check(f[0] == '%' && f[1] == '.' && f[2] == '0' && f[3] == 'f' && f[4] == 0, "the value without a fraction"); vf_check(n > GN, "room for the digits and the terminator"); for (unsigned i = 0; i < GN; ++i) b[i] = G[i]; b[GN] = 0; return GN; }
VF_ENTRY(chk_float_large) { GO for (unsigned k = 20; k <= 309; k = k == 20 ? 21 : k == 21 ? 39 : k == 39 ? 309 : 310) for (unsigned c = 0; c < 4; ++c) { ONE char *p = G; GN = k; for (unsigned i = 0; i < k; ++i) G[i] = vf_range("digit", '0', '9'); double f = vf_large(); Out o; Spec s; bool neg = c & 1, pad = c & 2; s._min = pad ? k + 5 : k; if (pad) { s._align = Al::RIGHT; s._fill = '*'; } bwformat(o.w, s, neg ? -f : f); unsigned b = pad ? 5 - neg : 0; vf_check(o.w.extent() == b + neg + k, "the digits of the value"); for (unsigned i = 0; i < b; ++i) vf_check(o.b[i] == '*', "the field"); if (neg) vf_check(o.b[b] == '-', "the sign"); for (unsigned i = 0; i < k; ++i) vf_check(o.b[b + neg + i] == p[i], "the digits of the value"); return; } }
