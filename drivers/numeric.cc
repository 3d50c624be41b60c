// Text to number: maximal munch, exact value up to saturation, sign and radix prefix handling.
#include "vf.h"
#include "swoc/TextView.h"
using namespace swoc;
using std::max;
static constexpr uint64_t UMAX = ~uint64_t(0);
static constexpr int64_t IMAX = int64_t(UMAX >> 1), IMIN = -IMAX - 1;
static char dig(uint64_t d, bool up) { return char(d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10)); }
template <int B> static bool isdig(char c) {
  int lim = B - 10; return (c >= '0' && c <= '9' && c - '0' < B) || (c >= 'a' && c <= 'z' && c - 'a' < lim) || (c >= 'A' && c <= 'Z' && c - 'A' < lim);
}
// --- the consumed part, any text
// one parse per entry; sequential phases are joined
#define TEXT size_t n = vf_size("n"); char *p = vf_buffer(n); size_t i = vf_size("i"); bool in = i < n; if (in) vf_witness_cell(p + i, 1); vf_nothrow();
template <int B> static void munch() {
  TEXT; if (in) vf_split(isdig<B>(p[i])); TextView v{p, n}; svto_radix<B>(v); size_t k = n - v.size();
  vf_check(v.size() <= n && v.data() == p + k, "the rest follows the digits");
  if (in && i < k) vf_check(isdig<B>(p[i]), "only digits of the radix are consumed");
  if (k < n) vf_check(!isdig<B>(p[k]), "all digits are consumed");
}
VF_ENTRY(chk_munch_2) { munch<2>(); } VF_ENTRY(chk_munch_8) { munch<8>(); } VF_ENTRY(chk_munch_10) { munch<10>(); } VF_ENTRY(chk_munch_16) { munch<16>(); } VF_ENTRY(chk_munch_36) { munch<36>(); }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
template <int B> static void munch_u() { // explicit base: leading space skipped, then digits only
  vf_opt("unroll", 1); TEXT; if (in) { vf_split(isdig<B>(p[i])); vf_split(sp(p[i])); } TextView out{p, n}; uintmax_t r = svtou(TextView{p, n}, &out, B);
  if (out.size() == 0) { vf_check(r == 0, "no digits is zero"); if (in && i == 0) vf_check(!isdig<B>(p[i]), "digits are recognised"); }
  else {
    size_t a = out.data() - p, b = a + out.size(); vf_check(out.data() >= p && b <= n, "the parsed part lies in the text");
    if (in && i < a) vf_check(sp(p[i]), "only space is skipped"); if (in && i >= a && i < b) vf_check(isdig<B>(p[i]), "only digits of the base are consumed");
    if (b < n) vf_check(!isdig<B>(p[b]), "all digits are consumed");
  }
}
VF_ENTRY(chk_munchu_10) { munch_u<10>(); } VF_ENTRY(chk_munchu_7) { munch_u<7>(); }
VF_ENTRY(chk_badbase) { TEXT; TextView out{p, n}; int b = int(vf_srange("b", -0x7fffffff, 0x7fffffff)); vf_assume(b < 0 || b > 36); uintmax_t r = svtou(TextView{p, n}, &out, b); vf_check(r == 0 && out.size() == 0, "an unusable base parses nothing"); }
VF_ENTRY(chk_any_u) { vf_opt("join", 1); size_t n = vf_size("n"); char *p = vf_buffer(n); vf_nothrow(); TextView out; svtou(TextView{p, n}, &out); if (out.size()) { vf_check(out.data() >= p && out.data_end() <= p + n, "the parsed part lies in the text"); } }
VF_ENTRY(chk_any_u0) { vf_opt("join", 1); size_t n = vf_size("n"); char *p = vf_buffer(n); vf_nothrow(); svtou(TextView{p, n}); vf_check(true, "in bounds"); }
VF_ENTRY(chk_any_i) { vf_opt("join", 1); size_t n = vf_size("n"); char *p = vf_buffer(n); vf_nothrow(); TextView out{p, n}; intmax_t r = svtoi(TextView{p, n}, &out); if (out.size()) { vf_check(out.data() >= p && out.data_end() <= p + n, "the parsed part lies in the text"); } else vf_check(r == 0, "nothing parsed is zero"); }
VF_ENTRY(chk_any_i0) { vf_opt("join", 1); size_t n = vf_size("n"); char *p = vf_buffer(n); vf_nothrow(); svtoi(TextView{p, n}); vf_check(true, "in bounds"); }
VF_ENTRY(chk_any_d) { vf_opt("join", 1); size_t n = vf_size("n"); char *p = vf_buffer(n); vf_nothrow(); TextView out; svtod(TextView{p, n}, &out); if (out.size()) { vf_check(out.data() == p && out.data_end() <= p + n, "the parsed part starts the text"); } }
VF_ENTRY(chk_any_d0) { vf_opt("join", 1); size_t n = vf_size("n"); char *p = vf_buffer(n); vf_nothrow(); svtod(TextView{p, n}); vf_check(true, "in bounds"); }
// --- exact values of up to three digits, in both cases, any position
#define D(x, B) uint64_t x = vf_range(#x, 0, B - 1)
template <int B, bool UP> static void val3() {
  D(a, B); D(b, B); D(c, B); char t[3] = {dig(a, UP), dig(b, UP), dig(c, UP)}; vf_nothrow();
  TextView v{t, size_t(3)}; uintmax_t r = svto_radix<B>(v); vf_check(r == (a * B + b) * B + c && v.size() == 0, "value of the digits");
  TextView out; r = svtou(TextView{t, size_t(3)}, &out, B); vf_check(r == (a * B + b) * B + c && out.data() == t && out.size() == 3, "value of the digits with an explicit base");
}
VF_ENTRY(chk_val_2) { val3<2, false>(); } VF_ENTRY(chk_val_8) { val3<8, false>(); } VF_ENTRY(chk_val_10) { val3<10, false>(); }
VF_ENTRY(chk_val1_36) { D(a, 36); char t[1] = {dig(a, false)}, u[1] = {dig(a, true)}; vf_check(svtou(TextView{t, size_t(1)}, nullptr, 36) == a, "lower case digit"); vf_check(svtou(TextView{u, size_t(1)}, nullptr, 36) == a, "upper case digit"); }
VF_ENTRY(chk_val1_16) { D(a, 16); D(b, 16); char t[2] = {dig(a, false), dig(b, true)}; vf_check(svtou(TextView{t, size_t(2)}, nullptr, 16) == a * 16 + b, "hex digits"); }
// --- saturation: the leading digits are those of the limit, the last one arbitrary; then an arbitrary further digit
template <int B, size_t L> static void sat(const char (&lead)[L], uint64_t base) { // base = value(lead)
  D(d, B); char t[L]; vf_opt("peel_all", 1); memcpy(t, lead, L - 1); t[L - 1] = dig(d, false); vf_nothrow();
  bool ov = base > UMAX / B || d > UMAX - base * B; uint64_t want = ov ? UMAX : base * B + d;
  TextView v{t, L}; uintmax_t r = svto_radix<B>(v); vf_check(r == want, "the value saturates at the largest representable one"); vf_check(v.size() == 0, "digits past the limit are consumed");
  vf_check(svtou(TextView{t, L}, nullptr, B) == want, "the value saturates at the largest representable one");
  char u[L + 1]; memcpy(u, t, L); D(e, B); u[L] = dig(e, false); bool ov2 = want > UMAX / B || e > UMAX - want * B;
  vf_check(svtou(TextView{u, L + 1}, nullptr, B) == (ov2 ? UMAX : want * B + e), "once saturated the value stays saturated");
}
VF_ENTRY(chk_sat_10) { sat<10>("1844674407370955161", 1844674407370955161u); }
VF_ENTRY(chk_sat_10b) { sat<10>("1844674407370955162", 1844674407370955162u); }
VF_ENTRY(chk_sat_10c) { sat<10>("184467440737095516", 184467440737095516u); }
VF_ENTRY(chk_sat_16) { sat<16>("fffffffffffffff", 0xfffffffffffffffu); }
VF_ENTRY(chk_sat_16b) { sat<16>("1000000000000000", 0x1000000000000000u); }
VF_ENTRY(chk_sat_8) { sat<8>("177777777777777777777", 0x1fffffffffffffffu); }
VF_ENTRY(chk_sat_8b) { sat<8>("200000000000000000000", 0x2000000000000000u); }
VF_ENTRY(chk_sat_2) { sat<2>("111111111111111111111111111111111111111111111111111111111111111", UMAX >> 1); }
VF_ENTRY(chk_sat_2b) { sat<2>("1000000000000000000000000000000000000000000000000000000000000000", uint64_t(1) << 63); }
VF_ENTRY(chk_sat_36) { sat<36>("3w5e11264sgs", 512409557603043100u); }
VF_ENTRY(chk_sat_3) { sat<3>("1111222002212212010121102012021021021122", 6148914691236517205u); }
// --- sign
VF_ENTRY(chk_sign) {
  D(a, 10); D(b, 10); int64_t m = a * 10 + b; vf_nothrow(); TextView out;
  { char t[3] = {'-', dig(a, 0), dig(b, 0)}; vf_check(svtoi(TextView{t, size_t(3)}, &out, 10) == -m, "a leading minus negates"); vf_check(out.data() == t && out.size() == 3, "the sign is part of the parsed text"); }
  { char t[3] = {'+', dig(a, 0), dig(b, 0)}; vf_check(svtoi(TextView{t, size_t(3)}, &out, 10) == m, "a leading plus is accepted"); vf_check(out.data() == t && out.size() == 3, "the sign is part of the parsed text"); }
  { char t[3] = {' ', dig(a, 0), dig(b, 0)}; vf_check(svtoi(TextView{t, size_t(3)}, &out, 10) == m, "leading space is skipped"); vf_check(out.data() == t + 1 && out.size() == 2, "leading space is not part of the parsed text"); }
  { char t[1] = {'-'}; vf_check(svtoi(TextView{t, size_t(1)}, &out, 10) == 0 && out.size() == 0, "a sign alone parses nothing"); }
}
template <size_t L> static void clamp(char sg, const char (&lead)[L], uint64_t base) {
  D(d, 10); char t[L + 1]; t[0] = sg; vf_opt("peel_all", 1); memcpy(t + 1, lead, L - 1); t[L] = dig(d, 0); vf_nothrow();
  intmax_t r = svtoi(TextView{t, L + 1}, nullptr, 10); uint64_t m = base > UMAX / 10 || d > UMAX - base * 10 ? UMAX : base * 10 + d;
  if (sg == '-') { if (m > uint64_t(IMAX)) vf_check(r == IMIN, "clamped to the smallest value"); else vf_check(r == -int64_t(m), "value"); }
  else { if (m > uint64_t(IMAX)) vf_check(r == IMAX, "clamped to the largest value"); else vf_check(r == int64_t(m), "value"); }
}
VF_ENTRY(chk_clamp_pos) { clamp('+', "922337203685477580", 922337203685477580u); } VF_ENTRY(chk_clamp_neg) { clamp('-', "922337203685477580", 922337203685477580u); }
VF_ENTRY(chk_clamp_pos2) { clamp('+', "1844674407370955161", 1844674407370955161u); } VF_ENTRY(chk_clamp_neg2) { clamp('-', "1844674407370955161", 1844674407370955161u); }
// --- radix prefix when no base is given
#define PFX(NAME, B, ...)                                                                                                    \
  VF_ENTRY(chk_pfx_##NAME) { D(a, B); D(b, B); vf_nothrow(); char t[] = {__VA_ARGS__ dig(a, 0), dig(b, 0)}; TextView out;      \
    vf_check(svtou(TextView{t, sizeof(t)}, &out) == a * B + b, "radix prefix selects the base"); vf_check(out.data() == t && out.size() == sizeof(t), "the prefix is part of the parsed text"); \
    vf_check(svtoi(TextView{t, sizeof(t)}, &out) == int64_t(a * B + b), "radix prefix selects the base"); vf_check(out.data() == t && out.size() == sizeof(t), "the prefix is part of the parsed text"); }
PFX(hex, 16, '0', 'x',) PFX(HEX, 16, '0', 'X',) PFX(bin, 2, '0', 'b',) PFX(BIN, 2, '0', 'B',) PFX(oct, 8, '0',)
VF_ENTRY(chk_pfx_none) { uint64_t a = vf_range("a", 1, 9); D(b, 10); char t[] = {dig(a, 0), dig(b, 0)}; TextView out; vf_check(svtou(TextView{t, size_t(2)}, &out) == a * 10 + b && out.size() == 2, "decimal without a prefix"); vf_check(svtoi(TextView{t, size_t(2)}) == int64_t(a * 10 + b), "decimal without a prefix"); }
VF_ENTRY(chk_pfx_explicit) { TextView out; vf_check(svtou(TextView{"0x11", size_t(4)}, &out, 16) == 0 && out.size() == 1, "with an explicit base no prefix is accepted"); }
VF_ENTRY(chk_empty) { vf_nothrow(); TextView out; vf_check(svtou(TextView{}, &out) == 0 && out.size() == 0 && svtoi(TextView{}, &out) == 0 && out.size() == 0, "empty text is zero"); vf_check(svtod(TextView{}) == 0, "empty text is zero"); }
