// TextView trimming and clipping removes exactly the maximal run of matching characters at the chosen end(s).
#include "vf.h"
#include "swoc/TextView.h"
using namespace swoc;
template <int M> static bool is_hit(char c) { return M == 2 ? (c == 0x2c || c == char(0xff) || c == 0x41) : c == 0x78; }
#define HIT(C) is_hit<M>(C)
struct pred { bool operator()(char c) const { return c == 'x'; } };
static const char DL[] = ",\xff""A";
#define TEXT                                                                                                   \
  size_t n = vf_size("n"); char *p = vf_buffer(n); size_t i = vf_size("i"); bool in = i < n;                    \
  if (in) { vf_witness_cell(p + i, 1); vf_split(HIT(p[i])); } vf_nothrow(); TextView v{p, n};
// the view is p[a, b): the front cut (if L) is maximal and only matching characters were removed, likewise the back (if R)
template <int M, bool L, bool R> static void post(char *p, size_t n, size_t i, TextView const &v) {
  bool in = i < n;
  if (v.size() == 0) { if (in) vf_check(HIT(p[i]), "only an all-matching view is trimmed to nothing"); return; }
  size_t a = v.data() - p, b = a + v.size();
  vf_check(v.data() >= p && b <= n, "the result lies inside the view");
  if (L) { if (in && i < a) vf_check(HIT(p[i]), "only matching leading characters are removed"); vf_check(!HIT(p[a]), "the result does not start with a matching character"); } else vf_check(a == 0, "the front is untouched");
  if (R) { if (in && i >= b) vf_check(HIT(p[i]), "only matching trailing characters are removed"); vf_check(!HIT(p[b - 1]), "the result does not end with a matching character"); } else vf_check(b == n, "the back is untouched");
}
VF_ENTRY(chk_ltrim_char) { constexpr int M = 0; TEXT; TextView &r = v.ltrim('x'); vf_check(&r == &v, "self"); post<0, true, false>(p, n, i, v); }
VF_ENTRY(chk_rtrim_char) { constexpr int M = 0; TEXT; TextView &r = v.rtrim('x'); vf_check(&r == &v, "self"); post<0, false, true>(p, n, i, v); }
VF_ENTRY(chk_trim_char) { constexpr int M = 0; TEXT; TextView &r = v.trim('x'); vf_check(&r == &v, "self"); post<0, true, true>(p, n, i, v); }
VF_ENTRY(chk_ltrim_if) { constexpr int M = 0; TEXT; TextView &r = v.ltrim_if(pred{}); vf_check(&r == &v, "self"); post<0, true, false>(p, n, i, v); }
VF_ENTRY(chk_rtrim_if) { constexpr int M = 0; TEXT; TextView &r = v.rtrim_if(pred{}); vf_check(&r == &v, "self"); post<0, false, true>(p, n, i, v); }
VF_ENTRY(chk_trim_if) { constexpr int M = 0; TEXT; TextView &r = v.trim_if(pred{}); vf_check(&r == &v, "self"); post<0, true, true>(p, n, i, v); }
VF_ENTRY(chk_ltrim_set) { constexpr int M = 2; CharSet cs(TextView(DL, size_t(3))); TEXT; v.ltrim(cs); post<2, true, false>(p, n, i, v); }
VF_ENTRY(chk_rtrim_set) { constexpr int M = 2; CharSet cs(TextView(DL, size_t(3))); TEXT; v.rtrim(cs); post<2, false, true>(p, n, i, v); }
VF_ENTRY(chk_trim_set) { constexpr int M = 2; CharSet cs(TextView(DL, size_t(3))); TEXT; v.trim(cs); post<2, true, true>(p, n, i, v); }
VF_ENTRY(chk_ltrim_view) { constexpr int M = 2; TEXT; v.ltrim(std::string_view(DL, 3)); post<2, true, false>(p, n, i, v); }
VF_ENTRY(chk_rtrim_view) { constexpr int M = 2; TEXT; v.rtrim(std::string_view(DL, 3)); post<2, false, true>(p, n, i, v); }
VF_ENTRY(chk_trim_view) { constexpr int M = 2; TEXT; v.trim(std::string_view(DL, 3)); post<2, true, true>(p, n, i, v); }
VF_ENTRY(chk_ltrim_cstr) { constexpr int M = 2; TEXT; v.ltrim(static_cast<const char *>(DL)); post<2, true, false>(p, n, i, v); }
VF_ENTRY(chk_trim_cstr) { constexpr int M = 2; TEXT; v.trim(static_cast<const char *>(DL)); post<2, true, true>(p, n, i, v); }
VF_ENTRY(chk_clip_prefix_of) {
  constexpr int M = 0; TEXT; TextView z = v.clip_prefix_of(pred{}); size_t k = z.size();
  vf_check(k <= n && (k == 0 || z.data() == p), "the clipped text starts the view"); vf_check(v.size() == n - k && v.data() == p + k, "the rest is what was not clipped");
  if (in && i < k) vf_check(HIT(p[i]), "only matching characters are clipped"); if (k < n) vf_check(!HIT(p[k]), "all leading matching characters are clipped");
}
VF_ENTRY(chk_clip_suffix_of) {
  constexpr int M = 0; TEXT; TextView z = v.clip_suffix_of(pred{}); size_t k = z.size();
  vf_check(k <= n && z.data() == p + (n - k), "the clipped text ends the view"); vf_check(v.size() == n - k && v.data() == p, "the rest is what was not clipped");
  if (in && i >= n - k) vf_check(HIT(p[i]), "only matching characters are clipped"); if (k < n) vf_check(!HIT(p[n - k - 1]), "all trailing matching characters are clipped");
}
VF_ENTRY(chk_charset) { CharSet cs(TextView(DL, size_t(3))); char c = char(vf_range("c", 0, 255)); bool r = cs(c); vf_check(r == is_hit<2>(c), "a character set contains exactly the characters given"); unsigned char u = c; vf_check(cs(u) == r, "signed and unsigned forms agree"); }
VF_ENTRY(chk_transform) {
  size_t n = vf_size("n"), i = vf_size("i"); char *p = vf_buffer(n); std::string_view sv{p, n}; vf_assume(i < n); vf_witness_cell(p + i, 1);
  auto up = [](char c) -> char { return c == 'a' ? 'A' : c; };
  auto t = transform_view_of(up, sv); size_t k = 0;
  vf_split(p[i] == 'a');
  for (auto s = t.begin(), e = t.end(); s != e; ++s, ++k) { if (k == i) vf_check(*s == (p[i] == 'a' ? 'A' : p[i]), "a transformed view yields the transform of each character"); }
  vf_check(k == n, "a transformed view has the length of its source"); vf_check(!t.empty() && bool(t), "not empty");
  auto id = transform_view_of(sv); size_t m = 0; for (auto s = id.begin(), e = id.end(); s != e; ++s, ++m) { if (m == i) vf_check(*s == p[i], "the identity transform yields the source"); }
  vf_check(m == n, "a transformed view has the length of its source");
}
