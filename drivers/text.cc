// TextView: cutting operations partition the view at the right character, whatever its length and content.
#include "vf.h"
#include "swoc/TextView.h"
using namespace swoc;
static size_t mn(size_t a, size_t b) { return a < b ? a : b; }
static char tgt;
static bool is_t(char c) { return c == 'x'; }
template <int M> static bool is_hit(char c) { return M == 2 ? (c == 0x2c || c == char(0xff) || c == 0x3a) : c == 0x78; }
// one tracked position i, arbitrary content; the delimiter is 'x' (predicate / char / set forms)
#define TEXT                                                                                                   \
  size_t n = vf_size("n"); char *p = vf_buffer(n); size_t i = vf_size("i"); bool in = i < n;                    \
  if (in) { vf_witness_cell(p + i, 1); vf_split(HIT(p[i])); } vf_nothrow(); TextView v{p, n};
#define HIT(C) is_hit<M>(C)
#define SAME(V, D, N) vf_check((V).data() == (D) && (V).size() == (N), "the rest of the view is exactly what was not cut")

struct pred { bool operator()(char c) const { return c == 'x'; } };
static const char DL[] = ",\xff:";
// k is the first delimiter (or n when there is none)
#define FIRST(k)                                                                                               \
  { vf_check((k) <= n, "cut lies inside the view");                                                             \
    if (in && i < (k)) vf_check(!HIT(p[i]), "no delimiter precedes the cut");                                   \
    if ((k) < n) vf_check(HIT(p[(k)]), "the cut is at a delimiter"); }
#define NONE { if (in) vf_check(!HIT(p[i]), "no delimiter in the view when not found"); }
// k is the last delimiter
#define LAST(k)                                                                                                \
  { vf_check((k) < n, "cut lies inside the view");                                                              \
    if (in && i > (k)) vf_check(!HIT(p[i]), "no delimiter follows the cut");                                    \
    vf_check(HIT(p[(k)]), "the cut is at a delimiter"); }
#define FORMS(OP, V) [&](TextView &w) -> decltype(auto) { if constexpr (M == 0) return w.OP##_at('x'); else if constexpr (M == 1) return w.OP##_if(pred{}); else return w.OP##_at(std::string_view(DL, 3)); }(V)

template <int M> static void prefix_at() {
  TEXT; TextView z = FORMS(prefix, v); SAME(v, p, n);
  if (z.data() == nullptr) { vf_check(z.size() == 0, "not found gives an empty view"); NONE; }
  else { vf_check(z.data() == p && z.size() < n, "the prefix starts the view"); FIRST(z.size()); }
}
template <int M> static void remove_prefix_at() {
  TEXT; TextView &z = FORMS(remove_prefix, v); vf_check(&z == &v, "returns itself");
  if (v.size() == n) { SAME(v, p, n); NONE; }
  else { size_t k = n - v.size() - 1; vf_check(v.size() < n && v.data() == p + k + 1, "what is left is the end of the view"); FIRST(k); }
}
template <int M> static void split_prefix_at() {
  TEXT; TextView z = FORMS(split_prefix, v);
  if (z.data() == nullptr) { vf_check(z.size() == 0, "not found gives an empty view"); SAME(v, p, n); NONE; }
  else { size_t k = z.size(); vf_check(z.data() == p && k < n, "the prefix starts the view"); SAME(v, p + k + 1, n - k - 1); FIRST(k); }
}
template <int M> static void take_prefix_at() {
  TEXT; TextView z = FORMS(take_prefix, v); size_t k = z.size();
  vf_check(z.data() == p, "the prefix starts the view"); FIRST(k);
  if (k < n) SAME(v, p + k + 1, n - k - 1); else { vf_check(v.size() == 0, "everything was taken"); }
}
template <int M> static void suffix_at() {
  TEXT; TextView z = FORMS(suffix, v); SAME(v, p, n);
  if (z.data() == nullptr) { vf_check(z.size() == 0, "not found gives an empty view"); NONE; }
  else { size_t k = n - z.size() - 1; vf_check(z.size() < n && z.data() == p + k + 1, "the suffix ends the view"); LAST(k); }
}
template <int M> static void remove_suffix_at() {
  TEXT; TextView &z = FORMS(remove_suffix, v); vf_check(&z == &v, "returns itself");
  size_t k = v.size();
  if (v.data() == nullptr) { vf_check(k == 0, "cleared when not found"); NONE; }
  else { vf_check(v.data() == p && k < n, "what is left is the start of the view"); LAST(k); }
}
template <int M> static void split_suffix_at() {
  TEXT; TextView z = FORMS(split_suffix, v);
  if (z.data() == nullptr) { vf_check(z.size() == 0, "not found gives an empty view"); SAME(v, p, n); NONE; }
  else { size_t k = n - z.size() - 1; vf_check(z.size() < n && z.data() == p + k + 1, "the suffix ends the view"); SAME(v, p, k); LAST(k); }
}
template <int M> static void take_suffix_at() {
  TEXT; TextView z = FORMS(take_suffix, v); size_t m = z.size();
  vf_check(m <= n && z.data() == p + (n - m), "the suffix ends the view");
  if (m == n) { vf_check(v.size() == 0, "everything was taken"); NONE; }
  else { size_t k = n - m - 1; SAME(v, p, k); LAST(k); }
}
#define INST(F) VF_ENTRY(chk_at_##F##_char) { F<0>(); } VF_ENTRY(chk_at_##F##_if) { F<1>(); } VF_ENTRY(chk_at_##F##_set) { F<2>(); }
INST(prefix_at) INST(remove_prefix_at) INST(split_prefix_at) INST(take_prefix_at) INST(suffix_at) INST(remove_suffix_at) INST(split_suffix_at) INST(take_suffix_at)
VF_ENTRY(chk_at_find_if) { constexpr int M = 1; TEXT; size_t k = v.find_if(pred{}); if (k == TextView::npos) NONE else { vf_check(k < n, "in range"); FIRST(k); } }
VF_ENTRY(chk_at_rfind_if) { constexpr int M = 1; TEXT; size_t k = v.rfind_if(pred{}); if (k == TextView::npos) NONE else { vf_check(k < n, "in range"); LAST(k); } }

// --- counts
#define CNT size_t n = vf_size("n"), k = vf_word("k"); char *p = vf_buffer(n); vf_nothrow(); TextView v{p, n};
VF_ENTRY(chk_n_prefix) { CNT; TextView z = v.prefix(k); SAME(z, p, mn(k, n)); SAME(v, p, n); }
VF_ENTRY(chk_n_suffix) { CNT; TextView z = v.suffix(k); SAME(z, p + n - mn(k, n), mn(k, n)); SAME(v, p, n); }
VF_ENTRY(chk_n_remove_prefix) { CNT; v.remove_prefix(k); SAME(v, p + mn(k, n), n - mn(k, n)); }
VF_ENTRY(chk_n_plus) { CNT; v += k; SAME(v, p + mn(k, n), n - mn(k, n)); }
VF_ENTRY(chk_n_remove_suffix) { CNT; v.remove_suffix(k); SAME(v, p, n - mn(k, n)); }
VF_ENTRY(chk_n_split_prefix) { CNT; TextView z = v.split_prefix(k); if (k < n) { SAME(z, p, k); SAME(v, p + k + 1, n - k - 1); } else { vf_check(z.size() == 0, "an unbounded split yields nothing"); SAME(v, p, n); } }
VF_ENTRY(chk_n_take_prefix) { CNT; TextView z = v.take_prefix(k); SAME(z, p, mn(k, n)); if (k < n) SAME(v, p + k + 1, n - k - 1); else vf_check(v.size() == 0, "everything was taken"); }
VF_ENTRY(chk_n_split_suffix) { CNT; TextView z = v.split_suffix(k); if (k < n) { SAME(z, p + n - k, k); SAME(v, p, n - k - 1); } else { vf_check(z.size() == 0, "an unbounded split yields nothing"); SAME(v, p, n); } }
VF_ENTRY(chk_n_take_suffix) { CNT; TextView z = v.take_suffix(k); size_t m = mn(k, n); SAME(z, p + n - m, m); if (k < n) SAME(v, p, n - k - 1); else vf_check(v.size() == 0, "everything was taken"); }
VF_ENTRY(chk_n_int) {
  size_t n = vf_size("n"); int k = int(vf_srange("k", 0, 0x7fffffff)); char *p = vf_buffer(n); vf_nothrow(); TextView v{p, n}, w{p, n}, x{p, n}, y{p, n}, z{p, n}; size_t m = mn(k, n);
  SAME(v.prefix(k), p, m); SAME(v.suffix(k), p + n - m, m);
  TextView a = w.split_prefix(k), b = x.split_suffix(k), c = y.take_suffix(k), d = z.take_prefix(size_t(k));
  if (m < n) { SAME(a, p, m); SAME(w, p + m + 1, n - m - 1); SAME(b, p + n - m, m); SAME(x, p, n - m - 1); SAME(c, p + n - m, m); SAME(y, p, n - m - 1); SAME(d, p, m); }
  else { SAME(w, p, n); SAME(x, p, n); SAME(c, p, n); vf_check(y.size() == 0, "everything was taken"); SAME(d, p, n); }
}
VF_ENTRY(chk_n_substr) { CNT; size_t c = vf_word("c"); TextView z = v.substr(k, c); if (k < n) SAME(z, p + k, mn(c, n - k)); else vf_check(z.size() == 0, "past the end is empty"); }
VF_ENTRY(chk_n_step) {
  CNT; if (n) vf_witness_cell(p, 1); char h = *v; vf_check(n ? h == p[0] : h == 0, "dereference gives the first character or nul");
  vf_check(bool(v) == (n > 0) && !v == (n == 0), "a view is true exactly when not empty");
  TextView o = v++; SAME(o, p, n); SAME(v, p + mn(1, n), n - mn(1, n)); TextView &r = ++v; vf_check(&r == &v, "self"); SAME(v, p + mn(2, n), n - mn(2, n));
  vf_check(v.data_end() == p + n, "data_end is the end of the text"); v.clear(); vf_check(v.size() == 0 && v.data() == nullptr, "clear");
}
