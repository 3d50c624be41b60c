// Comparison, prefix/suffix tests, construction and assignment of views.
#include "vf.h"
#include "swoc/TextView.h"
#include "swoc/string_view_util.h"
using namespace swoc;
extern "C" int strncasecmp(char const *, char const *, size_t) noexcept;
#define TWO size_t n = vf_size("n"), m = vf_size("m"); char *p = vf_buffer(n), *q = vf_buffer(m); vf_nothrow(); TextView a{p, n}, b{q, m}; size_t k = n < m ? n : m; (void)k;
static int order(int c, size_t n, size_t m) { return c < 0 ? -1 : c > 0 ? 1 : n < m ? -1 : n > m ? 1 : 0; }
VF_ENTRY(chk_strcmp) { TWO; vf_check(strcmp(a, b) == order(memcmp(p, q, k), n, m), "ordered by the first difference, then a prefix first"); }
VF_ENTRY(chk_memcmp) { TWO; vf_check(memcmp(a, b) == order(memcmp(p, q, k), n, m), "ordered by the first difference, then a prefix first"); }
VF_ENTRY(chk_strcasecmp) { TWO; vf_check(strcasecmp(a, b) == order(strncasecmp(p, q, k), n, m), "ordered by the first difference without case, then a prefix first"); }
VF_ENTRY(chk_same) { size_t n = vf_size("n"), m = vf_range("m", 0, 1ul << 40); char *p = vf_buffer(n); vf_nothrow(); vf_assume(m <= n); TextView a{p, n}, b{p, m}; int w = n > m ? 1 : 0;
  vf_check(strcmp(a, b) == w && strcasecmp(a, b) == w && strcmp(b, a) == -w && strcasecmp(b, a) == -w, "views of the same text are ordered by length"); }
VF_ENTRY(chk_empty) { size_t n = vf_size("n"); vf_assume(n > 0); char *p = vf_buffer(n); vf_nothrow(); TextView a{p, n}, e; vf_check(strcmp(e, a) == -1 && strcmp(a, e) == 1 && strcmp(e, e) == 0 && strcasecmp(e, a) == -1 && strcasecmp(a, e) == 1 && strcasecmp(e, e) == 0, "empty comes first"); }
VF_ENTRY(chk_less) { TWO; TextView::LessThan lt; vf_check(lt(a, b) == (order(memcmp(p, q, k), n, m) < 0), "less exactly when ordered before"); }
VF_ENTRY(chk_less_nc) { TWO; TextView::LessThanNoCase lt; vf_check(lt(a, b) == (order(strncasecmp(p, q, k), n, m) < 0), "less exactly when ordered before without case"); }
VF_ENTRY(chk_eq_nc) { TWO; TextView::CaselessEqual eq; vf_check(eq(a, b) == (n == m && strncasecmp(p, q, k) == 0), "equal exactly when same length and same text without case"); }
VF_ENTRY(chk_starts) { TWO; vf_check(a.starts_with(b) == (m <= n && memcmp(p, q, k) == 0), "starts with exactly when long enough and the start matches"); vf_check(a.data() == p && a.size() == n, "unchanged"); }
VF_ENTRY(chk_starts_nc) { TWO; vf_check(a.starts_with_nocase(b) == (m <= n && strncasecmp(p, q, k) == 0), "starts with exactly when long enough and the start matches"); }
VF_ENTRY(chk_ends) { TWO; bool r = a.ends_with(b); if (m > n) vf_check(!r, "a longer suffix never matches"); else vf_check(r == (memcmp(p + (n - m), q, m) == 0), "ends with exactly when the end matches"); }
VF_ENTRY(chk_ends_nc) { TWO; bool r = a.ends_with_nocase(b); if (m > n) vf_check(!r, "a longer suffix never matches"); else vf_check(r == (strncasecmp(p + (n - m), q, m) == 0), "ends with exactly when the end matches"); }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#define ONE size_t n = vf_size("n"); char *p = vf_buffer(n); vf_nothrow(); TextView a{p, n}; char c = char(vf_range("c", 0, 127));
VF_ENTRY(chk_starts_c) { ONE; if (n) vf_witness_cell(p, 1); vf_check(a.starts_with(c) == (n > 0 && *p == c), "starts with a character"); }
VF_ENTRY(chk_ends_c) { ONE; if (n) vf_witness_cell(p + n - 1, 1); vf_check(a.ends_with(c) == (n > 0 && p[n - 1] == c), "ends with a character"); }
VF_ENTRY(chk_starts_cnc) { ONE; if (n) { vf_witness_cell(p, 1); vf_assume(p[0] >= 0); } vf_check(a.starts_with_nocase(c) == (n > 0 && low(*p) == low(c)), "starts with a character without case"); }
VF_ENTRY(chk_ends_cnc) { ONE; if (n) { vf_witness_cell(p + n - 1, 1); vf_assume(p[n - 1] >= 0); } vf_check(a.ends_with_nocase(c) == (n > 0 && low(p[n - 1]) == low(c)), "ends with a character without case"); }
VF_ENTRY(chk_starts_s) { size_t n = vf_size("n"), m = vf_size("m"); char *p = vf_buffer(n), *q = vf_buffer(m + 1); q[m] = 0; vf_nothrow(); TextView a{p, n}; char const *s = q; size_t z = strlen(s);
  vf_check(a.starts_with(s) == (z <= n && memcmp(p, q, z <= n ? z : 0) == 0), "starts with a C string"); vf_check(a.starts_with_nocase(s) == (z <= n && strncasecmp(p, q, z <= n ? z : 0) == 0), "starts with a C string");
  vf_check(a.ends_with(s) == (z <= n && memcmp(p + (z <= n ? n - z : 0), q, z <= n ? z : 0) == 0), "ends with a C string"); vf_check(a.ends_with_nocase(s) == (z <= n && strncasecmp(p + (z <= n ? n - z : 0), q, z <= n ? z : 0) == 0), "ends with a C string"); }
// --- construction and assignment
#define IS(V, P, N) vf_check((V).data() == (P) && (V).size() == (N), "the view is the given text")
VF_ENTRY(chk_ctor) { size_t n = vf_size("n"); char *p = vf_buffer(n); vf_nothrow(); IS(TextView(p, n), p, n); IS(TextView(p, ssize_t(n)), p, n); IS(TextView(p, p + n), p, n); IS(TextView(std::string_view(p, n)), p, n); IS(TextView(), nullptr, 0); IS(TextView(nullptr), nullptr, 0);
  TextView v; v = std::string_view(p, n); IS(v, p, n); TextView w; w = v; IS(w, p, n); TextView u; u.assign(p, n); IS(u, p, n); TextView x; x.assign(p, p + n); IS(x, p, n); IS(x.clear(), nullptr, 0); vf_check(!x && !x.operator bool() && *x == 0, "empty is false"); vf_check(n == 0 || (v.operator bool() && !!v), "text is true"); vf_check(v.data_end() == p + n, "end"); }
VF_ENTRY(chk_ctor_i) { unsigned n = unsigned(vf_range("n", 0, 0x7fffffff)); char *p = vf_buffer(n); vf_nothrow(); IS(TextView(p, n), p, n); IS(TextView(p, int(n)), p, n); }
VF_ENTRY(chk_cstr) { size_t n = vf_size("n"); char *p = vf_buffer(n + 1); p[n] = 0; vf_nothrow(); size_t z = strlen(p); char *s = p; char const *t = p; TextView v{s}, w{t}; IS(v, p, z); IS(w, p, z);
  IS(TextView(p, TextView::npos), p, z); IS(TextView(p, -1), p, z); IS(TextView(p, ssize_t(-1)), p, z); TextView a; a = s; IS(a, p, z); TextView b; b = t; IS(b, p, z); TextView c; c.assign(s); IS(c, p, z); TextView d; d.assign(t); IS(d, p, z); TextView e; e.assign(p, TextView::npos); IS(e, p, z); }
VF_ENTRY(chk_null) { vf_nothrow(); char *s = nullptr; char const *t = nullptr; TextView v{s}, w{t}; IS(v, nullptr, 0); IS(w, nullptr, 0); IS(TextView(t, TextView::npos), nullptr, 0); IS(TextView(t, -1), nullptr, 0); IS(TextView(t, ssize_t(-1)), nullptr, 0);
  TextView a{"x"}, b{"x"}, c{"x"}, d{"x"}, e{"x"}; a = s; IS(a, nullptr, 0); b = t; IS(b, nullptr, 0); c.assign(s); IS(c, nullptr, 0); d.assign(t); IS(d, nullptr, 0); e.assign(t, TextView::npos); IS(e, nullptr, 0); }
VF_ENTRY(chk_lit) { vf_nothrow(); static char const l[] = "abc"; IS(TextView(l), l, 3); static char const r[3] = {'a', 'b', 'c'}; IS(TextView(r), r, 3); TextView v; v = l; IS(v, l, 3); TextView w; w = r; IS(w, r, 3); TextView z = swoc::literals::operator""_tv("a\0b", 3); vf_check(z.size() == 3, "a literal keeps embedded nul characters"); }
VF_ENTRY(chk_str) { vf_nothrow(); alignas(std::string) char raw[sizeof(std::string)]; size_t n = vf_size("n"); char *p = vf_buffer(n); memcpy(raw, &p, 8); memcpy(raw + 8, &n, 8); std::string const &s = *reinterpret_cast<std::string *>(raw); IS(TextView(s), p, n); TextView v; v = s; IS(v, p, n); TextView w; w.assign(s); IS(w, p, n); }
VF_ENTRY(chk_inc) { size_t n = vf_size("n"), k = vf_size("k"); char *p = vf_buffer(n); vf_nothrow(); vf_assume(n > 0); TextView v{p, n}; ++v; IS(v, p + 1, n - 1); TextView w{p, n}; TextView y = w++; IS(y, p, n); IS(w, p + 1, n - 1); TextView x{p, n}; x += k; if (k <= n) IS(x, p + k, n - k); else vf_check(x.size() == 0 && x.data() >= p && x.data() <= p + n, "skipping past the end empties the view"); }
