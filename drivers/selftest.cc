// Positive and negative controls for the interpreter itself: every bad_ entry must be reported, every good_ entry must not.
#include "vf.h"
VF_ENTRY(bad_bounds) { size_t n = vf_size("n"); char *p = vf_buffer(n); for (size_t i = 0; i <= n; ++i) p[i] = 0; }
VF_ENTRY(good_bounds) { size_t n = vf_size("n"); char *p = vf_buffer(n); for (size_t i = 0; i < n; ++i) p[i] = 0; vf_check(true, "x"); }
VF_ENTRY(bad_sum) { size_t n = vf_size("n"), k = 0; for (size_t i = 0; i < n; ++i) k += 2; vf_check(k == 2 * n + (n > 7), "sum"); }
VF_ENTRY(good_sum) { size_t n = vf_size("n"), k = 0; for (size_t i = 0; i < n; ++i) k += 2; vf_check(k == 2 * n, "sum"); }
VF_ENTRY(bad_wrap) { uint64_t a = vf_word("a"), b = vf_word("b"); vf_check(a + b >= a, "wrap"); }
VF_ENTRY(good_wrap) { uint64_t a = vf_size("a"), b = vf_size("b"); vf_check(a + b >= a, "wrap"); }
VF_ENTRY(bad_uaf) { char *p = new char[8]; p[0] = 1; delete[] p; p[0] = 2; }
VF_ENTRY(bad_copy) { size_t n = vf_size("n"), m = vf_size("m"); char *p = vf_buffer(n), *q = vf_buffer(m); memcpy(p, q, n < m ? m : n); }
VF_ENTRY(good_copy) { size_t n = vf_size("n"), m = vf_size("m"); char *p = vf_buffer(n), *q = vf_buffer(m); memcpy(p, q, n < m ? n : m); vf_check(true, "x"); }
VF_ENTRY(bad_content) { size_t n = vf_size("n"), i = vf_size("i"); vf_assume(i < n); char *p = vf_buffer(n); vf_witness_cell(p + i, 1); char c = p[i]; for (size_t k = 0; k < n; ++k) if (k == 5) p[k] = 'x'; vf_check(p[i] == c, "kept"); }
VF_ENTRY(good_content) { size_t n = vf_size("n"), i = vf_size("i"); vf_assume(i < n); char *p = vf_buffer(n); vf_witness_cell(p + i, 1); for (size_t k = 0; k < n; ++k) p[k] = 'x'; vf_check(p[i] == 'x', "set"); }
VF_ENTRY(bad_null) { int *p = vf_bool("b") ? new int(3) : nullptr; *p = 4; }
VF_ENTRY(bad_div) { uint64_t a = vf_size("a"); vf_check(10 / a < 20, "d"); }
VF_ENTRY(bad_throw) { vf_nothrow(); if (vf_bool("b")) throw 3; }
