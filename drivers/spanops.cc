// Contracts of the bulk operations over spans: extents never exceed either operand and cover all of it.
#include "vf.h"
#include "swoc/MemSpan.h"
using namespace swoc;
// copy: destination byte i is the source byte i for every i below the smaller extent, untouched above.
#define CPY(NAME, SETUP, CALL, DST, DN, SRC, SN)                                       \
  VF_ENTRY(chk_##NAME) {                                                                \
    size_t n = vf_size("n"), m = vf_size("m");                                          \
    SETUP                                                                               \
    size_t dn = DN, sn = SN, i = vf_size("i");                                          \
    unsigned char *d = (unsigned char *)DST; unsigned char *sb = (unsigned char *)SRC;  \
    vf_assume(i < dn);                                                                  \
    vf_witness_cell(d + i, 1); unsigned char was = d[i];                                                           \
    CALL;                                                                               \
    if (i < sn) vf_check(d[i] == sb[i], "every byte both operands have is copied");     \
    else vf_check(d[i] == was, "no byte past the shorter operand is changed");          \
  }
CPY(copy_tt_c, char *p = vf_buffer(n); char *q = vf_buffer(m); MemSpan<char> a(p, n); MemSpan<char> const b(q, m);, swoc::memcpy(a, b), p, n, q, m)
CPY(copy_tt_i, uint32_t *p = (uint32_t *)vf_buffer(4 * n); uint32_t *q = (uint32_t *)vf_buffer(4 * m); MemSpan<uint32_t> a(p, n); MemSpan<uint32_t> const b(q, m);,
    swoc::memcpy(a, b), p, 4 * n, q, 4 * m)
CPY(copy_from_ptr, uint32_t *p = (uint32_t *)vf_buffer(4 * n); uint32_t *q = (uint32_t *)vf_buffer(4 * n); MemSpan<uint32_t> a(p, n);, swoc::memcpy(a, q), p, 4 * n, q, 4 * n)
CPY(copy_to_ptr, uint32_t *p = (uint32_t *)vf_buffer(4 * n); uint32_t *q = (uint32_t *)vf_buffer(4 * n); MemSpan<uint32_t> a(q, n);, swoc::memcpy(p, a), p, 4 * n, q, 4 * n)
CPY(copy_view, char *p = vf_buffer(n); char *q = vf_buffer(m); MemSpan<char> a(p, n);, swoc::memcpy(a, std::string_view(q, m)), p, n, q, m)
CPY(copy_view_void, char *p = vf_buffer(n); char *q = vf_buffer(m); MemSpan<void> a(p, n);, swoc::memcpy(a, std::string_view(q, m)), p, n, q, m)

VF_ENTRY(chk_memset_char) {
  size_t n = vf_size("n"), i = vf_size("i"); char *p = vf_buffer(n); vf_assume(i < n); vf_witness_cell(p + i, 1);
  MemSpan<char> s{p, n}; swoc::memset(s, 'x'); vf_check(p[i] == 'x', "memset writes every element");
}
VF_ENTRY(chk_memset_void) {
  size_t n = vf_size("n"), i = vf_size("i"); char *p = vf_buffer(n); vf_assume(i < n); vf_witness_cell(p + i, 1);
  MemSpan<void> s{p, n}; swoc::memset(s, 'x'); vf_check(p[i] == 'x', "memset writes every byte");
}
VF_ENTRY(chk_memset_byte) {
  size_t n = vf_size("n"), i = vf_size("i"); unsigned char *p = (unsigned char *)vf_buffer(n); vf_assume(i < n); vf_witness_cell(p + i, 1);
  MemSpan<unsigned char> s{p, n}; swoc::memset(s, 'x'); vf_check(p[i] == 'x', "memset writes every element");
}
VF_ENTRY(chk_memset_int) {
  size_t n = vf_size("n"), i = vf_size("i"); uint32_t *p = (uint32_t *)vf_buffer(4 * n); vf_assume(i < n); vf_witness_cell(p + i, 4);
  MemSpan<uint32_t> s{p, n}; uint32_t v = 77; swoc::memset(s, v); vf_check(p[i] == 77, "memset writes every element");
}
VF_ENTRY(chk_apply) {
  size_t n = vf_size("n"), i = vf_size("i"); uint32_t *p = (uint32_t *)vf_buffer(4 * n); vf_assume(i < n); vf_witness_cell(p + i, 4);
  MemSpan<uint32_t> s{p, n}; s.apply([](uint32_t &x) { x = 78; }); vf_check(p[i] == 78, "apply visits every element");
}
VF_ENTRY(chk_make) {
  size_t n = vf_size("n"), i = vf_size("i"); uint32_t *p = (uint32_t *)vf_buffer(4 * n); vf_assume(i < n); vf_witness_cell(p + i, 4);
  MemSpan<uint32_t> s{p, n}; s.make(79u); vf_check(p[i] == 79, "make constructs every element");
}
struct Gone { uint32_t v; ~Gone() { v = 80; } };
VF_ENTRY(chk_destroy) {
  size_t n = vf_size("n"), i = vf_size("i"); uint32_t *p = (uint32_t *)vf_buffer(4 * n); vf_assume(i < n); vf_witness_cell(p + i, 4);
  MemSpan<Gone> s{(Gone *)p, n}; s.destroy(); vf_check(p[i] == 80, "destroy ends every element");
}
// comparison: equal-extent spans compare all bytes, shorter span orders by size when the common part is equal
extern "C" int vf_memcmp_extent(); // extent in bytes of the last memcmp, -1 if none happened
extern "C" int vf_memcmp_result();
template <typename T> static void cmp() {
  size_t n = vf_size("n"), m = vf_size("m"); T *p = (T *)vf_buffer(sizeof(T) * n), *q = (T *)vf_buffer(sizeof(T) * m);
  MemSpan<T> a(p, n), b(q, m);
  int r = swoc::memcmp(a, b);
  size_t k = n < m ? n : m;
  int c = ::memcmp(p, q, k * sizeof(T));
  vf_check(c == 0 || r == c, "memcmp orders by the first difference in the common part");
  vf_check(c != 0 || (r == 0) == (n == m), "memcmp of spans with equal common part is zero exactly for equal sizes");
  bool e = a == b; bool ne = a != b;
  vf_check(e == !ne, "!= negates ==");
  if (n != m) vf_check(!e, "spans of different size are unequal");
  else vf_check(e == (c == 0), "== compares the whole extent of both spans");
}
VF_ENTRY(chk_cmp_c) { cmp<char>(); }
VF_ENTRY(chk_cmp_i) { cmp<uint32_t>(); }
VF_ENTRY(chk_cmp_d) { cmp<uint64_t>(); }
VF_ENTRY(chk_cmp_void) {
  size_t n = vf_size("n"), m = vf_size("m"); char *p = vf_buffer(n), *q = vf_buffer(m);
  MemSpan<void const> a(p, n), b(q, m);
  bool e = a == b; bool ne = a != b;
  vf_check(e == !ne, "!= negates ==");
  if (n != m) vf_check(!e, "spans of different size are unequal");
  else vf_check(e == (::memcmp(p, q, n) == 0), "== compares the whole extent of both spans");
}
// spans over one buffer: two spans at the same place are equal exactly if they have the same length; is_same is identity
template <typename T, typename S> static void same() {
  size_t n = vf_size("n"), m = vf_size("m"), d = vf_size("d"), z = vf_size("z"); vf_assume(z < (size_t(1) << 36) && d <= z && n <= z && m <= z - d); T *p = (T *)vf_buffer(sizeof(T) * z); bool at = vf_bool("at"); vf_split(at); if (at) vf_assume(d == 0);
  S a(p, n), b(p + d, m); bool one = d == 0 && n == m;
  if (n != m) vf_check(!(a == b) && a != b, "spans of different size are unequal");
  if (one) vf_check(a == b && !(a != b), "a span is equal to itself");
  vf_check(a.is_same(b) == one, "is_same: the same memory and the same length"); if (n == m && d != 0) vf_check((a == b) == (::memcmp(p, p + d, n * sizeof(T)) == 0), "== compares the bytes"); }
VF_ENTRY(chk_same_c) { same<char, MemSpan<char>>(); } VF_ENTRY(chk_same_i) { same<uint32_t, MemSpan<uint32_t>>(); } VF_ENTRY(chk_same_void) { same<char, MemSpan<void const>>(); } VF_ENTRY(chk_same_mvoid) { same<char, MemSpan<void>>(); }
VF_ENTRY(chk_same_cmp) { size_t n = vf_size("n"), m = vf_size("m"), z = vf_size("z"); vf_assume(n <= z && m <= z); char *p = vf_buffer(z); int r = swoc::memcmp(MemSpan<char>(p, n), MemSpan<char>(p, m)); vf_check((r == 0) == (n == m), "memcmp of spans with equal common part is zero exactly for equal sizes"); }
