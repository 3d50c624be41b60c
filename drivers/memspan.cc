// Contracts of MemSpan<T>, MemSpan<void>, MemSpan<void const>: every slice is exactly the documented part.
#include "vf.h"
#include "swoc/MemSpan.h"
#include <array>
#include <vector>
using namespace swoc;
static size_t mn(size_t a, size_t b) { return a < b ? a : b; }
#define TYPED(T, TAG)                                                                                                     \
  static MemSpan<T> mk_##TAG(T *&p, size_t &n) {                                                                           \
    n = vf_size("n");                                                                                                      \
    p = reinterpret_cast<T *>(vf_buffer(n * sizeof(T)));                                                                   \
    return {p, n};                                                                                                         \
  }                                                                                                                        \
  VF_ENTRY(chk_prefix_##TAG) {                                                                                             \
    T *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n);                                                             \
    auto r = s.prefix(k); vf_check(r._ptr == p && r._count == mn(k, n), "prefix(k) is the first min(k,size) elements");     \
    r = s.first(k); vf_check(r._ptr == p && r._count == mn(k, n), "first(k) is the first min(k,size) elements");            \
    vf_check(s._ptr == p && s._count == n, "prefix leaves the span unchanged");                                            \
  }                                                                                                                        \
  VF_ENTRY(chk_suffix_##TAG) {                                                                                             \
    T *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n);                                                             \
    auto r = s.suffix(k); vf_check(r._count == mn(k, n) && r._ptr == p + (n - mn(k, n)), "suffix(k) is the last min(k,size) elements"); \
    r = s.last(k); vf_check(r._count == mn(k, n) && r._ptr == p + (n - mn(k, n)), "last(k) is the last min(k,size) elements"); \
    vf_check(s._ptr == p && s._count == n, "suffix leaves the span unchanged");                                            \
  }                                                                                                                        \
  VF_ENTRY(chk_remove_prefix_##TAG) {                                                                                      \
    T *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n);                                                             \
    s.remove_prefix(k); vf_check(s._count == n - mn(k, n) && s._ptr == p + mn(k, n), "remove_prefix(k) drops min(k,size) leading elements"); \
  }                                                                                                                        \
  VF_ENTRY(chk_remove_suffix_##TAG) {                                                                                      \
    T *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n);                                                             \
    s.remove_suffix(k); vf_check(s._count == n - mn(k, n) && s._ptr == p, "remove_suffix(k) drops min(k,size) trailing elements"); \
  }                                                                                                                        \
  VF_ENTRY(chk_clip_prefix_##TAG) {                                                                                        \
    T *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n);                                                             \
    auto r = s.clip_prefix(k); size_t m = mn(k, n);                                                                        \
    vf_check(r._ptr == p && r._count == m, "clip_prefix returns the removed part");                                        \
    vf_check(s._count == n - m && (s._count == 0 || s._ptr == p + m), "clip_prefix keeps exactly the rest");               \
  }                                                                                                                        \
  VF_ENTRY(chk_clip_suffix_##TAG) {                                                                                        \
    T *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n);                                                             \
    auto r = s.clip_suffix(k); size_t m = mn(k, n);                                                                        \
    vf_check(r._count == m && (m == 0 || r._ptr == p + (n - m)), "clip_suffix returns the removed part");                  \
    vf_check(s._count == n - m && s._ptr == p, "clip_suffix keeps exactly the rest");                                      \
  }                                                                                                                        \
  VF_ENTRY(chk_subspan_##TAG) {                                                                                            \
    T *p; size_t n, k = vf_word("k"), o = vf_word("offset"); auto s = mk_##TAG(p, n);                                      \
    auto r = s.subspan(o, k);                                                                                              \
    if (o >= n) vf_check(r._count == 0, "subspan starting past the end is empty");                                         \
    else vf_check(r._ptr == p + o && r._count == mn(k, n - o), "subspan is the intersection of the request with the span"); \
  }                                                                                                                        \
  VF_ENTRY(chk_restrict_##TAG) {                                                                                           \
    T *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n);                                                             \
    s.restrict(k); vf_check(s._ptr == p && s._count == mn(k, n), "restrict(k) keeps the first min(k,size) elements");      \
  }                                                                                                                        \
  VF_ENTRY(chk_access_##TAG) {                                                                                             \
    T *p; size_t n; auto s = mk_##TAG(p, n);                                                                               \
    vf_check(s.begin() == p && s.end() == p + n && s.data() == p && s.data_end() == p + n, "begin/end/data/data_end delimit the span"); \
    vf_check(s.size() == n && s.count() == n && s.length() == n && s.data_size() == n * sizeof(T), "size accessors agree"); \
    vf_check(s.empty() == (n == 0) && bool(s) == (n != 0) && !s == (n == 0), "emptiness accessors agree");                 \
    size_t i = vf_size("i"); vf_assume(i < n);                                                                             \
    vf_check(&s[i] == p + i, "operator[] selects the element");                                                            \
    vf_check(&s.front() == p && &s.back() == p + (n - 1), "front/back select the ends");                                   \
    size_t o = vf_size("o"); vf_assume(o <= 2 * n);                                                                        \
    vf_check(s.contains(p + o) == (o < n), "contains(p) iff p addresses an element");                                      \
  }                                                                                                                        \
  VF_ENTRY(chk_ctor_##TAG) {                                                                                               \
    T *p; size_t n, a = vf_size("a"); auto s = mk_##TAG(p, n); vf_assume(a <= n);                                          \
    MemSpan<T> r{p + a, p + n}; vf_check(r._ptr == p + a && r._count == n - a, "pointer pair construction");               \
    r.assign(p, a); vf_check(r._ptr == p && r._count == a, "assign(ptr,count)");                                           \
    r.assign(p + a, p + n); vf_check(r._ptr == p + a && r._count == n - a, "assign(first,last)");                          \
    r = s; vf_check(r._ptr == p && r._count == n && r.is_same(s) && r == s && !(r != s), "copy denotes the same memory");  \
    MemSpan<void> v{s}; vf_check(v._ptr == p && v._size == n * sizeof(T), "conversion to an untyped span keeps the byte extent"); \
    MemSpan<void const> vc{s}; vf_check(vc._ptr == p && vc._size == n * sizeof(T), "conversion to a const untyped span keeps the byte extent"); \
    MemSpan<void> v2; v2 = s; vf_check(v2._ptr == p && v2._size == n * sizeof(T), "assignment to an untyped span keeps the byte extent"); \
    MemSpan<void const> v3; v3 = s; vf_check(v3._ptr == p && v3._size == n * sizeof(T), "assignment to a const untyped span keeps the byte extent"); \
    MemSpan<T const> c{s}; vf_check(c._ptr == p && c._count == n, "conversion to a const span keeps the elements");        \
    r.clear(); vf_check(r._count == 0 && r._ptr == nullptr, "clear() yields the empty span");                              \
  }                                                                                                                        \
  VF_ENTRY(chk_rebind_##TAG) {                                                                                             \
    T *p; size_t n; auto s = mk_##TAG(p, n);                                                                               \
    auto c = s.template rebind<unsigned char>();                                                                           \
    vf_check((void *)c._ptr == p && c._count == n * sizeof(T), "rebind to bytes covers the same memory");                  \
    auto v = s.rebind(); vf_check(v._ptr == p && v._size == n * sizeof(T), "rebind to void covers the same memory");       \
    auto u = c.template rebind<T>(); vf_check(u._ptr == p && u._count == n, "rebind back covers the same memory");         \
    struct X { T a, b, c; };                                                                                               \
    size_t m = vf_size("m"); vf_assume(m * 3 <= n); auto b = s.prefix(m * 3);                                              \
    auto x = b.template rebind<X>(); vf_check((void *)x._ptr == p && x._count == m, "rebind to a larger type covers the same memory exactly"); \
    auto y = b.rebind().template rebind<X>(); vf_check((void *)y._ptr == p && y._count == m, "rebind of an untyped span covers the same memory exactly"); \
    auto z = MemSpan<void const>(b).template rebind<X const>(); vf_check((void *)z._ptr == p && z._count == m, "rebind of an untyped span covers the same memory exactly"); \
    vf_maythrow(); size_t e = vf_bool("e") ? 1 : 2; vf_assume(m * 3 + e <= n); b = s.prefix(m * 3 + e);                     \
    if (vf_bool("v")) { b.rebind().template rebind<X>(); vf_never("rebind accepts a span that does not divide"); } else { b.template rebind<X>(); vf_never("rebind accepts a span that does not divide"); } \
  }
TYPED(char, c)
TYPED(uint32_t, i)
struct R24 { uint64_t x[3]; };
TYPED(R24, r)

#define VOIDED(V, TAG)                                                                                                     \
  static MemSpan<V> mk_##TAG(char *&p, size_t &n) { n = vf_size("n"); p = vf_buffer(n); return {p, n}; }                   \
  VF_ENTRY(chk_prefix_##TAG) {                                                                                             \
    char *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n);                                                          \
    auto r = s.prefix(k); vf_check(r._ptr == p && r._size == mn(k, n), "prefix(k) is the first min(k,size) bytes");         \
    auto t = s.suffix(k); vf_check(t._size == mn(k, n) && t._ptr == p + (n - mn(k, n)), "suffix(k) is the last min(k,size) bytes"); \
    vf_check(s._ptr == p && s._size == n, "prefix and suffix leave the span unchanged");                                   \
  }                                                                                                                        \
  VF_ENTRY(chk_remove_##TAG) {                                                                                             \
    char *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n); auto t = s;                                              \
    s.remove_prefix(k); vf_check(s._size == n - mn(k, n) && s._ptr == p + mn(k, n), "remove_prefix(k) drops min(k,size) leading bytes"); \
    t.remove_suffix(k); vf_check(t._size == n - mn(k, n) && t._ptr == p, "remove_suffix(k) drops min(k,size) trailing bytes"); \
  }                                                                                                                        \
  VF_ENTRY(chk_clip_##TAG) {                                                                                               \
    char *p; size_t n, k = vf_word("k"); auto s = mk_##TAG(p, n); auto t = s; size_t m = mn(k, n);                         \
    auto r = s.clip_prefix(k);                                                                                             \
    vf_check(r._ptr == p && r._size == m, "clip_prefix returns the removed part");                                         \
    vf_check(s._size == n - m && (s._size == 0 || s._ptr == p + m), "clip_prefix keeps exactly the rest");                 \
    auto q = t.clip_suffix(k);                                                                                             \
    vf_check(q._size == m && (m == 0 || q._ptr == p + (n - m)), "clip_suffix returns the removed part");                   \
    vf_check(t._size == n - m && t._ptr == p, "clip_suffix keeps exactly the rest");                                       \
  }                                                                                                                        \
  VF_ENTRY(chk_subspan_##TAG) {                                                                                            \
    char *p; size_t n, k = vf_word("k"), o = vf_word("offset"); auto s = mk_##TAG(p, n);                                   \
    auto r = s.subspan(o, k);                                                                                              \
    if (o >= n) vf_check(r._size == 0, "subspan starting past the end is empty");                                          \
    else vf_check(r._ptr == p + o && r._size == mn(k, n - o), "subspan is the intersection of the request with the span"); \
  }                                                                                                                        \
  template <size_t A, size_t Z> static void align_##TAG() {                                                               \
    char *p; size_t n; auto s = mk_##TAG(p, n);                                                                            \
    auto r = s.align(A);                                                                                                   \
    vf_check(uintptr_t(r._ptr) % A == 0, "align() yields an aligned address");                                             \
    size_t pad = (char *)r._ptr - p;                                                                                       \
    vf_check(pad < A, "align() removes the minimum amount of space");                                            \
    vf_check(r._size == (n > pad ? n - pad : 0), "align() keeps exactly the rest of the span");                            \
    auto t = s.align(A, Z);                                                                                                \
    vf_check(t._ptr == p + pad, "align(a,size) removes the minimum amount of space");                                      \
    vf_check(t._size % Z == 0 && t._size <= (n > pad ? n - pad : 0) && t._size + Z > (n > pad ? n - pad : 0),              \
             "align(a,size) keeps the largest whole number of objects");                                                   \
  }                                                                                                                        \
  VF_ENTRY(chk_align1_##TAG) { align_##TAG<1, 1>(); }                                                                      \
  VF_ENTRY(chk_align2_##TAG) { align_##TAG<2, 6>(); }                                                                      \
  VF_ENTRY(chk_align4_##TAG) { align_##TAG<4, 4>(); }                                                                      \
  VF_ENTRY(chk_align8_##TAG) { align_##TAG<8, 24>(); }                                                                     \
  VF_ENTRY(chk_align16_##TAG) { align_##TAG<16, 16>(); }                                                                   \
  VF_ENTRY(chk_align4096_##TAG) { align_##TAG<4096, 4096>(); }                                                             \
  VF_ENTRY(chk_aligntype_##TAG) {                                                                                          \
    char *p; size_t n; auto s = mk_##TAG(p, n); auto r = s.template align<uint64_t>(); auto t = s.align(8, 8);             \
    vf_check(r._ptr == t._ptr && r._size == t._size, "align<T>() is align(alignof T, sizeof T)");                          \
  }                                                                                                                        \
  VF_ENTRY(chk_access_##TAG) {                                                                                             \
    char *p; size_t n, o = vf_size("o"); auto s = mk_##TAG(p, n); vf_assume(o <= 2 * n);                                   \
    vf_check(s.data() == p && s.data_end() == p + n && s.size() == n && s.count() == n && s.length() == n && s.data_size() == n, "accessors agree"); \
    vf_check(s.empty() == (n == 0) && bool(s) == (n != 0) && !s == (n == 0), "emptiness accessors agree");                 \
    vf_check(s.contains(p + o) == (o < n), "contains(p) iff p addresses a byte of the span");                              \
    size_t a = vf_size("a"); vf_assume(a <= n);                                                                            \
    MemSpan<V> r{static_cast<V *>(p + a), static_cast<V *>(p + n)}; vf_check(r._ptr == p + a && r._size == n - a, "pointer pair construction"); \
    r.assign(p, a); vf_check(r._ptr == p && r._size == a, "assign(ptr,n)");                                                \
    r.assign(p + a, p + n); vf_check(r._ptr == p + a && r._size == n - a, "assign(first,last)");                           \
    r = s; vf_check(r._ptr == p && r._size == n && r.is_same(s), "copy denotes the same memory");                          \
    r.clear(); vf_check(r._size == 0, "clear() yields the empty span");                                                    \
    if (n == 24) vf_check(s.template as_ptr<R24>() == (void*)p, "as_ptr views the span as one object");                    \
    else { vf_maythrow(); s.template as_ptr<R24>(); vf_never("as_ptr accepts a span of the wrong size"); }                                \
  }
VOIDED(void, v)
VOIDED(void const, vc)
VF_ENTRY(chk_containers) {
  static int a[7]; MemSpan<int> s{a}; vf_check(s._ptr == a && s._count == 7, "array construction covers the array");
  static std::array<int, 5> b; MemSpan<int> t{b}; vf_check(t._ptr == b.data() && t._count == 5, "std::array construction covers the array");
  MemSpan<int const> tc{const_cast<std::array<int,5> const&>(b)}; vf_check(tc._ptr == b.data() && tc._count == 5, "const std::array construction covers the array");
  MemSpan<char const> l{"abc"}; vf_check(l._count == 3, "literal construction drops the terminator");
  MemSpan<void const> lv{"abc"}; vf_check(lv._size == 3, "untyped literal construction drops the terminator");
  MemSpan<void> av{a}; vf_check(av._ptr == a && av._size == 28, "untyped array construction covers the bytes");
  size_t n = vf_size("n"); char *p = vf_buffer(n); std::string_view sv{p, n};
  MemSpan<char const> x{sv}; vf_check(x._ptr == p && x._count == n, "string_view construction covers the view");
  MemSpan<void const> y{sv}; vf_check(y._ptr == p && y._size == n, "untyped string_view construction covers the view");
  struct C { uint32_t *p; size_t n; uint32_t *data() const { return p; } size_t size() const { return n; } };
  C c{reinterpret_cast<uint32_t*>(vf_buffer(4 * n)), n};
  MemSpan<uint32_t> z{c}; vf_check(z._ptr == c.p && z._count == n, "container construction covers the elements");
  MemSpan<void> zv{c}; vf_check(zv._ptr == c.p && zv._size == 4 * n, "untyped container construction covers the bytes");
  MemSpan<void const> zc{c}; vf_check(zc._ptr == c.p && zc._size == 4 * n, "const untyped container construction covers the bytes");
}
