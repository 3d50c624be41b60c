// Contracts of FixedBufferWriter: accounting is exact, stores stay inside the capacity, content is exactly what was sent.
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
using namespace swoc;
static size_t mn(size_t a, size_t b) { return a < b ? a : b; }
// arbitrary reachable state: capacity c of a buffer of B >= c bytes (the rest is held back by restrict), extent e
struct St { char *p; size_t B, c, e; };
#define STATE                                                                                        \
  St s; s.B = vf_size("buffer"); s.p = vf_buffer(s.B); s.c = vf_size("capacity"); vf_assume(s.c <= s.B); \
  s.e = vf_size("extent"); size_t i = vf_size("i"); vf_assume(i < s.B); vf_witness_cell(s.p + i, 1);   \
  char was = s.p[i]; FixedBufferWriter w{s.p, s.B}; w._capacity = s.c; w._attempted = s.e; vf_nothrow();
#define ACCOUNT(E, C)                                                                                 \
  { size_t e_ = (E), c_ = (C);                                                                        \
    vf_check(w.extent() == e_, "extent counts every byte sent");                                      \
    vf_check(w.capacity() == c_, "capacity");                                                         \
    vf_check(w.size() == mn(e_, c_), "size is the smaller of extent and capacity");                   \
    vf_check(w.remaining() == c_ - mn(e_, c_), "remaining is the unwritten part of the capacity");    \
    vf_check(w.error() == (e_ > c_), "error() exactly when output was lost");                         \
    auto v_ = w.view(); vf_check(v_.data() == s.p && v_.size() == mn(e_, c_), "view is the written part"); \
    vf_check(w.data() == s.p, "data is the start of the buffer"); }
#define KEPT vf_check(s.p[i] == was, "bytes outside the written range are unchanged");
VF_ENTRY(chk_write_char) {
  STATE; char ch = char(vf_range("ch", 0, 255));
  w.write(ch);
  ACCOUNT(s.e + 1, s.c);
  if (i == s.e && s.e < s.c) { vf_check(s.p[i] == ch, "the byte sent is stored at the old extent"); } else KEPT;
}
VF_ENTRY(chk_write_span) {
  STATE; size_t n = vf_size("n"); char *d = vf_buffer(n);
  w.write(d, n);
  ACCOUNT(s.e + n, s.c);
  if (i >= s.e && i < s.e + n && i < s.c) { vf_check(s.p[i] == d[i - s.e], "the bytes sent are stored in order"); } else KEPT;
}
VF_ENTRY(chk_write_memspan) {
  STATE; size_t n = vf_size("n"); char *d = vf_buffer(n);
  static_cast<BufferWriter&>(w).write(MemSpan<void const>{d, n});
  ACCOUNT(s.e + n, s.c);
  if (i >= s.e && i < s.e + n && i < s.c) { vf_check(s.p[i] == d[i - s.e], "the bytes sent are stored in order"); } else KEPT;
}
VF_ENTRY(chk_write_view) {
  STATE; size_t n = vf_size("n"); char *d = vf_buffer(n);
  w.write(std::string_view{d, n});
  ACCOUNT(s.e + n, s.c);
  if (i >= s.e && i < s.e + n && i < s.c) { vf_check(s.p[i] == d[i - s.e], "the bytes sent are stored in order"); } else KEPT;
}
VF_ENTRY(chk_write_generic) { // the base class implementation, which stores a byte at a time
  STATE; size_t n = vf_size("n"); char *d = vf_buffer(n);
  if (i >= s.e && i - s.e < n) vf_witness_cell(d + (i - s.e), 1);
  vf_split(i < s.c); w.BufferWriter::write(d, n);
  ACCOUNT(s.e + n, s.c);
  if (i >= s.e && i < s.e + n && i < s.c) { vf_check(s.p[i] == d[i - s.e], "the bytes sent are stored in order"); } else KEPT;
}
VF_ENTRY(chk_write_null) { // no buffer: pure measurement
  FixedBufferWriter w{nullptr}; size_t n = vf_size("n"), m = vf_size("m"); char *d = vf_buffer(n);
  w.write(d, n); w.write('x'); w.commit(m);
  vf_check(w.extent() == n + 1 + m && w.size() == 0 && w.error() && w.capacity() == 0, "a bufferless writer measures the output");
  w.discard(n); vf_check(w.extent() == m + 1, "discard");
}
VF_ENTRY(chk_commit) { STATE; size_t n = vf_size("n"); bool f = w.commit(n); vf_check(f, "commit on a fixed buffer is final"); ACCOUNT(s.e + n, s.c); KEPT; }
VF_ENTRY(chk_discard) { STATE; size_t n = vf_word("n"); w.discard(n); ACCOUNT(s.e - mn(s.e, n), s.c); KEPT; }
VF_ENTRY(chk_clear) { STATE; w.clear(); ACCOUNT(0, s.c); KEPT; }
VF_ENTRY(chk_restrict) { STATE; size_t n = vf_size("n"); vf_assume(n <= s.c); w.restrict(n); ACCOUNT(s.e, s.c - n); KEPT; }
VF_ENTRY(chk_restrict_reject) { STATE; size_t n = vf_word("n"); vf_assume(n > s.c); vf_maythrow(); w.restrict(n); vf_never("restrict beyond the capacity is rejected"); }
VF_ENTRY(chk_restore) { STATE; size_t n = vf_size("n"); vf_assume(n <= s.B - s.c); w.restore(n); ACCOUNT(mn(s.e, s.c), s.c + n); KEPT; }
VF_ENTRY(chk_aux) {
  STATE;
  if (s.e <= s.c) { vf_check(w.aux_data() == s.p + s.e, "aux_data is the first unwritten byte"); } else vf_check(w.aux_data() == nullptr, "aux_data is null in error");
}
VF_ENTRY(chk_copy) {
  STATE; size_t n = vf_size("n"), d = vf_size("dst"), src = vf_size("src");
  size_t L = mn(s.e, s.c);
  char from = 0; bool in = i >= d && i - d < n && i < L && src + (i - d) < L;
  if (in) { vf_witness_cell(s.p + src + (i - d), 1); from = s.p[src + (i - d)]; }
  w.copy(d, src, n);
  ACCOUNT(s.e, s.c);
  if (in) { vf_check(s.p[i] == from, "copy moves the source byte to the destination"); } else KEPT;
}
VF_ENTRY(chk_assign) {
  STATE; size_t m = vf_size("m"); char *q = vf_buffer(m);
  w.assign(MemSpan<char>{q, m}); s.p = q; ACCOUNT(0, m);
}
VF_ENTRY(chk_move) {
  STATE; FixedBufferWriter o{std::move(w)};
  vf_check(w.extent() == 0 && w.capacity() == 0 && w.data() == nullptr, "a moved-from writer is detached");
  vf_check(o.extent() == s.e && o.capacity() == s.c && o.data() == s.p, "move keeps the state");
  FixedBufferWriter q{nullptr}; q = std::move(o);
  vf_check(o.extent() == 0 && o.capacity() == 0 && o.data() == nullptr, "a moved-from writer is detached");
  vf_check(q.extent() == s.e && q.capacity() == s.c && q.data() == s.p, "move keeps the state");
  q.detach(); vf_check(q.extent() == 0 && q.capacity() == 0 && q.data() == nullptr, "detach forgets the buffer");
}
VF_ENTRY(chk_local) {
  LocalBufferWriter<100> w; size_t n = vf_size("n"); char *d = vf_buffer(n);
  vf_check(w.capacity() == 100 && w.extent() == 0 && w.data() == w._arr, "a local writer owns N bytes");
  w.write(d, n); w.write('a');
  vf_check(w.extent() == n + 1 && w.size() == mn(n + 1, 100), "size is the smaller of extent and capacity");
}
VF_ENTRY(chk_span_ctor) {
  size_t n = vf_size("n"); char *p = vf_buffer(n);
  FixedBufferWriter a{MemSpan<char>{p, n}}; vf_check(a.capacity() == n && a.data() == p && a.extent() == 0, "construction from a span");
  FixedBufferWriter b{MemSpan<void>{p, n}}; vf_check(b.capacity() == n && b.data() == p && b.extent() == 0, "construction from an untyped span");
}
VF_ENTRY(chk_null_ctor) { vf_maythrow(); size_t n = vf_size("n"); vf_assume(n > 0); FixedBufferWriter w{static_cast<char*>(nullptr), n}; vf_never("a null buffer with capacity is rejected"); }
