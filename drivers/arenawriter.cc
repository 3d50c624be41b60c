// Contracts of ArenaWriter and FixedArena.
#include "arena.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/ArenaWriter.h"
// an arbitrary writer over an arbitrary arena: e bytes already written in the remnant of the head block
#define WR(K) FIX(K, 1); a._reserve_hint = 1; ArenaWriter w(a); vf_check(w.extent() == 0 && w.capacity() == (K ? x.sz[0] - x.al[0] : 0) && (K == 0 || w.data() == x.b[0]->data() + x.al[0]), "a new writer uses the remnant of the arena"); \
  size_t e = vf_range("e", 0, 1ul << 36); vf_assume(e <= w._capacity); w._attempted = e; size_t i = vf_range("i", 0, 1ul << 36); if (e) { vf_assume(i < e); vf_witness_cell(w._buffer + i, 1); } char was = e ? w._buffer[i] : 0; \
  size_t g = K ? vf_range("g", 0, 1ul << 36) : 0; if (K) { vf_assume(g < x.al[0]); vf_witness_cell(x.b[0]->data() + g, 1); } char gw = K ? x.b[0]->data()[g] : 0;
#define DONE(K, E) { size_t E_ = (E); vf_check(w.extent() == E_ && w.size() == E_ && w.capacity() >= E_ && !w.error(), "nothing written is lost"); vf_check(w.view().size() == E_ && w.view().data() == w._buffer && w.remaining() == w._capacity - E_, "the view is everything written"); \
  if (e) vf_check(w._buffer[i] == was, "text written before is kept"); if (K) vf_check(x.b[0]->data()[g] == gw && x.b[0]->allocated == x.al[0], "arena allocations are not touched"); walk(a._active); \
  vf_check(E_ == 0 || (a._active._head->data() + a._active._head->allocated == w._buffer && w._capacity <= a._active._head->remaining()), "the text is at the remnant of the arena"); vf_check(a._active_allocated == x.aa, "nothing is allocated"); \
  if (E_) { MemSpan<void> r = a.alloc(E_); vf_check(r._ptr == w._buffer && r._size == E_, "allocating the extent finalizes the text"); } }
template <size_t K> static void wchar() { WR(K) char ch = char(vf_range("ch", 0, 255)); vf_check(&w.write(ch) == &w, "returns the writer"); vf_check(w._buffer[e] == ch, "the byte sent follows the text"); DONE(K, e + 1) }
template <size_t K> static void wspan() { WR(K) size_t n = vf_range("n", 0, 1ul << 36); char *d = vf_buffer(n); size_t j = vf_range("j", 0, 1ul << 36); vf_assume(n == 0 || j < n); vf_check(&w.write(d, n) == &w, "returns the writer"); if (n) vf_check(w._buffer[e + j] == d[j], "the bytes sent follow the text in order"); DONE(K, e + n) }
template <size_t K> static void commit() { WR(K) size_t n = vf_range("n", 0, 1ul << 36); bool r = w.commit(n); vf_check(r == (e + n <= w._capacity && w._attempted == e + n), "commit succeeds or is to be retried"); if (r) { DONE(K, e + n) } else { vf_check(w._capacity >= e + n, "a retry has room"); DONE(K, e) } }
template <size_t K> static void discard() { WR(K) size_t n = vf_range("n", 0, 1ul << 36); vf_assume(n <= e); w.discard(n); i = 0; e = 0; DONE(K, w.extent()) }
#define W(K) VF_ENTRY(chk_aw_char_##K) { wchar<K>(); } VF_ENTRY(chk_aw_span_##K) { wspan<K>(); } VF_ENTRY(chk_aw_commit_##K) { commit<K>(); } VF_ENTRY(chk_aw_discard_##K) { discard<K>(); }
W(0) W(1) W(2)
// FixedArena: an arbitrary free list of cells
struct Cell { uint64_t v; Cell *me; uint32_t w; Cell(uint64_t x) : v(x), me(this) {} ~Cell() { vf_check(me == this, "only live objects are destroyed"); me = nullptr; } };
using FA = FixedArena<Cell>;
template <size_t N> struct Fa { MemArena a; FA fa{a}; Cell *c[N + 1]; Cell *o; };
#define FAF(N) vf_opt("unroll", 8); MemArena a; FA fa{a}; Cell *c[N + 1]; for (size_t i = 0; i < N; ++i) { c[i] = static_cast<Cell *>(malloc(sizeof(Cell))); auto p = reinterpret_cast<FA::Item *>(c[i]); p->_next = fa._list._next; fa._list._next = p; } // c[N-1] is first
template <size_t N> static void fmake() { FAF(N) uint64_t v = vf_word("v"); Cell *p = fa.make(v); vf_check(p->v == v && p->me == p, "the object is constructed with the arguments"); vf_check(&fa.arena() == &a, "the arena");
  if (N) { vf_check(p == c[N ? N - 1 : 0], "a destroyed cell is reused"); vf_check(a.size() == 0, "reuse needs no memory"); } else vf_check(a.size() == sizeof(Cell) && a.contains(p) && uintptr_t(p) % alignof(Cell) == 0, "memory comes from the arena");
  Cell *q = fa.make(v + 1); vf_check(q != p && q->me == q && q->v == v + 1 && p->v == v && (q + 1 <= p || p + 1 <= q), "a cell is used for one object at a time"); for (size_t i = 0; i + 2 < N; ++i) vf_check(q != c[i] && p != c[i], "a cell is used for one object at a time");
  fa.destroy(p); vf_check(p->me == nullptr, "destroy runs the destructor"); fa.destroy(nullptr); Cell *r = fa.make(v); vf_check(r == p && q->me == q && q->v == v + 1, "a destroyed cell is reused"); fa.destroy(r); fa.destroy(q); Cell *s = fa.make(v), *t = fa.make(v); vf_check(s != t, "a cell is used for one object at a time"); size_t n = 0; for (auto i = fa._list._next; i; i = i->_next) { vf_check(reinterpret_cast<Cell *>(i) != s && reinterpret_cast<Cell *>(i) != t, "a used cell is not free"); ++n; } vf_check(n == (N > 2 ? N - 2 : 0), "no cell is lost"); }
VF_ENTRY(chk_fa_0) { fmake<0>(); } VF_ENTRY(chk_fa_1) { fmake<1>(); } VF_ENTRY(chk_fa_2) { fmake<2>(); } VF_ENTRY(chk_fa_4) { fmake<4>(); }
VF_ENTRY(chk_fa_clear) { FAF(2) fa.clear(); vf_check(fa._list._next == nullptr, "clear forgets the cells"); Cell *p = fa.make(uint64_t(1)); vf_check(p != c[0] && p != c[1] && a.contains(p), "cleared cells are not reused"); }
