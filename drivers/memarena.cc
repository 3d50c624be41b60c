// Contracts of MemArena. The arena has K active blocks of arbitrary size and fill (K = 0..3), all block sizes, fills and request sizes symbolic.
#include "arena.h"
template <size_t K, int FITS> static void alloc(size_t align) { // FITS: whether some block surely has room (-1: any, with every way of sizing a new block)
  FIX(K, 1); size_t n = vf_range("n", 0, 1ul << 38); if (FITS >= 0) { a._reserve_hint = 1; bool fits = false; for (size_t i = 0; i < K; ++i) fits |= x.al[i] + n + align <= x.sz[i]; vf_assume(fits == bool(FITS)); } size_t live = vf_heap_live();
  size_t w = K ? vf_range("w", 0, 1ul << 36) : 0; if (K) { vf_assume(w < x.al[K - 1]); vf_witness_cell(x.b[K - 1]->data() + w, 1); } char was = K ? x.b[K - 1]->data()[w] : 0;
  MemSpan<void> r = a.alloc(n, align); char *p = static_cast<char *>(r._ptr);
  vf_check(r._size == n, "alloc returns exactly the size requested"); vf_check((reinterpret_cast<uintptr_t>(p) & (align - 1)) == 0, "the allocation is aligned as requested"); vf_check(vf_within(p, n, p), "the allocation lies in owned memory");
  bool found = false;
  for (size_t i = 0; i < K; ++i) { B *b = x.b[i]; vf_check(b->size == x.sz[i], "block sizes do not change");
    if (p >= reinterpret_cast<char *>(b) && p <= b->data() + x.sz[i] && !found && b->allocated != x.al[i]) { found = true; vf_check(p >= b->data() + x.al[i] && p - (b->data() + x.al[i]) < ptrdiff_t(align), "the allocation follows the previous ones with minimal padding"); vf_check(p + n == b->data() + b->allocated && b->allocated <= b->size, "the block accounts for the allocation"); }
    else vf_check(b->allocated == x.al[i], "other blocks are not changed"); }
  size_t c = walk(a._active); KEPT(K) vf_check(walk(a._frozen) == 1 && a._frozen._head == x.f[0], "frozen blocks are not touched");
  if (c == K + 1) { vf_check(vf_heap_live() == live + 1, "one block was added"); } else { vf_check(c == K && vf_heap_live() == live, "no block was added or lost"); }
  vf_check(a._active_allocated == x.aa + n && a.size() == x.aa + n && a.allocated_size() == x.aa + n + x.fa, "the allocated size grows by the request"); if (c == K) vf_check(a.reserved_size() == x.ar + x.fr, "no memory was reserved"); else vf_check(a.reserved_size() >= x.ar + x.fr + n, "reserved size grows by the new block");
  if (n > 0 && c == K) vf_check(found, "the allocation is in a block of the arena"); if (n > 0) vf_check(a.contains(p), "the arena contains its allocations");
  if (K) vf_check(x.b[K - 1]->data()[w] == was, "memory allocated before is not written");
}
#define AL(K, A) VF_ENTRY(chk_alloc_##K##_##A) { vf_nothrow(); alloc<K, 0>(A); } VF_ENTRY(chk_alloc_fits_##K##_##A) { vf_nothrow(); alloc<K, 1>(A); }
#define ALS(A) VF_ENTRY(chk_alloc_0_##A) { vf_nothrow(); alloc<0, -1>(A); } AL(1, A) AL(2, A)
ALS(1) AL(3, 1) ALS(8) ALS(16) AL(3, 16) ALS(64)
#ifdef THOROUGH
AL(3, 8) AL(3, 64)
#endif
template <size_t K> static void require(size_t align) {
  FIX(K, 1); if (K) a._reserve_hint = 1; size_t n = vf_range("n", 0, 1ul << 38); vf_check(&a.require(n, align) == &a, "returns the arena"); vf_check(a.remnant()._size >= n && a.remaining() >= n, "require guarantees the remnant"); B *h = a._active._head; vf_check(a.remnant()._ptr == h->data() + h->allocated && a.remnant()._size == h->size - h->allocated, "the remnant is the free part of the head block");
  for (size_t i = 0; i < K; ++i) vf_check(x.b[i]->allocated == x.al[i], "require allocates nothing"); vf_check(a.size() == x.aa, "require allocates nothing"); walk(a._active); KEPT(K)
  size_t c = a._active.count(); void *q = a.remnant(n, align)._ptr; MemSpan<void> s = a.remnant(n, align); vf_check(s._size == n && (uintptr_t(s._ptr) & (align - 1)) == 0 && s._ptr == q, "the sized remnant has exactly the requested size and alignment"); MemSpan<void> r = a.alloc(n, align); vf_check(r._ptr == s._ptr && r._size == n, "a following allocation uses the remnant"); vf_check(a._active.count() == c, "without another block");
}
VF_ENTRY(chk_require_0) { vf_nothrow(); require<0>(1); } VF_ENTRY(chk_require_1) { vf_nothrow(); require<1>(1); } VF_ENTRY(chk_require_2) { vf_nothrow(); require<2>(1); } VF_ENTRY(chk_require_1_16) { vf_nothrow(); require<1>(16); } VF_ENTRY(chk_require_1_64) { vf_nothrow(); require<1>(64); }
struct T24 { uint64_t v[3]; };
VF_ENTRY(chk_typed) { vf_nothrow(); FIX(1, 0); size_t n = vf_range("n", 0, 1ul << 32); auto s = a.remnant_span<T24>(n); vf_check(s._count == n && (uintptr_t(s._ptr) & 7) == 0, "remnant_span has exactly the requested count and alignment"); auto r = a.alloc_span<T24>(n); vf_check(r._count == n && r._ptr == s._ptr && vf_within(r._ptr, n * 24, r._ptr), "alloc_span has exactly the requested count, in the same bytes"); }
VF_ENTRY(chk_typed_void) { vf_nothrow(); FIX(1, 0); size_t n = vf_range("n", 0, 1ul << 32); auto s = a.remnant_span<void>(n); vf_check(s._size == n, "remnant_span has exactly the requested size"); }
struct alignas(32) T32 { uint64_t v[4]; int m; T32(int x) : m(x) {} };
VF_ENTRY(chk_make) { vf_nothrow(); FIX(1, 0); T32 *p = a.make<T32>(7); vf_check((uintptr_t(p) & 31) == 0 && p->m == 7 && vf_within(p, sizeof(T32), p) && a.size() == x.aa + sizeof(T32), "make constructs in suitably aligned memory"); }
VF_ENTRY(chk_localize) { vf_nothrow(); FIX(1, 0); size_t n = vf_size("n"), i = vf_size("i"); char *t = vf_buffer(n); vf_assume(i < n); vf_witness(t + i); char c = t[i]; auto r = a.localize(MemSpan<char const>(t, n)); vf_check(r._count == n && r._ptr != t && r._ptr[i] == c, "localize copies the text"); vf_check(vf_within(r._ptr, n, r._ptr), "the copy is in the arena"); }
VF_ENTRY(chk_localize_c) { vf_nothrow(); FIX(1, 0); size_t n = vf_size("n"), i = vf_size("i"); char *t = vf_buffer(n); vf_assume(i < n); vf_witness(t + i); char c = t[i]; auto r = a.localize_c(MemSpan<char const>(t, n)); vf_check(r._count == n, "the terminating nul is not part of the view"); vf_check(r._ptr[n] == 0 && r._ptr[i] == c, "localize_c copies the text and adds a nul"); vf_check(vf_within(r._ptr, n + 1, r._ptr) && a.size() == x.aa + n + 1, "the copy is in the arena"); }
template <size_t K, size_t F> static void freeze() { FIX(K, F); size_t live = vf_heap_live(), h = vf_size("h"); vf_check(&a.freeze(h) == &a, "returns the arena"); for (size_t i = 0; i < F; ++i) vf_check(!vf_alive(x.f[i]), "previously frozen memory is released"); for (size_t i = 0; i < K; ++i) vf_check(vf_alive(x.b[i]) && x.b[i]->allocated == x.al[i], "frozen memory stays valid");
  vf_check(vf_heap_live() == live - F && walk(a._frozen) == K && walk(a._active) == 0, "active blocks become the frozen blocks"); vf_check(a.size() == 0 && a.allocated_size() == x.aa && a.reserved_size() == x.ar && a._reserve_hint == h && a.remaining() == 0, "accounting moves to the frozen generation"); if (K) vf_check(a.contains(x.b[0]->data()), "frozen memory is still contained");
  a.alloc(24); vf_check(a._active._head->size >= (h ? h : x.aa), "the first block after freezing is big enough for what was frozen (or the hint)"); a.thaw(); for (size_t i = 0; i < K; ++i) vf_check(!vf_alive(x.b[i]), "thaw releases frozen memory"); vf_check(walk(a._frozen) == 0 && walk(a._active) == 1 && a.allocated_size() == 24, "thaw leaves the active generation alone"); }
VF_ENTRY(chk_freeze_0_0) { freeze<0, 0>(); } VF_ENTRY(chk_freeze_1_1) { freeze<1, 1>(); } VF_ENTRY(chk_freeze_2_2) { freeze<2, 2>(); } VF_ENTRY(chk_freeze_3_0) { freeze<3, 0>(); } VF_ENTRY(chk_freeze_0_3) { freeze<0, 3>(); }
template <size_t K, size_t F> static void clear() { FIX(K, F); size_t live = vf_heap_live(), h = vf_size("h"); a.clear(h); for (size_t i = 0; i < K; ++i) vf_check(!vf_alive(x.b[i]), "clear releases active memory"); for (size_t i = 0; i < F; ++i) vf_check(!vf_alive(x.f[i]), "clear releases frozen memory"); vf_check(vf_heap_live() == live - K - F && walk(a._active) == 0 && walk(a._frozen) == 0 && a.size() == 0 && a.allocated_size() == 0 && a.reserved_size() == 0, "clear leaves an empty arena"); vf_check(a._reserve_hint == (h ? h : x.aa + x.fa), "the next block is big enough for what was released"); }
VF_ENTRY(chk_clear_0_0) { clear<0, 0>(); } VF_ENTRY(chk_clear_1_2) { clear<1, 2>(); } VF_ENTRY(chk_clear_3_1) { clear<3, 1>(); }
template <size_t K, size_t F> static void dtor() { FIX(K, F); size_t live = vf_heap_live(); a.~MemArena(); for (size_t i = 0; i < K; ++i) vf_check(!vf_alive(x.b[i]), "the destructor releases active memory"); for (size_t i = 0; i < F; ++i) vf_check(!vf_alive(x.f[i]), "the destructor releases frozen memory"); vf_check(vf_heap_live() == live - K - F, "and nothing else"); }
VF_ENTRY(chk_dtor_0_0) { dtor<0, 0>(); } VF_ENTRY(chk_dtor_2_1) { dtor<2, 1>(); } VF_ENTRY(chk_dtor_1_3) { dtor<1, 3>(); }
template <size_t K, size_t F> static void move(bool assign, size_t K2) { FIX(K, F); size_t live = vf_heap_live(); MemArena c;
  if (assign) { if (K2) c.alloc(100); B *old = c._active._head; c = std::move(a); if (old) vf_check(!vf_alive(old), "assignment releases the previous content"); } else { new (&c) MemArena(std::move(a)); }
  vf_check(c._active._head == (K ? x.b[0] : nullptr) && c._frozen._head == (F ? x.f[0] : nullptr) && walk(c._active) == K && walk(c._frozen) == F, "a move takes the blocks"); vf_check(c.size() == x.aa && c.allocated_size() == x.aa + x.fa && c.reserved_size() == x.ar + x.fr, "a move takes the accounting"); vf_check(walk(a._active) == 0 && walk(a._frozen) == 0 && a.size() == 0 && a.allocated_size() == 0 && a.reserved_size() == 0 && a._static_block == nullptr, "the source is left empty"); for (size_t i = 0; i < K; ++i) vf_check(vf_alive(x.b[i]), "memory stays valid"); for (size_t i = 0; i < F; ++i) vf_check(vf_alive(x.f[i]), "memory stays valid"); a.~MemArena(); vf_check(vf_heap_live() == live, "destroying the source releases nothing"); }
VF_ENTRY(chk_move_ctor) { move<2, 1>(false, 0); } VF_ENTRY(chk_move_ctor_0) { move<0, 0>(false, 0); } VF_ENTRY(chk_move_assign) { move<2, 1>(true, 0); } VF_ENTRY(chk_move_assign_0) { move<0, 0>(true, 1); } VF_ENTRY(chk_move_assign_1) { move<1, 2>(true, 1); }
template <size_t K> static void discard() { FIX(K, 1); size_t live = vf_heap_live(), h = vf_size("h"); a.discard(h); for (size_t i = 0; i < K; ++i) vf_check(vf_alive(x.b[i]) && x.b[i]->allocated == 0 && x.b[i]->size == x.sz[i], "discard empties the active blocks"); vf_check(walk(a._active) == K && walk(a._frozen) == 1 && vf_heap_live() == live && a.size() == 0 && a.allocated_size() == x.fa && a.reserved_size() == x.ar + x.fr, "discard keeps the blocks and the frozen generation"); }
VF_ENTRY(chk_discard_0) { discard<0>(); } VF_ENTRY(chk_discard_2) { discard<2>(); } VF_ENTRY(chk_discard_3) { discard<3>(); }
template <size_t K> static void discard_span() { // a span that lies in one of the blocks: released exactly when it is at the end of its block, and the block is reachable by the search
  FIX(K, 0); size_t n = vf_range("n", 1, 1ul << 36), o = vf_range("o", 0, 1ul << 36), i = vf_range("i", 0, K - 1); for (size_t j = 0; j < K; ++j) vf_split(i == j); vf_assume(o + n <= x.al[i]); vf_assume(x.aa >= n); char *p = x.b[i]->data() + o; a.discard(MemSpan<void const>(p, n));
  bool rel = x.b[i]->allocated != x.al[i]; if (rel) { vf_check(o + n == x.al[i] && x.b[i]->allocated == o, "only a span at the end of its block is released, exactly"); vf_check(a.size() == x.aa - n, "accounting"); } else vf_check(a.size() == x.aa, "accounting");
  if (i == 0 && o + n == x.al[i]) vf_check(rel, "the last allocation of the active block is released"); for (size_t j = 0; j < K; ++j) if (j != i) vf_check(x.b[j]->allocated == x.al[j], "other blocks are not changed"); vf_check(walk(a._active) == K, "all blocks are kept"); KEPT(K) vf_check(a.reserved_size() == x.ar + x.fr, "reserved memory is kept"); }
VF_ENTRY(chk_discard_span_1) { discard_span<1>(); } VF_ENTRY(chk_discard_span_2) { discard_span<2>(); } VF_ENTRY(chk_discard_span_3) { discard_span<3>(); }
VF_ENTRY(chk_undo_alloc) { FIX(1, 0); size_t n = vf_range("n", 1, 1ul << 36); B *h = x.b[0]; auto r = a.alloc(n); bool same = a._active.count() == 1; a.discard(MemSpan<void const>(r._ptr, r._size)); vf_check(a.size() == x.aa, "discarding the last allocation undoes it"); if (same) vf_check(h->allocated == x.al[0], "discarding the last allocation undoes it"); walk(a._active); }
VF_ENTRY(chk_discard_foreign) { FIX(2, 1); size_t n = vf_size("n"); char *t = vf_buffer(n); a.discard(MemSpan<void const>(t, n)); vf_check(x.b[0]->allocated == x.al[0] && x.b[1]->allocated == x.al[1] && a.size() == x.aa && walk(a._active) == 2, "a span outside the arena is ignored"); }
VF_ENTRY(chk_contains) { FIX(2, 1); size_t i = vf_range("i", 0, 1ul << 36); vf_assume(i < x.sz[1]); vf_check(a.contains(x.b[1]->data() + i), "memory of an active block is contained"); size_t j = vf_range("j", 0, 1ul << 36); vf_assume(j < x.f[0]->size); vf_check(a.contains(x.f[0]->data() + j), "memory of a frozen block is contained"); char *t = vf_buffer(8); vf_check(!a.contains(t) && !a.contains(nullptr), "other memory is not"); }
VF_ENTRY(chk_alloc_pmr) { vf_nothrow(); FIX(1, 1); std::pmr::memory_resource *mr = &a; vf_check(mr->is_equal(a), "an arena is the same resource as itself"); size_t n = vf_range("n", 1, 1ul << 36); char *p = static_cast<char *>(mr->allocate(n, 16)); vf_check((reinterpret_cast<uintptr_t>(p) & 15) == 0, "the allocation is aligned as requested"); vf_check(vf_within(p, n, p) && a.contains(p), "the allocation lies in owned memory"); vf_check(a._active_allocated == x.aa + n, "the allocated size grows by the request"); size_t live = vf_heap_live(), c = walk(a._active); char k = *p; mr->deallocate(p, n, 16); vf_check(vf_heap_live() == live && walk(a._active) == c && a._active_allocated == x.aa + n && *p == k, "deallocation leaves the arena alone"); }
VF_ENTRY(chk_contains_walk) { vf_nothrow(); FIX(3, 2); size_t n = 0; for (auto const &b : a) { vf_check(n < 3 && &b == x.b[n], "the active blocks in order"); ++n; } vf_check(n == 3, "every active block"); n = 0; for (auto s = a.frozen_begin(); s != a.frozen_end(); ++s) { vf_check(n < 2 && &*s == x.f[n], "the frozen blocks in order"); ++n; } vf_check(n == 2, "every frozen block"); vf_check(a.remaining() == x.sz[0] - x.al[0], "the room in the first block"); auto r = a.remnant(); vf_check(r._size == a.remaining() && r._ptr == x.b[0]->data() + x.al[0], "the room in the first block"); }
// ---- static block
VF_ENTRY(chk_static) { vf_nothrow(); size_t n = vf_range("n", 64, 1ul << 30), k = vf_range("k", 0, 1ul << 31); char *t = (char *)(((uintptr_t)malloc(1ul << 31))); size_t live = vf_heap_live(); MemArena a{MemSpan<void>(t, n)}; B *sb = a._static_block; vf_check((char *)sb == t && sb->size == n - sizeof(B) && sb->allocated == 0 && walk(a._active) == 1 && a.reserved_size() == n - sizeof(B), "the static block is the first block");
  auto r = a.alloc(k); if (k <= n - sizeof(B)) vf_check(r._ptr == sb->data() && vf_heap_live() == live, "the static block is used first"); a.~MemArena(); vf_check(vf_alive(t) && vf_heap_live() == live, "the static block is never released, everything else is"); new (&a) MemArena; }
VF_ENTRY(chk_static_small) { size_t n = vf_range("n", 0, 1ul << 30); char *t = (char *)malloc(1ul << 31); vf_assume(n < sizeof(B) + 16); vf_maythrow(); MemArena a{MemSpan<void>(t, n)}; vf_never("a static block too small for a block is refused"); }
template <int OP> static void statics() { size_t n = vf_range("n", 64, 1ul << 30); char *t = (char *)malloc(1ul << 31); size_t live = vf_heap_live(); union U { MemArena a; U(MemSpan<void> s) : a(s) {} ~U() {} } u{MemSpan<void>(t, n)}; MemArena &a = u.a; B *sb = a._static_block; sb->allocated = vf_range("al", 0, 1ul << 30); vf_assume(sb->allocated <= sb->size); size_t al = sb->allocated; a._active_allocated = al;
  if (OP == 0) { a.thaw(); vf_check(sb->allocated == al && walk(a._active) == 1 && a.reserved_size() == n - sizeof(B), "thaw leaves an active static block alone"); }
  if (OP == 1) { a.freeze(); vf_check(vf_alive(t) && sb->allocated == al, "frozen memory stays valid"); a.thaw(); vf_check(walk(a._active) == 1 && a._active._head == sb && sb->allocated == 0 && walk(a._frozen) == 0, "thaw makes the static block available again"); }
  if (OP == 2) { a.freeze(); a.alloc(100); a.freeze(); vf_check(vf_alive(t), "the static block is not released by freezing"); a.thaw(); vf_check(a._active.contains(sb) && sb->allocated == 0 && walk(a._active) == 1 && walk(a._frozen) == 0 && vf_heap_live() == live, "thaw makes the static block available again"); }
  if (OP == 3) { a.clear(); vf_check(vf_alive(t), "the static block is not released by clear"); a.alloc(8); }
  if (OP == 4) { MemArena c; c.alloc(8); c = std::move(a); vf_check(c._static_block == sb && c._active._head == sb && a._static_block == nullptr && walk(c._active) == 1, "a move takes the static block"); c.alloc(9); }
  if (OP == 5) { MemArena c{std::move(a)}; vf_check(c._static_block == sb && c._active._head == sb && a._static_block == nullptr, "a move takes the static block"); c.alloc(9); }
  if (OP == 6) { MemArena c; a = std::move(c); vf_check(a._static_block == nullptr && walk(a._active) == 0, "assignment drops the static block"); }
  if (OP == 7) { a.alloc(2ul << 30); a.freeze(); a.thaw(); vf_check(walk(a._active) == 1 && vf_heap_live() == live, "thaw releases everything but the static block"); a.thaw(); vf_check(walk(a._active) == 1, "thaw again changes nothing"); }
  a.~MemArena(); vf_check(vf_alive(t) && vf_heap_live() == live, "the static block is never released, everything else is"); }
VF_ENTRY(chk_static_thaw) { statics<0>(); } VF_ENTRY(chk_static_freeze) { statics<1>(); } VF_ENTRY(chk_static_freeze2) { statics<2>(); } VF_ENTRY(chk_static_clear) { statics<3>(); } VF_ENTRY(chk_static_assign) { statics<4>(); } VF_ENTRY(chk_static_move) { statics<5>(); } VF_ENTRY(chk_static_over) { statics<6>(); } VF_ENTRY(chk_static_thaw2) { statics<7>(); }
VF_ENTRY(chk_self_contained) { size_t n = vf_range("n", 0, 1ul << 30), live = vf_heap_live(); MemArena *p = MemArena::construct_self_contained(n); vf_check(vf_heap_live() == live + 1 && p->contains(p) && p->size() >= sizeof(MemArena) && p->remaining() >= n, "a self contained arena lives in its own block with the space requested"); p->alloc(100); p->freeze(); p->alloc(5000); p->~MemArena(); vf_check(vf_heap_live() == live, "destroying a self contained arena releases all of it"); }
VF_ENTRY(chk_oom) { vf_maythrow(); FIX(1, 0); vf_opt("malloc_null", 1); size_t n = vf_range("n", 0, 1ul << 38); auto r = a.alloc(n); vf_check(r._size == n && r._ptr != nullptr, "allocation failure is never returned as memory"); vf_reach("allocation succeeds"); }
