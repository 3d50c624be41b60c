// An arbitrary arena: K active and F frozen blocks of arbitrary size and fill.
#pragma once
#include "vf.h"
#include "swoc/MemArena.h"
#include <cstdlib>
using namespace swoc;
using B = MemArena::Block;
static B *mkblk() { size_t s = vf_range("block size", 16, 1ul << 36); B *b = new (malloc(sizeof(B) + s)) B(s); vf_havoc(b->data(), s); b->allocated = vf_range("allocated", 0, 1ul << 36); vf_assume(b->allocated <= s); return b; }
static size_t pow2(size_t a) { return a; }
template <size_t K, size_t F> struct Fix { // an arbitrary arena with K active and F frozen blocks
  MemArena a; B *b[4]; B *f[4]; size_t sz[4], al[4], aa, ar, fa, fr;
  Fix() { vf_opt("unroll", 6);
    for (size_t i = 0; i < K; ++i) { b[i] = mkblk(); sz[i] = b[i]->size; al[i] = b[i]->allocated; b[i]->_link._next = nullptr; b[i]->_link._prev = i ? b[i - 1] : nullptr; if (i) b[i - 1]->_link._next = b[i]; }
    for (size_t i = 0; i < F; ++i) { f[i] = mkblk(); f[i]->_link._next = nullptr; f[i]->_link._prev = i ? f[i - 1] : nullptr; if (i) f[i - 1]->_link._next = f[i]; }
    a._active._head = K ? b[0] : nullptr; a._active._tail = K ? b[K - 1] : nullptr; a._active._count = K; a._frozen._head = F ? f[0] : nullptr; a._frozen._tail = F ? f[F - 1] : nullptr; a._frozen._count = F;
    aa = a._active_allocated = vf_size("active allocated"); ar = a._active_reserved = vf_size("active reserved"); fa = a._frozen_allocated = vf_size("frozen allocated"); fr = a._frozen_reserved = vf_size("frozen reserved"); a._reserve_hint = vf_size("hint");
  }
  ~Fix() {}
};
template <typename X> static size_t walk(IntrusiveDList<X> const &l) { size_t n = 0; B const *p = nullptr; for (auto s = l._head; s; s = s->_link._next) { vf_check(s->_link._prev == p, "block list is linked both ways"); p = s; ++n; vf_check(n <= 8, "block list is finite"); if (n > 8) return n; } vf_check(l._tail == p && l._count == n, "block list ends and counts its blocks"); return n; }
#define FIX(K, F) union U { Fix<K, F> x; U() { new (&x) Fix<K, F>; } ~U() {} } u; auto &x = u.x; MemArena &a = x.a; (void)a
#define KEPT(K) for (size_t i = 0; i < K; ++i) vf_check(a._active.contains(x.b[i]), "every block stays in the active list");
