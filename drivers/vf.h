// Contract vocabulary understood by the abstract interpreter (engine/intrin.py).
// Nothing in here is ever executed: drivers are only compiled to LLVM IR and analysed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <utility>
extern "C" {
size_t vf_size(const char *name);                                ///< arbitrary value in [0, 2^40]
uint64_t vf_range(const char *name, uint64_t lo, uint64_t hi);   ///< arbitrary unsigned in [lo,hi]
int64_t vf_srange(const char *name, int64_t lo, int64_t hi);     ///< arbitrary signed in [lo,hi]
bool vf_bool(const char *name);
char *vf_buffer(size_t n);                                       ///< object of n bytes, arbitrary content
char *vf_list(size_t n, size_t nodesize, size_t next, size_t prev); ///< n nodes linked in order; next/prev are the offsets of the links
void vf_assume(bool);
void vf_check(bool, const char *what);                           ///< obligation
void vf_never(const char *what);                                 ///< reaching this is a violation
void vf_reach(const char *what);                                 ///< some path must get here (anti-vacuity)
bool vf_alive(void const *);                                     ///< storage still owned
bool vf_within(void const *p, size_t n, void const *obj);        ///< [p,p+n) lies inside the object containing obj
void vf_witness(void const *);                                   ///< partition loops on passing this address
void vf_witness_cell(void const *, size_t n);                     ///< track the content of this cell exactly (case split on every access)
void vf_nothrow();
void vf_maythrow();
void vf_opt(const char *name, int64_t v);
void vf_havoc(void *p, size_t n);
size_t vf_heap_live();                                           ///< number of live malloc blocks
void vf_split(bool);                                             ///< case split
uint64_t vf_word(const char *name);                              ///< arbitrary 64 bit value
uint64_t vf_bits(const char *name, unsigned n);                   ///< arbitrary n bit value, tracked bit by bit
void vf_keep(void const *);
}
#define VF_ENTRY(n) extern "C" void n()
