// Contracts of IntrusiveHashMap. The map has K elements with arbitrary keys inserted in an arbitrary order in 3 buckets (every reachable arrangement of that size).
#include "vf.h"
#include "swoc/IntrusiveHashMap.h"
using namespace swoc;
struct E { uint64_t key; E *_next = nullptr, *_prev = nullptr; };
struct D; using M = IntrusiveHashMap<D>; static M *g;
struct D { static E *&next_ptr(E *e) { return e->_next; } static E *&prev_ptr(E *e) { return e->_prev; } static uint64_t key_of(E const *e) { return e->key; } static uint64_t hash_of(uint64_t k); // only the hash modulo the table size matters, which is arbitrary
  static bool equal(uint64_t a, uint64_t b) { return a == b; } };
uint64_t D::hash_of(uint64_t k) { size_t n = g->_table.size(), r = k % n; if (n > 3) vf_assume(r < 3); /* buckets are interchangeable */ for (size_t i = 0; i < n; ++i) if (r == i) return i; vf_assume(false); return 0; }
static void valid(M &m, size_t n) { // structural validity of a map of n elements
  vf_check(m._list._count == n && m.count() == n, "the count is the number of elements"); E *e = m._list._head, *p = nullptr; size_t c = 0, act = 0; M::Bucket *pb = nullptr;
  for (M::Bucket *b = m._active_buckets._head; b; pb = b, b = b->_link._next, ++act) { vf_check(b->_link._prev == pb, "active buckets are linked both ways"); vf_check(b->_v == e && e != nullptr, "a bucket starts where the previous one ends"); size_t k = 0, i = b - &m._table[0]; vf_check(i < m._table.size(), "active buckets are in the table"); E *lim = b->_link._next ? b->_link._next->_v : nullptr;
    for (; e != lim && e; p = e, e = e->_next, ++k) { vf_check(e->_prev == p, "elements are linked both ways"); vf_check(e->key % m._table.size() == i, "elements are in the bucket of their key"); if (k && p->key != e->key) for (E *q = b->_v; q != p; q = q->_next) vf_check(q->key != e->key, "equal keys are contiguous"); }
    vf_check(k == b->_count, "the bucket count is its number of elements"); c += k; if (act > 8) break; }
  vf_check(e == nullptr && c == n && m._list._tail == p && m._active_buckets._tail == pb && m._active_buckets._count == act, "active buckets cover every element");
  size_t used = 0; for (auto &b : m._table) { if (b._v) ++used; else vf_check(b._count == 0 && b._link._next == nullptr && b._link._prev == nullptr && b.limit() == nullptr, "an inactive bucket is empty"); } vf_check(used == act, "every used bucket is active"); }
static void same(E *e, size_t n) { for (size_t i = 0; i < n; ++i) if (e[i].key == e[n].key) e[n].key = e[i].key; }
#define MK(K) vf_opt("unroll", 24); vf_opt("max_steps", 60000000); vf_opt("max_states", 100000); vf_opt("peel_all", 1); M m{3}; g = &m; E e[K + 2]; m.set_expansion_policy(M::MANUAL); for (size_t i = 0; i < K; ++i) { e[i].key = vf_word("key"); same(e, i); m.insert(&e[i]); }
template <size_t K> static bool in(M &m, E *x) { for (auto &v : m) if (&v == x) return true; return false; }
template <size_t K> static void ins() { MK(K) valid(m, K); E &x = e[K]; x.key = vf_word("x"); same(e, K); m.insert(&x); valid(m, K + 1); for (size_t i = 0; i <= K; ++i) vf_check(in<K>(m, &e[i]), "the map has every element inserted"); vf_check(m.bucket_count() == 3, "a manual table does not expand"); 
  if (x._next && x._prev && x._next->key == x._prev->key) vf_check(x.key == x._prev->key, "an element goes past its equals"); vf_check(!x._next || x._next->key != x.key, "equal elements are in insertion order"); }
template <size_t K> static void find() { MK(K) uint64_t k = vf_word("k"); size_t c = 0; E *first = nullptr; for (size_t i = 0; i < K; ++i) if (e[i].key == k) { if (!c) first = &e[i]; ++c; } M const &cm = m; auto f = m.find(k); auto g = cm.find(k); vf_check(first ? (f == m.iterator_for(first) && &*g == first) : (f == m.end() && g == cm.end()), "find selects the first element with the key, if any");
  auto r = m.equal_range(k); auto cr = cm.equal_range(k); size_t n = 0; for (auto &v : r) { vf_check(v.key == k, "equal_range has only the key"); ++n; } vf_check(n == c, "equal_range has every element with the key"); vf_check(cr.begin() == r.begin() && cr.end() == r.end(), "constant equal_range"); valid(m, K);
  E y; y.key = k; vf_check(m.find(&y) == m.end() && cm.find(&y) == cm.end() && !m.erase(&y), "an element not in the map is not found"); if (first) vf_check(&*m.find(first) == first, "an element of the map is found"); valid(m, K); }
template <size_t K, size_t I> static void erase1() { MK(K) E *nx = e[I]._next; auto r = m.erase(m.iterator_for(&e[I])); vf_check(nx ? r == m.iterator_for(nx) : r == m.end(), "erase returns the following element"); valid(m, K - 1); for (size_t i = 0; i < K; ++i) vf_check(in<K>(m, &e[i]) == (i != I), "exactly the element is removed"); vf_check(e[I]._next == nullptr && e[I]._prev == nullptr, "a removed element is unlinked"); vf_check(!m.erase(&e[I]), "an element is removed once"); }
template <size_t K, size_t I> static void erasev() { MK(K) vf_check(m.erase(&e[I]), "erase reports the removal"); valid(m, K - 1); for (size_t i = 0; i < K; ++i) vf_check(in<K>(m, &e[i]) == (i != I), "exactly the element is removed"); m.insert(&e[I]); valid(m, K); }
template <size_t K> static void erange() { MK(K) size_t a = vf_range("a", 0, K), b = vf_range("b", 0, K); for (size_t i = 0; i <= K; ++i) if (i == a) { a = i; break; } for (size_t i = 0; i <= K; ++i) if (i == b) { b = i; break; } vf_assume(a <= b); E *o[K + 1]; size_t n = 0; for (auto &v : m) o[n++] = &v; o[K] = nullptr; auto s = m.begin(), t = m.begin(); for (size_t i = 0; i < a; ++i) ++s; for (size_t i = 0; i < b; ++i) ++t;
  auto r = m.erase(s, t); vf_check(o[b] ? r == m.iterator_for(o[b]) : r == m.end(), "erase returns the following element"); valid(m, K - (b - a)); for (size_t i = 0; i < K; ++i) vf_check(in<K>(m, o[i]) == (i < a || i >= b), "exactly the range is removed"); }
template <size_t K> static void ekey() { MK(K) uint64_t k = vf_word("k"); size_t c = 0; for (size_t i = 0; i < K; ++i) c += e[i].key == k; m.erase(m.equal_range(k)); valid(m, K - c); for (size_t i = 0; i < K; ++i) vf_check(in<K>(m, &e[i]) == (e[i].key != k), "exactly the elements with the key are removed"); }
template <size_t K> static void expand() { MK(K) m.expand(); valid(m, K); vf_check(m.bucket_count() == 7, "expansion moves to the next prime"); for (size_t i = 0; i < K; ++i) { vf_check(in<K>(m, &e[i]), "expansion keeps every element"); for (size_t j = 0; j < i; ++j) if (e[i].key == e[j].key) { bool ok = false; for (E *p = e[j]._next; p; p = p->_next) ok |= p == &e[i]; vf_check(ok, "expansion keeps the order of equal elements"); } } vf_check(m.get_expansion_policy() == M::MANUAL, "the policy is kept"); }
template <size_t K> static void clear() { MK(K) vf_check(&m.clear() == &m, "returns the map"); valid(m, 0); vf_check(m.begin() == m.end() && m.bucket_count() == 3, "clear empties the map"); E x; x.key = vf_word("x"); m.insert(&x); valid(m, 1); }
template <size_t K> static void apply() { MK(K) size_t n = 0; m.apply([&](E &v) { ++n; }); vf_check(n == K, "apply sees every element"); n = 0; m.apply([&](E *v) { v->_next = nullptr; v->_prev = nullptr; ++n; }); vf_check(n == K, "apply sees every element even if they are destroyed"); }
template <size_t K> static void move() { MK(K) M t{std::move(m)}; g = &t; valid(t, K); for (size_t i = 0; i < K; ++i) vf_check(in<K>(t, &e[i]), "the elements are moved"); e[K].key = vf_word("x"); same(e, K); t.insert(&e[K]); valid(t, K + 1); }
template <size_t K, size_t l> static void avg() { MK(K) m.set_expansion_policy(M::AVERAGE).set_expansion_limit(l); vf_check(m.get_expansion_limit() == l && m.get_expansion_policy() == M::AVERAGE, "policy access"); e[K].key = vf_word("x"); same(e, K); m.insert(&e[K]); valid(m, K + 1); vf_check(m.bucket_count() == ((K + 1) / 3 > l ? 7 : 3), "the table expands when the average chain exceeds the limit"); vf_check(m.get_expansion_policy() == M::AVERAGE, "the policy is kept"); }
template <size_t K, size_t l> static void maxp() { MK(K) m.set_expansion_policy(M::MAXIMUM).set_expansion_limit(l); e[K].key = vf_word("x"); same(e, K); uint64_t x = e[K].key; size_t c = 1; bool mix = false; for (size_t i = 0; i < K; ++i) if (e[i].key % 3 == x % 3) { ++c; mix |= e[i].key != x; } m.insert(&e[K]); valid(m, K + 1); vf_check(m.bucket_count() == (c > l && mix ? 7 : 3), "the table expands when a chain of different keys exceeds the limit"); }
VF_ENTRY(chk_sizes) { vf_opt("unroll", 40); vf_opt("peel_all", 1); M a{0}; g = &a; vf_check(a.bucket_count() == 1, "there is always a bucket"); E x; x.key = vf_word("x"); vf_check(a.find(x.key) == a.end(), "an empty map has nothing"); a.insert(&x); valid(a, 1); M b; vf_check(b.bucket_count() == 7 && b.get_expansion_policy() == M::AVERAGE && b.get_expansion_limit() == 4, "defaults"); M c{4}; vf_check(c.bucket_count() == 7, "at least the buckets asked for"); M d{14}; vf_check(d.bucket_count() == 31, "at least the buckets asked for"); }
#define OPS(K) VF_ENTRY(chk_insert_##K) { ins<K>(); } VF_ENTRY(chk_find_##K) { find<K>(); } VF_ENTRY(chk_range_##K) { erange<K>(); } VF_ENTRY(chk_key_##K) { ekey<K>(); } VF_ENTRY(chk_expand_##K) { expand<K>(); } VF_ENTRY(chk_clear_##K) { clear<K>(); } VF_ENTRY(chk_apply_##K) { apply<K>(); } VF_ENTRY(chk_move_##K) { move<K>(); }
#define AV(K, L) VF_ENTRY(chk_average_##K##_##L) { avg<K, L>(); }
#define EX(K, L) AV(K, L) MX(K, L)
#define MX(K, L) VF_ENTRY(chk_maximum_##K##_##L) { maxp<K, L>(); }
#define ER(K, I) VF_ENTRY(chk_erase_##K##_##I) { erase1<K, I>(); } VF_ENTRY(chk_erasev_##K##_##I) { erasev<K, I>(); }
EX(0, 0) EX(1, 0) EX(1, 1) EX(2, 0) EX(2, 1) EX(2, 2) AV(3, 1) AV(3, 2) OPS(0) OPS(1) OPS(2) OPS(3) ER(1, 0) ER(2, 0) ER(2, 1) ER(3, 0) ER(3, 1) ER(3, 2)
#ifdef THOROUGH
EX(0, 1) EX(1, 2) MX(3, 1) MX(3, 2) MX(3, 3) OPS(4) ER(4, 0) ER(4, 1) ER(4, 2) ER(4, 3)
#endif
