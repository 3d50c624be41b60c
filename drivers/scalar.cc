// Scaled integers: lossless conversion, rounding, comparison and arithmetic by value.
#include "vf.h"
#include "swoc/Scalar.h"
using namespace swoc;
struct TagA;
using I = int64_t;
static constexpr I LIM = 1 << 24;
#define CNT(x) I x = vf_srange(#x, -LIM, LIM)
template <intmax_t N, intmax_t S, typename C, typename D, bool NEG> static void rounding() { // Scalar<S,D> to Scalar<N,C>
  using A = Scalar<N, C, TagA>; using B = Scalar<S, D, TagA>; I k = NEG ? vf_srange("k", -(1 << 14), 1 << 14) : vf_srange("k", 0, 1 << 14); B b{D(k)}; I v = k * S;
  A u = round_up(b); vf_check(I(u.count()) * N >= v && (I(u.count()) - 1) * N < v, "round_up is the least unit not below the value");
  A d = round_down(b); vf_check(I(d.count()) * N <= v && (I(d.count()) + 1) * N > v, "round_down is the greatest unit not above the value");
  A e; e = round_up(b); A f; f = round_down(b); vf_check(e.count() == u.count() && f.count() == d.count(), "assignment rounds as construction does");
  A g{C(5)}; g += round_up(b); vf_check(g.count() == C(5 + u.count()), "adding a rounded value"); A h{C(5)}; h += round_down(b); vf_check(h.count() == C(5 + d.count()), "adding a rounded value");
  A i{C(5)}; i -= round_up(b); vf_check(i.count() == C(5 - u.count()), "subtracting a rounded value"); A j{C(5)}; j -= round_down(b); vf_check(j.count() == C(5 - d.count()), "subtracting a rounded value");
}
#define R(NAME, N, S) VF_ENTRY(chk_rnd_##NAME) { vf_nothrow(); rounding<N, S, I, I, true>(); } VF_ENTRY(chk_rndi_##NAME) { vf_nothrow(); rounding<N, S, int, int, true>(); } VF_ENTRY(chk_rndu_##NAME) { vf_nothrow(); rounding<N, S, uint64_t, uint64_t, false>(); }
R(same, 10, 10) R(mult, 100, 10) R(div, 10, 100) R(a, 30, 20) R(b, 20, 30) R(c, 9, 4) R(d, 4, 9) R(e, 8192, 512) R(f, 7, 1) R(g, 1, 7) R(h, 12, 18)
template <intmax_t N, typename C, bool NEG> static void unit() { // unscaled value to Scalar
  using A = Scalar<N, C, TagA>; C v = C(NEG ? vf_srange("v", -LIM, LIM) : vf_srange("v", 0, LIM)); I x = I(v);
  A u = round_up(v); vf_check(I(u.count()) * N >= x && (I(u.count()) - 1) * N < x, "round_up of a value is the least unit not below it");
  A d = round_down(v); vf_check(I(d.count()) * N <= x && (I(d.count()) + 1) * N > x, "round_down of a value is the greatest unit not above it");
  A e; e = round_up(v); A f; f = round_down(v); vf_check(e.count() == u.count() && f.count() == d.count(), "assignment rounds as construction does");
  A e2; e2.assign(round_up(v)); A f2; f2.assign(round_down(v)); vf_check(e2.count() == u.count() && f2.count() == d.count(), "assign rounds as construction does");
  A g{C(5)}; g += round_up(v); vf_check(g.count() == C(5 + u.count()), "adding a rounded value"); A h{C(5)}; h += round_down(v); vf_check(h.count() == C(5 + d.count()), "adding a rounded value");
  A i{C(5)}; i -= round_up(v); vf_check(i.count() == C(5 - u.count()), "subtracting a rounded value"); A j{C(5)}; j -= round_down(v); vf_check(j.count() == C(5 - d.count()), "subtracting a rounded value");
  A k{C(5)}; vf_check((k + round_up(v)).count() == C(5 + u.count()) && (round_up(v) + k).count() == C(5 + u.count()) && (k + round_down(v)).count() == C(5 + d.count()) && (round_down(v) + k).count() == C(5 + d.count()), "sum with a rounded value");
  vf_check((k - round_up(v)).count() == C(5 - u.count()) && (round_up(v) - k).count() == C(u.count() - 5) && (k - round_down(v)).count() == C(5 - d.count()) && (round_down(v) - k).count() == C(d.count() - 5), "difference with a rounded value");
  vf_check(round_up<N>(v) == C(u.count() * N) && round_down<N>(v) == C(d.count() * N), "rounding a value to a multiple");
}
#define U(N) VF_ENTRY(chk_unit_##N) { vf_nothrow(); unit<N, I, true>(); } VF_ENTRY(chk_uniti_##N) { vf_nothrow(); unit<N, int, true>(); } VF_ENTRY(chk_unitu_##N) { vf_nothrow(); unit<N, uint64_t, false>(); }
U(1) U(10) U(1024) U(7)
template <intmax_t N, intmax_t S> static void conv() { // S is a multiple of N: lossless
  using A = Scalar<N, I, TagA>; using B = Scalar<S, I, TagA>; CNT(k); CNT(m); B b{k}; A a{b}; vf_check(a.count() * N == k * S, "conversion preserves the value"); A c{m}; c = b; vf_check(c.count() * N == k * S, "assignment preserves the value"); A d{m}; d.assign(b); vf_check(d.count() * N == k * S, "assign preserves the value");
  A e{m}; e += b; vf_check(e.count() * N == m * N + k * S, "addition is by value"); A f{m}; f -= b; vf_check(f.count() * N == m * N - k * S, "subtraction is by value"); vf_check(b.count() == k, "unchanged");
}
VF_ENTRY(chk_conv_a) { conv<10, 100>(); } VF_ENTRY(chk_conv_b) { conv<1, 7>(); } VF_ENTRY(chk_conv_c) { conv<512, 8192>(); } VF_ENTRY(chk_conv_d) { conv<6, 6>(); }
template <intmax_t N, intmax_t S> static void mixed() {
  using A = Scalar<N, I, TagA>; using B = Scalar<S, I, TagA>; CNT(k); CNT(m); A a{k}; B b{m}; I x = k * N, y = m * S;
  vf_check((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && (a == b) == (x == y), "comparison is by value");
  auto s = a + b; vf_check(s.count() * decltype(s)::SCALE == x + y, "the sum of scales is exact"); auto d = a - b; vf_check(d.count() * decltype(d)::SCALE == x - y, "the difference of scales is exact");
  vf_check(a.count() == k && b.count() == m, "unchanged");
}
VF_ENTRY(chk_mix_a) { mixed<10, 100>(); } VF_ENTRY(chk_mix_b) { mixed<30, 20>(); } VF_ENTRY(chk_mix_c) { mixed<9, 4>(); } VF_ENTRY(chk_mix_d) { mixed<512, 8192>(); } VF_ENTRY(chk_mix_e) { mixed<7, 7>(); }
VF_ENTRY(chk_basic) {
  using A = Scalar<10, I, TagA>; CNT(k); CNT(m); A a{k}, z; vf_check(a.count() == k && a.value() == k * 10 && I(a) == k * 10 && z.count() == 0 && A::scale() == 10, "count and value");
  A b; b.assign(k); vf_check(b.count() == k, "assign sets the count"); A c{a}; A d; d = a; vf_check(c.count() == k && d.count() == k, "copy");
  A e{k}; vf_check(&++e == &e && e.count() == k + 1, "increment"); A f = e++; vf_check(f.count() == k + 1 && e.count() == k + 2, "post increment"); A g = e--; vf_check(g.count() == k + 2 && e.count() == k + 1, "post decrement"); --e; vf_check(e.count() == k, "decrement");
  e.inc(m); vf_check(e.count() == k + m, "inc"); e.dec(m); vf_check(e.count() == k, "dec"); e += A{m}; vf_check(e.count() == k + m, "+="); e -= A{m}; vf_check(e.count() == k, "-="); e *= I(3); vf_check(e.count() == k * 3, "*="); e /= I(3); vf_check(e.count() == k, "/=");
  vf_check((a + A{m}).count() == k + m && (a - A{m}).count() == k - m && a(m).count() == m && a.plus(m).count() == k + m && a.minus(m).count() == k - m, "sum and difference");
  vf_check((a * I(7)).count() == k * 7 && (I(7) * a).count() == k * 7 && (a / 2).count() == k / 2, "scaling");
}
VF_ENTRY(chk_basic_int) { using A = Scalar<10, int, TagA>; int k = int(vf_srange("k", -100000, 100000)); A a{k}; vf_check((a * 7).count() == k * 7 && (7 * a).count() == k * 7 && a.value() == k * 10, "scaling of an int count"); Scalar<10> g{k}; vf_check((g * 3).count() == 3 * k && (3 * g).count() == 3 * k, "generic"); }
VF_ENTRY(chk_wrap) { using A = Scalar<10, I, TagA>; CNT(k); CNT(m); A a{k}; A b{m}; auto u = round_up(b); vf_check((a + u).count() == k + m && (u + a).count() == k + m && (a - u).count() == k - m && (u - a).count() == m - k, "wrapped scalars of the same scale");
  auto d = round_down(b); vf_check((a + d).count() == k + m && (d + a).count() == k + m && (a - d).count() == k - m && (d - a).count() == m - k, "wrapped scalars of the same scale"); A x; x.assign(u); A y; y.assign(d); vf_check(x.count() == m && y.count() == m, "assign"); }
VF_ENTRY(chk_ratio) { using A = Scalar<30, I, TagA>; using B = Scalar<20, I, TagA>; CNT(k); I m = vf_srange("m", 1, 8); if (m == 1) vf_check(A{k} / B{1} == (k * 30) / 20 , "quotient of values"); }
