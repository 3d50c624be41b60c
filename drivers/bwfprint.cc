// Contracts of printing with a format string.
#include "vf.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
using namespace swoc;
extern "C" void vf_init_bw_format();
#define GO vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 40000000); vf_opt("init_globals", 1); vf_init_bw_format();
using W = uint64_t; using Spec = bwf::Spec;
#define ONE if (!vf_bool("form")) continue;
struct Txt { char b[128]; size_t n = 0; Txt &c(char x) { b[n++] = x; return *this; } Txt &s(char const *t) { while (*t) c(*t++); return *this; } TextView exact() const { char *p = vf_buffer(n); memcpy(p, b, n); return {p, n}; } };
struct Out { char b[128]; FixedBufferWriter w{b, sizeof(b)}; };
static char lit() { char c = vf_range("l", 0, 255); vf_assume(c != '{' && c != '}'); return c; }
// a format of pieces: a literal character, doubled braces, an argument without or with an index
static void piece(Txt &t, Txt &e, unsigned k, char const *a, char const *b, unsigned &arg) {
  auto put = [&](unsigned i) { if (i < 2) { e.c((i ? b : a)[0]).c((i ? b : a)[1]); } else e.s("{BAD_ARG_INDEX:").c('0' + i).s(" of 2}"); };
  switch (k) { case 0: { char c = lit(); t.c(c); e.c(c); break; } case 1: t.s("{{"); e.c('{'); break; case 2: t.s("}}"); e.c('}'); break; case 3: t.s("{}"); put(arg++); break; case 4: t.s("{1}"); put(1); break; case 5: t.s("{0}"); put(0); break; case 6: t.s("{7}"); put(7); break; case 7: t.s("{:>3}"); if (arg < 2) e.c(' '); put(arg++); break; }
}
static void same(FixedBufferWriter const &w, char const *b, Txt const &e) { vf_check(w.extent() == e.n, "exactly the literals and the arguments"); for (size_t i = 0; i < e.n; ++i) vf_check(b[i] == e.b[i], "the literals and the arguments in order"); }
template <unsigned A> static void pr() { GO vf_nothrow(); for (unsigned m = 0; m < 64; ++m) { ONE char *a = vf_buffer(2), *b = vf_buffer(2); Txt t, e; unsigned arg = 0; piece(t, e, A, a, b, arg); piece(t, e, m & 7, a, b, arg); piece(t, e, m >> 3, a, b, arg); Out o; o.w.print(t.exact(), std::string_view{a, 2}, std::string_view{b, 2}); same(o.w, o.b, e); return; } }
VF_ENTRY(chk_print_0) { pr<0>(); } VF_ENTRY(chk_print_1) { pr<1>(); } VF_ENTRY(chk_print_2) { pr<2>(); } VF_ENTRY(chk_print_3) { pr<3>(); } VF_ENTRY(chk_print_4) { pr<4>(); } VF_ENTRY(chk_print_5) { pr<5>(); } VF_ENTRY(chk_print_6) { pr<6>(); } VF_ENTRY(chk_print_7) { pr<7>(); }
// malformed format strings are rejected
VF_ENTRY(chk_print_bad) { GO vf_maythrow(); vf_check(true, "entry"); for (unsigned k = 0; k < 6; ++k) { ONE Txt t; switch (k) { case 0: t.c(lit()).c('{'); break; case 1: t.c(lit()).c('}'); break; case 2: t.c('}').c(lit()); break; case 3: t.s("{0"); break; case 4: { char c = lit(); t.c('{').c(c).c(lit()); break; } case 5: t.s("{{{"); break; } Out o; o.w.print(t.exact(), 1, 2); vf_never("a malformed format string is rejected"); return; } }

// in a writer of any capacity: what fits is written, everything is counted
template <unsigned A> static void small() { GO vf_nothrow(); for (unsigned m = 0; m < 8; ++m) for (unsigned cap = 0; cap <= 7; ++cap) { ONE char *a = vf_buffer(2), *b = vf_buffer(2); Txt t, e; unsigned arg = 0; piece(t, e, A, a, b, arg); piece(t, e, m, a, b, arg); char *o = vf_buffer(cap); FixedBufferWriter w{o, cap}; w.print(t.exact(), std::string_view{a, 2}, std::string_view{b, 2}); vf_check(w.extent() == e.n, "everything is counted"); for (size_t i = 0; i < e.n && i < cap; ++i) vf_check(o[i] == e.b[i], "what fits is written"); return; } }
VF_ENTRY(chk_print_small_0) { small<0>(); } VF_ENTRY(chk_print_small_1) { small<1>(); } VF_ENTRY(chk_print_small_3) { small<3>(); } VF_ENTRY(chk_print_small_4) { small<4>(); } VF_ENTRY(chk_print_small_7) { small<7>(); }
// after other text
VF_ENTRY(chk_print_append) { GO vf_nothrow(); for (unsigned m = 0; m < 8; ++m) { ONE char *a = vf_buffer(2), *b = vf_buffer(2); Txt t, e; unsigned arg = 0; char c = vf_range("pre", 0, 255); e.c(c); piece(t, e, 7, a, b, arg); piece(t, e, m, a, b, arg); Out o; o.w.write(c); o.w.print(t.exact(), std::string_view{a, 2}, std::string_view{b, 2}); same(o.w, o.b, e); return; } }
// a format compiled in advance prints as its text
template <unsigned A> static void pre() { GO vf_nothrow(); for (unsigned m = 0; m < 64; ++m) { ONE char *a = vf_buffer(2), *b = vf_buffer(2); Txt t, e; unsigned arg = 0; piece(t, e, A, a, b, arg); piece(t, e, m & 7, a, b, arg); piece(t, e, m >> 3, a, b, arg); Out o, p; bwf::Format f{t.exact()}; o.w.print(f, std::string_view{a, 2}, std::string_view{b, 2}); same(o.w, o.b, e); p.w.print_v(f, std::make_tuple(std::string_view{a, 2}, std::string_view{b, 2})); same(p.w, p.b, e); return; } }
VF_ENTRY(chk_print_pre_0) { pre<0>(); } VF_ENTRY(chk_print_pre_1) { pre<1>(); } VF_ENTRY(chk_print_pre_3) { pre<3>(); } VF_ENTRY(chk_print_pre_4) { pre<4>(); } VF_ENTRY(chk_print_pre_6) { pre<6>(); }
// named values come from the binding, in the field of the specifier
struct Names : public bwf::NameBinding { char v; Names(char x) : v(x) {} BufferWriter &operator()(BufferWriter &w, Spec const &s) const override { w.write(s._name); return w.write(v); } };
VF_ENTRY(chk_print_name) { GO vf_nothrow(); for (unsigned k = 0; k < 6; ++k) { ONE char *a = vf_buffer(2); Txt t, e; char n = vf_range("n", 'a', 'z'), v = vf_range("v", 0, 255); if (k & 1) { t.s("{}"); e.c(a[0]).c(a[1]); } t.c('{').c(n).c('z'); if (k >= 2) t.s(k >= 4 ? ":x>5" : ":<4"); t.c('}'); if (k >= 4) e.s("xx"); e.c(n).c('z').c(v); if (k == 2 || k == 3) e.c(' '); t.s("{0}"); e.c(a[0]).c(a[1]); Out o; o.w.print_nfv(Names{v}, bwf::Format::bind(t.exact()), bwf::ArgTuple{std::forward_as_tuple(std::string_view{a, 2})}); same(o.w, o.b, e); return; } }
// bound names: own copies of the names, generators with and without context, unknown names, replaced generators
struct Ctx { char c; };
VF_ENTRY(chk_print_names) { GO vf_nothrow(); vf_opt("memcmp_split", 1); for (unsigned k = 0; k < 8; ++k) { ONE char v = vf_range("v", 0, 255), u = vf_range("u", 0, 255); char n1[2] = {'a', 'b'}, n2[1] = {'a'}, n3[2] = {'b', 'a'}; Txt t; char o[64]; FixedBufferWriter w{o, 64}; Ctx c{u};
  auto gv = [v](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write(v); }; auto gc = [](BufferWriter &w, Spec const &s, Ctx &c) -> BufferWriter & { return w.write(s._ext).write(c.c); };
  if (k < 4) { bwf::ExternalNames e; e.assign({n1, 2}, gv); e.assign({n2, 1}, [u](BufferWriter &w, Spec const &s) -> BufferWriter & { return w.write(s._ext).write(u); }); n1[0] = n2[0] = 'z'; vf_check(e.contains("ab") && e.contains("a") && !e.contains("z") && !e.contains("zb") && !e.contains(""), "the names");
    if (k == 0) { w.print_n(e.bind(), "{ab}<{a::x}{a}"); t.c(v).s("<x").c(u).c(u); } if (k == 1) { w.print_n(e.bind(), "{zb}|{b}"); t.s("{~zb~}|{~b~}"); } if (k == 2) { e.assign("a", gv); w.print_n(e.bind(), "{a}{ab}"); t.c(v).c(v); } if (k == 3) { w.print_nfv(e.bind(), bwf::Format::bind("{a}{0}{ab}"), bwf::ArgTuple{std::forward_as_tuple(7)}); t.c(u).c('7').c(v); } }
  else { bwf::ContextNames<Ctx> e; e.assign({n1, 2}, bwf::ContextNames<Ctx>::ExternalGenerator(gv)); e.assign({n3, 2}, bwf::ContextNames<Ctx>::Generator(gc)); n1[0] = n3[0] = 'z'; vf_check(e.contains("ab") && e.contains("ba") && !e.contains("zb"), "the names"); Ctx d{v};
    if (k == 4) { w.print_n(e.bind(c), "{ba::q}{ab}"); t.c('q').c(u).c(v); } if (k == 5) { w.print_n(e.bind(c), "{ba}"); w.print_n(e.bind(d), "{ba}"); c.c = v; w.print_n(e.bind(c), "{ba}"); t.c(u).c(v).c(v); } if (k == 6) { w.print_n(e.bind(c), "{zb}{c}"); t.s("{~zb~}{~c~}"); } if (k == 7) { w.print_n(e.bind(c), "{ba:_>3}|{ab:_<3}"); t.s("__").c(u).c('|').c(v).s("__"); } }
  vf_check(w.extent() == t.n, "what the generator of the name writes"); for (size_t i = 0; i < t.n; ++i) vf_check(o[i] == t.b[i], "what the generator of the name writes"); return; } }
VF_ENTRY(chk_print_names_init) { GO vf_nothrow(); vf_opt("memcmp_split", 1); char v = vf_range("v", 0, 255); bwf::ExternalNames::Generator p{[v](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write(v); }}, q{[](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write('Q'); }}; bwf::ExternalNames e{{"p", p}, {"q", q}}; char o[8]; FixedBufferWriter w{o, 8}; w.print_n(e.bind(), "{q}{p}"); vf_check(w.extent() == 2 && o[0] == 'Q' && o[1] == v, "the names of the list"); }
