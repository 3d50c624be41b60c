// Contracts of Lexicon: definitions are found by value and by name without case; defaults for the rest; its own copy of the names.
#include "vf.h"
#include "swoc/Lexicon.h"
#include "swoc/bwf_ex.h"
using namespace swoc;
// the C library's comparison without case, byte by byte
extern "C" int strncasecmp(char const *a, char const *b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) { int x = (unsigned char)a[i], y = (unsigned char)b[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return x - y; if (x == 0) return 0; } return 0; }
// the text of an exception is not looked at
namespace swoc { inline namespace SWOC_VERSION_NS { namespace detail { template <> std::string what(std::string_view const &, TextView const &) { return {}; } template <> std::string what(std::string_view const &, std::string_view const &) { return {}; } } } }
extern "C" void vf_init_bw_format(); extern "C" void vf_init_inline();
#define GO vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 3000000); vf_opt("memcmp_split", 16); vf_opt("init_globals", 1); vf_init_bw_format(); vf_init_inline(); vf_nothrow();
enum class V : unsigned {};
// any function is a valid hash: all values collide
namespace swoc { inline namespace SWOC_VERSION_NS { template <> size_t Lexicon_Hash<V>(V) { return 1; } } }
using L = Lexicon<V>;
template <> uint32_t L::Item::NameLinkage::hash_of(std::string_view) { return 1; }
static V val(char const *n) { return V(unsigned(vf_range(n, 0, 0xffffffffu))); }
struct Three { V v[3], z; Three() { v[0] = val("v0"); v[1] = val("v1"); v[2] = val("v2"); z = val("z"); bool d = v[0] != v[1] && v[0] != v[2] && v[1] != v[2] && z != v[0] && z != v[1] && z != v[2]; vf_assume(d); } };
static void is(TextView a, char const *s) { size_t n = strlen(s); vf_check(a.size() == n, "the name of the value"); for (size_t i = 0; i < n; ++i) vf_check(a[i] == s[i], "the name of the value"); }
static char const *const NM[] = {"one", "Two", "three"}; static char const *const UP[] = {"ONE", "tWO", "Three"};
static void fill(L &l, Three &t) { for (unsigned i = 0; i < 3; ++i) { char b[8]; size_t n = strlen(NM[i]); for (size_t k = 0; k < n; ++k) b[k] = NM[i][k]; L &r = l.define(t.v[i], TextView{b, n}); vf_check(&r == &l, "returns the lexicon"); for (size_t k = 0; k < 8; ++k) b[k] = '?'; } }
static void all(L &l, Three &t) { for (unsigned i = 0; i < 3; ++i) { is(l[t.v[i]], NM[i]); vf_check(l[TextView{NM[i], strlen(NM[i])}] == t.v[i], "the value of the name"); vf_check(l[TextView{UP[i], strlen(UP[i])}] == t.v[i], "names are found without case"); } vf_check(l.count() == 3, "the number of values"); }
VF_ENTRY(chk_lex_pairs) { GO Three t; L l; fill(l, t); all(l, t); }
VF_ENTRY(chk_lex_move) { GO Three t; L l; fill(l, t); L m{std::move(l)}; all(m, t); }
VF_ENTRY(chk_lex_init) { GO Three t; L l{{{t.v[0], "one"}, {t.v[1], "Two"}, {t.v[2], "three"}}, V(7), "none"}; all(l, t); is(l[t.z], "none"); vf_check(l["four"] == V(7), "the default value"); }
VF_ENTRY(chk_lex_multi) { GO Three t; L l{{{t.v[0], {"one", "uno", "Eins"}}, {t.v[1], {"two"}}}}; vf_check(l.count() == 2, "the number of values"); is(l[t.v[0]], "one"); is(l[t.v[1]], "two"); vf_check(l["one"] == t.v[0] && l["UNO"] == t.v[0] && l["eins"] == t.v[0] && l["two"] == t.v[1], "every name means the value"); unsigned n = 0; for (auto const &p : l.by_names()) { ++n; vf_check(p._value == (p._name == "two" ? t.v[1] : t.v[0]), "each name with its value"); } vf_check(n == 4, "every name once"); }
VF_ENTRY(chk_lex_again) { GO Three t; L l; l.define(t.v[0], "one", "uno").define(t.v[1], "two"); l.define(t.v[0], "ein"); is(l[t.v[0]], "one"); vf_check(l["ein"] == t.v[0] && l["uno"] == t.v[0] && l.count() == 2, "another name for a value"); }
VF_ENTRY(chk_lex_walk) { GO Three t; L l; fill(l, t); unsigned c[3] = {0, 0, 0}, n = 0; for (auto const &p : l) { ++n; for (unsigned i = 0; i < 3; ++i) { bool m = p._value == t.v[i]; vf_split(m); if (m) { ++c[i]; is(p._name, NM[i]); } } } vf_check(n == 3 && c[0] == 1 && c[1] == 1 && c[2] == 1, "every value once, with its primary name"); auto s = l.begin(), u = s; vf_check(s++ == u && s != u && (*s)._value != (*u)._value, "post increment"); auto w = s; vf_check(--s == u, "back to the value before"); ++s; vf_check(s-- == w && s == u, "post decrement"); auto a = l.begin_names(), b = a; vf_check(a++ == b && a != b, "post increment"); auto d = a; vf_check(--a == b, "back to the name before"); ++a; vf_check(a-- == d && a == b, "post decrement"); }
VF_ENTRY(chk_lex_default) { GO Three t; V d = val("d"); L l; fill(l, t); l.set_default(d).set_default("none"); is(l[t.z], "none"); vf_check(l["four"] == d && l["on"] == d && l["ones"] == d && l[""] == d, "the default value"); all(l, t); }
static TextView by_value(V v) { if (unsigned(v) & 1) return "odd"; return "even"; } static V by_name(TextView t) { return V(unsigned(t.size())); }
VF_ENTRY(chk_lex_handler) { GO Three t; L l; fill(l, t); l.set_default(L::UnknownValueHandler{&by_value}).set_default(L::UnknownNameHandler{&by_name}); bool o = unsigned(t.z) & 1; vf_split(o); is(l[t.z], o ? "odd" : "even"); vf_check(l["four"] == V(4), "the handler chooses the value"); all(l, t); l.set_default(V(9)); vf_check(l["four"] == V(9), "the last default counts"); }
VF_ENTRY(chk_lex_none) { GO vf_maythrow(); Three t; L l; fill(l, t); if (vf_bool("name")) l["four"]; else l[t.z]; vf_never("an unknown name or value without default is rejected"); }
VF_ENTRY(chk_lex_dup) { GO vf_maythrow(); Three t; L l; fill(l, t); if (vf_bool("same")) l.define(t.z, "oNE"); else l.define(t.z, "four", "THREE"); vf_never("a name can be defined only once"); }
// the real hash does not depend on the case of letters, so that equal names are found
enum class U : unsigned {}; using LU = Lexicon<U>;
VF_ENTRY(chk_lex_hash) { GO vf_opt("max_states", 100000); char a[2], b[2]; for (unsigned i = 0; i < 2; ++i) { unsigned k = vf_range("letter", 0, 25); bool x = vf_bool("up"), y = vf_bool("up"); vf_split(x); vf_split(y); a[i] = (x ? 'A' : 'a') + k; b[i] = (y ? 'A' : 'a') + k; } vf_check(LU::Item::NameLinkage::hash_of(std::string_view{a, 2}) == LU::Item::NameLinkage::hash_of(std::string_view{b, 2}), "the same hash for the same name"); vf_check(LU::Item::NameLinkage::equal(std::string_view{a, 2}, std::string_view{b, 2}), "the same name"); }
static bool same(std::string_view a, char const *s) { size_t n = strlen(s); if (a.size() != n) return false; for (size_t i = 0; i < n; ++i) if (a[i] != s[i]) return false; return true; }
VF_ENTRY(chk_lex_empty) { GO Three t; L l; vf_check(l.count() == 0 && l.begin() == l.end() && l.begin_names() == l.end_names(), "nothing"); L m{V(3), "x"}; vf_check(m.count() == 0 && m["one"] == V(3), "only defaults"); is(m[t.z], "x"); L o{"y"}; is(o[t.z], "y"); L p{L::UnknownNameHandler{&by_name}}; vf_check(p["seven"] == V(5), "the handler chooses"); }
VF_ENTRY(chk_lex_forms) { GO Three t; L l; L::Pair p{t.v[0], "one"}; vf_check(&l.define(p) == &l, "returns the lexicon"); l.define(t.v[1], {"Two", "zwei"}); std::initializer_list<TextView> n{"three", "drei"}; L::Definition d{t.v[2], n}; l.define(d); all(l, t); vf_check(l["ZWEI"] == t.v[1] && l["DREI"] == t.v[2], "every name means the value"); is(std::get<1>(p), "one"); vf_check(std::get<0>(p) == t.v[0], "the value of the pair"); }
VF_ENTRY(chk_lex_print_names) { GO L l; l.define(V(1), "ab").define(V(2), "c"); char b[32]; FixedBufferWriter w(b, sizeof(b)); bwf::Spec s; s._type = 's'; bwformat(w, s, l); vf_check(same(w.view(), "ab,c") || same(w.view(), "c,ab"), "the names, separated by commas"); }
VF_ENTRY(chk_lex_print_values) { GO L l; l.define(V(1), "ab").define(V(23), "c"); char b[32]; FixedBufferWriter w(b, sizeof(b)); bwf::Spec s; s._type = 'd'; bwformat(w, s, l); vf_check(same(w.view(), "1,23") || same(w.view(), "23,1"), "the values, separated by commas"); }
VF_ENTRY(chk_lex_print_pairs) { GO L l; l.define(V(1), "ab").define(V(23), "c"); char b[32]; FixedBufferWriter w(b, sizeof(b)); bwformat(w, bwf::Spec::DEFAULT, l); vf_check(same(w.view(), "[ab,1],[c,23]") || same(w.view(), "[c,23],[ab,1]"), "the pairs, separated by commas"); }
