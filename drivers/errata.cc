// Contracts of Errata: annotations in order with their own copy of the text, severity, code, filter, sinks.
#include "vf.h"
#include "swoc/Errata.h"
#include "swoc/bwf_ex.h"
using namespace swoc;
extern "C" void vf_init_bw_format(); extern "C" void vf_init_Errata(); extern "C" void vf_init_inline();
#define GO vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 40000000); vf_opt("init_globals", 1); vf_init_bw_format(); vf_init_inline(); vf_init_Errata(); vf_nothrow();
using W = uint64_t; using Sev = Errata::Severity;
#define ONE if (!vf_bool("form")) continue;
// an annotation that is expected
struct Want { char t[4]; unsigned n; bool has; unsigned sev; unsigned level; };
struct Model { Want w[8]; unsigned n = 0; bool has = false; unsigned sev = 2; void up(unsigned s) { if (!has || sev < s) { has = true; sev = s; } } };
static char *text(Want &w, unsigned n) { char *p = vf_buffer(n); for (unsigned i = 0; i < n; ++i) w.t[i] = p[i]; w.n = n; w.level = 0; w.has = false; return p; }
static void wipe(char *p, unsigned n) { for (unsigned i = 0; i < n; ++i) p[i] = 0x55; }
static void is(Errata const &e, Model const &m) {
  vf_check(e.length() == m.n && e.empty() == (m.n == 0), "the number of annotations");
  vf_check(e.has_severity() == m.has, "whether there is a severity"); vf_check(unsigned(e.severity()) == (m.has ? m.sev : 2), "the largest severity, or the default");
  unsigned i = 0; for (auto const &a : e) { vf_check(i < m.n, "no other annotations"); Want const &w = m.w[i]; vf_check(a.text().size() == w.n, "the text of the annotation"); for (unsigned k = 0; k < w.n; ++k) vf_check(a.text()[k] == w.t[k], "the text of the annotation"); vf_check(a.level() == w.level && a.has_severity() == w.has && (!w.has || unsigned(a.severity()) == w.sev), "the level and severity of the annotation"); ++i; }
  vf_check(i == m.n, "every annotation, in order");
  if (m.n) vf_check(e.front().text().size() == m.w[0].n && &e.back() == &*(std::prev(e.end())), "front and back");
}
static void ok(Errata const &e, bool any, unsigned sev) { bool good = !any || sev < 2; vf_check(e.is_ok() == good && bool(e) == good && !e == !good, "failure is a severity of at least the failure severity"); }
// add an annotation without (0) or with (1) a severity
static void add(Errata &e, Model &m, unsigned k, unsigned n) { Want &w = m.w[m.n]; char *p = text(w, n); std::string_view v{p, n}; if (k == 0) { e.note(v); ++m.n; } else { unsigned s = vf_range("s", 0, 255); w.has = true; w.sev = s; e.note(Sev(s), v); m.up(s); ++m.n; } wipe(p, n); }
VF_ENTRY(chk_err_default) { GO Errata e; Model m; is(e, m); ok(e, false, 0); vf_check(e.code() == std::error_code{}, "no code"); e.clear(); is(e, m); e.sink(); is(e, m); Errata f{std::move(e)}; is(f, m); e = std::move(f); is(e, m); }
VF_ENTRY(chk_err_note) { GO for (unsigned k = 0; k < 8; ++k) for (unsigned n = 0; n <= 2; ++n) { ONE Errata e; Model m; add(e, m, k & 1, n); is(e, m); ok(e, true, m.sev); add(e, m, k >> 1 & 1, 2 - n); is(e, m); ok(e, true, m.sev); if (n == 1) { add(e, m, k >> 2, 1); is(e, m); ok(e, true, m.sev); } e.clear(); Model z; is(e, z); ok(e, false, 0); return; } }
// one severity does not lower another; assign and update
VF_ENTRY(chk_err_severity) { GO for (unsigned k = 0; k < 6; ++k) { ONE Errata e; Model m; unsigned a = vf_range("a", 0, 255), b = vf_range("b", 0, 255); if (k == 0) { e.assign(Sev(a)); m.has = true; m.sev = a; } if (k == 1) { e.update(Sev(a)); m.up(a); } if (k == 2) { e.assign(Sev(a)); e.update(Sev(b)); m.up(a); m.up(b); } if (k == 3) { e.update(Sev(a)); e.assign(Sev(b)); m.has = true; m.sev = b; } if (k == 4) { e.note(Sev(a), std::string_view{}); e.assign(Sev(b)); m.has = true; m.sev = b; m.n = 1; m.w[0] = {{}, 0, true, a, 0}; } if (k == 5) { e.assign(Sev(b)); add(e, m, 1, 1); m.up(b); } is(e, m); ok(e, true, m.sev); Errata f{std::move(e)}; is(f, m); Model z; is(e, z); ok(e, false, 0); return; } }
// notes below the filter are dropped, but count for the severity
VF_ENTRY(chk_err_filter) { GO for (unsigned k = 0; k < 4; ++k) { ONE unsigned f = vf_range("f", 0, 255), a = vf_range("a", 0, 255); Errata::FILTER_SEVERITY = Sev(f); Errata e; Model m; if (k & 1) add(e, m, 0, 1); char *p = text(m.w[m.n], 1); m.w[m.n].has = true; m.w[m.n].sev = a; if (k & 2) e.note(Sev(a), "{}", std::string_view{p, 1}); else e.note(Sev(a), std::string_view{p, 1}); m.up(a); if (a >= f) ++m.n; vf_split(a >= f); is(e, m); add(e, m, 0, 1); is(e, m); return; } }
// the failure severity can be changed
VF_ENTRY(chk_err_failure) { GO unsigned f = vf_range("f", 0, 255), a = vf_range("a", 0, 255); Errata::FAILURE_SEVERITY = Sev(f); Errata e{Sev(a)}; vf_check(e.is_ok() == (a < f) && bool(e) == (a < f), "failure is a severity of at least the failure severity"); Errata d; d.note("x"); vf_check(d.is_ok() == (2 < f), "the default severity counts if none was given"); Rv<int> r{7, std::move(e)}; vf_check(r.is_ok() == (a < f) && r.result() == 7, "the status of a result"); }
// constructors
VF_ENTRY(chk_err_make) { GO for (unsigned k = 0; k < 7; ++k) { ONE unsigned a = vf_range("s", 0, 255); int c = int(vf_srange("c", INT32_MIN, INT32_MAX)); std::error_code ec{c, std::generic_category()}; Model m; char *p = text(m.w[0], 2); std::string_view v{p, 2}; bool code = false;
  auto go = [&](Errata e) { wipe(p, 2); is(e, m); ok(e, true, m.sev); if (m.n) vf_check(code ? e.code().value() == c && &e.code().category() == &std::generic_category() : e.code() == std::error_code{}, "the code"); };
  m.n = 1; m.has = true; m.sev = 2; switch (k) { case 0: m.sev = a; m.n = 0; go(Errata{Sev(a)}); break; case 1: m.has = false; m.n = 0; code = true; go(Errata{ec}); break; case 2: m.n = 0; m.sev = a; code = true; go(Errata{ec, Sev(a)}); break; case 3: m.sev = a; code = true; go(Errata(ec, Sev(a), v)); break; case 4: m.sev = a; go(Errata(Sev(a), v)); break; case 5: code = true; go(Errata(ec, v)); break; case 6: go(Errata(v)); break; } return; } }
// annotations of another Errata are copied, one level deeper; the source may go
VF_ENTRY(chk_err_merge) { GO for (unsigned k = 0; k < 16; ++k) { ONE Errata e, f; Model m, s; if (k & 1) add(e, m, 1, 1); if (k & 2) add(f, s, 1, 2); if (k & 4) add(f, s, 0, 1); if (k & 8) f.note(Errata{}); for (unsigned i = 0; i < s.n; ++i) { m.w[m.n] = s.w[i]; ++m.w[m.n++].level; } if (s.has) m.up(s.sev);
  if (k & 8) { e.note(f); is(f, s); } else { e.note(std::move(f)); Model z; is(f, z); } f.clear(); is(e, m); if (k & 6) { Errata g; g.note(e); for (unsigned i = 0; i < m.n; ++i) ++m.w[i].level; is(g, m); add(g, m, 0, 1); is(g, m); } return; } }
// move assignment drops the annotations of the target and empties the source
VF_ENTRY(chk_err_move) { GO for (unsigned k = 0; k < 4; ++k) { ONE Errata e, f; Model m, s, z; if (k & 1) add(e, m, 1, 1); if (k & 2) add(f, s, 1, 2); e = std::move(f); is(e, s); is(f, z); add(e, s, 0, 1); is(e, s); return; } }
// formatted annotations, those that do not fit in the current block included
VF_ENTRY(chk_err_format) { GO vf_opt("unroll", 2000); for (unsigned n = 0; n <= 2; ++n) for (unsigned k : {1u, 2u, 60u, 400u, 490u, 512u, 600u}) { ONE Errata e; Model m; if (n) add(e, m, 1, n); Want &w = m.w[m.n]; char *p = text(w, 1); Errata f; bwf::Spec dummy; e.note("{}{}", std::string_view{p, 1}, bwf::Pattern{int(k), "ab"}); wipe(p, 1); unsigned i = 0; for (auto const &a : e) { if (i == m.n) { vf_check(a.text().size() == 1 + 2 * k && a.text()[0] == w.t[0], "the formatted text"); for (unsigned j : {1u, k, 2 * k}) vf_check(a.text()[j] == (j & 1 ? 'a' : 'b'), "the formatted text"); } ++i; } vf_check(i == m.n + 1, "one annotation more"); add(e, m, 0, 2); vf_check(e.length() == i + 1 && e.begin()->text().size() == (n ? n : 1 + 2 * k), "earlier annotations keep their text"); return; } }
// sinks see every discarded errata once, in order of registration, and then it is empty
static unsigned order; struct Snk : public Errata::Sink { unsigned id, calls = 0, at = 0; size_t len = 0; char c = 0; unsigned sev = 0; void *self = nullptr; void operator()(Errata const &e) const override { Snk *t = const_cast<Snk *>(this); ++t->calls; t->at = ++order; t->len = e.length(); t->sev = e.severity(); if (e.length()) t->c = e.front().text()[0]; } };
VF_ENTRY(chk_err_sink) { GO for (unsigned k = 0; k < 4; ++k) { ONE order = 0; Snk *a = new Snk, *b = new Snk; Errata::register_sink(Errata::Sink::Handle(a)); Errata::register_sink(Errata::Sink::Handle(b)); char c; unsigned s = 2; { Errata e; Model m; if (k) { add(e, m, 1, 1); c = m.w[0].t[0]; s = m.sev; } if (k == 2) { e.sink(); Model z; is(e, z); vf_check(a->calls == 1 && b->calls == 1, "every sink once"); } if (k == 3) { Errata f{std::move(e)}; e.sink(); vf_check(a->calls == 0, "nothing to discard"); e.clear(); } } if (k == 0) { vf_check(a->calls == 0 && b->calls == 0, "nothing to discard"); return; } vf_check(a->calls == 1 && b->calls == 1, "every sink once"); vf_check(a->at == 1 && b->at == 2, "in order of registration"); vf_check(a->len == 1 && a->c == c && a->sev == s && b->len == 1 && b->c == c, "the annotations"); { Errata d; d.clear(); } vf_check(a->calls == 1, "nothing to discard"); return; } }
// a handler function
static unsigned calls; static size_t lens;
VF_ENTRY(chk_err_handler) { GO calls = 0; Errata::register_sink([](Errata const &e) { ++calls; lens = e.length(); }); { Errata e; Model m; add(e, m, 0, 1); add(e, m, 1, 1); } vf_check(calls == 1 && lens == 2, "the handler once"); }
// as text
struct Txt { char b[64]; size_t n = 0; Txt &c(char x) { b[n++] = x; return *this; } Txt &s(char const *t) { while (*t) c(*t++); return *this; } };
static char const *NAME[] = {"Info", "Warning", "Error", "3", "4"};
VF_ENTRY(chk_err_text) { GO for (unsigned k = 0; k < 25; ++k) for (unsigned g = 0; g < 2; ++g) { ONE Errata e, f; Txt t; unsigned a = k % 5, b = k / 5; char *p = vf_buffer(1), *q = vf_buffer(1); if (g) { f.note("z"); } e.note(Sev(a), std::string_view{p, 1}); e.note(std::string_view{q, 1}); if (b < 4) e.update(Sev(b)); if (g) e.note(f); t.s(NAME[b < 4 && b > a ? b : a]).s(": ").s(NAME[a]).s(": ").c(p[0]).c('\n').c(q[0]).c('\n'); if (g) t.s("  z\n"); char o[64]; FixedBufferWriter w{o, 64}; bwformat(w, bwf::Spec::DEFAULT, e); vf_check(w.extent() == t.n, "the severity and the annotations"); for (size_t i = 0; i < t.n; ++i) vf_check(o[i] == t.b[i], "the severity and the annotations"); return; } }
VF_ENTRY(chk_err_glue) { GO Errata e; char *p = vf_buffer(1); char g[] = "+x"; e.assign_annotation_glue_text(g); e.assign_severity_glue_text("/"); e.assign_annotation_severity_glue_text("="); g[0] = 0; e.note(Sev(0), std::string_view{p, 1}); e.note(std::string_view{p, 1}); Txt t; t.s("Info/Info=").c(p[0]).s("+x").c(p[0]); char o[64]; FixedBufferWriter w{o, 64}; bwformat(w, bwf::Spec::DEFAULT, e); vf_check(w.extent() == t.n, "with the assigned glue"); for (size_t i = 0; i < t.n; ++i) vf_check(o[i] == t.b[i], "with the assigned glue"); }

// the code is shown before the annotations; a text made from the severity and the code; formatted constructors
VF_ENTRY(chk_err_code) { GO for (unsigned k = 0; k < 8; ++k) { ONE std::error_code ec{2, std::generic_category()}; char const *w[] = {"Warning: [enoent 2] x\n", "Error: [enoent 2] x\n", "Warning: x7\n", "Error: x7\n", "Warning: Warning\n", "Warning: [enoent 2] Warning: ENOENT [2]\n", "[enoent 2] ENOENT [2]\n", "Warning: Warning: Warning: ENOENT [2]\n"};
  auto go = [&](Errata e) { Txt t; t.s(w[k]); char o[64]; FixedBufferWriter b{o, 64}; bwformat(b, bwf::Spec::DEFAULT, e); vf_check(b.extent() == t.n, "severity, code and annotations"); for (size_t i = 0; i < t.n; ++i) vf_check(o[i] == t.b[i], "severity, code and annotations"); };
  switch (k) { case 0: go(Errata(ec, Sev(1), "x")); break; case 1: go(Errata(ec, "{}", "x")); break; case 2: go(Errata(Sev(1), "x{}", 7)); break; case 3: go(Errata("x{}", 7)); break; case 4: go(Errata(Sev(1), Errata::AUTO)); break; case 5: go(Errata(ec, Sev(1), Errata::AUTO)); break; case 6: go(Errata(ec, Errata::AUTO)); break; case 7: { Errata e; e.note(ec, Sev(1)); go(std::move(e)); } break; } return; } }
// a result and its status
VF_ENTRY(chk_err_rv) { GO for (unsigned k = 0; k < 8; ++k) { ONE int v = int(vf_srange("v", INT32_MIN, INT32_MAX)), u = int(vf_srange("u", INT32_MIN, INT32_MAX)); unsigned a = vf_range("a", 0, 255); Errata e; Model m; if (k & 1) { add(e, m, 1, 1); } Rv<int> r{v, std::move(e)}; Model z; is(e, z); is(r.errata(), m); vf_check(r.result() == v && int(r) == v, "the result");
  if (k & 2) { r = u; vf_check(r.result() == u, "the assigned result"); is(r.errata(), m); Errata f; add(f, m, 1, 1); --m.n; Want w = m.w[m.n]; ++m.w[m.n++].level; r.note(f); is(r.errata(), m); Rv<int> q; Model n; n.n = 1; n.w[0] = w; ++n.w[0].level; n.up(w.sev); q.note(std::move(f)); is(f, z); is(q.errata(), n); }
  if (k & 4) { auto &[x, y] = r; vf_check(&x == &r.result() && &y == &r.errata(), "the parts of the result"); Rv<int> s{std::move(r)}; is(s.errata(), m); is(r.errata(), z); s.clear(); is(s.errata(), z); }
  else { r.note(Sev(a), "t"); m.w[m.n].t[0] = 't'; m.w[m.n].n = 1; m.w[m.n].has = true; m.w[m.n].sev = a; m.w[m.n++].level = 0; m.up(a); is(r.errata(), m); ok(r.errata(), true, m.sev); r = Errata{}; is(r.errata(), z); } return; } }
