// World Seq: state, generator, dispatcher, invariants.
#include "world_seq.h"
namespace ws {
World* w; int64_t want_restart = -1;
bool same_field(const FieldP& a, const FieldP& b) { if (a == b) return true; if (a->name != b->name || a->index != b->index || a->f.size() != b->f.size()) return false; for (size_t i = 0; i < a->f.size(); i++) if (a->f[i] * b->den != b->f[i] * a->den) return false; return true; }
FR find_addr(const eantic::renf_class* p) { for (auto& x : w->all) { FR f = x.lock(); if (f && f->addr == p) return f; } return nullptr; }
FR find_model(const FieldP& k) { for (auto& x : w->all) { FR f = x.lock(); if (f && same_field(f->k, k)) return f; } return nullptr; }
std::string show(const Val& v) { std::string s = v.str(); if (s.size() > 300) s = s.substr(0, 300) + "..."; return s + " over " + (v.k ? v.k->poly_string().substr(0, 80) + " root " + std::to_string(v.k->index) : std::string("?")); }
void drop(Slot& x) { if (x.e) { sut([&] { x.e.reset(); }); } x.f.reset(); x.moved = false; x.v = Val(); }
void abandon(std::initializer_list<int> slots) {
  std::set<int> ss(slots);
  for (int i : ss) { Slot& o = *w->S[i]; if (!o.e) continue; Slot* n = new Slot(); FR f = o.f; Val v = o.v; bool moved = o.moved; std::string t = moved ? "" : v.str();
    static std::vector<Slot*> graveyard; graveyard.push_back(w->S[i].release()); w->S[i].reset(n);
    if (!moved) { Out r = sut([&] { n->e.emplace(*f->addr, t); }); if (r.st) rt::violation("unexpected-failure", "an element could not be created again after a stop: %s", r.what.c_str()); n->f = f; n->v = v; } }
}
static bool any_imm() { for (auto& x : w->all) { FR f = x.lock(); if (f && f->imm) return true; } return false; }
bool returned(const Out& o, const char* what, std::initializer_list<int> involved, bool needs) {
  if (o.st == 0) return true;
  if (o.st == 1) {
    rt::count(rt::F_IMMUTABLE_STOP);
    if (!any_imm()) rt::violation("assertion", "%s: assertion failed although no field is immutable: %s", what, o.what.c_str());
    bool imm = false; for (int i : involved) if (w->S[i]->f && w->S[i]->f->imm) imm = true;
    if (!imm) rt::violation("assertion", "%s: assertion failed although the field is mutable: %s", what, o.what.c_str());
    if (!needs) rt::violation("needless-stop", "%s over an immutable field needs no better embedding but stopped: %s", what, o.what.c_str());
    rt::trace("  stopped"); abandon(involved); return false;
  }
  rt::violation("unexpected-exception", "%s threw: %s", what, o.what.c_str());
}
void put(int i, const FR& f, const Val& want, Cls c, const char* what) {
  Slot& x = *w->S[i]; x.moved = false; x.f = f; const eantic::renf_class* p = &x.e->parent();
  if (p != f->addr) { if (w->J(c) || w->check_values) rt::violation("wrong-parent", "%s: the result lives in another field", what); rt::invalid("unexpected parent"); }
  Val got = peek(*x.e, f->k); if (w->J(c)) checked();
  if (!got.same(want)) { if (w->J(c)) rt::violation("wrong-value", "%s gives %s instead of %s", what, show(got).c_str(), show(want).c_str()); }
  if (w->J(COPY) && c == COPY && !contains(el(x)->emb, got)) rt::violation("wrong-enclosure", "%s: the enclosure %s does not contain the value %s", what, ball_str(el(x)->emb).c_str(), show(got).c_str());
  x.v = got; rt::event_str(got.bits() < 600 ? got.str() : std::to_string(got.bits())); if (rt::tracing) rt::trace("  s%d = %s", i, show(got).c_str());
  if (got.bits() > 6000) drop(x);
}
void put_mixed(int i, const Val& want, Cls c, const char* what) {
  Slot& x = *w->S[i]; FR f = find_addr(&x.e->parent()); if (!f) { if (w->J(c)) rt::violation("wrong-parent", "%s: the result lives in an unknown field", what); rt::invalid("unexpected parent"); }
  if (same_field(f->k, want.k)) put(i, f, want, c, what);
  else { if (!want.rational()) { if (w->J(c)) rt::violation("wrong-parent", "%s: an irrational result lives in another field", what); rt::invalid("unexpected parent"); } put(i, f, model::from_q(f->k, want.q()), c, what); }
}
void want_bool(bool got, bool want, Cls c, const char* what, const Val& a, const std::string& b) { if (!w->J(c)) return; checked(); if (got != want) rt::violation("wrong-answer", "%s is %s for %s and %s", what, got ? "true" : "false", show(a).c_str(), b.c_str()); }
bool same_fr(const Slot& a, const Slot& b) { return a.f && a.f == b.f; }
size_t small_bits(const Slot& a) { return a.v.bits(); }
void ensure_in(int i, const FR& f) { Slot& x = *w->S[i]; if (x.e && !x.moved && x.f == f) return; drop(x); Out o = sut([&] { x.e.emplace(*f->addr); }); if (o.st) rt::violation("unexpected-exception", "creating a zero element threw: %s", o.what.c_str()); x.f = f; x.v = model::from_q(f->k, 0); x.moved = false; }
static int shape(const Slot& x) { if (!x.e) return 0; if (x.moved) return 1; int s = 2; if (x.v.zero()) s = 3; else if (x.v.integer()) s = 4; else if (x.v.rational()) s = 5; long acc = arb_rel_accuracy_bits(el(x)->emb); int a = acc < 0 ? 0 : acc < 53 ? 1 : acc < 128 ? 2 : acc < 1000 ? 3 : 4; long fa = arb_rel_accuracy_bits(nf(x)->emb); int b = fa < 64 ? 0 : fa < 256 ? 1 : fa < 2000 ? 2 : 3; return s + 8 * a + 64 * b + 512 * std::min(4, x.f->k->deg) + (x.f->imm ? 4096 : 0); }
void state3(const char* op, int64_t v, const Slot* a, const Slot* b) { uint64_t h = 0; for (const char* p = op; *p; p++) h = rt::mix64(h + *p); h = rt::mix64(h + v); if (a) h = rt::mix64(h * 3 + shape(*a)); if (b) h = rt::mix64(h * 5 + shape(*b)); rt::state(h); }

static std::string field_dump(const renf* n) { return arb_dump(n->emb) + " " + std::to_string(n->prec); }
void check_field(const FRec& f, const char* what) {
  if (!rt::block_live(f.addr)) rt::violation("dangling-field", "%s: a field that is still referenced is gone", what);
  const eantic::renf_class* p = f.addr; if (p->gen_name() != f.k->name || p->degree() != f.k->deg || !poly_is(p->renf_t(), f.k)) rt::violation("field-changed", "%s changed the name or polynomial of a field", what);
  if (!peek(p->gen(), f.k).same(model::gen(f.k)) || !peek(p->zero(), f.k).zero() || !peek(p->one(), f.k).same(model::from_q(f.k, 1))) rt::violation("field-changed", "%s changed the constants of a field", what);
}
void final_enclosures() { // an element that was copied, swapped or survived a failure is whole: value and enclosure belong together
  for (int i = 0; i < NS; i++) { Slot& x = *w->S[i]; if (!x.e || x.moved) continue; checked(); if (!contains(el(x)->emb, x.v)) rt::violation("wrong-enclosure", "at the end the enclosure %s of element %d does not contain %s", ball_str(el(x)->emb).c_str(), i, show(x.v).c_str()); }
}
void invariants() {
  if (w->check_values) {
    for (int i = 0; i < NS; i++) { Slot& x = *w->S[i]; if (!x.e || x.moved) continue; checked(); if (!rt::block_live(x.f->addr)) rt::violation("dangling-field", "the field of an element is gone"); if (&x.e->parent() != x.f->addr) rt::violation("value-changed", "the field of element %d changed", i); Val v = peek(*x.e, x.f->k); if (!v.same(x.v)) rt::violation("value-changed", "element %d changed from %s to %s", i, show(x.v).c_str(), show(v).c_str()); }
    for (auto& y : w->all) { FR f = y.lock(); if (f) check_field(*f, "the operation"); }
  }
  if (w->check_enc) {
    static std::map<std::string, int> seen;
    for (int i = 0; i < NS; i++) { Slot& x = *w->S[i]; if (!x.e || x.moved) continue; checked(); if (!contains(el(x)->emb, x.v)) rt::violation("wrong-enclosure", "the enclosure %s of element %d does not contain %s", ball_str(el(x)->emb).c_str(), i, show(x.v).c_str()); }
    for (auto& y : w->all) { FR f = y.lock(); if (!f) continue; checked(); const renf* n = f->addr->renf_t(); if (!contains(n->emb, model::gen(f->k))) rt::violation("wrong-enclosure", "the embedding %s of the field %s does not contain root %d", ball_str(n->emb).c_str(), f->k->poly_string().c_str(), f->k->index); if (!arb_is_finite(n->emb)) rt::violation("wrong-enclosure", "the embedding of a field is not finite");
      for (const Elem* e : {&f->addr->gen(), &f->addr->one(), &f->addr->zero()}) if (!contains(e->renf_elem_t()->emb, peek(*e, f->k))) rt::violation("wrong-enclosure", "the enclosure of a constant of a field is wrong"); }
  }
  if (w->check_frozen) for (auto& y : w->all) { FR f = y.lock(); if (!f) continue; const renf* n = f->addr->renf_t(); if (!!n->immutable != !!f->imm) rt::violation("immutability-changed", "a field is %s although it was made %s", n->immutable ? "immutable" : "mutable", f->imm ? "immutable" : "mutable"); if (f->imm) { checked(); if (field_dump(n) != f->frozen) rt::violation("frozen-field-changed", "the embedding or precision of an immutable field changed: %s", ball_str(n->emb).c_str()); } }
}
long pick_prec(Rng& r) { static const int p[] = {64, 64, 64, 53, 128, 30, 16, 8, 100, 300, 1000, 4, 2}; return p[r.below(13)]; }
FieldPtr make_field(const FieldP& k, int variant, Rng& r, long prec, Out& o) {
  Ball b; while (!good_ball(k, r, prec, b)) { prec *= 2; if (prec > 20000) rt::invalid("no ball"); }
  FieldPtr out; std::string poly = k->poly_string();
  switch (variant) {
    case 1: o = sut([&] { out = eantic::renf_class::make(poly, k->name, [&](slong) { return b.text; }, prec); }); break;
    case 2: { fmpq_poly_t p; arb_t e; fmpq_poly_init(p); set_poly(p, k); arb_init(e); arb_set_str(e, b.text.c_str(), std::max<long>(2 * prec + 64, 4 * (long)b.text.size())); renf_t n;
      o = sut([&] { renf_init(n, p, e, prec); out = eantic::renf_class::make(n, k->name); renf_clear(n); }); fmpq_poly_clear(p); arb_clear(e); break; }
    default: o = sut([&] { out = eantic::renf_class::make(poly, k->name, b.text, prec); });
  }
  rt::trace("  make %s %s [%s] prec %ld", poly.c_str(), k->name.c_str(), b.text.c_str(), prec);
  return out;
}
FR adopt(const FieldPtr& p, const FieldP& k, const char* how) {
  if (!p || !rt::block_live(p.get())) rt::violation("dangling-field", "%s gave no live field", how);
  FR f = find_model(k);
  if (w->J(FIELD)) {
    checked(); if (f && f->addr != p.get()) rt::violation("two-objects", "%s gave another object for a field that exists already (%s, root %d)", how, k->poly_string().c_str(), k->index);
    FR g = find_addr(p.get()); if (g && !same_field(g->k, k)) rt::violation("wrong-field", "%s gave the field %s root %d %s instead of %s root %d %s", how, g->k->poly_string().c_str(), g->k->index, g->k->name.c_str(), k->poly_string().c_str(), k->index, k->name.c_str());
    if (p->gen_name() != k->name || p->degree() != k->deg || !poly_is(p->renf_t(), k)) rt::violation("wrong-field", "%s gave a field with the wrong polynomial, degree or name", how);
    if (!contains(p->renf_t()->emb, model::gen(k))) rt::violation("wrong-root", "%s gave another root of %s than root %d: %s", how, k->poly_string().c_str(), k->index, ball_str(p->renf_t()->emb).c_str());
    if (!peek(p->gen(), k).same(model::gen(k)) || !peek(p->zero(), k).zero() || !peek(p->one(), k).same(model::from_q(k, 1))) rt::violation("wrong-field", "%s gave a field with wrong constants", how);
    for (const Elem* e : {&p->gen(), &p->one(), &p->zero()}) { if (&e->parent() != p.get()) rt::violation("wrong-field", "constants of a field have another parent"); if (!contains(e->renf_elem_t()->emb, peek(*e, k))) rt::violation("wrong-field", "%s gave a field whose constants have a wrong enclosure", how); }
  }
  if (!f || f->addr != p.get()) { FR g = find_addr(p.get()); if (g) rt::invalid("field identity"); f = std::make_shared<FRec>(); f->k = k; f->addr = p.get(); w->all.push_back(f); if (p->renf_t()->immutable) { if (w->imm_mode) rt::violation("immutability-changed", "a new field is immutable"); } }
  return f;
}
static void make_models(uint64_t seed, int n, int maxdeg, int maxbits) {
  Rng r(seed); static const char* names[] = {"a", "b", "x", "alpha", "y", "x1", "e", "A", "_", "a_generator_with_a_long_name"};
  auto add = [&](const FieldP& k) { for (auto& o : w->models) if (same_field(o, k)) return; w->models.push_back(k); };
  w->models.push_back(model::make_field(ZPoly{-1, 1}, 1, 0, "a"));
  while ((int)w->models.size() < n + 1) {
    if (w->models.size() > 1 && r.below(2)) { auto o = w->models[1 + r.below(w->models.size() - 1)]; ZPoly f = o->f; mpz_class den = o->den; int idx = o->index; std::string nm = o->name;
      switch (r.below(4)) { case 0: case 1: idx++; break; case 2: nm = names[r.below(10)]; break; default: if (r.below(2)) for (auto& c : f) c *= 2; else den = den * 3; }
      add(model::make_field(f, den, idx, nm)); if (r.below(3)) continue; }
    add(model::make_field(model::gen_poly(r, maxdeg, maxbits), r.one_in(5) ? mpz_class((long)r.range(2, 6)) : mpz_class(1), (int)r.below(4), names[r.below(10)]));
  }
}
static void setup(const Script& s) {
  w = new World(); w->s = &s; w->prop = s.prop; for (auto& p : w->S) p.reset(new Slot());
  auto J = [&](std::initializer_list<Cls> c) { for (Cls x : c) w->judged |= 1u << x; };
  const std::string& p = s.prop;
  w->strict = s.get("strict", 0); if (w->strict) setenv("LIBEANTIC_STRICT_BINOP", "1", 1); else unsetenv("LIBEANTIC_STRICT_BINOP"); // every run is a process of its own
  if (p == "C04") { J({ARITH, CONV, REL, ROUND, ENC, COPY, FIELD}); w->check_frozen = w->imm_mode = true; w->check_values = true; rt::assert_throws = true; }
  else if (p == "C05") J({ARITH, CONV});
  else if (p == "C06") J({REL});
  else if (p == "C07") J({ROUND});
  else if (p == "C08") { J({ENC}); w->check_enc = true; }
  else if (p == "C09") { J({COPY}); w->check_values = true; }
  else if (p == "C10" || p == "C19") J({FIELD});
  else if (p == "C11" || p == "C12") J({TEXT});
  else if (p == "C13") { J({TEXT}); w->check_values = true; }
  else if (p == "C14") { J({ARITH, CONV, COPY, FIELD, REL, ROUND}); w->check_values = true; }
  make_models(s.seed, (int)s.get("fields", 2), (int)s.get("maxdeg", 5), (int)s.get("maxbits", 24));
  const eantic::renf_class* t = nullptr; sut([&] { t = &eantic::renf_class::make(); }); w->triv = std::make_shared<FRec>(); w->triv->k = w->models[0]; w->triv->addr = t; w->all.push_back(w->triv);
}
static void exec(const Op& op) {
  rt::count(rt::K_OPS); rt::event_str(op.name); if (rt::tracing) rt::trace("%s %ld %ld %ld %ld %ld", op.name.c_str(), (long)op.a[0], (long)op.a[1], (long)op.a[2], (long)op.a[3], (long)op.a[4]);
  if (!op_core(op) && !op_field(op) && !op_io(op)) { fprintf(stderr, "unknown operation %s\n", op.name.c_str()); exit(3); }
  w->pin.clear(); invariants();
}
}
using namespace ws;
struct Wt { const char* n; int weight; int variants; };
static Script gen(const std::string& prop, uint64_t seed, const std::vector<Wt>& t, int nops, int nf) {
  Script s; s.prop = prop; s.seed = seed; Rng r(seed ^ 0x5E9); s.conf["reuse"] = r.below(4); s.conf["fields"] = nf; static const int md[] = {2, 3, 4, 5, 7}, mb[] = {3, 8, 24, 60}; s.conf["maxdeg"] = md[r.below(5)]; s.conf["maxbits"] = mb[r.below(4)];
  auto op = [&](const char* n, int64_t a, int64_t b, int64_t c, int64_t d, int64_t e) { Op o; o.client = 0; o.name = n; o.a[0] = a; o.a[1] = b; o.a[2] = c; o.a[3] = d; o.a[4] = e; o.seed = r.u64() >> 1; s.ops.push_back(o); };
  op("fld", 0, 1, r.below(3), 0, 0); if (r.below(2)) op("fld", 1, 1 + r.below(nf), r.below(3), 0, 0);
  int ns = 2 + (int)r.below(NS - 2); for (int i = 0; i < 3; i++) op("new", i % ns, r.below(2), r.below(14), 0, 0);
  int tot = 0; for (auto& x : t) tot += x.weight;
  for (int i = 0; i < nops; i++) { int z = (int)r.below(tot); for (auto& x : t) { if ((z -= x.weight) >= 0) continue; op(x.n, r.below(ns), r.below(ns), r.below(ns), r.below(x.variants), r.below(1 << 20)); break; } }
  return s;
}
Script world_generate(const std::string& p, uint64_t seed) {
  Rng r(seed ^ 0x9e11); int n = 8 + (int)r.below(40); int nf = 1 + (int)r.below(3); if (r.one_in(3)) nf = 1;
  // shared background: creation, arithmetic, refinement, life cycle
  std::vector<Wt> t = {{"fld", 2, 16}, {"drf", 1, 16}, {"new", 12, 14}, {"asg", 1, 12}, {"cp", 3, 8}, {"mv", 1, 4}, {"sw", 1, 2}, {"dr", 1, 1}, {"bin", 8, 64}, {"bs", 3, 64}, {"un", 3, 64}, {"ref", 3, 1}, {"dgr", 4, 1}, {"arb", 1, 1}, {"flr", 1, 8}, {"rel", 1, 8}, {"near", 3, 8}, {"str", 1, 8}};
  auto more = [&](std::vector<Wt> x) { for (auto& y : x) t.push_back(y); };
  if (p == "C04") more({{"imm", 9, 4}, {"rel", 8, 8}, {"rels", 5, 64}, {"prd", 4, 8}, {"flr", 6, 8}, {"fdv", 3, 4}, {"cfr", 2, 4}, {"dbl", 4, 8}, {"cnv", 3, 8}, {"str", 2, 8}, {"hsh", 1, 1}, {"con", 2, 8}, {"fld", 3, 16}, {"arb", 2, 1}});
  else if (p == "C05") more({{"bin", 22, 64}, {"bs", 18, 64}, {"un", 14, 64}, {"cnv", 8, 8}, {"asg", 3, 12}, {"new", 10, 14}});
  else if (p == "C06") more({{"rel", 24, 8}, {"rels", 20, 64}, {"prd", 10, 8}, {"hsh", 8, 1}, {"near", 8, 8}});
  else if (p == "C07") more({{"flr", 18, 8}, {"fdv", 16, 4}, {"cfr", 5, 4}, {"dbl", 20, 8}, {"near", 6, 8}});
  else if (p == "C08") more({{"ref", 8, 1}, {"dgr", 8, 1}, {"arb", 14, 1}, {"bin", 12, 64}, {"bs", 10, 64}, {"un", 12, 64}, {"flr", 3, 8}, {"dbl", 3, 8}, {"rels", 2, 64}, {"fcp", 4, 4}, {"str", 3, 8}, {"stp", 6, 4}, {"emb", 4, 4}});
  else if (p == "C09") more({{"cp", 16, 8}, {"mv", 10, 4}, {"sw", 8, 2}, {"dr", 3, 1}, {"asg", 6, 12}, {"rel", 3, 8}, {"rels", 3, 64}, {"flr", 3, 8}, {"fdv", 3, 4}, {"cfr", 2, 4}, {"dbl", 3, 8}, {"cnv", 4, 8}, {"str", 4, 8}, {"hsh", 2, 1}, {"ser", 3, 4}, {"bin", 8, 64}, {"mix", 8, 64}, {"prd", 2, 8}, {"con", 1, 8}});
  else if (p == "C10") { t = {{"fld", 4, 16}, {"drf", 3, 16}, {"new", 2, 14}, {"ref", 5, 1}, {"dbl", 1, 8}, {"rel", 1, 8}, {"dr", 1, 1}, {"mkf", 16, 16}, {"mkx", 10, 16}, {"cbk", 8, 8}, {"emb", 4, 4}, {"nth", 3, 4}, {"con", 12, 8}, {"fcp", 2, 4}, {"iso", 10, 4}, {"stp", 6, 4}}; n = 6 + (int)r.below(16); nf = 2 + (int)r.below(3); }
  else if (p == "C19") { t = {{"fld", 2, 16}, {"drf", 2, 16}, {"new", 2, 14}, {"ref", 3, 1}, {"dbl", 1, 8}, {"rel", 1, 8}, {"dr", 1, 1}, {"con", 1, 8}, {"rnd", 24, 16}}; n = 4 + (int)r.below(12); nf = 1 + (int)r.below(2); }
  else if (p == "C11") { n = 6 + (int)r.below(16); more({{"arc", 30, 64}, {"arr", 12, 64}, {"drf", 6, 16}, {"fld", 6, 16}, {"dr", 4, 1}}); nf = 1 + (int)r.below(4); }
  else if (p == "C12") { n = 6 + (int)r.below(12); more({{"trn", 60, 64}}); nf = 1 + (int)r.below(3); }
  else if (p == "C13") { more({{"txt", 40, 64}, {"tbd", 25, 64}, {"pst", 8, 4}}); n = 8 + (int)r.below(20); }
  else if (p == "C14") { more({{"bad", 40, 32}, {"oom", 30, 64}, {"tbd", 6, 64}, {"drf", 2, 16}, {"fld", 3, 16}}); n = 8 + (int)r.below(20); }
  else if (p == "C15") { more({{"bad", 10, 32}, {"rels", 5, 64}, {"prd", 3, 8}, {"flr", 6, 8}, {"fdv", 5, 4}, {"cfr", 5, 4}, {"dbl", 6, 8}, {"cnv", 6, 8}, {"hsh", 2, 1}, {"txt", 6, 64}, {"tbd", 5, 64}, {"arc", 5, 64}, {"trn", 5, 64}, {"mkf", 4, 16}, {"mkx", 4, 16}, {"cbk", 4, 8}, {"emb", 4, 4}, {"nth", 6, 4}, {"con", 6, 8}, {"fcp", 3, 4}, {"rnd", 3, 16}, {"iso", 2, 4}, {"stp", 2, 4}, {"pst", 2, 4}, {"mix", 5, 64}, {"un", 8, 64}, {"bs", 8, 64}}); n = 6 + (int)r.below(20); }
  Script s = gen(p, seed, t, n, nf); if ((p == "C09" || p == "C14" || p == "C15") && Rng(seed ^ 0x57c).one_in(5)) s.conf["strict"] = 1; return s;
}
static void drop_everything(uint64_t seed) {
  Rng r(seed); std::vector<int> o; for (int i = 0; i < NS + NF; i++) o.push_back(i); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
  rt::count(rt::F_DROP_ORDER);
  for (int i : o) { if (i < NS) drop(*w->S[i]); else { FSlot& f = w->F[i - NS]; sut([&] { f.h.reset(); }); f.f.reset(); } }
}
int64_t world_execute(const Script& s, int64_t start) {
  rt::Config c; c.reuse = (rt::Reuse)s.get("reuse", 0); c.policy = rt::P_NONE; c.seed = s.seed; rt::begin(c); setup(s);
  if (start > 0) restore_blob();
  if (s.prop == "C15") {
    // the same history twice: what the first pass leaves behind (caches) is not counted, what the second adds is a leak
    size_t before = 0; uint64_t seq = 0;
    for (int pass = 0; pass < 3; pass++) {
      if (pass) { sut([] { flint_cleanup(); }); before = rt::outstanding_s(); seq = rt::alloc_seq(); }
      for (size_t i = 0; i < s.ops.size(); i++) { rt::res->curop = (uint32_t)i; exec(s.ops[i]); want_restart = -1; }
      drop_everything(s.seed); w->hashes.clear(); for (auto& x : w->S) x.reset(new Slot());
      if (pass) { sut([] { flint_cleanup(); }); checked(); size_t after = rt::outstanding_s(); for (auto& y : w->all) { FR f = y.lock(); if (f && f != w->triv) rt::violation("simulator", "reference left"); } if (after > before) { if (pass == 2) rt::violation("leak", "%zu bytes are still allocated after everything was dropped: %s", after - before, rt::describe_leaks(seq).c_str()); } else break; }
    }
    rt::check_heap(); return -1;
  }
  for (size_t i = (size_t)start; i < s.ops.size(); i++) {
    rt::res->curop = (uint32_t)i; exec(s.ops[i]);
    if (want_restart >= 0) { rt::count(rt::F_RESTART, 0); rt::check_heap(); return (int64_t)i + 1; }
  }
  if (w->J(COPY)) final_enclosures();
  drop_everything(s.seed); rt::check_heap();
  std::string wh; if (!rt::mutexes_free(&wh)) rt::violation("lock-held", "a lock (%s) is still held", wh.c_str());
  return -1;
}
bool world_threads() { return false; }
