// World T: threads that create, share and drop fields and elements (C01, C02), and threads that compute on their own data (C03).
#include "world_common.h"
#include <optional>
#include <flint/flint.h>
using namespace wc;
#include "world_t_api.h"
namespace {
enum { NH = 4, NE = 4, NM = 3, NG = 2 };
struct Desc { FieldP k; std::string poly, name; };
std::vector<Desc> descs;
bool same_field(const FieldP& a, const FieldP& b) { if (a->name != b->name || a->index != b->index || a->f.size() != b->f.size()) return false; for (size_t i = 0; i < a->f.size(); i++) if (a->f[i] * b->den != b->f[i] * a->den) return false; return true; }
void add_desc(const FieldP& k) { for (auto& d : descs) if (same_field(d.k, k)) return; descs.push_back({k, k->poly_string(), k->name}); }
void make_descs(uint64_t seed, int n, bool small) {
  descs.clear(); Rng r(seed); { ZPoly f = {-1, 1}; add_desc(model::make_field(f, 1, 0, "a")); }
  static const char* names[] = {"a", "b", "x", "alpha", "A", "a_generator_with_a_long_name"};
  while ((int)descs.size() < n + 1) {
    if (descs.size() > 1 && r.below(3)) { // a close relative of an existing one
      auto o = descs[1 + r.below(descs.size() - 1)].k; ZPoly f = o->f; mpz_class den = o->den; int idx = o->index; std::string nm = o->name;
      switch (r.below(5)) { case 0: idx++; break; case 1: case 4: nm = names[r.below(6)]; break; case 2: for (auto& c : f) c *= 2; break; default: den = den * 3; }
      add_desc(model::make_field(f, den, idx, nm)); if (r.below(4)) continue;
    }
    if (r.one_in(4)) { // two roots which agree in many digits
      int d = 3 + (int)r.below(4); static const int ks[] = {6, 12, 20, 26, 30, 34, 44}; mpz_class A = mpz_class(1) << ks[r.below(7)]; A += r.below(3); ZPoly f(d + 1); f[d] = 1; f[2] -= 2 * A * A; f[1] += 4 * A; f[0] -= 2; std::string nm = names[r.below(6)];
      auto rs = model::roots(f); size_t at = 0; mpq_class best; for (size_t i = 0; i + 1 < rs.size(); i++) { mpq_class w = model::approx(model::gen(rs[i + 1]), 400, true) - model::approx(model::gen(rs[i]), 400, false); if (!i || w < best) { best = w; at = i; } }
      add_desc(model::make_field(f, 1, (int)at, nm)); if (rs.size() > at + 1) add_desc(model::make_field(f, 1, (int)at + 1, nm)); continue;
    }
    ZPoly f = model::gen_poly(r, small ? 3 : 5, small ? 8 : 24); auto k = model::make_field(f, 1, (int)r.below(4), names[r.below(6)]);
    add_desc(k);
  }
}

// ---------------------------------------------------------------- C01, C02
struct Live { const eantic::renf_class* addr = nullptr; int holds = 0; };
std::vector<Live> live; std::map<uint64_t, const void*> seen; bool judge_identity;
char watch_names[64][64];
void obtained(int d, const eantic::renf_class* p, bool from_make) {
  if (!rt::block_live(p)) rt::violation("dangling-field", "a handle to field %d points to memory that is not alive", d);
  if (from_make) rt::count(rt::K_CHECKS);
  if (live[d].holds > 0 && live[d].addr != p) rt::violation("two-objects", "field %d (%s, %s, root %d) exists twice although a reference to it is held", d, descs[d].poly.c_str(), descs[d].name.c_str(), descs[d].k->index);
  for (size_t o = 0; o < live.size(); o++) if ((int)o != d && live[o].holds > 0 && live[o].addr == p) rt::violation("merged-fields", "fields %zu (%s, %s, root %d) and %d (%s, %s, root %d) are one object", o, descs[o].poly.c_str(), descs[o].name.c_str(), descs[o].k->index, d, descs[d].poly.c_str(), descs[d].name.c_str(), descs[d].k->index);
  if (live[d].holds == 0) { live[d].addr = p; rt::watch(p, watch_names[d]); uint64_t b = rt::block_id(p); seen[b] = p; }
  live[d].holds++;
  if (from_make) {
    auto& k = descs[d].k; 
    if (p->gen_name() != descs[d].name) rt::violation("wrong-field", "make returned a field named %s instead of %s", p->gen_name().c_str(), descs[d].name.c_str());
    if (p->degree() != k->deg || !poly_is(p->renf_t(), k)) rt::violation("wrong-field", "make returned a field with another polynomial than %s", descs[d].poly.c_str());
    if (!contains(p->renf_t()->emb, model::gen(k))) rt::violation("wrong-field", "make returned a field with another root than root %d of %s", k->index, descs[d].poly.c_str());
    if (&p->gen().parent() != p || &p->zero().parent() != p || &p->one().parent() != p) rt::violation("wrong-field", "constants of a field have another parent");
    if (!peek(p->gen(), k).same(model::gen(k)) || !peek(p->zero(), k).zero() || !peek(p->one(), k).same(model::from_q(k, 1))) rt::violation("wrong-field", "zero, one or generator of %s is wrong", descs[d].poly.c_str());
  }
}
void dropping(int d) { if (--live[d].holds == 0) rt::unwatch(live[d].addr); }

struct Slots {
  FieldPtr h[NH]; int hd[NH]; std::optional<Elem> e[NE]; int ed[NE];
  Slots() { for (int& x : hd) x = -1; for (int& x : ed) x = -1; }
};
struct Mail { FieldPtr h; int hd = -1; std::optional<Elem> e; int ed = -1; };
Slots* slots[rt::MAXT]; Mail* mail; FieldPtr* gh; int ghd[NG]; std::optional<Elem>* ge; int ged[NG];

FieldPtr make_desc(int d, int variant, uint64_t seed, const FieldPtr* held) {
  if (seed & 1) seed = 1; // the same description as everybody else
  Rng r(seed); Desc& D = descs[d]; static const int precs[] = {64, 64, 53, 128, 40, 200}; long prec = precs[r.below(6)]; Ball b; std::string constr[3]; slong cprec = 0;
  { rt::Host hh; long p = prec; while (!good_ball(D.k, r, p, b)) { p *= 2; if (p > 5000) rt::invalid("no ball"); } prec = p; rt::trace("  %s %s %s prec %ld", D.poly.c_str(), D.name.c_str(), b.text.c_str(), prec); }
  FieldPtr out;
  switch (variant) {
    case 1: { slong want = prec; out = eantic::renf_class::make(D.poly, D.name, [&](slong p) { return b.text; }, want); break; }
    case 2: { // bad answers first, then good ones
      int calls = 0; bool wide = r.below(2) && D.k->deg > 1; { rt::Host hh; rt::count(rt::F_CALLBACK_REENTER); }
      int inner = (int)r.below(descs.size()); uint64_t is = r.u64();
      out = eantic::renf_class::make(D.poly, D.name, [&](slong p) { calls++; if (calls == 1) { FieldPtr other = make_desc(inner, 0, is, nullptr); if (wide) return std::string("0 +/- 1e30"); } return b.text; }, prec); break; }
    case 3: { // from the C structure
      fmpq_poly_t p; arb_t e; renf_t nf; { rt::Host hh; fmpq_poly_init(p); set_poly(p, D.k); arb_init(e); arb_set_str(e, b.text.c_str(), std::max<long>(2 * prec, 4 * (long)b.text.size())); }
      renf_init(nf, p, e, prec); out = eantic::renf_class::make(nf, D.name); renf_clear(nf);
      { rt::Host hh; fmpq_poly_clear(p); arb_clear(e); } break; }
    case 4: if (held && *held) { auto c = (*held)->construction(); { rt::Host hh; rt::trace("  construction %s, %s, %ld", std::get<0>(c).c_str(), std::get<2>(c).c_str(), (long)std::get<3>(c)); } out = eantic::renf_class::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); break; } // fall through
    default: out = eantic::renf_class::make(D.poly, D.name, b.text, prec);
  }
  return out;
}

void exec_op(Slots& S, const Op& op) {
  rt::count(rt::K_OPS); const std::string& n = op.name; int me = rt::tid();
  int a = (int)(op.a[0] & 3), b = (int)(op.a[1] & 3);
  rt::event_str(n); rt::trace("t%d %s %ld %ld %ld", me, n.c_str(), (long)op.a[0], (long)op.a[1], (long)op.a[2]);
  if (n == "mk") {
    int d = (int)(op.a[1] % (int64_t)descs.size()), v = (int)op.a[2]; const FieldPtr* held = nullptr; if (v == 4) for (int i = 0; i < NH; i++) if (S.hd[i] == d) held = &S.h[i];
    FieldPtr p; { rt::Sut s; p = make_desc(d, v, op.seed, held); }
    obtained(d, p.get(), true); if (S.hd[a] >= 0) dropping(S.hd[a]); { rt::Sut s; S.h[a] = std::move(p); } S.hd[a] = d;
  } else if (n == "mkbad") {
    int d = (int)(op.a[1] % (int64_t)descs.size()); bool threw = false; rt::count(rt::F_BADINPUT); Rng r(op.seed); int k = (int)r.below(3);
    try { rt::Sut s; FieldPtr p; if (k == 0) p = eantic::renf_class::make(descs[d].poly, descs[d].name, [](slong) -> std::string { throw std::runtime_error("callback"); }, 64); else if (k == 1) p = eantic::renf_class::make("@ + " + descs[d].poly, descs[d].name, "1 +/- 1", 64); else p = eantic::renf_class::make(descs[d].poly, descs[d].name, "1e40 +/- 1", 64); } catch (std::exception&) { threw = true; }
    if (!threw) rt::violation("wrong-field", "a field was created from an invalid description (%s, variant %d)", descs[d].poly.c_str(), k);
  } else if (n == "cph") { if (S.hd[a] < 0 || a == b) { rt::count(rt::K_SKIPPED); return; } int old = S.hd[b]; obtained(S.hd[a], S.h[a].get(), false); if (old >= 0) dropping(old); { rt::Sut s; S.h[b] = S.h[a]; } S.hd[b] = S.hd[a];
  } else if (n == "mvh") { if (a == b) return; int old = S.hd[b]; if (old >= 0) dropping(old); { rt::Sut s; S.h[b] = std::move(S.h[a]); } S.hd[b] = S.hd[a]; S.hd[a] = -1; { rt::Sut s; S.h[a].reset(); }
  } else if (n == "swh") { { rt::Sut s; using std::swap; swap(S.h[a], S.h[b]); } std::swap(S.hd[a], S.hd[b]);
  } else if (n == "drh") { if (S.hd[a] >= 0) dropping(S.hd[a]); { rt::Sut s; S.h[a].reset(); } S.hd[a] = -1;
  } else if (n == "el") {
    if (S.hd[a] < 0) { rt::count(rt::K_SKIPPED); return; } int d = S.hd[a]; Val v; std::string t; { Rng r(op.seed); v = model::gen_val(r, descs[d].k, 20); t = v.str(); }
    if (S.ed[b] >= 0) { dropping(S.ed[b]); { rt::Sut s; S.e[b].reset(); } S.ed[b] = -1; }
    { rt::Sut s; switch (op.a[2] % 4) { case 0: S.e[b].emplace(*S.h[a], t); break; case 1: S.e[b].emplace(S.h[a]->gen()); break; case 2: S.e[b].emplace(S.h[a]->one() + S.h[a]->gen()); break; default: S.e[b].emplace(*S.h[a], 17); } }
    obtained(d, &S.e[b]->parent(), false); S.ed[b] = d;
  } else if (n == "cpe") { if (S.ed[a] < 0 || a == b) { rt::count(rt::K_SKIPPED); return; } obtained(S.ed[a], &S.e[a]->parent(), false); if (S.ed[b] >= 0) dropping(S.ed[b]); { rt::Sut s; if (S.e[b]) *S.e[b] = *S.e[a]; else S.e[b].emplace(*S.e[a]); } S.ed[b] = S.ed[a];
  } else if (n == "mve") { if (S.ed[a] < 0 || a == b) { rt::count(rt::K_SKIPPED); return; } if (S.ed[b] >= 0) dropping(S.ed[b]); { rt::Sut s; if (S.e[b]) *S.e[b] = std::move(*S.e[a]); else S.e[b].emplace(std::move(*S.e[a])); S.e[a].reset(); } S.ed[b] = S.ed[a]; S.ed[a] = -1;
  } else if (n == "mvx") { // there and back again through a moved-from element
    if (S.ed[a] < 0) { rt::count(rt::K_SKIPPED); return; } { rt::Sut s; Elem& x = *S.e[a]; Elem t(std::move(x)); switch (op.a[1] % 6) { case 0: case 1: x = std::move(t); break; case 2: x = t; break; case 3: { Elem u(t), v(std::move(u)); u = v; x = std::move(u); break; } case 4: { std::vector<Elem> v; v.push_back(std::move(t)); v.push_back(v[0]); v.emplace_back(v[1]); v.erase(v.begin()); x = std::move(v.back()); break; } default: { x = 7; x = t; using std::swap; swap(x, x); swap(x, t); } } }
    obtained(S.ed[a], &S.e[a]->parent(), false); dropping(S.ed[a]);
  } else if (n == "swe") { if (!S.e[a] || !S.e[b]) return; { rt::Sut s; using std::swap; swap(*S.e[a], *S.e[b]); } std::swap(S.ed[a], S.ed[b]);
  } else if (n == "dre") { if (S.ed[a] >= 0) dropping(S.ed[a]); { rt::Sut s; S.e[a].reset(); } S.ed[a] = -1;
  } else if (n == "par") { if (S.ed[a] < 0) { rt::count(rt::K_SKIPPED); return; } obtained(S.ed[a], &S.e[a]->parent(), false); if (S.hd[b] >= 0) dropping(S.hd[b]); { rt::Sut s; S.h[b] = FieldPtr(&S.e[a]->parent()); } S.hd[b] = S.ed[a];
  } else if (n == "use") { if (S.ed[a] < 0) { rt::count(rt::K_SKIPPED); return; } std::string t; { rt::Sut s; Elem x = *S.e[a] * *S.e[a]; x += 1; x -= *S.e[a]; t = x.to_string(EANTIC_STR_ALG); S.e[a]->is_rational(); } rt::event_str(t); // nothing that might refine a field other threads use
  } else if (n == "def") { // default constructed elements live in the rational field
    if (S.ed[b] >= 0) { dropping(S.ed[b]); { rt::Sut s; S.e[b].reset(); } S.ed[b] = -1; }
    { rt::Sut s; if (op.a[2] & 1) S.e[b].emplace(); else S.e[b].emplace(42); } obtained(0, &S.e[b]->parent(), true); S.ed[b] = 0;
  } else if (n == "snd") { Mail& m = mail[op.a[1] % NM]; if (S.hd[a] < 0 || m.hd != -1) { rt::count(rt::K_SKIPPED); return; } rt::hb_acquire(&m); m.hd = -2; { rt::Sut s; m.h = std::move(S.h[a]); } m.hd = S.hd[a]; S.hd[a] = -1; rt::hb_release(&m); rt::hpoint();
  } else if (n == "rcv") { Mail& m = mail[op.a[1] % NM]; if (m.hd < 0) { rt::count(rt::K_SKIPPED); rt::hpoint(); return; } rt::hb_acquire(&m); int d = m.hd; m.hd = -2; FieldPtr q; { rt::Sut s; q = std::move(m.h); } m.hd = -1; rt::hb_release(&m); if (S.hd[a] >= 0) dropping(S.hd[a]); { rt::Sut s; S.h[a] = std::move(q); } S.hd[a] = d; rt::hpoint();
  } else if (n == "gcp") { int g = (int)(op.a[1] % NG); if (ghd[g] < 0) return; obtained(ghd[g], gh[g].get(), false); if (S.hd[a] >= 0) dropping(S.hd[a]); { rt::Sut s; S.h[a] = gh[g]; } S.hd[a] = ghd[g];
  } else if (n == "gce") { int g = (int)(op.a[1] % NG); if (ged[g] < 0) return; obtained(ged[g], &ge[g]->parent(), false); if (S.ed[a] >= 0) dropping(S.ed[a]); { rt::Sut s; if (S.e[a]) *S.e[a] = *ge[g]; else S.e[a].emplace(*ge[g]); } S.ed[a] = ged[g];
  } else if (n == "chk") { if (S.hd[a] < 0) return; int d = S.hd[a]; std::string nm; slong deg; { rt::Sut s; nm = S.h[a]->gen_name(); deg = S.h[a]->degree(); Elem g = S.h[a]->gen(); } if (nm != descs[d].name || deg != descs[d].k->deg) rt::violation("wrong-field", "a held field changed its name or degree"); rt::count(rt::K_CHECKS);
  }
}
void drop_all(Slots& S, uint64_t seed) {
  Rng r(seed); std::vector<int> order; for (int i = 0; i < NH + NE; i++) order.push_back(i); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
  for (int i : order) { if (i < NH) { if (S.hd[i] >= 0) dropping(S.hd[i]); { rt::Sut s; S.h[i].reset(); } S.hd[i] = -1; } else { int j = i - NH; if (S.ed[j] >= 0) dropping(S.ed[j]); { rt::Sut s; S.e[j].reset(); } S.ed[j] = -1; } }
}
void run_sharing(const Script& s, const rt::Config& c) {
  int nt = (int)s.get("threads", 2); make_descs(s.seed, (int)s.get("fields", 2), true);
  live.assign(descs.size(), Live()); for (size_t d = 0; d < descs.size() && d < 64; d++) snprintf(watch_names[d], 64, "field %zu (%.40s)", d, descs[d].poly.c_str());
  mail = new Mail[NM]; gh = new FieldPtr[NG]; ge = new std::optional<Elem>[NG]; for (int g = 0; g < NG; g++) ghd[g] = ged[g] = -1;
  int gl = (int)s.get("globals", 0);
  for (int g = 0; g < gl; g++) { int d = 1 + g % (int)(descs.size() - 1); { rt::Sut q; gh[g] = make_desc(d, 0, s.seed + g, nullptr); } obtained(d, gh[g].get(), true); ghd[g] = d; { rt::Sut q; ge[g].emplace(gh[g]->gen()); } obtained(d, gh[g].get(), false); ged[g] = d; }
  if (s.get("pretouch", 1)) { rt::Sut q; Elem e; }
  std::vector<std::function<void()>> fns;
  for (int t = 1; t <= nt; t++) { slots[t] = new Slots(); std::vector<Op> mine; for (auto& o : s.ops) if (o.client == t) mine.push_back(o);
    fns.push_back([t, mine, &s] { for (auto& o : mine) { exec_op(*slots[t], o); } drop_all(*slots[t], s.seed + t); }); }
  rt::run_threads(fns, [] { flint_cleanup(); });
  for (int m = 0; m < NM; m++) if (mail[m].hd >= 0) { dropping(mail[m].hd); rt::Sut q; mail[m].h.reset(); }
  for (int g = 0; g < NG; g++) { if (ged[g] >= 0) { dropping(ged[g]); rt::Sut q; ge[g].reset(); } if (ghd[g] >= 0) { dropping(ghd[g]); rt::Sut q; gh[g].reset(); } }
  for (auto& l : live) if (l.holds) { rt::violation("simulator", "holds left"); }
  const eantic::renf_class* triv; { rt::Sut q; triv = &eantic::renf_class::make(); }
  for (auto& x : seen) if (x.second != (const void*)triv && rt::block_id(x.second) == x.first) rt::violation("field-leaked", "a field is still there after all references to it are gone");
  rt::count(rt::K_CHECKS);
  // everything can be created again, exactly once
  for (int same = 0; same < 2; same++) { // one after the other, then all of them at once
    std::vector<FieldPtr> all(descs.size());
    for (size_t d = 1; d < descs.size(); d++) { FieldPtr p, q; { rt::Sut z; p = make_desc((int)d, 0, same ? 1 : s.seed * 7 + d, nullptr); q = make_desc((int)d, 3, s.seed * 5 + d, nullptr); } obtained((int)d, p.get(), true); obtained((int)d, q.get(), true); dropping((int)d); if (same) { rt::Sut z; all[d] = p; q.reset(); p.reset(); continue; } dropping((int)d); uint64_t id = rt::block_id(p.get()); const void* at = p.get(); { rt::Sut z; p.reset(); q.reset(); } if (rt::block_id(at) == id) rt::violation("field-leaked", "a field is still there after all references to it are gone"); }
    for (size_t d = 1; d < descs.size(); d++) if (all[d]) { dropping((int)d); uint64_t id = rt::block_id(all[d].get()); const void* at = all[d].get(); { rt::Sut z; all[d].reset(); } if (rt::block_id(at) == id) rt::violation("field-leaked", "a field is still there after all references to it are gone"); } }
  std::string w; if (!rt::mutexes_free(&w)) rt::violation("deadlock", "a lock (%s) is still held", w.c_str());
}

// ---------------------------------------------------------------- C03
struct Prog { int id; std::vector<Op> ops; std::vector<std::string> log; };
FieldPtr* shared_field; FieldP shared_model; std::vector<FieldP> priv_model;
void run_prog(Prog& P, const FieldPtr& sh, bool mt) {
  FieldPtr priv; std::optional<Elem> e[6]; bool prv[6]; for (bool& b : prv) b = false;
  FieldP pm = priv_model[P.id]; auto put = [&](const std::string& s) { P.log.push_back(s); };
  auto field = [&](bool p) -> const eantic::renf_class& { return p ? *priv : *sh; };
  { Ball b; { Rng r(P.id * 77 + 5); long p = 64; while (!good_ball(pm, r, p, b)) p *= 2; } rt::Sut s; priv = eantic::renf_class::make(pm->poly_string(), pm->name, b.text, 64 * (P.id & 1 ? 1 : 2)); }
  for (auto& op : P.ops) {
    const std::string& n = op.name; Rng r(op.seed); int a = (int)(op.a[0] % 6), b = (int)(op.a[1] % 6), c = (int)(op.a[2] % 6); bool p = op.a[3] & 1; if (mt) rt::count(rt::K_OPS);
    auto m = p ? pm : shared_model;
    if (n == "new") { std::string t; { Val v = r.one_in(3) ? model::gen_tiny(r, m) : model::gen_val(r, m, 40); if (v.bits() > 400) v = model::gen(m); t = v.str(); } rt::Sut s; switch (op.a[4] % 5) { case 0: e[a].emplace(field(p).gen()); break; case 1: e[a].emplace(field(p), (long)r.range(-1000, 1000)); break; default: e[a].emplace(field(p), t); } prv[a] = p; continue; }
    if (n == "fld") { std::string t; { rt::Sut s; std::ostringstream o; switch (op.a[4] % 5) { case 0: o << field(p).to_string(); break; case 1: o << field(p).degree() << field(p).gen_name(); break; case 2: o << std::get<2>(field(p).construction()); break; case 3: { Elem x = field(p).one(); x += field(p).gen(); o << x.to_string(EANTIC_STR_ALG); break; } default: { Elem x(field(p).zero()); o << x.is_zero() << field(p).gen().is_integer() << std::hash<Elem>()(field(p).gen()); } } t = o.str(); } put(t); continue; }
    if (n == "mkp") { std::string t; { rt::Sut s; auto cc = priv->construction(); FieldPtr q = eantic::renf_class::make(std::get<0>(cc), std::get<1>(cc), std::get<2>(cc), std::get<3>(cc)); t = q == priv ? "same" : "other"; auto z = eantic::renf_class::make(std::string("t") + char(65 + P.id) + "^2 - 2", std::string("t") + char(65 + P.id), "1.4 +/- 0.1"); t += z->to_string(); } put(t); continue; }
    if (n == "rat") { std::string t; { rt::Sut s; Elem x((int)r.range(-50, 50)); x += mpq_class(3, 7); x *= 2; if (e[a] && !(e[a]->is_rational())) { Elem y = *e[a] + x; t = y.to_string(EANTIC_STR_ALG); } else t = x.to_string(); } put(t); continue; }
    if (!e[a]) { if (mt) rt::count(rt::K_SKIPPED); continue; }
    if (n == "ref") { if (prv[a]) { rt::Sut s; renf_refine_embedding(priv->renf_t(), 64 + r.below(300)); renf_elem_set_evaluation(e[a]->renf_elem_t(), priv->renf_t(), 2 + r.below(100)); } continue; }
    if (n == "un") { std::string t; { rt::Sut s; std::ostringstream o; Elem& x = *e[a]; switch (op.a[4] % 13) {
        case 0: o << x.floor(); break; case 1: o << x.ceil(); break; case 2: o << x.sgn(); break; case 3: { char bb[64]; snprintf(bb, 64, "%a", (double)x); o << bb; break; } case 4: o << x.to_string(EANTIC_STR_ALG | EANTIC_STR_D); break;
        case 5: o << x.to_string(EANTIC_STR_ARB); break; case 6: o << std::hash<Elem>()(x); break; case 7: o << x.is_integer() << x.is_rational() << x.den(); break; case 8: { Elem y = x.pow((int)r.below(4)); o << y.to_string(EANTIC_STR_ALG); break; }
        case 9: { Elem y = -x; o << y.to_string(EANTIC_STR_ALG); break; } case 10: { auto v = x.num_vector(); for (auto& z : v) o << z << ","; break; } case 11: o << x; break;
        default: { std::istringstream in("(" + x.to_string(EANTIC_STR_ALG) + ") 17"); field(prv[a]).set_pword(in); Elem y(field(prv[a])), z(field(prv[a])); in >> y >> z; o << (y == x) << z.to_string(EANTIC_STR_ALG); } } t = o.str(); } put(t); continue; }
    if (n == "api") { Elem* y = e[b] && prv[b] == prv[a] ? &*e[b] : &*e[a]; std::string t; { rt::Sut s; t = api::run((int)(op.a[4] % api::COUNT), *e[a], *y, field(prv[a]), r, P.id); } put(t); continue; }
    if (n == "cp") { if (a == b) continue; rt::Sut s; if (e[b]) *e[b] = *e[a]; else e[b].emplace(*e[a]); prv[b] = prv[a]; continue; }
    if (n == "dr") { rt::Sut s; e[a].reset(); continue; }
    if (!e[b] || prv[a] != prv[b]) { if (mt) rt::count(rt::K_SKIPPED); continue; }
    if (n == "cmp") { std::string t; { rt::Sut s; std::ostringstream o; o << (*e[a] < *e[b]) << (*e[a] == *e[b]) << (*e[a] >= *e[b]); t = o.str(); } put(t); continue; }
    if (n == "bin") { int k = (int)(op.a[4] % 5); if (k >= 3 && e[b]->is_zero()) continue; std::string t; { rt::Sut s; Elem x = *e[a]; switch (k) { case 0: x += *e[b]; break; case 1: x -= *e[b]; break; case 2: x *= *e[b]; break; case 3: x /= *e[b]; break; default: { auto q = x.floordiv(*e[b]); t = q.get_str(); } } if (k < 4) { t = x.to_string(EANTIC_STR_ALG); if (t.size() < 300) { e[c] = x; prv[c] = prv[a]; } } } put(t); continue; }
  }
  { rt::Sut s; for (auto& x : e) x.reset(); priv.reset(); }
}
void run_isolation(const Script& s, const rt::Config& c) {
  int nt = (int)s.get("threads", 2); Rng r(s.seed); 
  { ZPoly f; do f = model::gen_poly(r, 4, 16); while (f.size() < 3); shared_model = model::make_field(f, 1, (int)r.below(3), "s"); }
  priv_model.clear(); for (int t = 0; t <= nt; t++) { ZPoly f; do f = model::gen_poly(r, 3, 10); while (f.size() < 3); priv_model.push_back(model::make_field(f, 1, (int)r.below(3), std::string("p") + char('A' + t))); }
  FieldPtr sh; Ball b; long p = 64; while (!good_ball(shared_model, r, p, b)) p *= 2;
  { rt::Sut q; sh = eantic::renf_class::make(shared_model->poly_string(), "s", b.text, p); renf_refine_embedding(sh->renf_t(), 20000); renf_set_immutable(sh->renf_t(), 1); if (s.get("pretouch", 0)) { Elem e; } }
  std::vector<Prog> seq(nt), par(nt);
  for (int t = 0; t < nt; t++) { seq[t].id = par[t].id = t; for (auto& o : s.ops) if (o.client == t + 1) seq[t].ops.push_back(o); par[t].ops = seq[t].ops; }
  // an operation that needs a better embedding of the immutable field stops the program, so this run ends there and is not judged
  rt::assert_throws = true;
  auto prog = [&](Prog& p, bool mt) { try { run_prog(p, sh, mt); } catch (rt::AssertStop& e) { rt_in_sut = 0; rt::count(rt::F_IMMUTABLE_STOP); if (e.what.find("immutable") == std::string::npos) rt::violation("assertion", "assertion failed: %s", e.what.c_str()); rt::invalid("an operation needed a better embedding of the immutable field"); } };
  auto sequential = [&] { for (int t = 0; t < nt; t++) prog(seq[t], false); };
  bool first = s.get("seqfirst", 1);
  if (first) sequential(); else if (rt::rehearse(sequential) == 43) rt::invalid("an operation needed a better embedding of the immutable field");
  std::vector<std::function<void()>> fns; for (int t = 0; t < nt; t++) fns.push_back([&, t] { prog(par[t], true); });
  rt::run_threads(fns, [] { flint_cleanup(); });
  if (!first) sequential();
  for (int t = 0; t < nt; t++) {
    if (seq[t].log.size() != par[t].log.size()) rt::violation("different-result", "thread %d produced %zu instead of %zu results", t + 1, par[t].log.size(), seq[t].log.size());
    for (size_t i = 0; i < seq[t].log.size(); i++) { rt::count(rt::K_CHECKS); rt::event_str(seq[t].log[i]); if (seq[t].log[i] != par[t].log[i]) rt::violation("different-result", "thread %d, result %zu: %s but sequentially %s", t + 1, i, par[t].log[i].substr(0, 600).c_str(), seq[t].log[i].substr(0, 600).c_str()); }
  }
  { rt::Sut q; sh.reset(); }
}
}

Script world_generate(const std::string& prop, uint64_t seed) {
  Script s; s.prop = prop; s.seed = seed; Rng r(seed ^ 0xC0FFEE); s.conf["sched_seed"] = (int64_t)(r.u64() >> 2);
  int nt = 2 + (r.one_in(3) ? 1 + (int)r.below(2) : 0); s.conf["threads"] = nt; s.conf["reuse"] = r.below(4);
  switch (r.below(5)) { case 0: case 1: s.conf["policy"] = rt::P_SYNC; { static const int q[] = {2, 3, 5, 10}; s.conf["param"] = q[r.below(4)]; } break; case 2: s.conf["policy"] = rt::P_UNIFORM; { static const int q[] = {5, 30, 200, 1000}; s.conf["param"] = q[r.below(4)]; } break; default: s.conf["policy"] = rt::P_PCT; s.conf["param"] = 1 + r.below(5); { static const int q[] = {200, 800, 2000, 5000, 15000}; s.conf["pct_len"] = q[r.below(5)]; } }
  s.conf["spurious"] = r.one_in(3) ? 2 + r.below(6) : 0; s.conf["pretouch"] = r.below(3) > 0; s.conf["globals"] = r.below(3);
  auto op = [&](int t, const char* n, int64_t a, int64_t b, int64_t c, int64_t d = 0, int64_t e = 0) { Op o; o.client = t; o.name = n; o.a[0] = a; o.a[1] = b; o.a[2] = c; o.a[3] = d; o.a[4] = e; o.seed = r.u64() >> 1; s.ops.push_back(o); };
  if (prop == "C03") {
    s.conf["seqfirst"] = r.below(2); s.conf["pretouch"] = r.below(2);
    if (r.below(2)) { // all threads do the same few things
      int nk = 1 + (int)r.below(3), ks[3]; for (int& k : ks) k = (int)r.below(api::COUNT + 6); bool same = r.below(2);
      for (int t = 1; t <= nt; t++) { int64_t p = same ? 0 : r.below(2); op(t, "new", 0, 0, 0, p, 1 + r.below(4)); op(t, "new", 1, 0, 0, p, 2); int n = 2 + (int)r.below(4);
        for (int i = 0; i < n; i++) { int64_t a = r.below(2), b = r.below(2); int k = ks[r.below(nk)]; if (k < api::COUNT) op(t, "api", a, b, 0, 0, k); else switch (k - api::COUNT) { case 0: op(t, "fld", 0, 0, 0, p, r.below(5)); break; case 1: op(t, "mkp", 0, 0, 0); break; case 2: op(t, "rat", a, 0, 0); break; case 3: op(t, "un", a, 0, 0, 0, r.below(13)); break; case 4: op(t, "cmp", a, b, 0); break; default: op(t, "bin", a, b, 2, 0, r.below(5)); } } }
      return s;
    }
    for (int t = 1; t <= nt; t++) { int n = 4 + (int)r.below(10); bool priv = r.below(2), mixed = r.below(2); auto P = [&] { return (int64_t)(mixed ? r.below(2) : priv); }; op(t, "new", 0, 0, 0, P(), 1 + r.below(4)); op(t, "new", 1, 0, 0, mixed ? r.below(2) : priv, 2);
      for (int i = 0; i < n; i++) { int64_t a = r.below(4), b = r.below(4), c = r.below(6); switch (r.below(19)) { case 16: case 17: case 18: op(t, "api", a, b, 0, 0, r.below(api::COUNT)); break; case 0: op(t, "new", a, 0, 0, P(), r.below(5)); break; case 1: op(t, "fld", 0, 0, 0, r.below(3) == 0, r.below(5)); break; case 2: if (r.one_in(2)) op(t, "mkp", 0, 0, 0); break; case 3: op(t, "rat", a, 0, 0); break; case 4: op(t, "ref", a, 0, 0); break; case 5: case 6: case 7: case 8: op(t, "un", a, 0, 0, 0, r.below(13)); break; case 9: op(t, "cp", a, b, 0); break; case 10: op(t, "dr", a, 0, 0); break; case 11: case 12: op(t, "cmp", a, b, 0); break; default: op(t, "bin", a, b, c, 0, r.below(5)); } } }
    return s;
  }
  s.conf["fields"] = 1 + r.below(3); bool churn = r.below(2);
  for (int t = 1; t <= nt; t++) { int n = 3 + (int)r.below(churn ? 6 : 12);
    for (int i = 0; i < n; i++) {
      int64_t a = r.below(churn ? 2 : 4), b = r.below(4), v = r.one_in(2) ? 0 : r.below(5), d = r.one_in(12) ? 0 : 1 + r.below(s.conf["fields"]);
      if (churn) switch (r.below(10)) { case 0: case 1: case 2: case 3: op(t, "mk", a, d, r.one_in(4) ? v : 0); break; case 4: case 5: case 6: op(t, "drh", a, 0, 0); break; case 7: op(t, "gcp", a, b, 0); break; case 8: op(t, "el", a, b, r.below(4)); break; default: op(t, "dre", b, 0, 0); }
      else switch (r.below(21)) { case 0: case 1: case 2: op(t, "mk", a, d, v); break; case 3: if (r.one_in(3)) op(t, "mkbad", a, d, 0); break; case 4: op(t, "cph", a, b, 0); break; case 5: op(t, "mvh", a, b, 0); break; case 6: op(t, "swh", a, b, 0); break; case 7: case 8: op(t, "drh", a, 0, 0); break; case 9: case 10: op(t, "el", a, b, r.below(4)); break; case 11: op(t, "cpe", a, b, 0); break; case 12: op(t, r.below(2) ? "mve" : "mvx", a, r.below(2) ? b : r.below(6), 0); break; case 13: op(t, "swe", a, b, 0); break; case 14: op(t, "dre", a, 0, 0); break; case 15: op(t, "par", a, b, 0); break; case 16: op(t, r.below(2) ? "use" : "chk", a, 0, 0); break; case 17: op(t, "def", a, b, r.below(2)); break; case 18: op(t, "snd", a, r.below(NM), 0); break; case 19: op(t, "rcv", a, r.below(NM), 0); break; default: op(t, r.below(2) ? "gcp" : "gce", a, b, 0); }
    } }
  return s;
}
int64_t world_execute(const Script& s, int64_t) {
  rt::Config c; c.reuse = (rt::Reuse)s.get("reuse", 0); c.policy = s.replay ? rt::P_REPLAY : (rt::Policy)s.get("policy", rt::P_SYNC); c.seed = (uint64_t)s.get("sched_seed", 1); c.param = (int)s.get("param", 3); c.pct_len = s.get("pct_len", 1000); c.spurious = (int)s.get("spurious", 0); c.replay = s.sched; c.races = s.prop != "C01";
  rt::begin(c);
  if (s.prop == "C03") run_isolation(s, c); else run_sharing(s, c);
  return -1;
}
bool world_threads() { return true; }
