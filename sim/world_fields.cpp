// World Seq: creating fields, describing them in every way, failures while doing so.
#include "world_seq.h"
#include <flint/fmpz_poly_factor.h>
#include <flint/fmpq_vec.h>
#include <flint/fmpz_vec.h>
#include <e-antic/fmpz_poly_extra.h>
#include <e-antic/fmpq_poly_extra.h>
namespace ws {
namespace {
FieldP any_model(Rng& r) { return w->models[1 + r.below((int64_t)w->models.size() - 1)]; }
void set_handle(int i, FieldPtr& p, const FR& f) { FSlot& s = w->F[i & (NF - 1)]; FR old = s.f; sut([&] { s.h = p; p.reset(); }); s.f = f; }
bool throws(const Out& o) { return o.st == 2 || o.st == 3; }
void free_locks(const char* what) { std::string l; if (!rt::mutexes_free(&l)) rt::violation("lock-held", "after %s failed a lock is still held (%s)", what, l.c_str()); }

void do_fld(const Op& op) {
  Rng r(op.seed); FieldP k = w->models[1 + op.a[1] % ((int64_t)w->models.size() - 1)]; Out o; FieldPtr p = make_field(k, (int)(op.a[2] % 3), r, pick_prec(r), o);
  if (o.st) rt::violation("unexpected-exception", "creating the field %s (root %d) failed: %s", k->poly_string().c_str(), k->index, o.what.c_str());
  FR f = adopt(p, k, "make"); set_handle((int)op.a[0], p, f); rt::state(rt::mix64(k->deg * 7 + op.a[2] % 3));
}
void do_drf(const Op& op) { FSlot& s = w->F[op.a[3] & (NF - 1)]; FR f = s.f; sut([&] { s.h.reset(); }); s.f.reset(); }

// any ball, judged by counting the roots in it
void do_mkf(const Op& op) {
  Rng r(op.seed); FieldP k = any_model(r); long prec = pick_prec(r); auto rs = model::roots(k->f); mpq_class mid, rad; int kind = (int)(op.a[3] % 8);
  { Val g = model::gen(k); long bits = 2 + r.below(90); mid = model::approx(g, bits, r.below(2)); 
    if (kind < 4) { rad = abs(mid) + 1; int sh = (int)r.below(100); rad /= mpz_class(1) << sh; }
    else if (kind < 6 && rs.size() > 1) { int j = (int)r.below(rs.size()); mpq_class o = model::approx(model::gen(rs[j]), bits, r.below(2)); rad = abs(o - mid) / 2; mid = (mid + o) / 2; rad *= mpq_class(r.range(1, 40), 20); rad.canonicalize(); if (rad == 0) rad = mpq_class(1, 1000); }
    else { rad = mpq_class(1) / (mpz_class(1) << r.below(40)); mid += rad * r.range(-3, 3) / 2; } }
  int digits = 0; mpq_class x = rad; while (x < 1000 && digits < 300) { x *= 10; digits++; } std::string ms = decimal(mid, digits), rss = decimal(rad, digits); mpq_class mm = from_decimal(ms), rr = from_decimal(rss); std::string text = ms + " +/- " + rss;
  mpq_class slack = (abs(mm) + rr) / (mpz_class(1) << (prec > 2 ? prec - 2 : 0)) + rr / 64 + mpq_class(1) / (mpz_class(1) << 5000); mpq_class lo = mm - rr, hi = mm + rr, LO = lo - slack, HI = hi + slack;
  std::vector<FieldP> in, out; for (auto& q : rs) { auto kk = model::make_field(k->f, k->den, q->index, k->name); Val g = model::gen(kk); if (model::cmpq(g, lo) >= 0 && model::cmpq(g, hi) <= 0) in.push_back(kk); if (model::cmpq(g, LO) >= 0 && model::cmpq(g, HI) <= 0) out.push_back(kk); }
  bool decidable = true;
  FieldPtr p; std::string poly = k->poly_string(); int var = (int)r.below(2); Out o = sut([&] { if (var) p = eantic::renf_class::make(poly, k->name, text, prec); else { int calls = 0; p = eantic::renf_class::make(poly, k->name, [&](slong) -> std::string { if (calls++) throw std::invalid_argument("enough"); return text; }, prec); } });
  rt::trace("  make %s %s [%s] prec %ld: %zu/%zu roots, %s", poly.c_str(), k->name.c_str(), text.c_str(), prec, in.size(), out.size(), o.st ? o.what.c_str() : "accepted"); rt::state(rt::mix64(in.size() * 8 + out.size() + 64 * (o.st == 0) + 128 * std::min(k->deg, 4)));
  if (o.st == 1 || o.st == 3) rt::violation("assertion", "make failed: %s", o.what.c_str());
  if (o.st == 2) { rt::count(rt::F_BADINPUT); if (w->J(FIELD)) { checked(); if (in.size() == 1 && out.size() == 1 && decidable) rt::violation("refused", "the ball %s describes exactly root %d of %s (precision %ld) but was refused: %s", text.c_str(), in[0]->index, poly.c_str(), prec, o.what.c_str()); } return; }
  if (w->J(FIELD)) { checked(); if (out.empty()) rt::violation("not-refused", "the ball %s contains no root of %s but was accepted", text.c_str(), poly.c_str()); if (in.size() > 1) rt::violation("not-refused", "the ball %s contains %zu roots of %s but was accepted", text.c_str(), in.size(), poly.c_str()); }
  FieldP got; if (in.size() == 1) got = in[0]; else { for (auto& c : out) if (contains(p->renf_t()->emb, model::gen(c))) { if (got) rt::invalid("ambiguous"); got = c; } if (!got) { if (w->J(FIELD)) rt::violation("wrong-root", "the field has none of the roots in the ball"); rt::invalid("no root"); } }
  for (auto& m : w->models) if (same_field(m, got)) got = m; FR f = adopt(p, got, "make"); set_handle((int)op.a[0], p, f);
}
// descriptions that describe nothing
void do_mkx(const Op& op) {
  Rng r(op.seed); FieldP k = any_model(r); std::string poly = k->poly_string(), name = k->name, ball; long prec = pick_prec(r); Ball b; long p2 = prec; while (!good_ball(k, r, p2, b)) p2 *= 2; prec = p2; ball = b.text; int kind = (int)(op.a[3] % 8); const char* what = "";
  switch (kind) { case 0: poly = "@" + poly; what = "malformed polynomial"; break; case 1: poly += " @"; what = "malformed polynomial"; break; case 2: ball = "abc"; what = "malformed ball"; break; case 3: ball += " x"; what = "malformed ball"; break; case 4: ball = "1e60 +/- 1"; what = "ball without root"; break; case 5: poly = "17"; what = "constant polynomial"; break; case 6: { std::string n = name + "q"; poly = poly; name = n; what = "other variable"; break; } default: poly = "1/0*" + poly; what = "zero denominator"; }
  if (kind == 6 && poly.find(k->name) == std::string::npos) return; rt::count(rt::F_BADINPUT); rt::state(rt::mix64(1000 + kind)); FieldPtr p; int var = (int)r.below(2); Out o = sut([&] { if (var) p = eantic::renf_class::make(poly, name, ball, prec); else { int calls = 0; p = eantic::renf_class::make(poly, name, [&](slong) -> std::string { if (calls++ > 3) throw std::invalid_argument("enough"); return ball; }, prec); } });
  if (w->J(FIELD)) { checked(); if (o.st != 2) rt::violation("not-refused", "%s was not refused: make(\"%s\", \"%s\", \"%s\", %ld)", what, poly.c_str(), name.c_str(), ball.c_str(), prec); } free_locks("make"); sut([&] { p.reset(); });
}
struct CallbackError : std::runtime_error { int n; explicit CallbackError(int n) : std::runtime_error("callback"), n(n) {} };
// a callback that is wide, wrong, throws or re-enters
void do_cbk(const Op& op) {
  Rng r(op.seed); FieldP k = any_model(r); std::string poly = k->poly_string(); long prec = pick_prec(r); int wide = (int)r.below(4), fail = (int)(op.a[3] % 8); if (k->deg == 1) wide = 0; bool reenter = r.one_in(3); FieldP other = any_model(r); int calls = 0; std::vector<long> precs; std::string last; FieldPtr p, inner; bool threw = false; FR keep;
  int failat = fail < 3 ? (int)r.below(wide + 1) : -1; uint64_t is = r.u64();
  auto cb = [&](slong pr) -> std::string { rt::Host h; precs.push_back(pr); int c = calls++; 
    if (c == failat) { if (fail == 0) { rt::count(rt::F_CALLBACK_THROW); throw CallbackError(c); } if (fail == 1) { rt::count(rt::F_CALLBACK_THROW); return "nonsense"; } rt::count(rt::F_CALLBACK_THROW); throw std::bad_alloc(); }
    if (reenter && c == 0) { rt::count(rt::F_CALLBACK_REENTER); Rng q(is); Ball b; long pp = 64; while (!good_ball(other, q, pp, b)) pp *= 2; std::string ip = other->poly_string(); rt_in_sut = 1; inner = eantic::renf_class::make(ip, other->name, b.text, pp); Elem e = inner->gen(); e += 1; rt_in_sut = 0; }
    if (c < wide) return "0 +/- 1e80"; Ball b; Rng q(is + 5 + c); if (good_ball(k, q, pr, b)) { last = b.text; return b.text; } if (c > 40) throw std::runtime_error("too many calls"); return "0 +/- 1e80"; };
  Out o; CallbackError* ce = nullptr; int en = -1; bool right = false;
  o = sut([&] { try { p = eantic::renf_class::make(poly, k->name, cb, prec); } catch (CallbackError& e) { right = true; throw; } });
  for (size_t i = 1; i < precs.size(); i++) if (w->J(FIELD) && precs[i] <= precs[i - 1]) rt::violation("callback", "the callback was asked for precision %ld after %ld", precs[i], precs[i - 1]);
  rt::state(rt::mix64(2000 + wide * 16 + fail + (reenter ? 256 : 0)));
  if (failat >= 0 && calls > failat) {
    if (w->J(FIELD) || w->J(ARITH)) { checked(); if (o.st == 0 || o.st == 1) rt::violation("not-refused", "make returned although the callback failed"); if (fail == 0 && !right) rt::violation("callback", "the exception of the callback did not reach the caller (%s)", o.what.c_str()); if (fail == 2 && o.st != 3) rt::violation("callback", "the exception of the callback did not reach the caller (%s)", o.what.c_str()); }
    free_locks("make"); failat = -1; wide = 0; calls = 0; reenter = false; precs.clear(); o = sut([&] { p = eantic::renf_class::make(poly, k->name, cb, prec); }); // the same again, without the fault
  }
  if (o.st) { if (w->J(FIELD)) rt::violation("refused", "make with a converging callback failed: %s (last answer %s)", o.what.c_str(), last.c_str()); rt::invalid("make failed"); }
  if (inner) { for (auto& m : w->models) if (same_field(m, other)) other = m; if (other == k || same_field(other, k)) {} FR g = adopt(inner, other, "make inside a callback"); set_handle((int)op.a[1], inner, g); }
  FR f = adopt(p, k, "make with a callback"); set_handle((int)op.a[0], p, f);
}
void do_emb(const Op& op) {
  Rng r(op.seed); FieldP k = any_model(r); if (k->deg < 2) { rt::count(rt::K_SKIPPED); return; } ZPoly f = k->f; auto rs = model::roots(f); size_t cb = 0; for (auto& c : f) cb = std::max(cb, mpz_sizeinbase(c.get_mpz_t(), 2)); long prec = r.below(3) ? pick_prec(r) : 64 + 8 * (long)k->deg * (long)cb; if (prec > 4000) prec = 4000;
  fmpz_poly_t p; fmpz_poly_init(p); for (size_t i = 0; i < f.size(); i++) { Fmpz z(f[i]); fmpz_poly_set_coeff_fmpz(p, (slong)i, z.x); } slong lim = r.below(3) ? k->deg : (slong)r.below(k->deg + 1); renf* arr = (renf*)malloc(sizeof(renf) * (k->deg + 1)); slong n = 0; Out o = sut([&] { n = renf_set_embeddings_fmpz_poly(arr, p, lim, prec); });
  if (o.st) rt::violation("assertion", "enumerating embeddings failed: %s", o.what.c_str()); rt::state(rt::mix64(3000 + n * 16 + lim));
  if (w->J(FIELD)) { checked(); if (n != (slong)rs.size()) rt::violation("embeddings", "%ld instead of %zu embeddings of %s", (long)n, rs.size(), k->poly_string().c_str()); }
  slong m = std::min<slong>(n, lim); FieldP k1 = model::make_field(f, 1, 0, k->name);
  std::vector<FieldP> which;
  for (slong i = 0; i < m; i++) { FieldP ki; for (auto& q : rs) { auto c = model::make_field(f, 1, q->index, k->name); if (contains(arr[i].emb, model::gen(c))) { if (ki) rt::violation("embeddings", "an embedding contains two roots"); ki = c; } } if (!ki) { if (w->J(FIELD) || w->J(ENC)) rt::violation("embeddings", "embedding %ld of %s is no root: %s", (long)i, k->poly_string().c_str(), ball_str(arr[i].emb).c_str()); rt::invalid("embedding"); }
    if (w->J(FIELD)) { if (!poly_is(arr + i, ki)) rt::violation("embeddings", "embedding %ld has another polynomial", (long)i); for (slong j = 0; j < i; j++) if (which[j]->index == ki->index || renf_equal(arr + i, arr + j)) rt::violation("embeddings", "embeddings %ld (root %d, %s) and %ld (root %d, %s) of %s are equal", (long)j, which[j]->index, ball_str(arr[j].emb).c_str(), (long)i, ki->index, ball_str(arr[i].emb).c_str(), k->poly_string().c_str()); if (arb_rel_accuracy_bits(arr[i].emb) < prec) rt::violation("embeddings", "an embedding has less than %ld bits", prec); } if (w->J(FIELD) && i && which[i - 1]->index > ki->index) rt::violation("embeddings", "the embeddings of %s are not in increasing order: root %d comes before root %d", k->poly_string().c_str(), which[i - 1]->index, ki->index); which.push_back(ki); }
  // refining an embedding that was only computed to a low precision
  for (slong i = 0; i < m; i++) for (int c = 0; c < 2; c++) { static const int bs[] = {2, 3, 8, 20, 53, 64, 100, 200, 500, 1200}; long p = bs[r.below(r.below(2) ? 5 : 10)], before = arb_rel_accuracy_bits(arr[i].emb); o = sut([&] { renf_refine_embedding(arr + i, p); }); rt::count(rt::F_REFINE); if (o.st) rt::violation("assertion", "refining an embedding failed: %s", o.what.c_str());
    if (w->J(FIELD) || w->J(ENC)) { checked(); long after = arb_rel_accuracy_bits(arr[i].emb); if (after < p || after < before) rt::violation("refinement-goal", "refining embedding %ld of %s to %ld bits ended with %ld bits after %ld", (long)i, k->poly_string().c_str(), p, after, before); if (!contains(arr[i].emb, model::gen(which[i]))) rt::violation("wrong-enclosure", "after refining to %ld bits embedding %ld of %s is %s", p, (long)i, k->poly_string().c_str(), ball_str(arr[i].emb).c_str()); } }
  if (m) { slong i = r.below(m); auto ki = which[i]; for (auto& mm : w->models) if (same_field(mm, ki)) ki = mm; FieldPtr q; o = sut([&] { q = eantic::renf_class::make(arr + i, k->name); }); if (o.st) rt::violation("unexpected-exception", "make from an embedding failed: %s", o.what.c_str()); FR fr = adopt(q, ki, "make from an embedding"); set_handle((int)op.a[0], q, fr); }
  sut([&] { for (slong i = 0; i < m; i++) renf_clear(arr + i); }); free(arr); fmpz_poly_clear(p);
}
void do_nth(const Op& op) {
  Rng r(op.seed); static const int pr[] = {2, 3, 5, 7, 11, 13, 101, 1009}; int a = pr[r.below(8)], b; do b = r.below(2) ? 1 : pr[r.below(8)]; while (b == a); ulong n = 2 + r.below(5); mpz_class num = a, den = b; if (r.one_in(3)) { mpz_class c = model::gen_mpz(r, 60); if (c > 0 && c % a != 0 && gcd(c, den) == 1) num *= c; } long prec = 64 + r.below(200);
  ZPoly f(n + 1, 0); f[0] = -num; f[n] = den; auto rs = model::roots(f); auto k = model::make_field(f, den, (int)rs.size() - 1, "z"); for (auto& m : w->models) if (same_field(m, k)) k = m; Fmpq d(mpq_class(num, den)); renf_t nf; Out o = sut([&] { renf_init_nth_root_fmpq(nf, d.x, n, prec); }); if (o.st) rt::violation("assertion", "renf_init_nth_root_fmpq failed: %s", o.what.c_str());
  if (w->J(FIELD)) { checked(); if (!poly_is(nf, k)) rt::violation("wrong-field", "the field of the %lu-th root of %s/%s has another polynomial", n, num.get_str().c_str(), den.get_str().c_str()); if (!contains(nf->emb, model::gen(k))) rt::violation("wrong-root", "the field of the %lu-th root of %s/%s has another root: %s", n, num.get_str().c_str(), den.get_str().c_str(), ball_str(nf->emb).c_str()); }
  FieldPtr q; o = sut([&] { q = eantic::renf_class::make(nf, "z"); renf_clear(nf); }); if (o.st) rt::violation("unexpected-exception", "make failed: %s", o.what.c_str()); FR fr = adopt(q, k, "make from an n-th root"); set_handle((int)op.a[0], q, fr); rt::state(rt::mix64(4000 + n));
}
FR some_field(Rng& r, int64_t i) { FSlot& s = w->F[i & (NF - 1)]; if (s.f && r.below(2)) return s.f; Slot& x = S(i); if (usable(x)) return x.f; return s.f; }
void do_con(const Op& op) {
  Rng r(op.seed); FR f = some_field(r, op.a[0]); if (!f) { rt::count(rt::K_SKIPPED); return; } std::tuple<std::string, std::string, std::string, slong> c; FieldPtr p; Out o;
  if (r.below(2) && !f->imm) { static const int bs[] = {53, 64, 100, 200, 1000, 3000}; long b = bs[r.below(6)]; rt::count(rt::F_REFINE); o = sut([&] { renf_refine_embedding(f->addr->renf_t(), b); }); if (o.st) rt::violation("assertion", "refining failed: %s", o.what.c_str()); }
  o = sut([&] { c = f->addr->construction(); }); if (o.st) rt::violation("unexpected-exception", "construction() failed: %s", o.what.c_str()); FieldP k = f->k;
  if (w->J(FIELD)) { checked(); if (std::get<1>(c) != k->name) rt::violation("construction", "construction() has the name %s instead of %s", std::get<1>(c).c_str(), k->name.c_str()); }
  bool fresh = op.a[3] & 1; FR hold = f; if (fresh && f != w->triv) { // the field may be gone by the time it is described again
    for (auto& s : w->F) if (s.f == f) { sut([&] { s.h.reset(); }); s.f.reset(); } for (auto& s : w->S) if (s->f == f) drop(*s); bool imm = f->imm; hold.reset(); f.reset(); rt::count(rt::F_DROP_ORDER); }
  rt::trace("  make %s %s [%.200s] prec %ld", std::get<0>(c).c_str(), std::get<1>(c).c_str(), std::get<2>(c).c_str(), (long)std::get<3>(c)); rt::state(rt::mix64(5000 + fresh * 8 + std::min(k->deg, 4)));
  int var = (int)r.below(3); o = sut([&] { if (var) p = eantic::renf_class::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); else p = eantic::renf_class::make(std::get<0>(c), std::get<1>(c), [&](slong) { return std::get<2>(c); }, std::get<3>(c)); });
  if (o.st) { if (w->J(FIELD) || o.st != 2) rt::violation("construction", "the construction of a field (%s, %s, %.600s, %ld) was refused: %s", std::get<0>(c).c_str(), std::get<1>(c).c_str(), std::get<2>(c).c_str(), (long)std::get<3>(c), o.what.c_str()); rt::invalid("construction refused"); }
  FR g = adopt(p, k, "construction()"); set_handle((int)op.a[1], p, g);
}
void do_fcp(const Op& op) {
  Rng r(op.seed); FR f = some_field(r, op.a[0]); if (!f) { rt::count(rt::K_SKIPPED); return; } renf_t c; renf* n = f->addr->renf_t(); std::string before = arb_dump(n->emb); long prec = n->prec; long b = 64 + r.below(600); Out o = sut([&] { renf_init_set(c, n); }); if (o.st) rt::violation("assertion", "copying a field failed: %s", o.what.c_str()); FieldP k = f->k; rt::state(rt::mix64(6000 + std::min(k->deg, 4) + (f->imm ? 16 : 0)));
  bool imm = c->immutable; if (imm) sut([&] { renf_set_immutable(c, 0); });
  o = sut([&] { renf_refine_embedding(c, b); }); if (o.st) rt::violation("assertion", "refining a copy of a field failed: %s", o.what.c_str());
  if (w->J(ENC) || w->J(FIELD)) { checked(); if (!contains(c->emb, model::gen(k)) || arb_rel_accuracy_bits(c->emb) < b) rt::violation("wrong-enclosure", "a refined copy of a field has the embedding %s", ball_str(c->emb).c_str()); if (arb_dump(n->emb) != before || n->prec != prec) rt::violation("value-changed", "refining a copy of a field changed the original"); }
  int eq = 0; o = sut([&] { eq = renf_equal(c, n) && renf_equal(n, c); }); if (w->J(FIELD) && (o.st || !eq)) rt::violation("wrong-field", "a refined copy of a field is not equal to it");
  for (auto& y : w->all) { FR g = y.lock(); if (!g || g == f || g->k->deg != k->deg || !poly_is(g->addr->renf_t(), k)) continue; int e2 = 0; bool same = g->k->index == k->index; o = sut([&] { e2 = renf_equal(c, g->addr->renf_t()); }); if (w->J(FIELD)) { checked(); if (o.st || !!e2 != same) rt::violation("wrong-field", "renf_equal gives %d for roots %d and %d of %s", e2, k->index, g->k->index, k->poly_string().c_str()); } }
  if (op.a[3] & 1) { FieldPtr p; o = sut([&] { p = eantic::renf_class::make(c, k->name); }); if (o.st) rt::violation("unexpected-exception", "make failed: %s", o.what.c_str()); FR g = adopt(p, k, "make from a copy"); set_handle((int)op.a[1], p, g); }
  sut([&] { renf_clear(c); });
}
// the random generators, driven by a seeded random state
struct RandState { flint_rand_t st; RandState(uint64_t a, uint64_t b) { flint_randinit(st); flint_randseed(st, a, b); } ~RandState() { flint_randclear(st); } RandState(const RandState&) = delete; };
ZPoly zpoly(const fmpz* c, slong n) { ZPoly f; for (slong i = 0; i < n; i++) { fmpz_t t; *t = c[i]; f.push_back(to_mpz(t)); } return f; }
// (as in FLINT, a non-zero constant counts as irreducible)
void random_poly_ok(const ZPoly& f, slong len, ulong bits, size_t minlen, const char* what) {
  checked(); std::string t; for (auto& c : f) t += c.get_str() + " "; if (f.size() < minlen || (slong)f.size() > len || f.back() == 0) rt::violation("random", "%s of length %ld has the wrong length: %s", what, (long)len, t.c_str());
  for (auto& c : f) if (c != 0 && mpz_sizeinbase(c.get_mpz_t(), 2) > bits) rt::violation("random", "%s with coefficients of %lu bits has a bigger coefficient: %s", what, bits, t.c_str());
  if (f.size() < 2) return;
  fmpz_poly_t p; fmpz_poly_init(p); for (size_t i = 0; i < f.size(); i++) { Fmpz z(f[i]); fmpz_poly_set_coeff_fmpz(p, (slong)i, z.x); } fmpz_poly_factor_t fac; fmpz_poly_factor_init(fac); fmpz_poly_factor(fac, p); bool irr = fac->num == 1 && fac->exp[0] == 1; fmpz_poly_factor_clear(fac); fmpz_poly_clear(p);
  if (!irr) rt::violation("random", "%s is not irreducible: %s", what, t.c_str());
}
void random_elem_ok(renf_elem_t e, const renf* n, const FieldP& k) {
  checked(); Val v = peek(e, n, k); if (!contains(e->emb, v)) rt::violation("random", "the enclosure %s of a random element does not contain %s", ball_str(e->emb).c_str(), show(v).c_str());
  nf_elem_t c; nf_elem_init(c, n->nf); fmpq_poly_t p; fmpq_poly_init(p); for (int i = 0; i < k->deg; i++) { Fmpq q(v.coeff(i)); fmpq_poly_set_coeff_fmpq(p, i, q.x); } nf_elem_set_fmpq_poly(c, p, n->nf); bool eq = nf_elem_equal(c, e->elem, n->nf); fmpq_poly_clear(p); nf_elem_clear(c, n->nf);
  if (!eq) rt::violation("random", "a random element is not in canonical form: %s", show(v).c_str());
}
void do_rnd(const Op& op) {
  Rng r(op.seed); int kind = (int)(op.a[3] % 4); uint64_t s1 = r.below(8) ? r.u64() : r.below(3) - 1, s2 = r.below(8) ? r.u64() : r.below(3) - 1; slong len = 2 + r.below(r.below(3) ? 4 : 9); ulong bits = 2 + r.below(r.below(2) ? 6 : 70); long prec = pick_prec(r); RandState A(s1, s2), B(s1, s2); Out o; rt::state(rt::mix64(9000 + kind * 64 + len * 4 + std::min<ulong>(bits, 3)));
  rt::trace("  random state %lx %lx, length %ld, %lu bits, precision %ld", (long)s1, (long)s2, (long)len, bits, prec);
  if (kind == 0) {
    fmpz_poly_t p, q; fmpz_poly_init(p); fmpz_poly_init(q); for (int i = 0; i < 3; i++) { o = sut([&] { fmpz_poly_randtest_irreducible(p, A.st, len, bits); fmpz_poly_randtest_irreducible(q, B.st, len, bits); }); if (o.st) rt::violation("assertion", "a random polynomial failed: %s", o.what.c_str());
      if (w->J(FIELD)) { random_poly_ok(zpoly(p->coeffs, p->length), len, bits, 1, "a random irreducible polynomial"); if (!fmpz_poly_equal(p, q)) rt::violation("random", "the same random state gives two different polynomials"); } }
    fmpz_poly_clear(p); fmpz_poly_clear(q); return;
  }
  if (kind == 3) { FR f = some_field(r, op.a[0]); if (!f) { rt::count(rt::K_SKIPPED); return; } renf* n = f->addr->renf_t(); std::string before = arb_dump(n->emb);
    for (int i = 0; i < 3; i++) { renf_elem_t a, b; o = sut([&] { renf_elem_init(a, n); renf_elem_init(b, n); renf_elem_randtest(a, A.st, bits, n); renf_elem_randtest(b, B.st, bits, n); }); if (o.st) rt::violation("assertion", "a random element failed: %s", o.what.c_str()); if (w->J(FIELD)) { random_elem_ok(a, n, f->k); if (!nf_elem_equal(a->elem, b->elem, n->nf)) rt::violation("random", "the same random state gives two different elements"); if (arb_dump(n->emb) != before) rt::violation("random", "a random element changed its field"); } sut([&] { renf_elem_clear(a, n); renf_elem_clear(b, n); }); }
    return; }
  renf_t n, m; o = sut([&] { renf_randtest(n, A.st, len, prec, bits); renf_randtest(m, B.st, len, prec, bits); }); if (o.st) rt::violation("assertion", "a random field failed: %s", o.what.c_str());
  ZPoly f = zpoly(fmpq_poly_numref(n->nf->pol), n->nf->pol->length); if (w->J(FIELD)) { random_poly_ok(f, len, bits, 2, "the polynomial of a random field"); if (!fmpz_is_one(fmpq_poly_denref(n->nf->pol))) rt::violation("random", "the polynomial of a random field has a denominator"); }
  FieldP k; int cnt = 0; auto rs = model::roots(f); for (auto& q : rs) { auto c = model::make_field(f, 1, q->index, "z"); if (contains(n->emb, model::gen(c))) { cnt++; k = c; } }
  if (cnt != 1) { if (w->J(FIELD)) rt::violation("random", "the embedding %s of a random field contains %d of the %zu roots of its polynomial", ball_str(n->emb).c_str(), cnt, rs.size()); rt::invalid("random field"); }
  if (w->J(FIELD)) { checked(); if (!poly_is(n, k) || n->prec != prec || n->immutable) rt::violation("random", "a random field has a wrong precision or is immutable"); if (k->deg > 1 && arb_rel_accuracy_bits(n->emb) < prec) rt::violation("random", "a random field has less than %ld bits: %s", prec, ball_str(n->emb).c_str()); ZPoly d = zpoly(n->der->coeffs, n->der->length); ZPoly e; for (size_t i = 1; i < f.size(); i++) e.push_back(f[i] * (long)i); if (d != e) rt::violation("random", "a random field has a wrong derivative"); if (!renf_equal(n, m) || arb_dump(n->emb) != arb_dump(m->emb)) rt::violation("random", "the same random state gives two different fields"); }
  for (auto& x : w->models) if (same_field(x, k)) k = x;
  for (int i = 0; i < 2; i++) { renf_elem_t a; o = sut([&] { renf_elem_init(a, n); renf_elem_randtest(a, A.st, bits, n); }); if (o.st) rt::violation("assertion", "a random element failed: %s", o.what.c_str()); if (w->J(FIELD)) random_elem_ok(a, n, k); sut([&] { renf_elem_clear(a, n); }); }
  FieldPtr p; if (op.a[4] & 1) { o = sut([&] { p = eantic::renf_class::make(n, "z"); }); if (o.st) rt::violation("unexpected-exception", "make failed: %s", o.what.c_str()); FR g = adopt(p, k, "make from a random field"); set_handle((int)op.a[1], p, g); }
  sut([&] { renf_clear(n); renf_clear(m); });
}
// isolating the real roots of any squarefree polynomial, on which the choice of an embedding is built
struct ZP { fmpz_poly_t p; ZP(const ZPoly& f) { fmpz_poly_init(p); for (size_t i = 0; i < f.size(); i++) { Fmpz z(f[i]); fmpz_poly_set_coeff_fmpz(p, (slong)i, z.x); } } ~ZP() { fmpz_poly_clear(p); } ZP(const ZP&) = delete; };
mpq_class pow2(long k) { mpq_class q(1); if (k >= 0) q *= mpz_class(1) << k; else q /= mpz_class(1) << -k; return q; }
void do_iso(const Op& op) {
  Rng r(op.seed); ZPoly f = model::gen_squarefree(r, 2 + (int)r.below(8), r.below(2) ? 3 : 40); ZP P(f); slong deg = (slong)f.size() - 1; std::string t; for (auto& c : f) t += c.get_str() + " "; rt::trace("  polynomial %s", t.c_str());
  mpz_class B = 0; for (auto& c : f) if (abs(c) > B) B = abs(c); B = B / abs(f.back()) + 2; mpq_class big(B), nb(-B); slong total = model::zpoly_count_roots(f, nb, big); rt::state(rt::mix64(9500 + deg * 16 + total));
  fmpq* ex = _fmpq_vec_init(deg + 1); fmpz* c = _fmpz_vec_init(deg + 1); std::vector<slong> k(deg + 1); slong ne = (slong)r.below(9), ni = (slong)r.below(9), ne2 = 0, ni2 = 0, vca = 0, up = 0, v01 = 0, bound = 0; int has = 0; Out o;
  o = sut([&] { fmpz_poly_isolate_real_roots(ex, &ne, c, k.data(), &ni, P.p); fmpz_poly_isolate_real_roots(NULL, &ne2, NULL, NULL, &ni2, P.p); vca = fmpz_poly_num_real_roots_vca(P.p); up = fmpz_poly_num_real_roots_upper_bound(P.p); v01 = fmpz_poly_num_real_roots_0_1(P.p); has = fmpz_poly_has_real_root(P.p); bound = fmpz_poly_positive_root_upper_bound_2exp(P.p); });
  if (o.st) rt::violation("assertion", "isolating the roots of %s failed: %s", t.c_str(), o.what.c_str());
  if (w->J(FIELD)) {
    checked(); auto bad = [&](const char* what, long a, long b) { rt::violation("isolation", "%s: %ld, expected %ld (coefficients %s)", what, a, b, t.c_str()); };
    if (ne < 0 || ni < 0 || ne + ni != total) bad("isolated roots", ne + ni, total); if (ne2 != ne || ni2 != ni) bad("roots counted without storing them", ne2 + ni2, total); if (vca != total) bad("num_real_roots_vca", vca, total); if (up < total) bad("num_real_roots_upper_bound", up, total); if (has != (total > 0)) bad("has_real_root", has, total > 0);
    slong in = model::zpoly_count_roots(f, 0, 1) + (f[0] == 0); mpz_class at1 = 0; for (auto& x : f) at1 += x; if (at1 == 0) in--; if (v01 != in) bad("num_real_roots_0_1", v01, in);
    slong pos = model::zpoly_count_roots(f, 0, big); if (bound == WORD_MIN) { if (pos) bad("positive_root_upper_bound_2exp for positive roots", bound, pos); } else { if (bound > 100000 || bound < -100000) bad("positive_root_upper_bound_2exp", bound, 0); mpq_class b = pow2(bound); if (b < big && model::zpoly_count_roots(f, b, big)) bad("roots above the bound of positive_root_upper_bound_2exp", model::zpoly_count_roots(f, b, big), 0); }
    mpq_class last; for (slong i = 0; i < ne; i++) { mpq_class q = to_mpq(ex + i); if (model::zpoly_sign_q(f, q)) rt::violation("isolation", "%s is no root of %s", q.get_str().c_str(), t.c_str()); if (i && q <= last) rt::violation("isolation", "the exact roots are not in increasing order (%s)", t.c_str()); last = q; }
    for (slong i = 0; i < ni; i++) { fmpz_t z; *z = c[i]; mpq_class u = mpq_class(to_mpz(z)) * pow2(k[i]), v = mpq_class(to_mpz(z) + 1) * pow2(k[i]); int n = model::zpoly_count_roots(f, u, v) - (model::zpoly_sign_q(f, v) == 0); if (n != 1) rt::violation("isolation", "interval %ld, (%s, %s), contains %d roots (%s)", (long)i, u.get_str().c_str(), v.get_str().c_str(), n, t.c_str()); if (i && u < last) rt::violation("isolation", "the intervals overlap or are not in increasing order (%s)", t.c_str()); last = v; }
    if (r.one_in(3)) { ZPoly g = f; int m = 1 + (int)r.below(3); ZPoly h = r.below(2) ? f : ZPoly{mpz_class((long)r.range(-3, 3)), 1}; for (int i = 0; i < m && g.size() < 40; i++) g = model::zmul(g, h); ZP G(g); fmpz_poly_t s; fmpz_poly_init(s); o = sut([&] { fmpz_poly_squarefree_part(s, G.p); }); ZPoly q = zpoly(s->coeffs, s->length); fmpz_poly_clear(s); if (o.st) rt::violation("assertion", "squarefree_part failed: %s", o.what.c_str());
      mpz_class hb = 0; for (auto& x : g) if (abs(x) > hb) hb = abs(x); hb = hb / abs(g.back()) + 2; if (q.size() < 2 || q.back() <= 0 || !model::squarefree(q) || model::zpoly_count_roots(q, mpq_class(-hb), mpq_class(hb)) != model::zpoly_count_roots(g, mpq_class(-hb), mpq_class(hb)) || (h == f && q.size() != f.size())) rt::violation("isolation", "squarefree_part is wrong for a power of %s", t.c_str()); }
  }
  _fmpq_vec_clear(ex, deg + 1); _fmpz_vec_clear(c, deg + 1);
}
// the steps behind refinement: ball evaluation, bisection, Newton, uniqueness of a root
mpq_class eval_q(const ZPoly& f, const mpq_class& x) { mpq_class v = 0; for (size_t i = f.size(); i-- > 0;) v = v * x + f[i]; return v; }
void do_stp(const Op& op) {
  Rng r(op.seed); FieldP k = any_model(r); if (k->deg < 2) { rt::count(rt::K_SKIPPED); return; } ZP P(k->f); fmpz_poly_t d; fmpz_poly_init(d); fmpz_poly_derivative(d, P.p); fmpq_poly_t q; fmpq_poly_init(q); set_poly(q, k); Val g = model::gen(k); Out o; bool j = w->J(FIELD) || w->J(ENC);
  Arb a; long bits = r.below(4) ? r.range(-2, 30) : r.range(-8, 200), prec = 2 + (long)r.below(r.below(2) ? 80 : 400); mpq_class m = model::approx(g, std::max(bits, 0L) + 3, r.below(2)); { Fmpq t(m); arb_set_fmpq(a.x, t.x, 4 + bits + 80 > 8 ? 4 + bits + 80 : 8); } arb_add_error_2exp_si(a.x, -bits - (long)r.below(3)); mpq_class lo, hi; if (!interval(a.x, lo, hi)) rt::invalid("ball"); int n = model::zpoly_count_roots(k->f, lo, hi); bool in = contains(a.x, g); rt::state(rt::mix64(9700 + n * 8 + in)); std::string what = k->poly_string() + " at " + ball_str(a.x);
  // uniqueness is decided exactly
  int u = 0; o = sut([&] { u = fmpq_poly_check_unique_real_root(q, a.x, prec); }); if (o.st) rt::violation("assertion", "check_unique_real_root failed: %s", o.what.c_str()); if (j) { checked(); if (u != (n == 1)) rt::violation("uniqueness", "check_unique_real_root says %d for %s, which contains %d roots (precision %ld)", u, what.c_str(), n, prec); }
  // ball evaluation encloses the values at all points of the ball
  Arb y, z; o = sut([&] { fmpz_poly_evaluate_arb(y.x, P.p, a.x, prec); fmpq_poly_evaluate_arb(z.x, q, a.x, prec); }); if (j) { checked(); for (int i = 0; i < 4; i++) { mpq_class t = i == 0 ? lo : i == 1 ? hi : mpq_class(lo + (hi - lo) * mpq_class((long)r.below(1000), 999)); mpq_class v = eval_q(k->f, t), v2 = v / k->den; Fmpq x(v), x2(v2); if (!arb_contains_fmpq(y.x, x.x) || !arb_contains_fmpq(z.x, x2.x)) rt::violation("evaluation", "%s evaluates to %s, which is not in %s or %s", what.c_str(), v.get_str().c_str(), ball_str(y.x).c_str(), ball_str(z.x).c_str()); } }
  { Arb e; arb_set(e.x, a.x); bool fz = r.below(2); sut([&] { if (fz) fmpz_poly_evaluate_arb(e.x, P.p, e.x, prec); else fmpq_poly_evaluate_arb(e.x, q, e.x, prec); }); mpq_class v = eval_q(k->f, hi); if (!fz) v /= k->den; Fmpq x(v); if (j && !arb_contains_fmpq(e.x, x.x)) rt::violation("evaluation", "%s evaluates wrongly in place: %s", what.c_str(), ball_str(e.x).c_str()); }
  // a step that claims success stays inside the ball and keeps the root
  if (n == 1 && in) for (int i = 0, s = 0; i < 6; i++) { Arb res; int ok = 0; bool newton = r.below(2); arb_set(res.x, a.x); o = sut([&] { ok = newton ? fmpz_poly_newton_step_arb(res.x, P.p, d, a.x, prec) : fmpz_poly_bisection_step_arb(res.x, P.p, a.x, prec); }); if (o.st) rt::violation("assertion", "a refinement step failed: %s", o.what.c_str()); if (!ok) { prec += 1 + (long)r.below(64); continue; }
    if (j) { checked(); if (!contains(res.x, g)) rt::violation("step", "a %s step of %s loses the root: %s", newton ? "Newton" : "bisection", what.c_str(), ball_str(res.x).c_str()); if (!arb_contains(a.x, res.x)) rt::violation("step", "a %s step of %s leaves the ball: %s", newton ? "Newton" : "bisection", what.c_str(), ball_str(res.x).c_str()); } arb_set(a.x, res.x); s++; }
  fmpz_poly_clear(d); fmpq_poly_clear(q);
}
// failures that must leave everything else alone (C14), each followed by the same operation without the fault
void do_bad(const Op& op) {
  Rng r(op.seed); int kind = (int)(op.a[3] % 10); int a = si(op.a[0]); Slot& x = *w->S[a]; FSlot& s = w->F[op.a[1] & (NF - 1)]; FR f = s.f ? s.f : w->triv; const eantic::renf_class& K = *f->addr; Out o; rt::count(rt::F_BADINPUT); rt::state(rt::mix64(7000 + kind)); const char* what = "";
  Val good = model::gen_val(r, f->k, 20); if (good.bits() > 2000) good = model::gen(f->k); std::string text = good.str(); static const char* junk[] = {"@", "x @ 1", "1/0", "1/0*x", "(1", "1)", "x^", "--@", "\x01", "1//2@"};
  switch (kind) {
    case 0: case 1: case 2: { std::string t = junk[r.below(10)]; if (t == "(1" || t == "1)" || t == "x^") t = "@" + t; what = "reading malformed text"; if (t.find("1/0") == 0 && t.size() > 3) t = "1/0*" + f->k->name; std::optional<Elem> e; o = sut([&] { e.emplace(K, t); }); if (o.st == 2 && kind == 1 && x.e && !x.moved) { o = sut([&] { *x.e = Elem(K, t); }); } if (o.st == 2 && kind == 2) { std::istringstream in("(" + t + ") 5"); o = sut([&] { K.set_pword(in); Elem z(K); in >> z; }); } if (o.st == 0) rt::violation("not-rejected", "malformed text %s was accepted", t.c_str()); sut([&] { e.reset(); });
      if (o.st != 2) rt::violation("not-rejected", "malformed text %s: %s", t.c_str(), o.what.c_str()); free_locks(what); // again, without the fault
      if (x.e) { FieldPtr guard; sut([&] { guard = FieldPtr(&K); }); FR g = f; o = sut([&] { *x.e = Elem(K, text); }); if (!returned(o, "creating an element after a failure", {a}, false)) return; put(a, g, good, CONV, "creating an element after a failure"); sut([&] { guard.reset(); }); } break; }
    case 3: case 4: { Op m = op; m.a[3] = (int64_t)r.below(8); do_mkx(m); Op g = op; g.a[1] = r.below(16); do_fld(g); break; }
    case 5: case 6: { Op m = op; m.a[3] = (int64_t)r.below(3); do_cbk(m); break; }
    case 7: { FieldP k = any_model(r); FieldPtr p; std::string poly = k->poly_string(); o = sut([&] { p = eantic::renf_class::make(poly, k->name, "1e70 +/- 1", 64); }); if (o.st != 2) rt::violation("not-rejected", "a ball without root was accepted"); free_locks("make"); Op g = op; do_fld(g); break; }
    default: { int b = si(op.a[1]); Slot& y = *w->S[b]; if (!usable(x) || !usable(y) || x.f == y.f || x.v.rational() || y.v.rational()) { rt::count(rt::K_SKIPPED); return; } Op m = op; m.name = "mix"; m.a[3] = r.below(11); op_core(m); free_locks("a mixed operation");
      // the same operation within one field works
      Val want = model::add(x.v, x.v); if (want.bits() > 4000) return; o = sut([&] { *x.e += *x.e; }); if (returned(o, "x += x", {a}, false)) put(a, x.f, want, ARITH, "x += x after a rejected operation"); }
  }
}
// nth operator new fails
void do_oom(const Op& op) {
  Rng r(op.seed); int kind = (int)(op.a[3] % 13); int a = si(op.a[0]); Slot& x = *w->S[a]; FSlot& s = w->F[op.a[1] & (NF - 1)]; FR f = s.f ? s.f : w->triv; const eantic::renf_class& K = *f->addr; int64_t nth = 1 + (int64_t)r.below(r.below(2) ? 4 : 14); rt::state(rt::mix64(8000 + kind * 16 + nth)); std::optional<Elem> e; FieldPtr p; std::string text; Val good = model::gen_val(r, f->k, 20); if (good.bits() > 2000) good = model::gen(f->k); std::string gt = good.str();
  FieldP k = any_model(r); std::string poly = k->poly_string(); long prec = 64; Ball b; while (!good_ball(k, r, prec, b)) prec *= 2; std::vector<mpz_class> nv; const char* what = ""; std::tuple<std::string, std::string, std::string, slong> con; fmpq_poly_t pp; arb_t em; fmpq_poly_init(pp); set_poly(pp, k); arb_init(em); arb_set_str(em, b.text.c_str(), std::max<long>(2 * prec + 64, 4 * (long)b.text.size())); renf_t rn; bool ux = usable(x); Val xv = x.v; std::string out; std::vector<mpq_class> cv; for (int i = 0; i < f->k->deg; i++) cv.push_back(good.coeff(i)); long n = r.range(-1000, 1000);
  if (kind == 2) sut([&] { renf_init(rn, pp, em, prec); });
  auto act = [&]() { switch (kind) { case 0: case 1: what = "make"; p = eantic::renf_class::make(poly, k->name, b.text, prec); break; case 2: what = "make(renf_t)"; p = eantic::renf_class::make(rn, k->name); break; case 3: what = "make(callback)"; p = eantic::renf_class::make(poly, k->name, [&](slong) { return b.text; }, prec); break; case 4: what = "creating from text"; e.emplace(K, gt); break; case 5: what = "creating from vector"; e.emplace(K, cv); break; case 6: what = "to_string"; if (ux) out = x.e->to_string(EANTIC_STR_ALG); break; case 7: what = "construction"; con = K.construction(); break; case 8: what = "num_vector"; if (ux) nv = x.e->num_vector(); break; case 9: what = "operator<<"; if (ux) { std::ostringstream o; o << *x.e; out = o.str(); } break; case 10: what = "operator>>"; { std::istringstream in("(" + gt + ") "); in.exceptions(std::ios::badbit); K.set_pword(in); Elem z(K, n); in >> z; e.emplace(z); } break; case 11: what = "arithmetic"; if (ux) { e.emplace(*x.e + n); *e += *x.e; *e -= mpq_class(1, 3); } break; default: what = "creating a number"; e.emplace(K, (long long)n); *e = mpz_class(n); } };
  rt::arm_new_failure(nth); Out o = sut(act); rt::arm_new_failure(0); bool fired = rt::new_failure_fired(); rt::trace("  %s, allocation %ld fails: %s", what, (long)nth, !fired ? "not reached" : o.what.c_str());
  if (o.st == 1) rt::violation("assertion", "%s stopped when memory was exhausted: %s", what, o.what.c_str()); if (!fired && o.st) rt::violation("unexpected-exception", "%s threw: %s", what, o.what.c_str());
  if (fired) { checked(); if (o.st == 0 && kind != 9 && kind != 10) rt::violation("swallowed", "%s returned although an allocation failed", what); free_locks(what); invariants(); sut([&] { e.reset(); p.reset(); });
    o = sut(act); if (o.st) rt::violation("unexpected-exception", "%s failed when repeated without the fault: %s", what, o.what.c_str()); }
  if (p) { FR g = adopt(p, k, "make after an allocation failure"); set_handle((int)op.a[2], p, g); }
  if (e) { if (kind == 4 || kind == 5 || kind == 10) { Val v = peek(*e, f->k); if (!v.same(good)) rt::violation("wrong-value", "%s gives %s instead of %s", what, show(v).c_str(), show(good).c_str()); } if (kind == 11) { Val want = model::addq(model::add(x.v, x.v), mpq_class(3 * n - 1, 3)); Val v = peek(*e, x.f->k); if (!v.same(want)) rt::violation("wrong-value", "arithmetic after an allocation failure gives %s instead of %s", show(v).c_str(), show(want).c_str()); } }
  sut([&] { e.reset(); }); if (kind == 2) sut([&] { renf_clear(rn); }); fmpq_poly_clear(pp); arb_clear(em); (void)xv;
}
}
bool op_field(const Op& op) {
  const std::string& n = op.name;
  if (n == "fld") do_fld(op); else if (n == "drf") do_drf(op); else if (n == "mkf") do_mkf(op); else if (n == "mkx") do_mkx(op); else if (n == "cbk") do_cbk(op); else if (n == "emb") do_emb(op); else if (n == "nth") do_nth(op); else if (n == "con") do_con(op); else if (n == "fcp") do_fcp(op); else if (n == "rnd") do_rnd(op); else if (n == "iso") do_iso(op); else if (n == "stp") do_stp(op); else if (n == "bad") do_bad(op); else if (n == "oom") do_oom(op); else return false;
  return true;
}
}
