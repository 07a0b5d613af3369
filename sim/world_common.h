// Helpers shared by the worlds. Compiled as guest code, but everything here runs outside of rt::Sut scopes (not part of the system under test).
#pragma once
#include "model.h"
#include "script.h"
#include <cereal/cereal.hpp>
#include <e-antic/renfxx.h>
#include <memory>
#include <sstream>
#include <set>

using rt::Rng; using model::FieldP; using model::Val; using model::ZPoly;
typedef boost::intrusive_ptr<const eantic::renf_class> FieldPtr;
typedef eantic::renf_elem_class Elem;

namespace wc {
inline mpz_class to_mpz(const fmpz_t x) { mpz_class r; fmpz_get_mpz(r.get_mpz_t(), x); return r; }
inline mpq_class to_mpq(const fmpq_t x) { mpq_class r; fmpq_get_mpq(r.get_mpq_t(), x); return r; }
struct Fmpz { fmpz_t x; Fmpz() { fmpz_init(x); } explicit Fmpz(const mpz_class& v) { fmpz_init(x); fmpz_set_mpz(x, v.get_mpz_t()); } ~Fmpz() { fmpz_clear(x); } Fmpz(const Fmpz&) = delete; };
struct Fmpq { fmpq_t x; Fmpq() { fmpq_init(x); } explicit Fmpq(const mpq_class& v) { fmpq_init(x); fmpq_set_mpq(x, v.get_mpq_t()); } ~Fmpq() { fmpq_clear(x); } Fmpq(const Fmpq&) = delete; };
struct Arb { arb_t x; Arb() { arb_init(x); } ~Arb() { arb_clear(x); } Arb(const Arb&) = delete; };

// coordinates of an element, straight from the number field data structure
inline Val peek(const renf_elem* a, const renf* nf, const FieldP& k) {
  std::vector<mpq_class> c; Fmpq q;
  for (int i = 0; i < k->deg; i++) { nf_elem_get_coeff_fmpq(q.x, a->elem, i, nf->nf); mpq_class v = to_mpq(q.x); if (v.get_den() == 0) rt::violation("wrong-value", "coefficient %d of an element has denominator 0", i); v.canonicalize(); c.push_back(v); }
  return model::from_coeffs(k, c);
}
inline Val peek(const Elem& e, const FieldP& k) { return peek(e.renf_elem_t(), e.parent().renf_t(), k); }
// interval of a ball, exact unless its exponents are extreme (then slightly larger); false if it is not finite
inline bool interval(const arb_t x, mpq_class& lo, mpq_class& hi) {
  if (!arb_is_finite(x)) return false;
  struct A { arf_t x; A() { arf_init(x); } ~A() { arf_clear(x); } } l, u; const fmpz *me = ARF_EXPREF(arb_midref(x)), *re = MAG_EXPREF(arb_radref(x)); auto big = [](const fmpz* e) { return COEFF_IS_MPZ(*e) || *e > 1000000 || *e < -1000000; };
  long p = big(me) || big(re) ? 20000 : ARF_PREC_EXACT;
  arf_t rad; arf_init_set_mag_shallow(rad, arb_radref(x)); arf_sub(l.x, arb_midref(x), rad, p, ARF_RND_FLOOR); arf_add(u.x, arb_midref(x), rad, p, ARF_RND_CEIL);
  auto conv = [&](const arf_t v, bool up, mpq_class& q) { if (arf_is_zero(v)) { q = 0; return true; } const fmpz* e = ARF_EXPREF(v); int sg = arf_sgn(v); if (fmpz_cmp_si(e, 1500000) > 0) return false; if (fmpz_cmp_si(e, -1500000) < 0) { q = 0; if ((sg > 0) == up) { q = mpq_class(mpz_class(sg), mpz_class(1) << 1400000); } return true; }
    Fmpz m, k; arf_get_fmpz_2exp(m.x, k.x, v); q = to_mpz(m.x); long ex = to_mpz(k.x).get_si(); if (ex >= 0) q *= mpz_class(1) << ex; else q /= mpz_class(1) << -ex; return true; };
  return conv(l.x, false, lo) && conv(u.x, true, hi);
}
inline bool contains(const arb_t x, const Val& v) {
  if (arf_is_nan(arb_midref(x))) return true;   // [nan +/- inf] says nothing, it is not a wrong enclosure
  if (!arb_is_finite(x)) return true;
  mpq_class lo, hi; if (!interval(x, lo, hi)) return true;
  return model::cmpq(v, lo) >= 0 && model::cmpq(v, hi) <= 0;
}
inline std::string ball_str(const arb_t x) { char* s = arb_get_str(x, 25, 0); std::string r = s; flint_free(s); return r; }
inline std::string arb_dump(const arb_t x) { char* s = arb_dump_str(x); std::string r = s; flint_free(s); return r; }

// polynomial of a field
inline bool poly_is(const renf* nf, const FieldP& k) {
  const fmpq_poly_struct* p = nf->nf->pol; if (p->length != k->deg + 1) return false; Fmpq q;
  for (int i = 0; i <= k->deg; i++) { fmpq_poly_get_coeff_fmpq(q.x, p, i); mpq_class c(k->f[i], k->den); c.canonicalize(); if (to_mpq(q.x) != c) return false; }
  return true;
}
inline void set_poly(fmpq_poly_t p, const FieldP& k) { for (int i = 0; i <= k->deg; i++) { mpq_class c(k->f[i], k->den); c.canonicalize(); Fmpq q(c); fmpq_poly_set_coeff_fmpq(p, i, q.x); } }

// ---- balls that describe a root, as text "mid +/- rad" in decimal (exact)
struct Ball { mpq_class mid, rad; std::string text; };
inline std::string decimal(const mpq_class& q, int digits) { // rounded to that many digits after the point; exact value returned through text
  mpz_class s; mpz_ui_pow_ui(s.get_mpz_t(), 10, digits); mpz_class n = q.get_num() * s, r; mpz_fdiv_q(r.get_mpz_t(), n.get_mpz_t(), q.get_den().get_mpz_t());
  bool ng = r < 0; r = abs(r); std::string t = r.get_str(); while ((int)t.size() <= digits) t = "0" + t;
  std::string o = (ng ? "-" : "") + t.substr(0, t.size() - digits); if (digits) o += "." + t.substr(t.size() - digits); return o;
}
inline mpq_class from_decimal(const std::string& s) { std::string t; int d = -1; for (char c : s) { if (c == '.') d = 0; else { t += c; if (d >= 0) d++; } } mpz_class n(t, 10), p; mpz_ui_pow_ui(p.get_mpz_t(), 10, d < 0 ? 0 : d); mpq_class q(n, p); q.canonicalize(); return q; }
// rational bounds around the root that exclude all other roots of the polynomial
inline void isolating(const FieldP& k, mpq_class& lo, mpq_class& hi) {
  if (k->exact) { lo = k->exact_root - 1; hi = k->exact_root + 1; return; }
  auto rs = model::roots(k->f); Val g = model::gen(k);
  for (long bits = 8;; bits *= 2) {
    mpq_class a = model::approx(g, bits, false), b = model::approx(g, bits, true); bool ok = true; lo = a - 1; hi = b + 1;
    if (a == b) { a -= mpq_class(1, 1000); b += mpq_class(1, 1000); }
    for (auto& o : rs) { if (o->index == k->index) continue; Val og = model::gen(o); mpq_class c = model::approx(og, bits, false), d = model::approx(og, bits, true);
      if (o->index < k->index) { if (d >= a) { ok = false; break; } mpq_class m = (15 * d + a) / 16; if (m > lo) lo = m; } else { if (c <= b) { ok = false; break; } mpq_class m = (b + 15 * c) / 16; if (m < hi) hi = m; } }
    if (ok) return;
  }
}
// |p(x)| / sum |p_i x^i| as a power of two (floor), or a very small number for zero
inline long decidable_bits(const ZPoly& f, const mpq_class& x) {
  mpq_class v = 0, s = 0, p = 1; for (auto& c : f) { v += c * p; s += abs(mpq_class(c * p)); p *= x; } if (v == 0) return -1000000; mpq_class q = abs(v) / s;
  return (long)mpz_sizeinbase(q.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(q.get_den_mpz_t(), 2) - 1;
}
// a ball which every correct implementation accepts at that precision, or false
inline bool good_ball(const FieldP& k, Rng& r, long prec, Ball& out) {
  if (prec > (1 << 13)) rt::invalid("no description of this root is short enough");
  mpq_class lo, hi; isolating(k, lo, hi); Val g = model::gen(k); mpq_class wid = hi - lo; long base = (long)mpz_sizeinbase(wid.get_den_mpz_t(), 2) - (long)mpz_sizeinbase(wid.get_num_mpz_t(), 2); if (base < 0) base = 0;
  bool fine = r.one_in(3); // the precision may be lower than what it takes to tell the roots apart
  for (int t = 0; t < 12; t++) {
    long bits = base + 4 + r.below(40); mpq_class c = model::approx(g, bits + 60, r.below(2)); mpq_class room = std::min(mpq_class(c - lo), mpq_class(hi - c)); if (room <= 0) continue;
    mpq_class rad = room / 2; int sh = (int)r.below(t < 6 ? 20 : 4); rad /= mpz_class(1) << sh;
    mpq_class off = rad * mpq_class(r.range(-3, 3), 8); mpq_class m = c + off;
    if (r.one_in(3)) { // reaching almost to the next root on one side or both
      mpq_class x = std::min(mpq_class(c - lo), mpq_class(room * 4)) * mpq_class(r.range(1, 15), 16), y = std::min(mpq_class(hi - c), mpq_class(room * 4)) * mpq_class(r.range(1, 15), 16); m = c + (y - x) / 2; rad = (x + y) / 2 * mpq_class(61, 64); }
    int digits = 0; mpq_class x = rad; while (x < 1000 && digits < 4000) { x *= 10; digits++; }
    std::string ms = decimal(m, digits), rs = decimal(rad, digits); mpq_class mm = from_decimal(ms), rr = from_decimal(rs);
    // parsing rounds the midpoint to prec bits and the radius upwards
    long pr = fine ? std::max<long>(prec, 4 * (long)(ms.size() + rs.size())) : prec; mpq_class slack = (abs(mm) + rr) / (mpz_class(1) << (pr > 2 ? pr - 2 : 0)) + rr / 64; mpq_class a = mm - rr - slack, b = mm + rr + slack;
    if (model::cmpq(g, mm - rr) <= 0 || model::cmpq(g, mm + rr) >= 0) continue;
    if (a < lo || b > hi) continue;
    out.mid = mm; out.rad = rr; out.text = ms + " +/- " + rs; return true;
  }
  return false;
}
template <class R, class F> R host(F f) { rt::Host h; return f(); }
}
