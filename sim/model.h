// Independent reference model: exact arithmetic in real embedded number fields with GMP only. Host code.
#pragma once
#include <gmpxx.h>
#include <memory>
#include <string>
#include <vector>
#include "rt.h"

namespace model {
typedef std::vector<mpz_class> ZPoly;

int zpoly_sign_at(const ZPoly& f, const mpz_class& n, long e);       // sign of f(n / 2^e)
int zpoly_count_roots(const ZPoly& f, const mpq_class& a, const mpq_class& b);   // distinct real roots in (a, b]
int zpoly_sign_q(const ZPoly& f, const mpq_class& x);

struct Field {                      // Q[x]/(f) with a real root of f
  ZPoly f; mpz_class den = 1;       // minimal polynomial is f/den
  int deg = 0; int index = 0;       // index among the real roots in increasing order
  std::string name;
  // root in [L, L + W] * 2^-e
  mpz_class L, W; long e = 0; bool exact = false; mpq_class exact_root;   // exact for linear fields
  void refine(long bits);           // absolute precision: W / 2^e <= 2^-bits
  std::string poly_string() const;  // as the user would write it
  std::string key() const;          // identifies polynomial, root and name
};
typedef std::shared_ptr<Field> FieldP;
// all real roots of f in increasing order (f squarefree), as fields without name
std::vector<FieldP> roots(const ZPoly& f);
FieldP make_field(const ZPoly& f, const mpz_class& den, int index, const std::string& name);

struct Val {                        // (n_0 + n_1 a + ...)/d in lowest terms
  FieldP k; ZPoly n; mpz_class d = 1;
  bool zero() const; bool rational() const; bool integer() const;
  mpq_class q() const;              // value of a rational element
  mpq_class coeff(int i) const;
  void canon();
  size_t bits() const;
  std::string str() const;          // text form understood by the library
  bool same(const Val& o) const { return n == o.n && d == o.d; }   // coordinates only
};
Val from_q(const FieldP& k, const mpq_class& q);
Val gen(const FieldP& k);
Val from_coeffs(const FieldP& k, const std::vector<mpq_class>& c);   // reduced modulo f when too long
Val add(const Val&, const Val&); Val sub(const Val&, const Val&); Val mul(const Val&, const Val&); Val neg(const Val&);
Val inv(const Val&); Val pow(const Val&, unsigned long);
Val addq(const Val&, const mpq_class&); Val mulq(const Val&, const mpq_class&);
void enclose(const Val&, long e, mpz_class& a, mpz_class& b);        // value * 2^e in [a, b]
int sign(const Val&);
int cmp(const Val&, const Val&); int cmpq(const Val&, const mpq_class&);
mpz_class floor(const Val&); mpz_class ceil(const Val&);
mpz_class fdiv(const Val&, const Val&);
std::vector<mpz_class> cfrac(const Val&, int n, Val* rem, bool* finished);
enum Rnd { R_DOWN, R_UP, R_FLOOR, R_CEIL, R_NEAR };
double q_to_double(const mpq_class&, Rnd, bool* normal);
double to_double(const Val&, Rnd, bool* normal);                     // normal = false: outside the normal range
mpq_class approx(const Val&, long bits, bool up);                    // rational within 2^-bits, below or above (or equal)
bool parse(const FieldP& k, const std::string& text, Val& out);      // own parser of printed elements

// generators
ZPoly gen_poly(rt::Rng& r, int maxdeg, int maxbits);                 // irreducible with a real root
ZPoly gen_squarefree(rt::Rng& r, int maxdeg, int maxbits);           // any squarefree polynomial of positive degree
bool squarefree(const ZPoly& f); ZPoly zmul(const ZPoly& a, const ZPoly& b);
mpz_class gen_mpz(rt::Rng& r, int bits);                             // signed, about that many bits, interesting values
mpq_class gen_mpq(rt::Rng& r, int bits);
Val gen_val(rt::Rng& r, const FieldP& k, int bits);                  // interesting elements
Val gen_tiny(rt::Rng& r, const FieldP& k);
}
