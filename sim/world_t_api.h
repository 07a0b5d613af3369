// The public operations a thread applies to its own data (C03). Each returns a text that only depends on that data.
#pragma once
#include <flint/fmpz_vec.h>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>
#include <e-antic/cereal.hpp>
namespace api {
enum { COUNT = 34 };
typedef eantic::renf_class RC;
inline std::string alg(const Elem& x) { return x.to_string(EANTIC_STR_ALG); }
template <class T> void rel(std::ostream& o, const Elem& x, const T& n) { o << (x == n) << (x < n) << (x > n) << (x <= n) << (x >= n) << (x != n) << (n == x) << (n < x) << (n > x); }
template <class T> void ar(std::ostream& o, const Elem& x, const T& n, int which) {
  Elem a = x; switch (which) { case 0: a += n; a = a + n; a = n + a; break; case 1: a -= n; a = a - n; a = n - a; break; case 2: a *= n; a = n * a; break; default: if (n == 0) break; a /= n; a = a / n; if (!a.is_zero()) a = n / a; } o << alg(a) << ";";
}
inline mpz_class z(Rng& r) { mpz_class v = (long)r.range(-100000, 100000); int s = (int)r.below(3); if (s == 1) v <<= 40; if (s == 2) { v <<= 70; v += 12345; } return v; }
inline mpq_class q(Rng& r) { mpq_class v(z(r), mpz_class((long)r.range(1, 5000))); v.canonicalize(); return v; }
inline std::string ball(const arb_t x) { char* s = arb_dump_str(x); std::string t = s; flint_free(s); return t; }
inline std::string cstr(renf_elem_t a, renf_t nf, int flag, slong n) { char* s = renf_elem_get_str_pretty(a, "v", nf, n, flag); std::string t = s; flint_free(s); return t; }
// x is an element of K, y another one
inline std::string run(int kind, Elem& x, Elem& y, const RC& K, Rng& r, int id) {
  std::ostringstream o; renf* nf = K.renf_t(); renf_elem* a = x.renf_elem_t(); renf_elem* b = y.renf_elem_t(); int w = (int)r.below(4);
  struct Z { fmpz_t v; Z(const mpz_class& m) { fmpz_init(v); fmpz_set_mpz(v, m.get_mpz_t()); } ~Z() { fmpz_clear(v); } };
  struct Q { fmpq_t v; Q(const mpq_class& m) { fmpq_init(v); fmpq_set_mpq(v, m.get_mpq_t()); } ~Q() { fmpq_clear(v); } };
  struct E { renf_elem_t e; const renf* k; E(const renf* k) : k(k) { renf_elem_init(e, k); } ~E() { renf_elem_clear(e, k); } };
  switch (kind) {
    case 0: rel(o, x, (short)r.range(-99, 99)); rel(o, x, (unsigned short)r.below(99)); rel(o, x, (int)r.range(-99, 99)); rel(o, x, (unsigned)r.below(99)); break;
    case 1: rel(o, x, (long)r.range(-99, 99)); rel(o, x, (unsigned long)r.below(99)); rel(o, x, (long long)r.range(-99, 99)); rel(o, x, (unsigned long long)r.below(99)); break;
    case 2: rel(o, x, z(r)); rel(o, x, mpz_class((long)r.range(-5, 5))); break;
    case 3: rel(o, x, q(r)); break;
    case 4: ar(o, x, (short)r.range(-99, 99), w); ar(o, x, (unsigned short)r.below(99), w); ar(o, x, (int)r.range(-99, 99), w); ar(o, x, (unsigned)r.below(99), w); break;
    case 5: ar(o, x, (long)r.range(-99, 99), w); ar(o, x, (unsigned long)r.below(99), w); ar(o, x, (long long)r.range(-99, 99), w); ar(o, x, (unsigned long long)r.below(99), w); break;
    case 6: ar(o, x, z(r), w); break;
    case 7: ar(o, x, q(r), w); break;
    case 8: { Elem e = x; e = (short)3; o << alg(e); e = (unsigned short)4; o << alg(e); e = 5; o << alg(e); e = 6u; e = 7l; e = 8ul; o << alg(e); e = 9ll; e = 10ull; o << alg(e); e = z(r); o << alg(e); e = x; e = q(r); o << alg(e); Z f(z(r)); Q g(q(r)); e = f.v; o << alg(e); e = x; e = g.v; o << alg(e); break; }
    case 9: { Elem e1(K, (short)1), e2(K, (unsigned short)2), e3(K, 3), e4(K, 4u), e5(K, 5l), e6(K, 6ul), e7(K, 7ll), e8(K, 8ull), e9(K, z(r)), e10(K, q(r)); Z f(z(r)); Q g(q(r)); Elem e11(K, f.v), e12(K, g.v); o << alg(e1 + e2 + e3 + e4 + e5 + e6 + e7 + e8) << alg(e9) << alg(e10) << alg(e11) << alg(e12); break; }
    case 10: { std::vector<int> vi = {3, -1}; std::vector<unsigned> vu = {3, 1}; std::vector<long> vl = {(long)r.range(-9, 9), 2}; std::vector<unsigned long> vul = {7, (unsigned long)r.below(9)}; std::vector<mpz_class> vz = {z(r), z(r)}; std::vector<mpq_class> vq = {q(r), q(r)}; o << alg(Elem(K, vi)) << alg(Elem(K, vu)) << alg(Elem(K, vl)) << alg(Elem(K, vul)) << alg(Elem(K, vz)) << alg(Elem(K, vq)); break; }
    case 11: { Elem e1(z(r)), e2(q(r)), e3((short)1), e4((unsigned long long)2); Z f(z(r)); Q g(q(r)); Elem e5(f.v), e6(g.v); o << alg(e1) << alg(e2) << alg(e3) << alg(e4) << alg(e5) << alg(e6) << e5.num() << e6.den(); break; }
    case 12: { o << x.den() << x.num_content() << (bool)x << x.is_one(); if (x.is_integer()) o << static_cast<mpz_class>(x); if (x.is_rational()) o << static_cast<mpq_class>(x) << x.num(); Elem u(K, q(r)), v(K, z(r)); o << static_cast<mpq_class>(u) << static_cast<mpz_class>(v) << u.num() << u.den() << v.num(); for (auto& c : x.num_vector()) o << c << ","; break; }
    case 13: { Elem e = +x; e = -e; o << alg(e) << static_cast<std::string>(x) << alg(x.pow(3)); if (!x.is_zero()) o << alg(x.pow(-2)); break; }
    case 14: { char t[64]; for (auto m : {ARF_RND_DOWN, ARF_RND_UP, ARF_RND_FLOOR, ARF_RND_CEIL, ARF_RND_NEAR}) { snprintf(t, 64, "%a,", renf_elem_get_d(a, nf, m)); o << t; } break; }
    case 15: { arb_t v; arb_init(v); renf_elem_get_arb(v, a, nf, 2 + r.below(200)); o << ball(v); arb_clear(v); break; }
    case 16: { E s(nf); if (x.is_zero()) renf_elem_one(s.e, nf); else renf_elem_inv(s.e, a, nf); o << cstr(s.e, nf, EANTIC_STR_ALG | EANTIC_STR_ARB, 12); renf_elem_neg(s.e, s.e, nf); renf_elem_pow(s.e, s.e, 2, nf); o << cstr(s.e, nf, EANTIC_STR_ALG | EANTIC_STR_D, 12); break; }
    case 17: { E s(nf); Q c(q(r)); renf_elem_fmpq_sub(s.e, c.v, a, nf); o << cstr(s.e, nf, EANTIC_STR_ALG, 5); if (!x.is_zero()) { renf_elem_fmpq_div(s.e, c.v, a, nf); o << cstr(s.e, nf, EANTIC_STR_ALG, 5); } renf_elem_add_fmpq(s.e, a, c.v, nf); renf_elem_sub_fmpq(s.e, s.e, c.v, nf); renf_elem_mul_fmpq(s.e, s.e, c.v, nf); if (!fmpq_is_zero(c.v)) renf_elem_div_fmpq(s.e, s.e, c.v, nf); o << cstr(s.e, nf, 5, 5); break; }
    case 18: { E s(nf); Z c(z(r)); renf_elem_add_fmpz(s.e, a, c.v, nf); renf_elem_sub_fmpz(s.e, s.e, c.v, nf); renf_elem_mul_fmpz(s.e, s.e, c.v, nf); if (!fmpz_is_zero(c.v)) renf_elem_div_fmpz(s.e, s.e, c.v, nf); o << cstr(s.e, nf, 5, 5); break; }
    case 19: { E s(nf); renf_elem_add_si(s.e, a, -3, nf); renf_elem_sub_si(s.e, s.e, 5, nf); renf_elem_mul_si(s.e, s.e, -7, nf); renf_elem_div_si(s.e, s.e, 11, nf); renf_elem_add_ui(s.e, s.e, 3, nf); renf_elem_sub_ui(s.e, s.e, 5, nf); renf_elem_mul_ui(s.e, s.e, 7, nf); renf_elem_div_ui(s.e, s.e, 11, nf); o << cstr(s.e, nf, 5, 5); break; }
    case 20: { Q c(q(r)); Z d(z(r)); long n = r.range(-50, 50); o << renf_elem_cmp_fmpq(a, c.v, nf) << renf_elem_cmp_fmpz(a, d.v, nf) << renf_elem_cmp_si(a, n, nf) << renf_elem_cmp_ui(a, (ulong)labs(n), nf) << renf_elem_equal_fmpq(a, c.v, nf) << renf_elem_equal_fmpz(a, d.v, nf) << renf_elem_equal_si(a, n, nf) << renf_elem_equal_ui(a, (ulong)labs(n), nf); break; }
    case 21: { E s(nf); fmpz* c = _fmpz_vec_init(4); slong n = renf_elem_get_cfrac(c, s.e, a, 4, nf); for (slong i = 0; i < n; i++) { char* t = fmpz_get_str(nullptr, 10, c + i); o << t << ","; flint_free(t); } _fmpz_vec_clear(c, 4); o << cstr(s.e, nf, EANTIC_STR_ALG, 5); break; }
    case 22: { if (y.is_zero()) break; fmpz_t c; fmpz_init(c); renf_elem_fdiv(c, a, b, nf); char* t = fmpz_get_str(nullptr, 10, c); o << t; flint_free(t); fmpz_clear(c); o << x.floordiv(y); break; }
    case 23: { char* t = renf_get_str(nf, "v", 10 + r.below(50)); o << t << renf_degree(nf); flint_free(t); renf_t k; renf_init_set(k, nf); o << renf_equal(k, nf); renf_clear(k); break; }
    case 24: { fmpz_poly_t p; fmpz_poly_init(p); fmpz_poly_set_coeff_si(p, 3, 1); fmpz_poly_set_coeff_si(p, 1, -4 - id); fmpz_poly_set_coeff_si(p, 0, 1); renf ks[3]; slong n = renf_set_embeddings_fmpz_poly(ks, p, 3, 40 + r.below(60)); for (slong i = 0; i < n; i++) { char* t = renf_get_str(ks + i, "v", 30); o << t; flint_free(t); renf_refine_embedding(ks + i, 200); renf_clear(ks + i); } fmpz_poly_clear(p); break; }
    case 25: { Q d(mpq_class(7 + 6 * id, 2)); renf_t k; renf_init_nth_root_fmpq(k, d.v, 3, 64); { E s(k), t(k); renf_elem_gen(s.e, k); renf_elem_pow(t.e, s.e, 3, k); renf_elem_sub_si(t.e, t.e, 1, k); o << renf_elem_sgn(t.e, k) << cstr(t.e, k, 3, 9) << renf_elem_cmp(s.e, t.e, k); } renf_clear(k); break; }
    case 26: { std::stringstream s; { cereal::BinaryOutputArchive ao(s); ao(x, y, x); } Elem u, v, t; { cereal::BinaryInputArchive ai(s); ai(u, v, t); } o << (u == x) << (v == y) << (t == x) << (&u.parent() == &K) << alg(v); break; }
    case 27: { std::stringstream s; { cereal::JSONOutputArchive ao(s); ao(x, y); } Elem u, v; { cereal::JSONInputArchive ai(s); ai(u, v); } o << (u == x) << (v == y) << (&v.parent() == &K); break; }
    case 28: { Elem u(q(r)), v = u + 1; Elem t = x * u; t += v; t -= u; o << alg(t); if (!u.is_zero()) { t /= u; o << alg(t); } o << (x < u) << (u == x) << (u < x); Elem s(K, u); o << alg(s) << (s == u); break; }
    case 29: { E s(nf); renf_elem_set(s.e, a, nf); renf_elem_mul(s.e, s.e, b, nf); renf_elem_add(s.e, s.e, b, nf); renf_elem_sub(s.e, s.e, a, nf); if (!y.is_zero()) renf_elem_div(s.e, s.e, b, nf); o << cstr(s.e, nf, 5, 8) << renf_elem_equal(s.e, a, nf) << renf_elem_is_zero(s.e, nf) << renf_elem_is_one(s.e, nf) << renf_elem_is_integer(s.e, nf) << renf_elem_is_rational(s.e, nf) << renf_elem_sgn(s.e, nf); break; }
    case 30: { E s(nf); Q c(q(r)); mpz_class m = z(r); mpq_class n = q(r); renf_elem_set_mpz(s.e, m.get_mpz_t(), nf); o << cstr(s.e, nf, 5, 5); renf_elem_set_mpq(s.e, n.get_mpq_t(), nf); o << cstr(s.e, nf, 5, 5); renf_elem_set_si(s.e, -7, nf); renf_elem_set_ui(s.e, 7, nf); fmpq_poly_t p; fmpq_poly_init(p); fmpq_poly_set_coeff_fmpq(p, 0, c.v); fmpq_poly_set_coeff_si(p, 1, 3); renf_elem_set_fmpq_poly(s.e, p, nf); fmpq_poly_clear(p); o << cstr(s.e, nf, 5, 5); renf_elem_set_nf_elem(s.e, a->elem, nf, 50); o << cstr(s.e, nf, 5, 5); fmpz_t f; fmpz_init(f); renf_elem_floor(f, s.e, nf); o << fmpz_get_d(f); renf_elem_ceil(f, s.e, nf); o << fmpz_get_d(f); fmpz_clear(f); break; }
    case 31: { flint_rand_t st; flint_randinit(st); E s(nf); renf_elem_randtest(s.e, st, 20, nf); o << cstr(s.e, nf, 5, 5); renf_t k; renf_randtest(k, st, 4, 40, 6); char* t = renf_get_str(k, "w", 20); o << t; flint_free(t); renf_clear(k); flint_randclear(st); break; }
    case 32: { std::ostringstream s; s << x << " " << y << " " << K; std::istringstream in(alg(x) + " ; (" + alg(y) + ")"); K.set_pword(in); Elem u(K), v(K); in >> u; char c = 0; in >> c; if (c == ';') in >> v; o << s.str() << alg(u) << c << alg(v); break; }
    default: { try { Elem u(K, "1/"); o << alg(u); } catch (std::exception&) { o << "rejected"; } try { auto f = RC::make("x^2 + 1", "x", "1 +/- 0.5"); o << f->to_string(); } catch (std::exception&) { o << "rejected"; } try { Elem u(K, "zz"); o << alg(u); } catch (std::exception&) { o << "rejected"; } break; }
  }
  return o.str();
}
}
