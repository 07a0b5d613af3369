#include "model.h"
#include <cmath>
#include <cfloat>
#include <cstdlib>
#include <cstdio>
#include <algorithm>
namespace model {
using rt::Rng;

int zpoly_sign_at(const ZPoly& f, const mpz_class& n, long e) {
  mpz_class r = 0, t; int d = (int)f.size() - 1;
  for (int i = d; i >= 0; i--) { r *= n; t = f[i]; mpz_mul_2exp(t.get_mpz_t(), t.get_mpz_t(), (unsigned long)e * (d - i)); r += t; }
  return sgn(r);
}
int zpoly_sign_q(const ZPoly& f, const mpq_class& x) {
  mpz_class r = 0, p = 1; for (int i = (int)f.size() - 1; i >= 0; i--) { r = r * x.get_num() + f[i] * p; p *= x.get_den(); } return sgn(r);
}
static void trim(ZPoly& p) { while (!p.empty() && p.back() == 0) p.pop_back(); }
static void primitive(ZPoly& p) { mpz_class g = 0; for (auto& c : p) g = gcd(g, c); if (g > 1) for (auto& c : p) c /= g; }
static std::vector<ZPoly> sturm(const ZPoly& f) {
  std::vector<ZPoly> s; s.push_back(f); ZPoly d; for (size_t i = 1; i < f.size(); i++) d.push_back(f[i] * (unsigned long)i); primitive(d); s.push_back(d);
  while (s.back().size() > 1) {
    ZPoly a = s[s.size() - 2]; const ZPoly& b = s.back(); mpz_class lb = b.back(); bool neg = lb < 0; mpz_class alb = abs(lb);
    while (a.size() >= b.size()) { // multiply a by |lb| (positive, keeps signs) and eliminate
      mpz_class la = a.back(); if (neg) la = -la; size_t sh = a.size() - b.size();
      for (auto& c : a) c *= alb;
      for (size_t i = 0; i < b.size(); i++) a[i + sh] -= la * b[i];
      trim(a); if (a.empty()) break;
    }
    if (a.empty()) break;
    for (auto& c : a) c = -c; primitive(a); s.push_back(a);
  }
  return s;
}
static int variations(const std::vector<ZPoly>& s, const mpq_class& x) { int v = 0, last = 0; for (auto& p : s) { int g = zpoly_sign_q(p, x); if (g && last && g != last) v++; if (g) last = g; } return v; }
int zpoly_count_roots(const ZPoly& f, const mpq_class& a, const mpq_class& b) { auto s = sturm(f); return variations(s, a) - variations(s, b); }

void Field::refine(long bits) {
  if (exact) {
    if (e >= bits && W == 1) return;
    e = bits; mpz_class t = exact_root.get_num(); mpz_mul_2exp(t.get_mpz_t(), t.get_mpz_t(), e); mpz_fdiv_q(L.get_mpz_t(), t.get_mpz_t(), exact_root.get_den().get_mpz_t()); W = 1; return;
  }
  auto width_ok = [&] { return (long)mpz_sizeinbase(W.get_mpz_t(), 2) + bits <= e; };
  int slo = zpoly_sign_at(f, L, e);
  auto bisect = [&] { // halve the interval
    L *= 2; W *= 2; e++; mpz_class M = W / 2; mpz_class P = L + M; int s = zpoly_sign_at(f, P, e);
    if (s == 0) { fprintf(stderr, "model: rational root of irreducible polynomial\n"); exit(3); }
    if (s == slo) { L = P; W -= M; } else W = M;
    while (mpz_even_p(L.get_mpz_t()) && mpz_even_p(W.get_mpz_t()) && e > 0) { L /= 2; W /= 2; e--; } };
  while (!width_ok()) {
    long have = e - (long)mpz_sizeinbase(W.get_mpz_t(), 2);
    if (have < 24) { bisect(); continue; }
    // Newton from the midpoint at doubled precision
    long ne = 2 * have + 8; if (ne > bits + 8) ne = bits + 8; if (ne < e + 1) ne = e + 1;
    long g = ne + 16;
    mpz_class x = 2 * L + W; // scale e+1
    if (g >= e + 1) mpz_mul_2exp(x.get_mpz_t(), x.get_mpz_t(), g - e - 1); else mpz_fdiv_q_2exp(x.get_mpz_t(), x.get_mpz_t(), e + 1 - g);
    mpz_class fx = 0, dx = 0, t; int d = (int)f.size() - 1;
    for (int i = d; i >= 0; i--) { // fixed point Horner at scale g
      dx = dx * x; mpz_fdiv_q_2exp(dx.get_mpz_t(), dx.get_mpz_t(), g); dx += fx;
      fx = fx * x; mpz_fdiv_q_2exp(fx.get_mpz_t(), fx.get_mpz_t(), g); t = f[i]; mpz_mul_2exp(t.get_mpz_t(), t.get_mpz_t(), g); fx += t; }
    bool ok = false;
    if (dx != 0) {
      t = fx; mpz_mul_2exp(t.get_mpz_t(), t.get_mpz_t(), g); mpz_class q; mpz_fdiv_q(q.get_mpz_t(), t.get_mpz_t(), dx.get_mpz_t());
      mpz_class y = x - q; mpz_fdiv_q_2exp(y.get_mpz_t(), y.get_mpz_t(), g - ne);
      mpz_class nl = y - 2, nh = y + 3; // inside the old interval?
      mpz_class ol = L, oh = L + W; long sh = ne - e; mpz_mul_2exp(ol.get_mpz_t(), ol.get_mpz_t(), sh); mpz_mul_2exp(oh.get_mpz_t(), oh.get_mpz_t(), sh);
      if (nl < ol) nl = ol; if (nh > oh) nh = oh;
      if (nl < nh) { int a = zpoly_sign_at(f, nl, ne), b = zpoly_sign_at(f, nh, ne); if (a == slo && b == -slo) { L = nl; W = nh - nl; e = ne; ok = true; } }
    }
    if (!ok) for (int i = 0; i < 4; i++) bisect();
  }
}
static std::vector<FieldP> roots_of(const ZPoly& f) {
  std::vector<FieldP> out;
  if (f.size() == 2) { auto k = std::make_shared<Field>(); k->f = f; k->deg = 1; k->exact = true; k->exact_root = mpq_class(-f[0], f[1]); k->exact_root.canonicalize(); k->e = -1; k->refine(64); out.push_back(k); return out; }
  auto s = sturm(f); mpz_class B = 0; for (auto& c : f) if (abs(c) > B) B = abs(c); B = B / abs(f.back()) + 2; long k = mpz_sizeinbase(B.get_mpz_t(), 2) + 1; mpz_class R; mpz_ui_pow_ui(R.get_mpz_t(), 2, k);
  struct I { mpz_class a, b; long e; int va, vb; }; std::vector<I> st; auto var = [&](const mpz_class& n, long e) { mpz_class d; mpz_ui_pow_ui(d.get_mpz_t(), 2, e); mpq_class x(n, d); x.canonicalize(); return variations(s, x); };
  st.push_back({-R, R, 0, var(-R, 0), var(R, 0)});
  while (!st.empty()) {
    I i = st.back(); st.pop_back(); int c = i.va - i.vb; if (c == 0) continue;
    if (c == 1) { auto q = std::make_shared<Field>(); q->f = f; q->deg = (int)f.size() - 1; q->L = i.a; q->W = i.b - i.a; q->e = i.e; q->index = (int)out.size(); out.push_back(q); continue; }
    mpz_class m = i.a + i.b; int vm = var(m, i.e + 1);
    st.push_back({m, i.b * 2, i.e + 1, vm, i.vb}); st.push_back({i.a * 2, m, i.e + 1, i.va, vm});
  }
  return out;
}
std::vector<FieldP> roots(const ZPoly& f) { return roots_of(f); }
FieldP make_field(const ZPoly& f, const mpz_class& den, int index, const std::string& name) {
  auto r = roots_of(f); if (r.empty()) { fprintf(stderr, "model: no real root\n"); exit(3); }
  auto k = r[index % r.size()]; k->den = den; k->name = name; return k;
}
static std::string poly_str(const ZPoly& n, const mpz_class& d, const std::string& x) {
  std::string s;
  for (int i = (int)n.size() - 1; i >= 0; i--) {
    if (n[i] == 0) continue; mpq_class c(n[i], d); c.canonicalize(); bool neg = c < 0; if (neg) c = -c;
    if (s.empty()) s = neg ? "-" : ""; else s += neg ? " - " : " + ";
    if (i == 0) s += c.get_str(); else { if (c != 1) s += c.get_str() + "*"; s += x; if (i > 1) s += "^" + std::to_string(i); }
  }
  return s.empty() ? "0" : s;
}
std::string Field::poly_string() const { return poly_str(f, den, name); }
std::string Field::key() const { return poly_string() + "|" + name + "|" + std::to_string(index); }

bool Val::zero() const { for (auto& c : n) if (c != 0) return false; return true; }
bool Val::rational() const { for (size_t i = 1; i < n.size(); i++) if (n[i] != 0) return false; return true; }
bool Val::integer() const { return rational() && (n.empty() || d == 1); }
mpq_class Val::q() const { mpq_class r(n.empty() ? mpz_class(0) : n[0], d); r.canonicalize(); return r; }
mpq_class Val::coeff(int i) const { mpq_class r(i < (int)n.size() ? n[i] : mpz_class(0), d); r.canonicalize(); return r; }
void Val::canon() {
  trim(n); if (n.empty()) { d = 1; return; }
  mpz_class g = d; for (auto& c : n) g = gcd(g, c);
  if (d < 0) g = -abs(g); else g = abs(g);
  if (g != 1) { d /= g; for (auto& c : n) c /= g; }
}
size_t Val::bits() const { size_t b = mpz_sizeinbase(d.get_mpz_t(), 2); for (auto& c : n) b = std::max(b, mpz_sizeinbase(c.get_mpz_t(), 2)); return b; }
std::string Val::str() const { return poly_str(n, d, k->name); }
static void reduce(Val& v) {
  const ZPoly& f = v.k->f; size_t df = f.size() - 1; trim(v.n);
  while (v.n.size() > df) {
    mpz_class c = v.n.back(); size_t sh = v.n.size() - 1 - df; const mpz_class& l = f.back();
    if (l != 1) { for (auto& x : v.n) x *= l; v.d *= l; }
    for (size_t i = 0; i <= df; i++) v.n[i + sh] -= c * f[i];
    trim(v.n);
  }
  v.canon();
}
Val from_q(const FieldP& k, const mpq_class& q) { Val v; v.k = k; v.n = {q.get_num()}; v.d = q.get_den(); v.canon(); return v; }
Val gen(const FieldP& k) { Val v; v.k = k; v.n = {0, 1}; reduce(v); return v; }
Val from_coeffs(const FieldP& k, const std::vector<mpq_class>& c) {
  Val v; v.k = k; mpz_class l = 1; for (auto& q : c) l = lcm(l, q.get_den());
  for (auto& q : c) v.n.push_back(q.get_num() * (l / q.get_den())); v.d = l; reduce(v); return v;
}
Val add(const Val& a, const Val& b) { Val r; r.k = a.k; r.d = a.d * b.d; r.n.resize(std::max(a.n.size(), b.n.size())); for (size_t i = 0; i < a.n.size(); i++) r.n[i] += a.n[i] * b.d; for (size_t i = 0; i < b.n.size(); i++) r.n[i] += b.n[i] * a.d; r.canon(); return r; }
Val neg(const Val& a) { Val r = a; for (auto& c : r.n) c = -c; return r; }
Val sub(const Val& a, const Val& b) { return add(a, neg(b)); }
Val mul(const Val& a, const Val& b) { Val r; r.k = a.k; r.d = a.d * b.d; if (a.n.empty() || b.n.empty()) { r.d = 1; return r; } r.n.assign(a.n.size() + b.n.size() - 1, 0); for (size_t i = 0; i < a.n.size(); i++) for (size_t j = 0; j < b.n.size(); j++) r.n[i + j] += a.n[i] * b.n[j]; reduce(r); return r; }
Val addq(const Val& a, const mpq_class& q) { return add(a, from_q(a.k, q)); }
Val mulq(const Val& a, const mpq_class& q) { Val r = a; for (auto& c : r.n) c *= q.get_num(); r.d *= q.get_den(); r.canon(); return r; }
Val inv(const Val& a) {
  typedef std::vector<mpq_class> QP; auto qtrim = [](QP& p) { while (!p.empty() && p.back() == 0) p.pop_back(); };
  QP r0, r1, s0, s1 = {1}; for (auto& c : a.k->f) r0.push_back(c); for (auto& c : a.n) r1.push_back(mpq_class(c)); 
  while (r1.size() > 1) { // r0 = q r1 + r2, s2 = s0 - q s1
    QP s2 = s0;
    while (r0.size() >= r1.size()) {
      mpq_class c = r0.back() / r1.back(); size_t sh = r0.size() - r1.size();
      for (size_t i = 0; i < r1.size(); i++) r0[i + sh] -= c * r1[i];
      if (s2.size() < s1.size() + sh) s2.resize(s1.size() + sh);
      for (size_t i = 0; i < s1.size(); i++) s2[i + sh] -= c * s1[i];
      qtrim(r0);
    }
    qtrim(s2); s0 = s1; s1 = s2; std::swap(r0, r1);
  }
  mpq_class c = r1.at(0); std::vector<mpq_class> out; for (auto& x : s1) out.push_back(x / c * a.d);
  return from_coeffs(a.k, out);
}
Val pow(const Val& a, unsigned long e) { Val r = from_q(a.k, 1), b = a; while (e) { if (e & 1) r = mul(r, b); e >>= 1; if (e) b = mul(b, b); } return r; }
void enclose(const Val& v, long e, mpz_class& a, mpz_class& b) {
  Field& k = *v.k; long p = e + 16; if (p < 32) p = 32;
  k.refine(p);
  // root in [lo, hi] at scale p (rounded outwards)
  mpz_class lo = k.L, hi = k.L + k.W;
  if (k.e > p) { mpz_fdiv_q_2exp(lo.get_mpz_t(), lo.get_mpz_t(), k.e - p); mpz_cdiv_q_2exp(hi.get_mpz_t(), hi.get_mpz_t(), k.e - p); } else { mpz_mul_2exp(lo.get_mpz_t(), lo.get_mpz_t(), p - k.e); mpz_mul_2exp(hi.get_mpz_t(), hi.get_mpz_t(), p - k.e); }
  mpz_class x = 0, y = 0, t, c[4];
  for (int i = (int)v.n.size() - 1; i >= 0; i--) {
    if (x != 0 || y != 0) {
      c[0] = x * lo; c[1] = x * hi; c[2] = y * lo; c[3] = y * hi; int mn = 0, mx = 0; for (int j = 1; j < 4; j++) { if (c[j] < c[mn]) mn = j; if (c[j] > c[mx]) mx = j; }
      mpz_fdiv_q_2exp(x.get_mpz_t(), c[mn].get_mpz_t(), p); mpz_cdiv_q_2exp(y.get_mpz_t(), c[mx].get_mpz_t(), p);
    }
    t = v.n[i]; mpz_mul_2exp(t.get_mpz_t(), t.get_mpz_t(), p); x += t; y += t;
  }
  mpz_class den = v.d; if (p > e) mpz_mul_2exp(den.get_mpz_t(), den.get_mpz_t(), p - e);
  else if (p < e) { mpz_mul_2exp(x.get_mpz_t(), x.get_mpz_t(), e - p); mpz_mul_2exp(y.get_mpz_t(), y.get_mpz_t(), e - p); }
  mpz_fdiv_q(a.get_mpz_t(), x.get_mpz_t(), den.get_mpz_t()); mpz_cdiv_q(b.get_mpz_t(), y.get_mpz_t(), den.get_mpz_t());
}
static void cap(long e) { if (e > 2000000) { fprintf(stderr, "model: precision cap\n"); exit(3); } }
int sign(const Val& v) {
  if (v.zero()) return 0; if (v.rational()) return sgn(v.n[0]);
  if (v.k->exact) { mpq_class s = 0; for (int i = (int)v.n.size() - 1; i >= 0; i--) s = s * v.k->exact_root + v.n[i]; return sgn(s); }
  mpz_class a, b; for (long e = 64;; e *= 2) { cap(e); enclose(v, e, a, b); if (a > 0) return 1; if (b < 0) return -1; }
}
int cmp(const Val& a, const Val& b) { return sign(sub(a, b)); }
int cmpq(const Val& a, const mpq_class& q) { return sign(addq(a, -q)); }
mpz_class floor(const Val& v) {
  mpz_class r; if (v.rational()) { mpq_class q = v.q(); mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
  mpz_class a, b; for (long e = 64;; e *= 2) { cap(e); enclose(v, e, a, b); mpz_fdiv_q_2exp(a.get_mpz_t(), a.get_mpz_t(), e); mpz_fdiv_q_2exp(b.get_mpz_t(), b.get_mpz_t(), e); if (a == b) return a; }
}
mpz_class ceil(const Val& v) { return -floor(neg(v)); }
mpz_class fdiv(const Val& b, const Val& c) {
  // candidate from a crude approximation, corrected by exact signs
  int sc = sign(c); mpz_class x, y, u, w; long e = 64; mpz_class qn;
  for (;; e *= 2) { cap(e); enclose(c, e, u, w); if (sgn(u) * sgn(w) > 0 && abs(w - u) * 1024 < abs(u)) break; }
  mpz_class num; { long e2 = e; enclose(b, e2, x, y); mpz_fdiv_q(qn.get_mpz_t(), x.get_mpz_t(), u.get_mpz_t());
    // improve until the candidate is within 4 of both ends
    for (;; e2 *= 2) { cap(e2); enclose(b, e2, x, y); enclose(c, e2, u, w); if (sgn(u) * sgn(w) <= 0) continue; mpz_class q[4]; mpz_fdiv_q(q[0].get_mpz_t(), x.get_mpz_t(), u.get_mpz_t()); mpz_fdiv_q(q[1].get_mpz_t(), x.get_mpz_t(), w.get_mpz_t()); mpz_fdiv_q(q[2].get_mpz_t(), y.get_mpz_t(), u.get_mpz_t()); mpz_fdiv_q(q[3].get_mpz_t(), y.get_mpz_t(), w.get_mpz_t()); mpz_class mn = q[0], mx = q[0]; for (int i = 1; i < 4; i++) { if (q[i] < mn) mn = q[i]; if (q[i] > mx) mx = q[i]; } if (mx - mn <= 3) { qn = mn; break; } } }
  // largest n with n*c <= b (c > 0) resp. n*c >= b (c < 0)
  auto ok = [&](const mpz_class& n) { int s = sign(sub(b, mulq(c, n))); return sc > 0 ? s >= 0 : s <= 0; };
  while (!ok(qn)) qn -= 1; while (ok(qn + 1)) qn += 1; return qn;
}
std::vector<mpz_class> cfrac(const Val& a, int n, Val* rem, bool* finished) {
  std::vector<mpz_class> c; Val x = a; *finished = false;
  if (x.zero()) { *rem = x; *finished = true; return c; }
  for (int i = 0; i < n; i++) { mpz_class f = floor(x); c.push_back(f); x = addq(x, mpq_class(-f)); if (x.zero()) { *finished = true; break; } x = inv(x); }
  *rem = x; return c;
}
double q_to_double(const mpq_class& q, Rnd rnd, bool* normal) {
  *normal = true; if (q == 0) return 0; bool ng = q < 0; mpz_class n = abs(q.get_num()), d = q.get_den();
  long k = (long)mpz_sizeinbase(n.get_mpz_t(), 2) - (long)mpz_sizeinbase(d.get_mpz_t(), 2) - 53; // |q| / 2^k about 2^53
  mpz_class m, r;
  for (;;) {
    mpz_class nn = n, dd = d; if (k >= 0) mpz_mul_2exp(dd.get_mpz_t(), dd.get_mpz_t(), k); else mpz_mul_2exp(nn.get_mpz_t(), nn.get_mpz_t(), -k);
    mpz_fdiv_qr(m.get_mpz_t(), r.get_mpz_t(), nn.get_mpz_t(), dd.get_mpz_t()); size_t b = mpz_sizeinbase(m.get_mpz_t(), 2);
    if (b > 53) { k++; continue; } if (b < 53) { k--; continue; }
    bool up = false;
    switch (rnd) { case R_DOWN: up = false; break; case R_UP: up = r != 0; break; case R_FLOOR: up = ng && r != 0; break; case R_CEIL: up = !ng && r != 0; break;
      case R_NEAR: { mpz_class t = 2 * r; int c = ::cmp(t, dd); up = c > 0 || (c == 0 && mpz_odd_p(m.get_mpz_t())); } }
    if (up) m += 1; break;
  }
  if (k < -1022 - 52 || k > 971) *normal = false;
  double x = std::ldexp(m.get_d(), (int)std::max(-5000L, std::min(5000L, k))); if (std::isinf(x) || std::fabs(x) < DBL_MIN) *normal = false;
  return ng ? -x : x;
}
mpq_class approx(const Val& v, long bits, bool up) { mpz_class a, b; long e = bits + 1; for (;; e += 64) { cap(e); enclose(v, e, a, b); mpz_class w = b - a; if ((long)mpz_sizeinbase(w.get_mpz_t(), 2) + bits <= e) break; } mpz_class d; mpz_ui_pow_ui(d.get_mpz_t(), 2, e); mpq_class q(up ? b : a, d); q.canonicalize(); return q; }
double to_double(const Val& v, Rnd rnd, bool* normal) {
  if (v.rational()) return q_to_double(v.q(), rnd, normal);
  mpz_class a, b;
  for (long e = 64;; e *= 2) { cap(e); enclose(v, e, a, b); if (sgn(a) * sgn(b) <= 0) { if (e > 4096) { *normal = false; return 0; } continue; }
    mpz_class d; mpz_ui_pow_ui(d.get_mpz_t(), 2, e); mpq_class x(a, d), y(b, d); x.canonicalize(); y.canonicalize(); bool n1, n2; double p = q_to_double(x, rnd, &n1), q = q_to_double(y, rnd, &n2);
    if (p == q) { *normal = n1 && n2; return p; } if (!n1 && !n2) { *normal = false; return p; } }
}
bool parse(const FieldP& k, const std::string& text, Val& out) {
  std::string s; for (char c : text) if (!isspace((unsigned char)c)) s += c;
  if (!s.empty() && s[0] == '(' && s.back() == ')') s = s.substr(1, s.size() - 2);
  size_t t = s.find('~'); if (t != std::string::npos) s = s.substr(0, t);
  if (s.empty()) return false; std::vector<mpq_class> c; size_t i = 0;
  while (i < s.size()) {
    int sg = 1; if (s[i] == '+' || s[i] == '-') { if (s[i] == '-') sg = -1; i++; } else if (i) return false;
    size_t j = i; while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == '/')) j++;
    mpq_class q = 1; bool num = j > i; if (num) { try { q = mpq_class(s.substr(i, j - i)); } catch (...) { return false; } if (q.get_den() == 0) return false; q.canonicalize(); } i = j;
    int e = 0; if (num && i < s.size() && s[i] == '*') { i++; num = false; } else if (num) goto done;
    if (s.compare(i, k->name.size(), k->name) != 0) return false; i += k->name.size(); e = 1;
    if (i < s.size() && s[i] == '^') { i++; size_t m = i; while (m < s.size() && isdigit((unsigned char)s[m])) m++; if (m == i || m - i > 4) return false; e = atoi(s.substr(i, m - i).c_str()); i = m; }
  done:
    if (e > 1000) return false; if ((int)c.size() <= e) c.resize(e + 1); c[e] += sg * q;
    if (i < s.size() && s[i] != '+' && s[i] != '-') return false;
  }
  out = from_coeffs(k, c); return true;
}

// ---------------------------------------------------------------- generators
mpz_class gen_mpz(Rng& r, int bits) {
  switch (r.below(10)) {
    case 0: return mpz_class((long)r.range(-2, 2));
    case 1: { mpz_class x; static const char* b[] = {"32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4611686018427387903", "4611686018427387904", "4611686018427387905", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "9007199254740991", "9007199254740993"}; x = b[r.below(sizeof(b) / sizeof(*b))]; if (r.below(2)) x = -x; if (bits < 64) return mpz_class((long)r.range(-9, 9)); return x; }
    case 2: case 3: case 4: return mpz_class((long)r.range(-20, 20));
    default: { int b = 1 + (int)r.below(bits); if (r.one_in(3) && b > 70) b = 1 + (int)r.below(70); mpz_class x = 0; for (int i = 0; i < b; i += 32) { x <<= 32; x += (unsigned long)(r.u64() & 0xffffffffu); } mpz_class m; mpz_ui_pow_ui(m.get_mpz_t(), 2, b); x %= m; if (r.one_in(8)) x = m - (long)r.below(3); if (r.below(2)) x = -x; return x; }
  }
}
mpq_class gen_mpq(Rng& r, int bits) { mpz_class n = gen_mpz(r, bits), d = r.one_in(3) ? mpz_class(1) : abs(gen_mpz(r, bits)); if (d == 0) d = 1; mpq_class q(n, d); q.canonicalize(); return q; }

static ZPoly reverse_poly(ZPoly f) { std::reverse(f.begin(), f.end()); return f; }
static bool has_root(const ZPoly& f) { mpz_class B = 0; for (auto& c : f) if (abs(c) > B) B = abs(c); B = B / abs(f.back()) + 2; return zpoly_count_roots(f, mpq_class(-B), mpq_class(B)) > 0; }
// is the monic polynomial f irreducible modulo the prime p?
static bool irreducible_mod(const std::vector<long>& f, long p) {
  typedef std::vector<long> V; size_t d = f.size() - 1; auto trimv = [](V& a) { while (!a.empty() && a.back() == 0) a.pop_back(); };
  auto inv = [&](long a) { long r = 1; for (long e = p - 2; e > 0; e >>= 1) { if (e & 1) r = r * a % p; a = a * a % p; } return r; };
  auto rem = [&](V a, const V& b) { trimv(a); long li = inv(b.back()); while (a.size() >= b.size()) { long c = a.back() * li % p; size_t sh = a.size() - b.size(); for (size_t i = 0; i < b.size(); i++) a[i + sh] = (a[i + sh] + (p - c) * b[i]) % p; trimv(a); } return a; };
  auto mulm = [&](const V& a, const V& b) { if (a.empty() || b.empty()) return V(); V c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] = (c[i + j] + a[i] * b[j]) % p; return rem(c, f); };
  V h = rem(V{0, 1}, f);
  for (size_t i = 1; i <= d / 2; i++) { V b = h, t{1}; for (long e = p; e > 0; e >>= 1) { if (e & 1) t = mulm(t, b); b = mulm(b, b); } h = t; V a = f, g = h; if (g.size() < 2) g.resize(2, 0); g[1] = (g[1] + p - 1) % p; trimv(g); while (!g.empty()) { V q = rem(a, g); a = g; g = q; } if (a.size() > 1) return false; }
  return true;
}
// squarefree with many different sign patterns: dense, small coefficients, irreducible modulo a small prime
static ZPoly gen_dense(Rng& r, int deg, int maxbits) {
  static const long ps[] = {2, 3, 5, 7}; long p = ps[r.below(4)]; std::vector<long> f(deg + 1); do { for (auto& c : f) c = (long)r.below(p); f[deg] = 1; } while (!irreducible_mod(f, p));
  ZPoly z; int kind = (int)r.below(3); for (int i = 0; i <= deg; i++) { mpz_class c = f[i]; if (kind == 0) c -= p * (long)r.below(2); else if (kind == 1) c += p * r.range(-2, 1); else if (r.below(2)) c += p * gen_mpz(r, maxbits); z.push_back(c); }
  return z;
}
ZPoly gen_poly(Rng& r, int maxdeg, int maxbits) {
  for (;;) {
    ZPoly f; int kind = (int)r.below(10); int deg = 2 + (int)r.below(maxdeg - 1);
    if (r.one_in(4) || maxdeg < 3) deg = 2;
    if (deg > 2 && r.one_in(4)) { f = gen_dense(r, deg, maxbits); if (has_root(f)) return f; continue; }
    if (kind == 0) { // linear
      mpz_class a = gen_mpz(r, std::min(maxbits, 70)), b = gen_mpz(r, std::min(maxbits, 70)); if (a == 0) a = 1; mpz_class g = gcd(a, b); if (g > 1 && r.below(2)) { a /= g; b /= g; } f = {b, a}; return f; }
    if (deg == 2) { mpz_class a, b, c; if (kind < 5) { a = 1; b = 0; c = -abs(gen_mpz(r, std::min(maxbits, 40))); } else { a = gen_mpz(r, std::min(maxbits, 64)); b = gen_mpz(r, std::min(maxbits, 64)); c = gen_mpz(r, std::min(maxbits, 64)); }
      if (a == 0) continue; mpz_class D = b * b - 4 * a * c; if (D <= 0 || mpz_perfect_square_p(D.get_mpz_t())) continue; f = {c, b, a}; return f; }
    static const int primes[] = {2, 3, 5, 7, 11, 13};
    int p = primes[r.below(6)];
    if (kind < 3) { // n-th root: x^n - c with Eisenstein prime
      mpz_class c = p; int b = 1 + (int)r.below(std::min(maxbits, 200)); c *= 2 * abs(gen_mpz(r, b)) + 1; while (c % (p * p) == 0) c /= p; f.assign(deg + 1, 0); f[0] = -c; f[deg] = 1; if (c % p != 0) continue; }
    else if (kind < 5) { // Mignotte: two very close roots near 1/a
      if (deg < 3) deg = 3; mpz_class a = 2 + (long)r.below(maxbits > 20 ? 2000 : 20); if (maxbits > 20 && r.one_in(4)) a = (mpz_class(1) << (10 + r.below(maxbits > 40 && r.below(2) ? 130 : 35))) + r.below(5); f.assign(deg + 1, 0); f[deg] = 1; f[2] -= 2 * a * a; f[1] += 4 * a; f[0] -= 2; }
    else { int b = 1 + (int)r.below(maxbits); f.resize(deg + 1); for (int i = 0; i < deg; i++) f[i] = r.one_in(3) ? mpz_class(0) : mpz_class(p * gen_mpz(r, b)); do f[0] = p * gen_mpz(r, b); while (f[0] == 0 || f[0] % (p * p) == 0);
      f[deg] = r.one_in(2) ? mpz_class(1) : gen_mpz(r, std::min(b, 40)); if (f[deg] == 0 || f[deg] % p == 0) f[deg] = 1; if (r.one_in(6)) f[deg] = -f[deg]; }
    if (!has_root(f)) continue;
    if (r.one_in(4)) f = reverse_poly(f);
    if (r.one_in(4)) for (size_t i = 1; i < f.size(); i += 2) f[i] = -f[i];
    if (r.one_in(6)) { int s = 1 + (int)r.below(std::min(maxbits, 60)); int d = (int)f.size() - 1; if (r.below(2)) for (int i = 0; i <= d; i++) mpz_mul_2exp(f[i].get_mpz_t(), f[i].get_mpz_t(), s * i); else for (int i = 0; i <= d; i++) mpz_mul_2exp(f[i].get_mpz_t(), f[i].get_mpz_t(), s * (d - i)); }
    if (r.one_in(8)) { long h = r.range(-30, 30); int d = (int)f.size() - 1; for (int i = 0; i < d; i++) for (int j = d - 1; j >= i; j--) f[j] += h * f[j + 1]; }
    return f;
  }
}
bool squarefree(const ZPoly& f) { if (f.size() <= 2) return true; auto s = sturm(f); return s.back().size() == 1; }
ZPoly zmul(const ZPoly& a, const ZPoly& b) { ZPoly c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] += a[i] * b[j]; return c; }
ZPoly gen_squarefree(Rng& r, int maxdeg, int maxbits) {
  for (;;) {
    ZPoly f{1}; int nf = 1 + (int)r.below(4); if (r.below(2)) nf = 1;
    for (int i = 0; i < nf; i++) { ZPoly g; switch (r.below(6)) {
      case 0: g = {0, 1}; break;
      case 1: g = {mpz_class((long)r.range(-9, 9)), mpz_class(1) << r.below(5)}; break;
      case 2: { mpz_class b = gen_mpz(r, maxbits); if (b == 0) b = 3; g = {gen_mpz(r, maxbits), b}; break; }
      case 3: { int d = 1 + (int)r.below(maxdeg); for (int j = 0; j <= d; j++) g.push_back(r.one_in(4) ? mpz_class(0) : mpz_class((long)r.range(-4, 4))); trim(g); break; }
      case 4: g = gen_poly(r, std::max(2, std::min(maxdeg, 6)), maxbits); break;
      default: g = gen_dense(r, 2 + (int)r.below(maxdeg), maxbits); }
      if (g.empty() || g.back() == 0) continue; if ((int)(f.size() + g.size()) > maxdeg + 6) continue; f = zmul(f, g); }
    if (f.size() < 2 || !squarefree(f)) continue;
    return f;
  }
}
Val gen_tiny(Rng& r, const FieldP& k) { // (a - q)^j with |a - q| about 2^-bits: nonzero, small
  if (k->deg == 1) { mpq_class q = mpq_class(1, abs(gen_mpz(r, 400)) + 1); q.canonicalize(); return from_q(k, r.below(2) ? q : mpq_class(-q)); }
  static const int bs[] = {8, 30, 52, 53, 54, 63, 64, 65, 70, 100, 128, 129, 200, 256, 400, 700, 1100, 1500};
  long bits = bs[r.below(sizeof(bs) / sizeof(*bs))]; if (r.below(2)) bits = bs[r.below(11)];
  mpq_class q = approx(gen(k), bits, r.below(2)); Val t = addq(gen(k), -q); if (r.one_in(5) && bits < 300) t = mul(t, t); if (r.below(2)) t = neg(t); if (r.one_in(3)) t = mulq(t, mpq_class(gen_mpz(r, 20)) + mpq_class(1, 3)); return t;
}
Val gen_val(Rng& r, const FieldP& k, int bits) {
  auto rnd = [&](int b) { std::vector<mpq_class> c(k->deg); for (auto& x : c) x = r.one_in(3) ? mpq_class(0) : r.one_in(2) ? mpq_class(gen_mpz(r, b)) : gen_mpq(r, b); return from_coeffs(k, c); };
  switch (r.below(16)) {
    case 0: return from_q(k, 0); case 1: return from_q(k, mpq_class(r.range(-1, 1))); case 2: return gen(k);
    case 3: return from_q(k, mpq_class(gen_mpz(r, bits))); case 4: return from_q(k, gen_mpq(r, bits));
    case 5: case 6: case 7: return rnd(5); case 8: case 9: return rnd(bits);
    case 10: return gen_tiny(r, k);
    case 11: return addq(gen_tiny(r, k), mpq_class(gen_mpz(r, std::min(bits, 100))));
    case 12: { double x = (double)(int64_t)(r.u64() >> (r.below(64))) * std::ldexp(1.0, (int)r.range(-80, 80)); return addq(gen_tiny(r, k), mpq_class(x)); }
    case 13: { double x = 1.0 + (double)(r.u64() >> 12) * std::ldexp(1.0, -52); mpq_class q(x); mpq_class h(1); h /= mpz_class(1) << 53; q += h; int s = (int)r.range(-60, 60); if (s >= 0) q *= mpz_class(1) << s; else q /= mpz_class(1) << -s; return addq(gen_tiny(r, k), q); }
    case 14: return mul(rnd(4), gen_tiny(r, k));
    default: return rnd(30);
  }
}
}
