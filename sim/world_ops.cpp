// World Seq: operations on elements.
#include "world_seq.h"
#include <flint/fmpz_vec.h>
#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>
namespace ws {
namespace {
// ---------------------------------------------------------------- scalars of every supported type
struct FZ { Fmpz x; explicit FZ(const mpz_class& v) : x(v) {} }; struct FQ { Fmpq x; explicit FQ(const mpq_class& v) : x(v) {} };
template <class T> T pick_int(Rng& r, const mpq_class* hint) {
  typedef std::numeric_limits<T> L;
  if (hint && r.below(2)) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), hint->get_num_mpz_t(), hint->get_den_mpz_t()); f += r.range(-1, 2); mpz_class lo, hi; if (L::is_signed) { lo = (long)L::min(); hi = (long)L::max(); } else { lo = 0; hi = (unsigned long)L::max(); } if (f >= lo && f <= hi) return L::is_signed ? (T)f.get_si() : (T)f.get_ui(); }
  switch (r.below(9)) { case 0: return L::min(); case 1: return L::max(); case 2: return (T)(L::max() - (T)r.below(3)); case 3: return (T)(L::min() + (T)r.below(3)); case 4: return (T)r.u64(); case 5: return (T)((uint64_t(1) << 62) - 1 + r.below(3)); case 6: return (T)(0 - ((uint64_t(1) << 62) - 1 + r.below(3))); default: return (T)(L::is_signed ? r.range(-12, 12) : r.range(0, 12)); }
}
template <class T> mpq_class val_of(T v) { return std::numeric_limits<T>::is_signed ? mpq_class((long)v) : mpq_class((unsigned long)v); }
mpz_class pick_mpz(Rng& r, const mpq_class* hint) { if (hint && r.below(2)) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), hint->get_num_mpz_t(), hint->get_den_mpz_t()); return f + r.range(-1, 2); } return model::gen_mpz(r, r.one_in(4) ? 400 : 70); }
mpq_class pick_mpq(Rng& r, const mpq_class* hint) { if (hint && r.below(2)) { if (r.below(2)) return *hint; mpq_class h = *hint + mpq_class(r.range(-1, 1), 1L << r.below(50)); h.canonicalize(); return h; } return model::gen_mpq(r, r.one_in(4) ? 300 : 60); }
// g(typed value, its exact value)
template <class G> void with_scalar(Rng& r, int t, const mpq_class* hint, G g) {
  switch (t) {
    case 0: { short v = pick_int<short>(r, hint); g(v, val_of(v)); break; } case 1: { unsigned short v = pick_int<unsigned short>(r, hint); g(v, val_of(v)); break; }
    case 2: { int v = pick_int<int>(r, hint); g(v, val_of(v)); break; } case 3: { unsigned v = pick_int<unsigned>(r, hint); g(v, val_of(v)); break; }
    case 4: { long v = pick_int<long>(r, hint); g(v, val_of(v)); break; } case 5: { unsigned long v = pick_int<unsigned long>(r, hint); g(v, val_of(v)); break; }
    case 6: { long long v = pick_int<long long>(r, hint); g(v, val_of(v)); break; } case 7: { unsigned long long v = pick_int<unsigned long long>(r, hint); g(v, val_of(v)); break; }
    case 8: { mpz_class v = pick_mpz(r, hint); g(v, mpq_class(v)); break; } default: { mpq_class v = pick_mpq(r, hint); g(v, v); break; }
  }
}
const char* type_name(int t) { static const char* n[] = {"short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "mpz_class", "mpq_class", "fmpz_t", "fmpq_t"}; return n[t]; }
std::optional<Elem>& E(int i) { return w->S[i]->e; }
FR field_of(int64_t i) { FSlot& f = w->F[i & (NF - 1)]; return f.f ? f.f : w->F[0].f ? w->F[0].f : w->triv; }
Val small_val(Rng& r, const FieldP& k) { Val v; do v = model::gen_val(r, k, r.one_in(3) ? 120 : 20); while (v.bits() > 2500); if (r.one_in(24) && v.bits() < 300) { mpz_class s; mpz_ui_pow_ui(s.get_mpz_t(), 2, 900 + r.below(300)); v = model::mulq(v, r.one_in(4) ? mpq_class(mpz_class(1), s) : mpq_class(s)); } return v; }
void move_in(int c, std::optional<Elem>& t) { Slot& x = *w->S[c]; FR f = find_addr(&t->parent()); drop(x); w->pin.push_back(f); sut([&] { x.e.emplace(std::move(*t)); t.reset(); }); }
std::string opn(int k) { return std::string(1, "+-*/"[k]); }
Val mod(int k, const Val& a, const Val& b) { switch (k) { case 0: return model::add(a, b); case 1: return model::sub(a, b); case 2: return model::mul(a, b); default: return model::mul(a, model::inv(b)); } }
bool too_big(const Val& a, const Val& b, int k) { size_t x = a.bits() + b.bits(); if (k == 3 && !b.rational()) x = a.bits() + b.bits() * (size_t)b.k->deg * 2; return x > 5000; }

void do_new(const Op& op) {
  Rng r(op.seed); int i = si(op.a[0]); FR f = field_of(op.a[1]); const FieldP& k = f->k; const eantic::renf_class& K = *f->addr; Slot& x = *w->S[i]; int kind = (int)(op.a[2] >= 0 ? op.a[2] : 0) % 14; if (op.a[3]) kind = (int)(op.a[3] % 14);
  state3("new", kind, nullptr); drop(x); Val want; Out o; std::string what = "creating an element"; FR into = f;
  auto coeffs = [&](auto conv) { std::vector<mpq_class> c; int n = (int)r.below(k->deg + 1); for (int j = 0; j < n; j++) c.push_back(conv()); want = model::from_coeffs(k, c); return n; };
  // the field must stay alive while the slot is empty
  FieldPtr guard; sut([&] { guard = FieldPtr(f->addr); });
  switch (kind) {
    default: { want = small_val(r, k); std::string t = want.str(); if (r.one_in(5)) t += " ~ 1.2345"; what = "reading the text " + t.substr(0, 200); o = sut([&] { x.e.emplace(K, t); }); break; }
    case 1: { std::vector<mpq_class> v; coeffs([&] { mpq_class q = model::gen_mpq(r, 80); v.push_back(q); return q; }); what = "creating from vector<mpq_class>"; o = sut([&] { x.e.emplace(K, v); }); break; }
    case 2: { std::vector<mpz_class> v; coeffs([&] { mpz_class q = model::gen_mpz(r, 80); v.push_back(q); return mpq_class(q); }); what = "creating from vector<mpz_class>"; o = sut([&] { x.e.emplace(K, v); }); break; }
    case 3: { int z = (int)r.below(4); if (z == 0) { std::vector<long> v; coeffs([&] { v.push_back(pick_int<long>(r, nullptr)); return val_of(v.back()); }); o = sut([&] { x.e.emplace(K, v); }); what = "creating from vector<long>"; }
      else if (z == 1) { std::vector<int> v; coeffs([&] { v.push_back(pick_int<int>(r, nullptr)); return val_of(v.back()); }); o = sut([&] { x.e.emplace(K, v); }); what = "creating from vector<int>"; }
      else if (z == 2) { std::vector<unsigned int> v; coeffs([&] { v.push_back(pick_int<unsigned int>(r, nullptr)); return val_of(v.back()); }); o = sut([&] { x.e.emplace(K, v); }); what = "creating from vector<unsigned int>"; }
      else { std::vector<unsigned long> v; coeffs([&] { v.push_back(pick_int<unsigned long>(r, nullptr)); return val_of(v.back()); }); o = sut([&] { x.e.emplace(K, v); }); what = "creating from vector<unsigned long>"; } break; }
    case 4: { int z = (int)r.below(3); want = z == 0 ? model::gen(k) : model::from_q(k, z == 1 ? 1 : 0); what = "copying a constant of the field"; o = sut([&] { x.e.emplace(z == 0 ? K.gen() : z == 1 ? K.one() : K.zero()); }); break; }
    case 5: { int t = (int)r.below(12); what = std::string("creating from ") + type_name(t); if (t < 10) with_scalar(r, t, nullptr, [&](const auto& v, const mpq_class& q) { want = model::from_q(k, q); o = sut([&] { x.e.emplace(K, v); }); }); else if (t == 10) { mpz_class z = pick_mpz(r, nullptr); Fmpz v(z); want = model::from_q(k, z); o = sut([&] { x.e.emplace(K, v.x); }); } else { mpq_class z = pick_mpq(r, nullptr); Fmpq v(z); want = model::from_q(k, z); o = sut([&] { x.e.emplace(K, v.x); }); } break; }
    case 6: { into = w->triv; int t = (int)r.below(12); what = std::string("creating a rational from ") + type_name(t); if (t < 10) with_scalar(r, t, nullptr, [&](const auto& v, const mpq_class& q) { want = model::from_q(into->k, q); o = sut([&] { x.e.emplace(v); }); }); else if (t == 10) { mpz_class z = pick_mpz(r, nullptr); Fmpz v(z); want = model::from_q(into->k, z); o = sut([&] { x.e.emplace(v.x); }); } else { mpq_class z = pick_mpq(r, nullptr); Fmpq v(z); want = model::from_q(into->k, z); o = sut([&] { x.e.emplace(v.x); }); } break; }
    case 7: { // C setters
      o = sut([&] { x.e.emplace(K); renf_elem_gen(x.e->renf_elem_t(), K.renf_t()); }); if (o.st) break; renf_elem* a = x.e->renf_elem_t(); renf* n = K.renf_t();
      switch (r.below(11)) { case 0: { slong v = pick_int<long>(r, nullptr); want = model::from_q(k, val_of(v)); what = "renf_elem_set_si"; o = sut([&] { renf_elem_set_si(a, v, n); }); break; } case 1: { ulong v = pick_int<unsigned long>(r, nullptr); want = model::from_q(k, val_of(v)); what = "renf_elem_set_ui"; o = sut([&] { renf_elem_set_ui(a, v, n); }); break; }
        case 2: { mpz_class z = pick_mpz(r, nullptr); Fmpz v(z); want = model::from_q(k, z); what = "renf_elem_set_fmpz"; o = sut([&] { renf_elem_set_fmpz(a, v.x, n); }); break; } case 3: { mpz_class z = pick_mpz(r, nullptr); want = model::from_q(k, z); what = "renf_elem_set_mpz"; o = sut([&] { renf_elem_set_mpz(a, z.get_mpz_t(), n); }); break; }
        case 4: { mpq_class z = pick_mpq(r, nullptr); Fmpq v(z); want = model::from_q(k, z); what = "renf_elem_set_fmpq"; o = sut([&] { renf_elem_set_fmpq(a, v.x, n); }); break; } case 5: { mpq_class z = pick_mpq(r, nullptr); want = model::from_q(k, z); what = "renf_elem_set_mpq"; o = sut([&] { renf_elem_set_mpq(a, z.get_mpq_t(), n); }); break; }
        case 6: case 7: { std::vector<mpq_class> c; int len = (int)r.below(k->deg + 1); fmpq_poly_t p; fmpq_poly_init(p); for (int j = 0; j < len; j++) { mpq_class q = model::gen_mpq(r, 60); c.push_back(q); Fmpq z(q); fmpq_poly_set_coeff_fmpq(p, j, z.x); } want = model::from_coeffs(k, c); what = "renf_elem_set_fmpq_poly"; o = sut([&] { renf_elem_set_fmpq_poly(a, p, n); }); fmpq_poly_clear(p); break; }
        case 8: { want = small_val(r, k); std::string t = want.str(); what = "renf_elem_set_nf_elem"; o = sut([&] { Elem y(K, t); renf_elem_set_nf_elem(a, y.renf_elem_t()->elem, n, 2 + r.below(200)); }); break; }
        case 9: { bool one = r.below(2); want = model::from_q(k, one ? 1 : 0); what = one ? "renf_elem_one" : "renf_elem_zero"; o = sut([&] { if (one) renf_elem_one(a, n); else renf_elem_zero(a, n); }); break; }
        default: { want = model::gen(k); what = "renf_elem_gen"; o = sut([&] { renf_elem_one(a, n); renf_elem_gen(a, n); }); } } break; }
    case 8: { want = model::from_q(k, 0); o = sut([&] { x.e.emplace(K); }); what = "creating zero"; break; }
    case 9: { into = w->triv; want = model::from_q(into->k, 0); o = sut([&] { x.e.emplace(); }); what = "default construction"; break; }
    case 10: { int j = si(r.below(NS)); if (j == i || !usable(*w->S[j])) { want = model::from_q(k, 0); o = sut([&] { x.e.emplace(K); }); break; } Slot& y = *w->S[j]; what = "converting an element to another field"; if (y.f == f) want = y.v; else if (y.v.rational()) want = model::from_q(k, y.v.q()); else { o = sut([&] { x.e.emplace(K, *y.e); }); if (o.st != 2) rt::violation("wrong-parent", "an irrational element was converted to another field"); sut([&] { x.e.reset(); guard.reset(); }); return; } o = sut([&] { x.e.emplace(K, *y.e); }); break; }
  }
  if (returned(o, what.c_str(), {i}, false)) put(i, into, want, kind == 4 || kind == 10 ? (w->J(COPY) ? COPY : CONV) : CONV, what.c_str());
  sut([&] { guard.reset(); });
}
void do_assign(const Op& op) {
  Rng r(op.seed); int i = si(op.a[0]); Slot& x = *w->S[i]; if (!x.e) { rt::count(rt::K_SKIPPED); return; } int t = (int)(op.a[3] % 12); Val want; Out o; std::string what = std::string("assigning a ") + type_name(t); state3("asg", t, &x);
  if (t < 10) with_scalar(r, t, nullptr, [&](const auto& v, const mpq_class& q) { want = model::from_q(w->triv->k, q); o = sut([&] { *x.e = v; }); });
  else if (t == 10) { mpz_class z = pick_mpz(r, nullptr); Fmpz v(z); want = model::from_q(w->triv->k, z); o = sut([&] { *x.e = v.x; }); } else { mpq_class z = pick_mpq(r, nullptr); Fmpq v(z); want = model::from_q(w->triv->k, z); o = sut([&] { *x.e = v.x; }); }
  if (returned(o, what.c_str(), {i}, false)) put(i, w->triv, want, w->J(COPY) ? COPY : CONV, what.c_str());
}
void do_copy(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]), b = si(op.a[1]); Slot &x = *w->S[a], &y = *w->S[b]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } int v = (int)(op.a[3] % 8); state3("cp", v, &x, &y); Out o; FR f = x.f; Val want = x.v; const char* what = "copying an element";
  if (a == b) { what = "assigning an element to itself"; o = sut([&] { if (v & 1) { Elem& z = *x.e; *x.e = z; } else renf_elem_set(el(x), el(x), nf(x)); }); }
  else switch (v) {
    case 0: case 1: drop(y); o = sut([&] { y.e.emplace(*x.e); }); break; case 2: drop(y); o = sut([&] { y.e.emplace(x.e->parent(), *x.e); }); break;
    case 3: if (y.e && !y.moved && y.f == f) { what = "renf_elem_set"; o = sut([&] { renf_elem_set(el(y), el(x), nf(x)); }); break; } // fall through
    case 4: { std::optional<Elem> t; o = sut([&] { t.emplace(+*x.e); }); if (o.st == 0) move_in(b, t); what = "unary plus"; break; }
    default: if (y.e) { what = "assigning an element"; o = sut([&] { *y.e = *x.e; }); } else o = sut([&] { y.e = *x.e; });
  }
  if (returned(o, what, {a, b}, false)) { put(b, f, want, COPY, what); if (w->J(COPY) && a != b) { Val again = peek(*x.e, x.f->k); if (!again.same(want)) rt::violation("value-changed", "%s changed the original", what); } }
}
void do_move(const Op& op) {
  int a = si(op.a[0]), b = si(op.a[1]); Slot &x = *w->S[a], &y = *w->S[b]; int v = (int)(op.a[3] % 4); if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } if (a == b) { // self-move leaves an object that can be destroyed and assigned; its value is not judged
    state3("smv", v, &x); FieldPtr guard; sut([&] { guard = FieldPtr(x.f->addr); }); struct Release { FieldPtr& g; ~Release() { sut([&] { g.reset(); }); } } release{guard};
    Out o = sut([&] { Elem* p = &*x.e; Elem& y = *x.e; y = std::move(*p); }); if (!returned(o, "moving an element to itself", {a}, false)) return; FR f = x.f; Val want = x.v; x.moved = true; x.f.reset(); Rng r(op.seed); checked();
    if (w->imm_mode || r.below(2)) { drop(x); return; } // then assign or replace it
    int q = (int)r.below(3); std::string t = want.str(); o = sut([&] { if (q == 0) *x.e = 17; else if (q == 1) { Elem n(*f->addr, t); *x.e = n; } else *x.e = Elem(*f->addr, t); }); if (!returned(o, "assigning to an element after it was moved to itself", {a}, false)) return; x.moved = false; if (q == 0) put(a, w->triv, model::from_q(w->triv->k, 17), COPY, "assigning to an element after it was moved to itself"); else put(a, f, want, COPY, "assigning to an element after it was moved to itself"); return; }
  state3("mv", v, &x, &y); FR f = x.f; Val want = x.v; Out o;
  if (v < 2) { if (y.e) drop(y); o = sut([&] { y.e.emplace(std::move(*x.e)); }); } else { if (!y.e) o = sut([&] { y.e.emplace(); }); o = sut([&] { *y.e = std::move(*x.e); }); }
  if (!returned(o, "moving an element", {a, b}, false)) return; x.moved = true; x.f.reset(); put(b, f, want, COPY, "moving an element");
  Rng r(op.seed); if (w->imm_mode || r.below(2)) { drop(x); } // destroying a moved-from element
}
void do_swap(const Op& op) {
  int a = si(op.a[0]), b = si(op.a[1]); Slot &x = *w->S[a], &y = *w->S[b]; if (!usable(x) || !usable(y)) { rt::count(rt::K_SKIPPED); return; } state3("sw", op.a[3] & 1, &x, &y); Out o; FR fa = x.f, fb = y.f; Val va = x.v, vb = y.v;
  if ((op.a[3] & 1) && fa == fb) o = sut([&] { renf_elem_swap(el(x), el(y)); }); else o = sut([&] { using std::swap; swap(*x.e, *y.e); });
  if (!returned(o, "swapping elements", {a, b}, false)) return; put(a, a == b ? fa : fb, a == b ? va : vb, COPY, "swapping elements"); put(b, fa, va, COPY, "swapping elements");
}
Val lift(const Slot& x, const FieldP& k) { return x.f->k == k ? x.v : model::from_q(k, x.v.q()); }
template <class T, class U> void apply(std::optional<Elem>& t, int k, const T& x, const U& y) { switch (k) { case 0: t.emplace(x + y); break; case 1: t.emplace(x - y); break; case 2: t.emplace(x * y); break; default: t.emplace(x / y); } }
template <class U> void apply_in(Elem& x, int k, const U& y) { switch (k) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; default: x /= y; } }
void do_bin(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]), b = si(op.a[1]), c = si(op.a[2]); Slot &x = *w->S[a], &y = *w->S[b]; if (!usable(x) || !usable(y)) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] & 3), form = (int)((op.a[3] >> 2) % 3);
  if (k == 3 && y.v.zero()) k = 2; if (too_big(x.v, y.v, k)) { rt::count(rt::K_SKIPPED); return; }
  bool mixed = x.f != y.f; if (mixed && !x.v.rational() && !y.v.rational()) { rt::count(rt::K_SKIPPED); return; } if (mixed && form == 2) form = 0;
  state3("bin", k * 4 + form, &x, &y); FieldP K = mixed && x.v.rational() ? (y.v.rational() ? x.f->k : y.f->k) : x.f->k; Val want = mod(k, lift(x, K), lift(y, K)); Out o; std::string what = "x " + opn(k) + " y";
  if (w->strict && mixed && x.f != w->triv && y.f != w->triv) { // LIBEANTIC_STRICT_BINOP: rejected, and nothing changes
    rt::count(rt::F_BADINPUT); if (form == 0) { std::optional<Elem> t; o = sut([&] { apply(t, k, *x.e, *y.e); }); sut([&] { t.reset(); }); } else o = sut([&] { apply_in(*x.e, k, *y.e); });
    if (o.st == 1) { returned(o, what.c_str(), {a, b}, false); return; } checked(); if (o.st != 2) rt::violation("not-rejected", "%s between different fields was not rejected although LIBEANTIC_STRICT_BINOP is set", what.c_str()); return; }
  if (form == 0) { std::optional<Elem> t; o = sut([&] { apply(t, k, *x.e, *y.e); }); if (returned(o, what.c_str(), {a, b}, false)) { move_in(c, t); put_mixed(c, want, ARITH, what.c_str()); } }
  else if (form == 1) { what = "x " + opn(k) + "= y" + (a == b ? " (same object)" : ""); o = sut([&] { apply_in(*x.e, k, *y.e); }); if (returned(o, what.c_str(), {a, b}, false)) put_mixed(a, want, ARITH, what.c_str()); }
  else { FR f = x.f; if (c != a && c != b) ensure_in(c, f); else if (r.below(2)) {} Slot& z = *w->S[c]; if (!usable(z) || z.f != f) { rt::count(rt::K_SKIPPED); return; } typedef void (*Fn)(renf_elem_t, const renf_elem_t, const renf_elem_t, const renf_t); static const Fn fn[] = {renf_elem_add, renf_elem_sub, renf_elem_mul, renf_elem_div}; static const char* n[] = {"renf_elem_add", "renf_elem_sub", "renf_elem_mul", "renf_elem_div"}; what = n[k]; if (c == a || c == b) what += " (in place)"; o = sut([&] { fn[k](el(z), el(x), el(y), nf(x)); }); if (returned(o, what.c_str(), {a, b, c}, false)) put(c, f, want, ARITH, what.c_str()); }
}
void do_bins(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]), c = si(op.a[2]); Slot& x = *w->S[a]; if (!usable(x) || x.v.bits() > 3000) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] & 3), form = (int)((op.a[3] >> 2) & 3), t = (int)(op.a[4] % 10); FR f = x.f; state3("bs", k * 64 + form * 16 + t, &x);
  if (form == 3) { // C functions
    if (c != a) ensure_in(c, f); Slot& z = *w->S[c]; if (!usable(z)) return; int ty = (int)(op.a[4] & 3); std::string what; Out o; mpq_class q; static const char* tn[] = {"si", "ui", "fmpz", "fmpq"}; static const char* on[] = {"add", "sub", "mul", "div"};
    what = std::string("renf_elem_") + on[k] + "_" + tn[ty];
    if (ty == 0) { slong v = pick_int<long>(r, nullptr); if (k == 3 && v == 0) v = -1; q = val_of(v); typedef void (*Fn)(renf_elem_t, const renf_elem_t, slong, const renf_t); static const Fn fn[] = {renf_elem_add_si, renf_elem_sub_si, renf_elem_mul_si, renf_elem_div_si}; o = sut([&] { fn[k](el(z), el(x), v, nf(x)); }); }
    else if (ty == 1) { ulong v = pick_int<unsigned long>(r, nullptr); if (k == 3 && v == 0) v = 7; q = val_of(v); typedef void (*Fn)(renf_elem_t, const renf_elem_t, ulong, const renf_t); static const Fn fn[] = {renf_elem_add_ui, renf_elem_sub_ui, renf_elem_mul_ui, renf_elem_div_ui}; o = sut([&] { fn[k](el(z), el(x), v, nf(x)); }); }
    else if (ty == 2) { mpz_class v = pick_mpz(r, nullptr); if (k == 3 && v == 0) v = 7; q = v; Fmpz u(v); typedef void (*Fn)(renf_elem_t, const renf_elem_t, const fmpz_t, const renf_t); static const Fn fn[] = {renf_elem_add_fmpz, renf_elem_sub_fmpz, renf_elem_mul_fmpz, renf_elem_div_fmpz}; o = sut([&] { fn[k](el(z), el(x), u.x, nf(x)); }); }
    else { mpq_class v = pick_mpq(r, nullptr); if (k == 3 && v == 0) v = mpq_class(7, 3); q = v; Fmpq u(v); typedef void (*Fn)(renf_elem_t, const renf_elem_t, const fmpq_t, const renf_t); static const Fn fn[] = {renf_elem_add_fmpq, renf_elem_sub_fmpq, renf_elem_mul_fmpq, renf_elem_div_fmpq}; o = sut([&] { fn[k](el(z), el(x), u.x, nf(x)); }); }
    Val want = mod(k, x.v, model::from_q(f->k, q)); if (returned(o, what.c_str(), {a, c}, false)) put(c, f, want, ARITH, what.c_str()); return;
  }
  with_scalar(r, t, nullptr, [&](const auto& v, const mpq_class& q) {
    int kk = k; if (kk == 3 && (form == 2 ? x.v.zero() : q == 0)) kk = 2; Val s = model::from_q(f->k, q); if (form == 2 && kk == 3 && x.v.bits() * f->k->deg > 2500) kk = 1; Out o; std::string what;
    if (form == 2) { what = std::string(type_name(t)) + " " + opn(kk) + " x"; std::optional<Elem> z; o = sut([&] { apply(z, kk, v, *x.e); }); Val want = mod(kk, s, x.v); if (returned(o, what.c_str(), {a}, false)) { move_in(c, z); put_mixed(c, want, ARITH, what.c_str()); } }
    else if (form == 0) { what = "x " + opn(kk) + " " + type_name(t); std::optional<Elem> z; o = sut([&] { apply(z, kk, *x.e, v); }); Val want = mod(kk, x.v, s); if (returned(o, what.c_str(), {a}, false)) { move_in(c, z); put_mixed(c, want, ARITH, what.c_str()); } }
    else { what = "x " + opn(kk) + "= " + type_name(t); Val want = mod(kk, x.v, s); o = sut([&] { apply_in(*x.e, kk, v); }); if (returned(o, what.c_str(), {a}, false)) put(a, f, want, ARITH, what.c_str()); }
  });
}
void do_un(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]), c = si(op.a[2]); Slot& x = *w->S[a]; if (!usable(x) || x.v.bits() > 2500) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] % 8); FR f = x.f; Val want; Out o; std::string what; state3("un", k, &x); Val xv = x.v;
  bool cfun = k == 1 || k == 2 || k == 4 || k == 5 || k == 6; if ((k == 2 || k == 6) && (xv.zero() || xv.bits() * f->k->deg > 2500)) k = 1;
  int e = 0; if (k == 3 || k == 4 || k == 7) { e = (int)r.below(8); if (r.one_in(4)) e = (int)r.below(40); while (e > 1 && xv.bits() * e > 2500) e /= 2; }
  if ((k == 3 || k == 4 || k == 7) && xv.rational() && (xv.q() == 1 || xv.q() == -1 || xv.zero()) && r.below(2)) { // powers of -1, 0 and 1 with huge exponents
    static const long hs[] = {65535, 65536, 1L << 30, INT_MAX - 1, INT_MAX}; long h = hs[r.below(5)] - (long)r.below(2); bool ng = k != 4 && !xv.zero() && r.below(2); long ex = ng ? -h - (long)r.below(2) : h; if (k == 4 && r.below(2)) ex = r.below(2) ? (long)ULONG_MAX : (long)(ULONG_MAX - 1); want = xv.zero() ? xv : model::from_q(f->k, (xv.q() == 1 || (ex & 1) == 0) ? 1 : -1); what = "power " + std::to_string(ex);
    if (k == 4) { if (c != a) ensure_in(c, f); Slot& z = *w->S[c]; if (!usable(z)) return; o = sut([&] { renf_elem_pow(el(z), el(x), (ulong)ex, nf(x)); }); if (returned(o, what.c_str(), {a, c}, false)) put(c, f, want, ARITH, what.c_str()); return; }
    std::optional<Elem> t; o = sut([&] { if (k == 7) t.emplace(eantic::pow(*x.e, (int)ex)); else t.emplace(x.e->pow((int)ex)); }); if (returned(o, what.c_str(), {a}, false)) { move_in(c, t); put(c, f, want, ARITH, what.c_str()); } return; }
  if ((k == 3 || k == 4 || k == 7) && xv.rational() && !xv.zero() && abs(xv.q().get_num()) <= 3 && xv.q().get_den() <= 3 && r.one_in(12)) { e = 65530 + (int)r.below(12); if (r.below(2)) e += 65536; }
  if (cfun) { if (c != a) ensure_in(c, f); Slot& z = *w->S[c]; if (!usable(z)) return; mpq_class q = pick_mpq(r, nullptr); Fmpq u(q);
    switch (k) { case 1: want = model::neg(xv); what = "renf_elem_neg"; o = sut([&] { renf_elem_neg(el(z), el(x), nf(x)); }); break; case 2: want = model::inv(xv); what = "renf_elem_inv"; o = sut([&] { renf_elem_inv(el(z), el(x), nf(x)); }); break;
      case 4: want = model::pow(xv, e); what = "renf_elem_pow"; o = sut([&] { renf_elem_pow(el(z), el(x), e, nf(x)); }); break; case 5: want = model::sub(model::from_q(f->k, q), xv); what = "renf_elem_fmpq_sub"; o = sut([&] { renf_elem_fmpq_sub(el(z), u.x, el(x), nf(x)); }); break;
      default: want = model::mul(model::from_q(f->k, q), model::inv(xv)); what = "renf_elem_fmpq_div"; o = sut([&] { renf_elem_fmpq_div(el(z), u.x, el(x), nf(x)); }); }
    if (a == c) what += " (in place)"; if (returned(o, what.c_str(), {a, c}, false)) put(c, f, want, ARITH, what.c_str()); return; }
  std::optional<Elem> t; if (k == 0) { want = model::neg(xv); what = "-x"; o = sut([&] { t.emplace(-*x.e); }); }
  else { int ex = e; if (!xv.zero() && (e > 65000 ? r.below(2) == 0 : r.below(3) == 0 && xv.bits() * f->k->deg * (e + 1) < 2500)) ex = -e; want = model::pow(ex < 0 ? model::inv(xv) : xv, e); what = "pow(x, " + std::to_string(ex) + ")"; o = sut([&] { if (k == 7) t.emplace(eantic::pow(*x.e, ex)); else t.emplace(x.e->pow(ex)); }); }
  if (returned(o, what.c_str(), {a}, false)) { move_in(c, t); put(c, f, want, ARITH, what.c_str()); }
}
void do_near(const Op& op) { // an element very close (or equal) to another one, reached on another way
  Rng r(op.seed); int a = si(op.a[0]), b = si(op.a[1]), c = si(op.a[2]); Slot& x = *w->S[a]; if (!usable(x) || x.v.bits() > 1200) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] % 8); FR f = x.f; Val t = model::gen_tiny(r, f->k); if (t.bits() > 4000) return; std::string s = t.str(); Val want; std::optional<Elem> z; Out o; const eantic::renf_class& K = *f->addr; state3("near", k, &x);
  Slot& y = *w->S[b];
  if (k < 3) { want = model::add(x.v, t); o = sut([&] { z.emplace(*x.e + Elem(K, s)); }); }
  else if (k < 5 && usable(y) && y.f == f) { long n = r.range(-20, 20); want = model::add(model::mulq(y.v, n), t); o = sut([&] { Elem u = *y.e * n; u += Elem(K, s); z.emplace(std::move(u)); }); }
  else if (k < 6) { want = x.v; o = sut([&] { Elem u = *x.e + K.gen(); u -= K.gen(); z.emplace(std::move(u)); }); }
  else if (k < 7) { want = x.v; std::string u = x.v.str(); o = sut([&] { z.emplace(K, u); }); }
  else { mpz_class n = model::floor(x.v) + r.range(-1, 2); want = model::add(model::from_q(f->k, n), t); o = sut([&] { z.emplace(K, n); *z += Elem(K, s); }); }
  if (returned(o, "adding a small element", {a, b}, false)) { move_in(c, z); put(c, f, want, ARITH, "adding a small element"); }
}
void do_rel(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]), b = si(op.a[1]); Slot &x = *w->S[a], &y = *w->S[b]; if (!usable(x) || !usable(y)) { rt::count(rt::K_SKIPPED); return; } if (x.f != y.f && !x.v.rational() && !y.v.rational()) { rt::count(rt::K_SKIPPED); return; }
  FieldP K = x.f != y.f && x.v.rational() ? (y.v.rational() ? x.f->k : y.f->k) : x.f->k; int m = 0; bool eqonly = true; Val u = lift(x, K), v = lift(y, K); m = w->J(REL) ? model::cmp(u, v) : 0; int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; i++) {
    int q = (int)r.below(10); bool got = false, want = false, needs = true; const char* what = ""; Out o; state3("rel", q, &x, &y); int ci = 0;
    switch (q) { case 0: what = "x == y"; needs = false; want = m == 0; o = sut([&] { got = *x.e == *y.e; }); break; case 1: what = "x != y"; needs = false; want = m != 0; o = sut([&] { got = *x.e != *y.e; }); break; case 2: what = "x < y"; want = m < 0; o = sut([&] { got = *x.e < *y.e; }); break; case 3: what = "x <= y"; want = m <= 0; o = sut([&] { got = *x.e <= *y.e; }); break;
      case 4: what = "x > y"; want = m > 0; o = sut([&] { got = *x.e > *y.e; }); break; case 5: what = "x >= y"; want = m >= 0; o = sut([&] { got = *x.e >= *y.e; }); break; case 6: if (x.f != y.f) continue; what = "renf_elem_equal"; needs = false; want = m == 0; o = sut([&] { got = renf_elem_equal(el(x), el(y), nf(x)); }); break;
      default: if (x.f != y.f) continue; what = "renf_elem_cmp"; o = sut([&] { ci = renf_elem_cmp(el(x), el(y), nf(x)); }); if (!returned(o, what, {a, b}, true)) return; ci = (ci > 0) - (ci < 0); if (w->J(REL)) { checked(); if (ci != m) rt::violation("wrong-answer", "renf_elem_cmp has sign %d instead of %d for %s and %s", ci, m, show(u).c_str(), show(v).c_str()); } rt::event(ci); continue; }
    if (!returned(o, what, {a, b}, needs)) return; want_bool(got, want, REL, what, u, show(v)); rt::event(got);
  }
}
void do_rels(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } int t = (int)(op.a[3] % 14); mpq_class hint; { static const int bs[] = {0, 1, 3, 30, 53, 64, 100, 200}; hint = x.v.rational() && r.below(2) ? x.v.q() : model::approx(x.v, bs[r.below(8)], r.below(2)); }
  int n = 1 + (int)r.below(2);
  for (int i = 0; i < n; i++) {
    int q = (int)r.below(12); Out o; bool got = false, want = false, needs = true; std::string what; bool stop = false; state3("rels", q * 16 + t, &x);
    if (t >= 10) { // C functions
      int ty = t - 10, cm = 0; bool eq = q < 4; mpq_class v; Rng r2 = r; slong s1 = pick_int<long>(r, &hint); ulong u1 = pick_int<unsigned long>(r, &hint); mpz_class z = pick_mpz(r, &hint); mpq_class p = pick_mpq(r, &hint); Fmpz fz(z); Fmpq fq(p);
      static const char* tn[] = {"si", "ui", "fmpz", "fmpq"}; what = std::string(eq ? "renf_elem_equal_" : "renf_elem_cmp_") + tn[ty]; v = ty == 0 ? val_of(s1) : ty == 1 ? val_of(u1) : ty == 2 ? mpq_class(z) : p;
      o = sut([&] { switch (ty) { case 0: cm = eq ? renf_elem_equal_si(el(x), s1, nf(x)) : renf_elem_cmp_si(el(x), s1, nf(x)); break; case 1: cm = eq ? renf_elem_equal_ui(el(x), u1, nf(x)) : renf_elem_cmp_ui(el(x), u1, nf(x)); break; case 2: cm = eq ? renf_elem_equal_fmpz(el(x), fz.x, nf(x)) : renf_elem_cmp_fmpz(el(x), fz.x, nf(x)); break; default: cm = eq ? renf_elem_equal_fmpq(el(x), fq.x, nf(x)) : renf_elem_cmp_fmpq(el(x), fq.x, nf(x)); } });
      if (!returned(o, what.c_str(), {a}, !eq)) return; if (w->J(REL)) { int m = model::cmpq(x.v, v); if (eq) want_bool(cm != 0, m == 0, REL, what.c_str(), x.v, v.get_str()); else { checked(); if ((cm > 0) - (cm < 0) != m) rt::violation("wrong-answer", "%s gives %d instead of %d for %s and %s", what.c_str(), cm, m, show(x.v).c_str(), v.get_str().substr(0, 300).c_str()); } } continue; }
    with_scalar(r, t, &hint, [&](const auto& v, const mpq_class& p) {
      int m = w->J(REL) ? model::cmpq(x.v, p) : 0; static const char* n[] = {"==", "!=", "<", "<=", ">", ">="}; bool left = q >= 6; int k = q % 6; if (left) m = -m; needs = k >= 2; what = left ? std::string(type_name(t)) + " " + n[k] + " x" : std::string("x ") + n[k] + " " + type_name(t);
      o = sut([&] { if (left) switch (k) { case 0: got = v == *x.e; break; case 1: got = v != *x.e; break; case 2: got = v < *x.e; break; case 3: got = v <= *x.e; break; case 4: got = v > *x.e; break; default: got = v >= *x.e; } else switch (k) { case 0: got = *x.e == v; break; case 1: got = *x.e != v; break; case 2: got = *x.e < v; break; case 3: got = *x.e <= v; break; case 4: got = *x.e > v; break; default: got = *x.e >= v; } });
      switch (k) { case 0: want = m == 0; break; case 1: want = m != 0; break; case 2: want = m < 0; break; case 3: want = m <= 0; break; case 4: want = m > 0; break; default: want = m >= 0; }
      if (!returned(o, what.c_str(), {a}, needs)) { stop = true; return; } want_bool(got, want, REL, what.c_str(), x.v, p.get_str().substr(0, 300)); rt::event(got); });
    if (stop) return;
  }
}
void do_pred(const Op& op) {
  int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] % 8); bool cpp = op.a[4] & 1; state3("prd", k, &x); Out o; bool got = false, want = false; const char* what = "";
  switch (k) { case 0: what = "is_zero"; want = x.v.zero(); o = sut([&] { got = cpp ? x.e->is_zero() : renf_elem_is_zero(el(x), nf(x)); }); break; case 1: what = "is_one"; want = x.v.rational() && x.v.q() == 1; o = sut([&] { got = cpp ? x.e->is_one() : renf_elem_is_one(el(x), nf(x)); }); break; case 2: what = "is_integer"; want = x.v.integer(); o = sut([&] { got = cpp ? x.e->is_integer() : renf_elem_is_integer(el(x), nf(x)); }); break;
    case 3: what = "is_rational"; want = x.v.rational(); o = sut([&] { got = cpp ? x.e->is_rational() : renf_elem_is_rational(el(x), nf(x)); }); break; case 4: what = "operator bool"; want = !x.v.zero(); o = sut([&] { got = (bool)*x.e; }); break;
    default: { int g = 0; o = sut([&] { g = cpp ? x.e->sgn() : renf_elem_sgn(el(x), nf(x)); }); if (!returned(o, "sgn", {a}, true)) return; if (w->J(REL)) { checked(); int m = model::sign(x.v); if ((g > 0) - (g < 0) != m || (cpp && g != m)) rt::violation("wrong-answer", "sgn gives %d instead of %d for %s", g, m, show(x.v).c_str()); } rt::event(g); return; } }
  if (returned(o, what, {a}, false)) { want_bool(got, want, REL, what, x.v, ""); rt::event(got); }
}
void do_hash(const Op& op) {
  int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } state3("hsh", 0, &x); size_t h = 0; Out o = sut([&] { h = std::hash<Elem>()(*x.e); }); if (!returned(o, "hash", {a}, true)) return;
  std::string key = x.v.rational() ? "q" + x.v.q().get_str() : x.f->k->key() + "|" + x.v.str(); auto it = w->hashes.find(key); if (it == w->hashes.end()) w->hashes[key] = h; else if (w->J(REL)) { checked(); if (it->second != h) rt::violation("hash-differs", "equal elements have different hashes: %s", show(x.v).c_str()); } rt::event(h);
  if (!w->J(REL) || x.f->imm || w->imm_mode) return;
  Rng r(op.seed); for (int j = 0; j < 3; j++) { // the same number with another history
    int how = (int)r.below(4); long p = how == 0 ? 2 + r.below(60) : 50 + r.below(90); size_t g = 0; std::string t = x.v.str(); mpq_class q = x.v.rational() ? x.v.q() : mpq_class(0);
    o = sut([&] { std::optional<Elem> y; if (how == 2) y.emplace(x.e->parent(), t); else if (how == 3 && x.v.rational()) y.emplace(q); else { y.emplace(*x.e); renf_elem_set_evaluation(y->renf_elem_t(), y->parent().renf_t(), p); } g = std::hash<Elem>()(*y); });
    if (o.st) rt::violation("unexpected-failure", "hashing failed: %s", o.what.c_str()); checked(); if (g != h) rt::violation("hash-differs", "equal elements have different hashes (variant %d, %ld): %s", how, p, show(x.v).c_str()); }
}
void do_floor(const Op& op) {
  int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] % 6); state3("flr", k, &x); mpz_class got; Out o; bool fl = k % 2 == 0;
  switch (k) { case 0: o = sut([&] { got = x.e->floor(); }); break; case 1: o = sut([&] { got = x.e->ceil(); }); break; case 2: o = sut([&] { got = eantic::floor(*x.e); }); break; case 3: o = sut([&] { got = eantic::ceil(*x.e); }); break;
    default: { Fmpz z; o = sut([&] { if (k == 4) renf_elem_floor(z.x, el(x), nf(x)); else renf_elem_ceil(z.x, el(x), nf(x)); }); if (!o.st) got = to_mpz(z.x); } }
  const char* what = fl ? "floor" : "ceil"; if (!returned(o, what, {a}, !x.v.rational())) return;
  if (w->J(ROUND)) { checked(); mpz_class want = fl ? model::floor(x.v) : model::ceil(x.v); if (got != want) rt::violation("wrong-answer", "%s gives %s instead of %s for %s", what, got.get_str().substr(0, 200).c_str(), want.get_str().substr(0, 200).c_str(), show(x.v).c_str()); } rt::event_str(got.get_str());
}
void do_fdiv(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]), b = si(op.a[1]); Slot &x = *w->S[a], &y = *w->S[b]; if (!usable(x) || !usable(y) || y.v.zero() || too_big(x.v, y.v, 3) || y.v.bits() * y.v.k->deg > 3000) { rt::count(rt::K_SKIPPED); return; } if (x.f != y.f && !x.v.rational() && !y.v.rational()) { rt::count(rt::K_SKIPPED); return; }
  int k = (int)(op.a[3] & 1); if (x.f != y.f) k = 0; state3("fdv", k, &x, &y); FieldP K = x.f != y.f && x.v.rational() ? (y.v.rational() ? x.f->k : y.f->k) : x.f->k; mpz_class got; Out o; Val u = lift(x, K), v = lift(y, K);
  if (k == 0) o = sut([&] { got = x.e->floordiv(*y.e); }); else { Fmpz z; o = sut([&] { renf_elem_fdiv(z.x, el(x), el(y), nf(x)); }); if (!o.st) got = to_mpz(z.x); }
  if (w->strict && x.f != y.f && o.st == 2) return;
  if (!returned(o, "floordiv", {a, b}, true)) return; if (w->J(ROUND)) { checked(); mpz_class want = model::fdiv(u, v); if (got != want) rt::violation("wrong-answer", "floordiv gives %s instead of %s for %s by %s", got.get_str().substr(0, 200).c_str(), want.get_str().substr(0, 200).c_str(), show(u).c_str(), show(v).c_str()); } rt::event_str(got.get_str());
}
void do_cfrac(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]), c = si(op.a[2]); Slot& x = *w->S[a]; if (!usable(x) || x.v.bits() > (x.v.rational() ? 600 : 120)) { rt::count(rt::K_SKIPPED); return; } FR f = x.f; int n = (int)r.below(x.v.rational() ? 20 : f->k->deg <= 2 ? 12 : 5); if (c != a) ensure_in(c, f); Slot& z = *w->S[c]; Val xv = x.v; if (!usable(z)) return; state3("cfr", n, &x);
  fmpz* v = _fmpz_vec_init(n + 1); slong len = 0; Out o = sut([&] { len = renf_elem_get_cfrac(v, el(z), el(x), n, nf(x)); }); std::vector<mpz_class> got; if (!o.st) for (slong i = 0; i < len && i < n; i++) got.push_back(to_mpz(v + i)); _fmpz_vec_clear(v, n + 1);
  if (!returned(o, "continued fraction", {a, c}, true)) return; z.moved = false; z.v = peek(*z.e, f->k); if (z.v.bits() > 6000) drop(z);
  if (w->J(ROUND)) { checked(); Val rem; bool fin; auto want = model::cfrac(xv, n, &rem, &fin); if (got != want || len != (slong)want.size()) { std::string g, t; for (auto& q : got) g += q.get_str().substr(0, 50) + ","; for (auto& q : want) t += q.get_str().substr(0, 50) + ","; rt::violation("wrong-answer", "continued fraction of %s is %s (%ld terms) instead of %s", show(xv).c_str(), g.c_str(), (long)len, t.c_str()); } }
}
void do_double(const Op& op) {
  int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] % 7); state3("dbl", k, &x); double d = 0; Out o; static const arf_rnd_t ar[] = {ARF_RND_DOWN, ARF_RND_UP, ARF_RND_FLOOR, ARF_RND_CEIL, ARF_RND_NEAR}; static const model::Rnd mr[] = {model::R_DOWN, model::R_UP, model::R_FLOOR, model::R_CEIL, model::R_NEAR}; int i = k < 5 ? k : 4;
  o = sut([&] { if (k == 5) d = (double)*x.e; else d = renf_elem_get_d(el(x), nf(x), ar[i]); });
  if (!returned(o, "conversion to double", {a}, !x.v.rational())) return; uint64_t bits; memcpy(&bits, &d, 8); rt::event(bits);
  if (w->J(ROUND)) { bool normal; double want = model::to_double(x.v, mr[i], &normal); if (!normal || (std::fabs(want) == DBL_MAX && d != want)) { // outside the normal range: infinite or the largest number with the right sign, or a subnormal number
      checked(); int sg = model::sign(x.v); if (std::isnan(d) || (d > 0 && sg < 0) || (d < 0 && sg > 0)) rt::violation("wrong-answer", "conversion to double (rounding %d) gives %a for the %s number %s", i, d, sg > 0 ? "positive" : "negative", show(x.v).c_str());
      mpq_class top(DBL_MAX); Val m = sg < 0 ? model::neg(x.v) : x.v; double g = std::fabs(d);
      if (model::cmpq(m, top) > 0) { bool inward = mr[i] == model::R_DOWN || (mr[i] == model::R_FLOOR && sg > 0) || (mr[i] == model::R_CEIL && sg < 0) || (mr[i] == model::R_NEAR && std::fabs(want) == DBL_MAX); if (!std::isinf(g) && !(inward && g == DBL_MAX)) rt::violation("wrong-answer", "conversion to double (rounding %d) gives %a for %s which is larger than every double", i, d, show(x.v).c_str()); }
      else if (model::cmpq(m, mpq_class(DBL_MIN)) < 0) { if (g > DBL_MIN) rt::violation("wrong-answer", "conversion to double (rounding %d) gives %a for %s which is smaller than every normal double", i, d, show(x.v).c_str()); }
      else if (normal) rt::violation("wrong-answer", "conversion to double (rounding %d) gives %a instead of %a for %s", i, d, want, show(x.v).c_str());
      return; }
    checked(); if (d != want) rt::violation("wrong-answer", "conversion to double (rounding %d) gives %a instead of %a for %s", i, d, want, show(x.v).c_str()); }
}
void do_conv(const Op& op) {
  int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] % 8); state3("cnv", k, &x); Out o; const Val& v = x.v; std::string got, want, what;
  mpz_class z; mpq_class q; std::vector<mpz_class> nv; auto lst = [](const std::vector<mpz_class>& l) { std::string s; for (auto& y : l) s += y.get_str() + ","; return s; };
  mpz_class g = 0; for (auto& y : v.n) g = gcd(g, y); std::vector<mpz_class> full(v.n.begin(), v.n.end()); full.resize(v.k->deg);
  switch (k) { case 0: what = "den"; o = sut([&] { z = x.e->den(); }); got = z.get_str(); want = v.d.get_str(); break; case 1: what = "num_vector"; o = sut([&] { nv = x.e->num_vector(); }); got = lst(nv); want = lst(full); break; case 2: what = "num_content"; o = sut([&] { z = x.e->num_content(); }); got = z.get_str(); want = mpz_class(abs(g)).get_str(); break;
    case 3: case 4: if (!v.rational()) { rt::count(rt::K_SKIPPED); return; } if (k == 3) { what = "num"; o = sut([&] { z = x.e->num(); }); got = z.get_str(); want = v.q().get_num().get_str(); } else { what = "conversion to mpq_class"; o = sut([&] { q = (mpq_class)*x.e; }); got = q.get_str(); want = v.q().get_str(); } break;
    case 5: if (!v.integer()) { rt::count(rt::K_SKIPPED); return; } what = "conversion to mpz_class"; o = sut([&] { z = (mpz_class)*x.e; }); got = z.get_str(); want = v.q().get_num().get_str(); break;
    case 6: { what = "text form"; std::string s; o = sut([&] { s = x.e->to_string(EANTIC_STR_ALG); }); Val p; if (o.st == 0) { if (!model::parse(v.k, s, p)) got = "unreadable " + s; else got = p.str(); } want = v.str(); break; }
    default: what = "num_vector and den"; o = sut([&] { nv = x.e->get_num_vector(); z = x.e->get_den(); }); got = lst(nv) + "/" + z.get_str(); want = lst(full) + "/" + v.d.get_str(); }
  if (!returned(o, what.c_str(), {a}, false)) return; rt::event_str(got); if (w->J(CONV)) { checked(); if (got != want) rt::violation("wrong-value", "%s gives %s instead of %s for %s", what.c_str(), got.substr(0, 400).c_str(), want.substr(0, 400).c_str(), show(v).c_str()); }
}
bool text_ball_contains(const std::string& s, const Val& v) { size_t p = s.rfind('['); std::string t = p == std::string::npos ? s : s.substr(p + 1); size_t e = t.find(']'); if (e != std::string::npos) t = t.substr(0, e); if (t.find("nan") != std::string::npos || t.find("inf") != std::string::npos) return true; while (!t.empty() && t.back() == (char)41) t.pop_back(); if (t.size() > 3000) return true; Arb b; if (arb_set_str(b.x, t.c_str(), 8000)) return false; arb_t c; bool r = contains(b.x, v); return r; }
void do_str(const Op& op) {
  int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] % 8); state3("str", k, &x); std::string s; static const int fl[] = {EANTIC_STR_ALG, EANTIC_STR_D, EANTIC_STR_ARB, EANTIC_STR_ALG | EANTIC_STR_D, EANTIC_STR_ALG | EANTIC_STR_ARB};
  Out o; if (k < 5) o = sut([&] { s = x.e->to_string(fl[k]); }); else if (k == 5) o = sut([&] { s = x.e->parent().to_string(); }); else if (k == 6) o = sut([&] { std::ostringstream t; t << *x.e << " " << x.e->parent(); s = t.str(); }); else o = sut([&] { s = (std::string)*x.e; });
  if (!returned(o, "printing", {a}, k == 1 || k == 3 || k == 6 || k == 7)) return; rt::event_str(s);
  if (w->J(ENC) && (k == 2 || k == 4)) { checked(); if (!text_ball_contains(k == 4 ? s.substr(s.find('~') + 1) : s, x.v)) rt::violation("wrong-enclosure", "the printed enclosure %s does not contain %s", s.substr(0, 300).c_str(), show(x.v).c_str()); }
  if (w->J(ENC) && k == 5) { checked(); size_t p = s.find(", "); if (p == std::string::npos || !text_ball_contains(s.substr(p + 2, s.size() - p - 3), model::gen(x.f->k))) rt::violation("wrong-enclosure", "the printed embedding %s does not contain the root", s.substr(0, 300).c_str()); }
}
void do_refine(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } static const int bs[] = {2, 10, 53, 64, 65, 100, 128, 129, 200, 500, 1000, 3000}; long p = bs[r.below(12)]; renf* n = nf(x); long before = arb_rel_accuracy_bits(n->emb); rt::count(rt::F_REFINE); state3("ref", p, &x);
  FR f = x.f; Out o = sut([&] { renf_refine_embedding(n, p); }); if (f->imm && o.st == 0) rt::violation("frozen-field-changed", "an immutable field was refined"); if (!returned(o, "refining a field", {a}, true)) return;
  if (w->J(ENC)) { checked(); long after = arb_rel_accuracy_bits(n->emb); if (after < p) rt::violation("refinement-goal", "refining to %ld bits ended with %ld bits", p, after); if (after < before) rt::violation("refinement-goal", "refining to %ld bits made the embedding worse (%ld instead of %ld bits)", p, after, before); if (!contains(n->emb, model::gen(f->k))) rt::violation("wrong-enclosure", "after refining to %ld bits the embedding %s does not contain root %d of %s", p, ball_str(n->emb).c_str(), f->k->index, f->k->poly_string().c_str()); } rt::event(arb_rel_accuracy_bits(n->emb));
}
void do_degrade(const Op& op) { Rng r(op.seed); int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } static const int bs[] = {2, 3, 8, 16, 30, 53, 64, 100, 200, 400}; long p = bs[r.below(10)]; rt::count(rt::F_DEGRADE); state3("dgr", p, &x); Out o = sut([&] { renf_elem_set_evaluation(el(x), nf(x), p); }); returned(o, "evaluating an element", {a}, false); if (w->check_enc && r.below(2)) { o = sut([&] { renf_elem_check_embedding(el(x), nf(x), 64); }); returned(o, "checking an enclosure", {a}, false); } }
void do_arb(const Op& op) {
  Rng r(op.seed); int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } static const int bs[] = {1, 2, 10, 30, 53, 64, 65, 100, 128, 200, 500, 1000, 2500}; long p = bs[r.below(13)]; state3("arb", p, &x); Arb b; Out o = sut([&] { renf_elem_get_arb(b.x, el(x), nf(x), p); }); if (!returned(o, "renf_elem_get_arb", {a}, true)) return;
  if (w->J(ENC)) { checked(); long acc = arb_rel_accuracy_bits(b.x); if (!arb_is_finite(b.x) || acc < p) rt::violation("refinement-goal", "an enclosure with %ld bits was requested but %s has %ld bits for %s", p, ball_str(b.x).c_str(), acc, show(x.v).c_str()); if (!contains(b.x, x.v)) rt::violation("wrong-enclosure", "renf_elem_get_arb gives %s which does not contain %s", ball_str(b.x).c_str(), show(x.v).c_str()); } rt::event_str(arb_dump(b.x));
}
void do_imm(const Op& op) {
  int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x)) { rt::count(rt::K_SKIPPED); return; } int v = op.a[3] == 0 ? 0 : 1; FR f = x.f; if (f == w->triv) v = v && (op.a[4] & 1); int old = 0; renf* n = nf(x); Out o = sut([&] { old = renf_set_immutable(n, v); }); returned(o, "renf_set_immutable", {a}, false); checked(); if (!!old != !!f->imm) rt::violation("immutability-changed", "renf_set_immutable returned %d although the field was %s", old, f->imm ? "immutable" : "mutable");
  f->imm = v; if (v) f->frozen = arb_dump(n->emb) + " " + std::to_string(n->prec); state3("imm", v, &x);
}
void do_mix(const Op& op) { // operations between different fields
  Rng r(op.seed); int a = si(op.a[0]), b = si(op.a[1]); Slot &x = *w->S[a], &y = *w->S[b]; if (!usable(x) || !usable(y) || x.f == y.f || x.v.rational() || y.v.rational()) { rt::count(rt::K_SKIPPED); return; } int k = (int)(op.a[3] % 11); state3("mix", k, &x, &y); Out o; rt::count(rt::F_BADINPUT); bool dummy = false; const char* what = "arithmetic";
  switch (k) { case 0: o = sut([&] { Elem z = *x.e + *y.e; }); break; case 1: o = sut([&] { *x.e += *y.e; }); break; case 2: o = sut([&] { *x.e *= *y.e; }); break; case 3: o = sut([&] { *x.e -= *y.e; }); break; case 4: what = "comparison"; o = sut([&] { dummy = *x.e < *y.e; }); break; case 5: what = "comparison"; o = sut([&] { dummy = *x.e == *y.e; }); break; case 6: what = "conversion"; o = sut([&] { Elem z(x.e->parent(), *y.e); }); break; case 8: what = "floor division"; o = sut([&] { mpz_class q = x.e->floordiv(*y.e); }); break; case 9: what = "comparison"; o = sut([&] { dummy = *x.e >= *y.e; }); break; case 10: what = "comparison"; o = sut([&] { dummy = *x.e != *y.e; }); break; default: o = sut([&] { *x.e /= *y.e; }); }
  if (w->J(COPY) || w->J(ARITH)) { checked(); if (o.st != 2) rt::violation("not-rejected", "%s between irrational elements of different fields was not rejected", what); }
}
}
bool op_core(const Op& op) {
  const std::string& n = op.name;
  if (n == "new") do_new(op); else if (n == "asg") do_assign(op); else if (n == "cp") do_copy(op); else if (n == "mv") do_move(op); else if (n == "sw") do_swap(op); else if (n == "dr") drop(S(op.a[0]));
  else if (n == "bin") do_bin(op); else if (n == "bs") do_bins(op); else if (n == "un") do_un(op); else if (n == "near") do_near(op); else if (n == "rel") do_rel(op); else if (n == "rels") do_rels(op); else if (n == "prd") do_pred(op); else if (n == "hsh") do_hash(op);
  else if (n == "flr") do_floor(op); else if (n == "fdv") do_fdiv(op); else if (n == "cfr") do_cfrac(op); else if (n == "dbl") do_double(op); else if (n == "cnv") do_conv(op); else if (n == "str") do_str(op); else if (n == "ref") do_refine(op); else if (n == "dgr") do_degrade(op); else if (n == "arb") do_arb(op); else if (n == "imm") do_imm(op); else if (n == "mix") do_mix(op);
  else return false;
  return true;
}
}
