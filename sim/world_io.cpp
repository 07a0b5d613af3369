// World Seq: archives and text streams, with simulated I/O: short reads, torn files, read and write errors, process restarts.
#include "world_seq.h"
#include <map>
#include <e-antic/fmpz_poly_extra.h>
#include <e-antic/fmpq_poly_extra.h>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>
#include <e-antic/cereal.hpp>
namespace ws {
namespace {
struct IoError : std::runtime_error { IoError() : std::runtime_error("simulated I/O error") {} };
// delivers its data in pieces, ends or fails at some byte
struct InBuf : std::streambuf {
  std::string d; size_t pos = 0, end; bool fail; int chunk; Rng r; char buf[256]; bool hit = false;
  InBuf(const std::string& data, size_t stop, bool fail, int chunk, uint64_t seed) : d(data), end(std::min(stop, data.size())), fail(fail), chunk(chunk), r(seed) {}
  int_type underflow() override {
    rt::Host h; if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (pos >= end) { if (fail) { hit = true; rt::count(rt::F_READERR); rt_in_sut = h.saved; throw IoError(); } rt::count(rt::F_EOF); return traits_type::eof(); }
    size_t n = std::min<size_t>(end - pos, chunk ? 1 + r.below(chunk) : 200); if (chunk) rt::count(rt::F_SHORTREAD);
    memcpy(buf, d.data() + pos, n); pos += n; setg(buf, buf, buf + n); return traits_type::to_int_type(buf[0]);
  }
};
// accepts that many bytes, then reports an error or throws
struct OutBuf : std::streambuf {
  std::string d; size_t limit; bool thr; bool hit = false; OutBuf(size_t limit, bool thr) : limit(limit), thr(thr) { d.reserve(4096); }
  int_type overflow(int_type c) override {
    rt::Host h; if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    if (d.size() >= limit) { hit = true; rt::count(rt::F_WRITEERR); if (thr) { rt_in_sut = h.saved; throw IoError(); } return traits_type::eof(); }
    d += traits_type::to_char_type(c); return c;
  }
};

// ---- archives
enum { BIN, PBIN, JSON, XML };
const char* ar_name[] = {"binary", "portable binary", "JSON", "XML"};
struct OutAr { virtual ~OutAr() {} virtual void elem(const Elem&) = 0; virtual void field(const FieldPtr&) = 0; virtual void vec(const std::vector<Elem>&) = 0; virtual void named(const char*, const Elem&) = 0; };
template <class A> struct OutArT : OutAr { A a; explicit OutArT(std::ostream& o) : a(o) {} void elem(const Elem& e) override { a(e); } void field(const FieldPtr& f) override { a(f); } void vec(const std::vector<Elem>& v) override { a(v); } void named(const char* n, const Elem& e) override { a(cereal::make_nvp(n, e)); } };
struct InAr { virtual ~InAr() {} virtual void elem(Elem&) = 0; virtual void field(FieldPtr&) = 0; virtual void vec(std::vector<Elem>&) = 0; virtual void named(const char*, Elem&) = 0; };
template <class A> struct InArT : InAr { A a; explicit InArT(std::istream& i) : a(i) {} void elem(Elem& e) override { a(e); } void field(FieldPtr& f) override { a(f); } void vec(std::vector<Elem>& v) override { a(v); } void named(const char* n, Elem& e) override { a(cereal::make_nvp(n, e)); } };
OutAr* open_out(int kind, std::ostream& o) { switch (kind) { case BIN: return new OutArT<cereal::BinaryOutputArchive>(o); case PBIN: return new OutArT<cereal::PortableBinaryOutputArchive>(o); case JSON: return new OutArT<cereal::JSONOutputArchive>(o); default: return new OutArT<cereal::XMLOutputArchive>(o); } }
InAr* open_in(int kind, std::istream& i) { switch (kind) { case BIN: return new InArT<cereal::BinaryInputArchive>(i); case PBIN: return new InArT<cereal::PortableBinaryInputArchive>(i); case JSON: return new InArT<cereal::JSONInputArchive>(i); default: return new InArT<cereal::XMLInputArchive>(i); } }

enum { T_ELEM, T_FIELD, T_VEC, T_NAMED };
struct Entry { int type; std::vector<FieldP> k; std::vector<Val> v; };
struct Written { std::string data; std::vector<Entry> entries; bool failed = false; std::string why; };

FieldP canonical(const FieldP& k) { for (auto& m : w->models) if (same_field(m, k)) return m; return k; }
[[noreturn]] void bad(const char* kind, const std::string& msg) { if (w->J(TEXT)) rt::violation(kind, "%s", msg.c_str()); rt::invalid(kind); }
std::vector<int> usable_slots() { std::vector<int> u; for (int i = 0; i < NS; i++) if (usable(*w->S[i]) && w->S[i]->v.bits() < 3000) u.push_back(i); return u; }

// something else happens while an archive or a stream is open
void disturb(Rng& r, bool may_drop) {
  auto u = usable_slots();
  switch (r.below(may_drop ? 6 : 4)) {
    case 0: case 1: if (!u.empty()) { Slot& x = *w->S[u[r.below(u.size())]]; if (x.f->imm) return; long p = 30 + r.below(400); rt::count(rt::F_REFINE); Out o = sut([&] { renf_refine_embedding(nf(x), p); }); if (o.st) rt::violation("assertion", "refining failed: %s", o.what.c_str()); } break;
    case 2: if (!u.empty()) { Slot& x = *w->S[u[r.below(u.size())]]; rt::count(rt::F_DEGRADE); sut([&] { renf_elem_set_evaluation(el(x), nf(x), 2 + r.below(60)); }); } break;
    case 3: { FieldP k = w->models[1 + r.below((int64_t)w->models.size() - 1)]; Out o; FieldPtr p = make_field(k, (int)r.below(3), r, pick_prec(r), o); if (o.st) rt::violation("unexpected-exception", "creating a field failed: %s", o.what.c_str()); { FR f = adopt(p, k, "make"); FSlot& s = w->F[r.below(NF)]; FR old = s.f; sut([&] { s.h = p; p.reset(); }); s.f = f; } break; }
    case 4: if (!u.empty()) { rt::count(rt::F_DROP_ORDER); drop(*w->S[u[r.below(u.size())]]); } break;
    default: { FSlot& s = w->F[r.below(NF)]; rt::count(rt::F_DROP_ORDER); sut([&] { s.h.reset(); }); s.f.reset(); }
  }
}
// an element of a field that may exist only for the moment
struct Temp { std::optional<Elem> e; FR f; Val v; };
void make_temp(Temp& t, Rng& r) {
  FieldP k = w->models[r.below((int64_t)w->models.size())]; t.v = model::gen_val(r, k, 20); if (t.v.bits() > 2000) t.v = model::gen(k); std::string text = t.v.str(); Out o;
  if (k == w->triv->k) { t.f = w->triv; o = sut([&] { t.e.emplace(*w->triv->addr, text); }); }
  else { FieldPtr p = make_field(k, (int)r.below(3), r, pick_prec(r), o); if (o.st) rt::violation("unexpected-exception", "creating a field failed: %s", o.what.c_str()); t.f = adopt(p, k, "make"); o = sut([&] { t.e.emplace(*p, text); p.reset(); }); }
  if (o.st) rt::violation("unexpected-exception", "creating an element from %s failed: %s", text.c_str(), o.what.c_str());
}
void drop_temp(Temp& t) { sut([&] { t.e.reset(); }); t.f.reset(); }

// another archive that is open at the same time, for each entry of the main one, one of its entries is processed
int depth = 0;
struct Side { virtual ~Side() {} virtual void step(Rng& r) = 0; virtual void close(Rng& r) = 0; };
std::unique_ptr<Side> side_reader(Rng& r), side_writer(Rng& r);

Written write_archive(int kind, Rng& r, int n, std::ostream& os, std::function<std::string()> data, bool stay) {
  Written wr; OutAr* ar = nullptr; std::unique_ptr<Side> side; if (!depth && r.one_in(6)) side = side_writer(r); Out o = sut([&] { ar = open_out(kind, os); }); if (o.st) { wr.failed = true; wr.why = o.what; }
  for (int i = 0; i < n && !wr.failed; i++) {
    if (side) side->step(r);
    auto u = usable_slots(); int what = (int)r.below(10); Entry e;
    if (what < 4 && !u.empty()) { Slot& x = *w->S[u[r.below(u.size())]]; e.type = what == 3 ? T_NAMED : T_ELEM; e.k.push_back(x.f->k); e.v.push_back(x.v); o = sut([&] { if (what == 3) ar->named("entry", *x.e); else ar->elem(*x.e); }); }
    else if (what < 6) { Temp t; make_temp(t, r); e.type = T_ELEM; e.k.push_back(t.f->k); e.v.push_back(t.v); o = sut([&] { ar->elem(*t.e); }); drop_temp(t); rt::count(rt::F_ADDRREUSE); }
    else if (what == 6 && !u.empty()) { Slot& x = *w->S[u[r.below(u.size())]]; e.type = T_FIELD; e.k.push_back(x.f->k); o = sut([&] { ar->field(FieldPtr(&x.e->parent())); }); }
    else if (what == 7) { e.type = T_VEC; int m = (int)r.below(5); std::vector<Elem> v; std::vector<Temp> ts(m); for (int j = 0; j < m; j++) { if (!u.empty() && r.below(2)) { Slot& x = *w->S[u[r.below(u.size())]]; e.k.push_back(x.f->k); e.v.push_back(x.v); sut([&] { v.push_back(*x.e); }); } else { make_temp(ts[j], r); e.k.push_back(ts[j].f->k); e.v.push_back(ts[j].v); sut([&] { v.push_back(*ts[j].e); }); } } o = sut([&] { ar->vec(v); }); sut([&] { v.clear(); v.shrink_to_fit(); }); for (auto& t : ts) drop_temp(t); }
    else { if (stay) { i--; if (r.one_in(3)) i++; disturb(r, false); } else disturb(r, true); continue; }
    if (o.st == 1 || o.st == 3) bad("assertion", std::string("saving failed: ") + o.what);
    if (o.st == 2) { wr.failed = true; wr.why = o.what; }
    wr.entries.push_back(e);
  }
  o = sut([&] { delete ar; }); if (o.st) bad("assertion", "closing an archive failed: " + o.what);
  if (!os.good()) wr.failed = true;
  if (side) side->close(r);
  wr.data = data(); return wr;
}
Written write_plain(int kind, Rng& r, int n, bool stay) { std::ostringstream os; Written x = write_archive(kind, r, n, os, [&] { return os.str(); }, stay); if (x.failed) bad("unexpected-exception", std::string("saving to ") + ar_name[kind] + " failed: " + x.why); return x; }

// reads entries until the first exception; returns how many arrived. Everything that arrives must be exact.
struct Loaded { std::vector<std::unique_ptr<Slot>> e; std::vector<std::pair<FieldPtr, FR>> f; std::string why; size_t n = 0; bool failed = false; };
void check_loaded(const Elem& e, const FieldP& k0, const Val& v, FR& out, const std::string& ctx) {
  FieldP k = canonical(k0); const eantic::renf_class* p = &e.parent(); checked(); if (!rt::block_live(p)) bad("dangling-field", ctx + ": an element was loaded whose field is gone");
  FR f = find_model(k); if (f && f->addr != p) bad("two-objects", ctx + ": the loaded element does not share the field object of the other elements of " + k->poly_string());
  FR g = find_addr(p); if (g && !same_field(g->k, k)) bad("wrong-field", ctx + ": the element " + show(v) + " was loaded into the field " + g->k->poly_string() + " root " + std::to_string(g->k->index) + " " + g->k->name);
  if (p->gen_name() != k->name || p->degree() != k->deg || !poly_is(p->renf_t(), k)) bad("wrong-field", ctx + ": the element " + show(v) + " was loaded into another field, " + p->to_string());
  if (!contains(p->renf_t()->emb, model::gen(k))) bad("wrong-field", ctx + ": the element " + show(v) + " was loaded into the field of another root " + ball_str(p->renf_t()->emb));
  Val got = peek(e, k); if (!got.same(v)) bad("wrong-value", ctx + ": " + show(v) + " was loaded as " + show(got)); if (!contains(e.renf_elem_t()->emb, v)) bad("wrong-enclosure", ctx + ": a loaded element has a wrong enclosure");
  FieldPtr h(p); out = adopt(h, k, "loading"); 
}
void check_loaded_field(const FieldPtr& p, const FieldP& k0, FR& out, const std::string& ctx) { if (!p) bad("dangling-field", ctx + ": no field was loaded"); check_loaded(p->gen(), k0, model::gen(canonical(k0)), out, ctx); }
void load(int kind, std::istream& is, const std::vector<Entry>& want, Rng& r, Loaded& L, const std::string& ctx, bool quiet) {
  bool churn = r.one_in(3);   // nobody keeps what was loaded: fields die (and their memory is used again) while the archive is being read
  auto holders = [&] { if (!churn) return; rt::count(rt::F_DROP_ORDER); for (auto& s : w->S) drop(*s); for (auto& f : w->F) { sut([&] { f.h.reset(); }); f.f.reset(); } };
  if (churn && r.below(3)) holders();
  InAr* ar = nullptr; Out o = sut([&] { ar = open_in(kind, is); }); if (o.st == 1 || o.st == 3) bad("assertion", ctx + ": " + o.what); if (o.st) { L.failed = true; L.why = o.what; return; }
  std::unique_ptr<Side> side; if (!depth && !quiet && r.one_in(4)) side = side_reader(r);
  for (auto& e : want) {
    if (!quiet && r.one_in(3)) disturb(r, true);
    if (side && r.below(4)) side->step(r);
    if (e.type == T_ELEM || e.type == T_NAMED) {
      auto s = std::make_unique<Slot>(); auto u = usable_slots(); Val old; FR oldf; if (!u.empty() && r.below(2)) { Slot& x = *w->S[u[r.below(u.size())]]; sut([&] { s->e.emplace(*x.e); }); old = x.v; oldf = x.f; } else { sut([&] { s->e.emplace(); }); old = model::from_q(w->triv->k, 0); oldf = w->triv; }
      o = sut([&] { if (e.type == T_NAMED) ar->named("entry", *s->e); else ar->elem(*s->e); });
      if (o.st == 0) { check_loaded(*s->e, e.k[0], e.v[0], s->f, ctx); s->v = e.v[0]; if (churn && r.below(4)) drop(*s); else L.e.push_back(std::move(s)); }
      else if (o.st == 2) { checked(); const eantic::renf_class* p = &s->e->parent(); bool fine = p == oldf->addr && peek(*s->e, oldf->k).same(old); if (!fine) { FR g = find_addr(p); fine = p->degree() == e.k[0]->deg && peek(*s->e, e.k[0]).same(e.v[0]); } if (!fine) bad("broken-target", ctx + ": after a failed load the element is neither its old value nor the stored one"); sut([&] { s->e.reset(); }); }
    } else if (e.type == T_FIELD) {
      FieldPtr p; o = sut([&] { ar->field(p); }); if (o.st == 0) { FR f; check_loaded_field(p, e.k[0], f, ctx); if (!churn) L.f.emplace_back(p, f); } sut([&] { p.reset(); });
    } else {
      std::vector<Elem> v; o = sut([&] { ar->vec(v); }); if (o.st == 0) { if (v.size() != e.v.size()) bad("wrong-value", ctx + ": a vector was loaded with another size"); for (size_t j = 0; j < v.size(); j++) { auto s = std::make_unique<Slot>(); check_loaded(v[j], e.k[j], e.v[j], s->f, ctx); s->v = e.v[j]; if (churn) { s->f.reset(); continue; } sut([&] { s->e.emplace(v[j]); }); L.e.push_back(std::move(s)); } } sut([&] { v.clear(); v.shrink_to_fit(); });
    }
    if (o.st == 1 || o.st == 3) bad("assertion", ctx + ": " + o.what);
    if (o.st == 2) { L.failed = true; L.why = o.what; break; }
    L.n++; if (churn && r.below(2)) holders();
    if (churn && r.below(2)) { rt::count(rt::F_ADDRREUSE); Temp t; make_temp(t, r); drop_temp(t); }
  }
  o = sut([&] { delete ar; }); if (o.st) bad("assertion", ctx + ": closing failed: " + o.what);
  if (side) side->close(r);
}
struct SideReader : Side {
  int kind; Written x; InBuf b; std::istream is; InAr* ar = nullptr; size_t i = 0; std::string ctx;
  SideReader(int kind, Written&& y, int chunk, uint64_t seed) : kind(kind), x(std::move(y)), b(x.data, ~(size_t)0, false, chunk, seed), is(&b), ctx(std::string("loading from a second ") + ar_name[kind]) { Out o = sut([&] { ar = open_in(kind, is); }); if (o.st) bad("load-failed", ctx + " failed: " + o.what); }
  void step(Rng& r) override {
    if (i >= x.entries.size()) return; Entry& e = x.entries[i++]; Out o; checked();
    if (e.type == T_ELEM || e.type == T_NAMED) { std::optional<Elem> t; sut([&] { t.emplace(); }); o = sut([&] { if (e.type == T_NAMED) ar->named("entry", *t); else ar->elem(*t); }); if (!o.st) { FR f; check_loaded(*t, e.k[0], e.v[0], f, ctx); } sut([&] { t.reset(); }); }
    else if (e.type == T_FIELD) { FieldPtr p; o = sut([&] { ar->field(p); }); if (!o.st) { FR f; check_loaded_field(p, e.k[0], f, ctx); } sut([&] { p.reset(); }); }
    else { std::vector<Elem> v; o = sut([&] { ar->vec(v); }); if (!o.st) { if (v.size() != e.v.size()) bad("wrong-value", ctx + ": a vector was loaded with another size"); for (size_t j = 0; j < v.size(); j++) { FR f; check_loaded(v[j], e.k[j], e.v[j], f, ctx); } } sut([&] { v.clear(); v.shrink_to_fit(); }); }
    if (o.st) bad("load-failed", ctx + " failed: " + o.what);
  }
  void close(Rng& r) override { while (i < x.entries.size()) step(r); Out o = sut([&] { delete ar; }); if (o.st) bad("assertion", ctx + ": closing failed: " + o.what); }
};
struct SideWriter : Side {
  int kind; std::ostringstream os; OutAr* ar = nullptr; std::vector<Entry> entries; explicit SideWriter(int kind) : kind(kind) { Out o = sut([&] { ar = open_out(kind, os); }); if (o.st) bad("unexpected-exception", o.what); }
  void step(Rng& r) override {
    Entry e; e.type = T_ELEM; auto u = usable_slots(); Out o;
    if (!u.empty() && r.below(2)) { Slot& x = *w->S[u[r.below(u.size())]]; e.k.push_back(x.f->k); e.v.push_back(x.v); o = sut([&] { ar->elem(*x.e); }); } else { Temp t; make_temp(t, r); e.k.push_back(t.f->k); e.v.push_back(t.v); o = sut([&] { ar->elem(*t.e); }); drop_temp(t); }
    if (o.st) bad("unexpected-exception", std::string("saving to a second ") + ar_name[kind] + " failed: " + o.what); entries.push_back(e);
  }
  void close(Rng& r) override { Out o = sut([&] { delete ar; }); if (o.st) bad("assertion", "closing a second archive failed: " + o.what); if (entries.empty()) return; depth++; Loaded L; std::istringstream is(os.str()); std::string ctx = std::string("loading from a second ") + ar_name[kind]; load(kind, is, entries, r, L, ctx, true); if (L.failed) bad("load-failed", ctx + " failed: " + L.why); for (auto& s : L.e) drop(*s); for (auto& f : L.f) { sut([&] { f.first.reset(); }); f.second.reset(); } depth--; }
};
std::unique_ptr<Side> side_writer(Rng& r) { rt::count(rt::F_INTERLEAVE); return std::unique_ptr<Side>(new SideWriter((int)r.below(4))); }
std::unique_ptr<Side> side_reader(Rng& r) { depth++; int kind = (int)r.below(4); Written x = write_plain(kind, r, 2 + (int)r.below(5), true); depth--; if (x.entries.empty()) return nullptr; rt::count(rt::F_INTERLEAVE); return std::unique_ptr<Side>(new SideReader(kind, std::move(x), r.below(2) ? (int)r.range(1, 20) : 0, r.u64())); }
void finish(Loaded& L, Rng& r, const std::string& ctx) {
  // the archive is closed; what was loaded is still there
  for (auto& s : L.e) { FR f; check_loaded(*s->e, s->f->k, s->v, f, ctx + ", afterwards"); } for (auto& f : L.f) { FR g; check_loaded_field(f.first, f.second->k, g, ctx + ", afterwards"); }
  for (auto& s : L.e) { if (r.below(2)) { s->v.k = s->f->k; int i = (int)r.below(NS); drop(*w->S[i]); w->S[i] = std::move(s); } else drop(*s); }
  for (auto& f : L.f) { if (r.below(2)) { FSlot& s = w->F[r.below(NF)]; sut([&] { s.h = f.first; }); s.f = f.second; } sut([&] { f.first.reset(); }); f.second.reset(); }
}
void drop_all(Rng& r) { for (auto& s : w->S) if (r.below(4)) drop(*s); for (auto& f : w->F) if (r.below(4)) { sut([&] { f.h.reset(); }); f.f.reset(); } }
// the same content as versions before 1.0 wrote it: "shared" instead of "id", a class version in front of elements
std::string as_old(std::string d, Rng& r) {
  auto all = [&](const std::string& from, const std::string& to, bool every) { for (size_t p = 0; (p = d.find(from, p)) != std::string::npos; p += to.size()) { d.replace(p, from.size(), to); if (!every) return; } };
  all("\"id\":", "\"shared\":", true); int v = (int)r.below(3); if (v) all("\"parent\":", "\"cereal_class_version\": 0, \"parent\":", v == 2); return d;
}
void do_arc(const Op& op) {
  depth = 0;
  Rng r(op.seed); int kind = (int)(op.a[3] % 4); Written x = write_plain(kind, r, 2 + (int)r.below(7), false); if (x.entries.empty()) return; rt::state(rt::mix64(9000 + kind * 64 + std::min<size_t>(7, x.entries.size()) * 8)); rt::event_str(x.data);
  rt::trace("  %s archive, %zu entries, %zu bytes", ar_name[kind], x.entries.size(), x.data.size()); bool old = kind == JSON && r.one_in(3); if (old) { rt::state(rt::mix64(9400 + std::min<size_t>(7, x.entries.size()))); x.data = as_old(x.data, r); }
  int times = 1 + (int)r.below(2); for (int t = 0; t < times; t++) { if (r.below(2)) drop_all(r); Loaded L; InBuf b(x.data, ~(size_t)0, false, r.below(2) ? (int)r.range(1, 20) : 0, r.u64()); std::istream is(&b); std::string ctx = std::string("loading from ") + ar_name[kind] + (old ? " in the format of versions before 1.0" : ""); load(kind, is, x.entries, r, L, ctx, false); if (L.failed) bad("load-failed", ctx + " failed: " + L.why); finish(L, r, ctx); }
}
// ---- restart: everything in memory is lost, the archive survives
void put_u(std::string& s, uint64_t v) { s += std::to_string(v) + "\n"; }
bool to_blob(int kind, const Written& x, size_t cut, uint64_t seed) {
  std::string b; put_u(b, kind); put_u(b, cut); put_u(b, seed); put_u(b, x.entries.size());
  for (auto& e : x.entries) { put_u(b, e.type); put_u(b, e.k.size()); put_u(b, e.v.size()); for (auto& k : e.k) { size_t i = 0; while (i < w->models.size() && !same_field(w->models[i], k)) i++; if (i == w->models.size()) return false; put_u(b, i); } for (auto& v : e.v) b += v.str() + "\n"; }
  put_u(b, x.data.size()); b += x.data; if (b.size() > sizeof rt::res->blob) return false; memcpy(rt::res->blob, b.data(), b.size()); rt::res->bloblen = (uint32_t)b.size(); return true;
}
void do_arr(const Op& op) {
  depth = 0;
  Rng r(op.seed); int kind = (int)(op.a[3] % 4); Written x = write_plain(kind, r, 2 + (int)r.below(7), false); if (x.entries.empty()) return; rt::event_str(x.data); rt::state(rt::mix64(9500 + kind * 64 + std::min<size_t>(7, x.entries.size()))); size_t cut = ~(size_t)0 >> 1;
  if (w->prop == "C12") { cut = (size_t)r.below((int64_t)x.data.size() + 1); rt::count(rt::F_TORN); }
  if (to_blob(kind, x, cut, r.u64())) { rt::count(rt::F_RESTART); want_restart = 1; } else rt::count(rt::K_SKIPPED);
}
// ---- torn archives
void judge_torn(int kind, const std::string& data, size_t stop, bool err, int chunk, const Written& x, Rng& r) {
  std::string ctx = std::string("loading a torn ") + ar_name[kind] + " archive (" + std::to_string(stop) + " of " + std::to_string(data.size()) + " bytes)"; Loaded L; InBuf b(data, stop, err, chunk, r.u64()); std::istream is(&b); if (r.one_in(4)) is.exceptions(std::ios::badbit);
  try { load(kind, is, x.entries, r, L, ctx, true); } catch (IoError&) { bad("simulator", "unexpected"); }
  rt::trace("  %s: %zu of %zu entries, %s", ctx.c_str(), L.n, x.entries.size(), L.failed ? L.why.c_str() : "complete"); rt::event(L.n); checked();
  if (!L.failed && stop < x.data.size()) { // everything arrived: fine if the missing bytes carry nothing
    if (kind == BIN || kind == PBIN) { if (!x.entries.empty() && x.entries.back().type != T_VEC) bad("not-reported", ctx + ": no error was reported"); } }
  finish(L, r, ctx); std::string l; if (!rt::mutexes_free(&l)) rt::violation("lock-held", "after a failed load a lock is still held (%s)", l.c_str());
}
void do_trn(const Op& op) {
  depth = 0;
  Rng r(op.seed); int kind = (int)(op.a[3] % 4), fault = (int)((op.a[3] / 4) % 4); int n = 1 + (int)r.below(5); uint64_t ws = r.u64(); rt::state(rt::mix64(9900 + kind * 8 + fault));
  if (fault == 3 && w->prop == "C12") { do_arr(op); return; }
  if (fault == 2) { // the device is full or broken
    OutBuf ob((size_t)r.below(600), r.below(2)); std::ostream os(&ob); Rng wr(ws); Written y = write_archive(kind, wr, n, os, [&] { return ob.d; }, true); checked(); if (ob.hit && !y.failed) bad("not-reported", std::string("writing ") + ar_name[kind] + " failed but neither exception nor stream state say so"); rt::trace("  write error after %zu bytes: %s", ob.d.size(), y.failed ? y.why.c_str() : "not reached");
    if (!ob.hit && y.failed) bad("unexpected-exception", std::string("saving failed: ") + y.why);
    if (y.entries.empty()) return; rt::count(rt::F_TORN); Written whole = y; if (ob.hit) { whole.data = y.data + std::string(64, ' '); } judge_torn(kind, y.data, y.data.size(), false, (int)r.below(9), whole, r);
  } else {
    Rng wr(ws); Written x = write_plain(kind, wr, n, true); if (x.entries.empty()) return; int cuts = 1 + (int)r.below(4);
    for (int c = 0; c < cuts; c++) { size_t stop = (size_t)r.below((int64_t)x.data.size() + 1); if (r.one_in(4)) stop = x.data.size() - (size_t)r.below(std::min<int64_t>(20, x.data.size())); rt::count(rt::F_TORN); judge_torn(kind, x.data, stop, fault == 1, r.below(2) ? (int)r.range(1, 9) : 0, x, r); }
    // an intact archive right afterwards
    Loaded L; InBuf b(x.data, ~(size_t)0, false, r.below(2) ? 3 : 0, r.u64()); std::istream is(&b); std::string ctx = std::string("loading an intact ") + ar_name[kind] + " archive after a torn one"; load(kind, is, x.entries, r, L, ctx, true); if (L.failed) bad("load-failed", ctx + " failed: " + L.why); finish(L, r, ctx);
  }
}
void do_ser(const Op& op) { Rng r(op.seed); int a = si(op.a[0]); Slot& x = *w->S[a]; if (!usable(x) || x.v.bits() > 3000) { rt::count(rt::K_SKIPPED); return; } state3("ser", op.a[3] & 3, &x); std::ostringstream os; Out o = sut([&] { std::unique_ptr<OutAr> ar(open_out((int)(op.a[3] & 3), os)); ar->elem(*x.e); ar->elem(*x.e); }); returned(o, "serialising", {a}, false); rt::event_str(os.str()); }

// ---- text
struct Token { std::string t; FR f; Val v; bool paren; size_t first, last; };   // complete once byte `last` was delivered
std::string blanks(Rng& r) { static const char* b[] = {" ", "  ", "\n", "\t", " \n ", "\r\n"}; return b[r.below(6)]; }
FR pick_field(Rng& r) { std::vector<FR> c; for (auto& s : w->F) if (s.f) c.push_back(s.f); for (auto& s : w->S) if (s->f && s->e) c.push_back(s->f); c.push_back(w->triv); return c[r.below(c.size())]; }
// format flags and locales of a stream are for numbers that are printed to it, not for elements
struct Grouped : std::numpunct<char> { std::string do_grouping() const override { return "\3"; } char do_thousands_sep() const override { return '\''; } char do_decimal_point() const override { return ','; } };
void decorate(std::ios& s, Rng& r, bool in) {
  static const std::locale grouped(std::locale::classic(), new Grouped()); if (r.below(3)) return; rt::count(rt::F_FORMAT);
  switch (r.below(4)) { case 0: s.setf(std::ios::hex, std::ios::basefield); break; case 1: s.setf(std::ios::oct, std::ios::basefield); break; default: break; }
  if (r.below(2)) s.setf(std::ios::showbase); if (r.below(2)) s.setf(std::ios::showpos); if (r.below(2)) s.setf(std::ios::uppercase); if (r.one_in(3)) s.setf(std::ios::scientific, std::ios::floatfield); if (r.below(2)) s.precision((std::streamsize)r.below(12)); if (r.below(2)) s.imbue(grouped);
  if (in && r.below(2)) s.unsetf(std::ios::skipws); if (in && r.one_in(3)) s.exceptions(std::ios::failbit | std::ios::badbit);
}
Token make_token(Rng& r, const FR& f) {
  Token k; k.f = f; std::vector<int> u; for (int i : usable_slots()) if (w->S[i]->f == f) u.push_back(i); Out o; int how = (int)r.below(4);
  if (!u.empty() && r.below(3)) { Slot& x = *w->S[u[r.below(u.size())]]; k.v = x.v; if (how < 3) { std::ostringstream os; decorate(os, r, false); o = sut([&] { os << *x.e; }); k.t = os.str(); } else o = sut([&] { k.t = x.e->to_string(EANTIC_STR_ALG); }); }
  else { k.v = model::gen_val(r, f->k, 30); if (k.v.bits() > 2500) k.v = model::gen(f->k); std::string t = k.v.str(); std::ostringstream os; decorate(os, r, false); o = sut([&] { Elem e(*f->addr, t); if (how < 3) { os << e; k.t = os.str(); } else k.t = e.to_string(EANTIC_STR_ALG); }); }
  if (o.st) rt::violation("unexpected-exception", "printing an element failed: %s", o.what.c_str());
  if (how == 3 && r.below(2)) k.t = "(" + k.t + ")";
  k.paren = k.t[0] == '('; if (!k.paren && k.t.find_first_of(" \t\n") != std::string::npos) { k.t = "(" + k.t + ")"; k.paren = true; }
  return k;
}
struct Target { std::optional<Elem> e; FR f; Val v; };
void make_target(Target& t, Rng& r, const FR& f) { t.f = r.one_in(4) ? w->triv : f; t.v = model::from_q(t.f->k, model::gen_mpq(r, 20)); std::string s = t.v.str(); Out o = sut([&] { t.e.emplace(*t.f->addr, s); }); if (o.st) rt::violation("unexpected-exception", "creating an element failed: %s", o.what.c_str()); }
void unchanged(const Target& t, const char* what) { checked(); if (&t.e->parent() != t.f->addr || !peek(*t.e, t.f->k).same(t.v)) bad("target-changed", std::string(what) + " failed but changed its target from " + show(t.v)); }
void kill(Target& t) { sut([&] { t.e.reset(); }); t.f.reset(); }
void kill_guard(FieldPtr& g) { sut([&] { g.reset(); }); }
void do_txt(const Op& op) {
  Rng r(op.seed); int n = 1 + (int)r.below(6); std::vector<Token> ts; std::string text; FR f = pick_field(r); FieldPtr guard, guard2; sut([&] { guard = FieldPtr(f->addr); }); FR f2 = pick_field(r); sut([&] { guard2 = FieldPtr(f2->addr); });
  for (int i = 0; i < n; i++) { ts.push_back(make_token(r, r.one_in(4) ? f2 : f)); if (r.one_in(3)) text += blanks(r); text += ts.back().t; bool sep = i + 1 < n || r.below(2); if (sep && !(ts.back().paren && r.one_in(4))) text += blanks(r); if (r.one_in(3)) disturb(r, false); }
  rt::event_str(text); if (rt::tracing) rt::trace("  text: %s", text.substr(0, 400).c_str());
  bool chunked = r.below(3); InBuf b(text, ~(size_t)0, false, chunked ? (int)r.range(1, 7) : 0, r.u64()); std::istream is(&b); decorate(is, r, true); rt::state(rt::mix64(11000 + n * 4 + chunked));
  FR cur; int i = 0;
  for (auto& k : ts) {
    i++; Target t; make_target(t, r, k.f); bool old = r.one_in(3); if (cur != k.f) { sut([&] { if (old) k.f->addr->set_istream(is); else k.f->addr->set_pword(is); }); cur = k.f; }
    if (r.one_in(4)) disturb(r, false);
    Out o = sut([&] { is >> *t.e; }); checked(); if (o.st || is.fail()) bad("read-failed", "element " + std::to_string(i) + " (" + k.t.substr(0, 200) + ") could not be read: " + o.what + " from " + text.substr(0, 300));
    if (&t.e->parent() != k.f->addr) bad("wrong-value", "the element was read into another field"); Val got = peek(*t.e, k.f->k); if (!got.same(k.v)) bad("wrong-value", "reading " + k.t.substr(0, 300) + " gives " + show(got) + " instead of " + show(k.v)); if (!contains(t.e->renf_elem_t()->emb, k.v)) bad("wrong-enclosure", "an element that was read has a wrong enclosure");
    if (r.one_in(3)) { int s = (int)r.below(NS); drop(*w->S[s]); Slot& x = *w->S[s]; sut([&] { x.e.emplace(*t.e); }); x.f = k.f; x.v = k.v; x.moved = false; if (x.v.bits() > 3000) drop(x); }
    kill(t);
  }
  Target t; make_target(t, r, f); rt::count(rt::F_EOF); Out o = sut([&] { is >> *t.e; }); checked(); if (o.st == 0 && !is.fail()) bad("not-reported", "reading past the end of a stream succeeded: " + text.substr(0, 300)); if (o.st == 1 || o.st == 3) bad("assertion", o.what); unchanged(t, "reading past the end"); kill(t);
  // constructor from the text, and getters of text
  { Token& k = ts[r.below(ts.size())]; std::string s = k.t; if (k.paren) s = s.substr(1, s.size() - 2); std::optional<Elem> e; o = sut([&] { e.emplace(*k.f->addr, s); }); checked(); if (o.st) bad("read-failed", "creating an element from " + s.substr(0, 300) + " failed: " + o.what); if (!peek(*e, k.f->k).same(k.v)) bad("wrong-value", "creating an element from " + s.substr(0, 300) + " gives " + show(peek(*e, k.f->k)) + " instead of " + show(k.v)); sut([&] { e.reset(); }); }
  for (auto& k : ts) k.f.reset(); kill_guard(guard); kill_guard(guard2);
}
void do_tbd(const Op& op) {
  Rng r(op.seed); int n = 1 + (int)r.below(4), fault = (int)(op.a[3] % 3); std::vector<Token> ts; std::string text; FR f = pick_field(r); FieldPtr guard; sut([&] { guard = FieldPtr(f->addr); }); int garbage = fault == 0 ? (int)r.below(n) : -1; static const char* junk[] = {"@", "(@)", "(1@2)", "x@", "(1/0)", "1/0", "?", "(#)", "$1", "(1,2)", "=3"};
  for (int i = 0; i < n; i++) { Token k = i == garbage ? Token() : make_token(r, f); if (i == garbage) { k.f = f; k.t = junk[r.below(11)]; k.paren = k.t[0] == '('; } if (r.one_in(3)) text += blanks(r); k.first = text.size(); text += k.t; k.last = text.size() - 1; text += blanks(r); if (!k.paren) k.last++; ts.push_back(k); }
  size_t stop = fault == 0 ? text.size() : (size_t)r.below((int64_t)text.size() + 1); InBuf b(text, stop, fault == 2, r.below(2) ? (int)r.range(1, 5) : 0, r.u64()); std::istream is(&b); if (r.one_in(3)) is.exceptions(r.below(2) ? std::ios::badbit : std::ios::failbit | std::ios::badbit); sut([&] { f->addr->set_pword(is); }); rt::state(rt::mix64(12000 + fault * 16 + n)); rt::count(fault == 0 ? rt::F_GARBAGE : fault == 1 ? rt::F_EOF : rt::F_READERR); if (rt::tracing) rt::trace("  text: %s, fault %d at %zu", text.substr(0, 400).c_str(), fault, stop);
  rt::event_str(text); rt::event(stop);
  for (int i = 0; i < n; i++) {
    Token& k = ts[i]; Target t; make_target(t, r, f); Out o = sut([&] { is >> *t.e; }); if (o.st == 1 || o.st == 3) bad("assertion", "reading failed: " + o.what); bool ok = o.st == 0 && !is.fail();
    if (i == garbage) { if (ok) bad("not-reported", "the malformed text " + k.t + " was read as an element"); unchanged(t, "reading malformed text"); kill(t); break; }
    bool complete = k.last < stop; rt::count(rt::K_CHECKS);
    if (complete) { if (!ok) bad("read-failed", "a complete element before the fault could not be read: " + k.t.substr(0, 200) + " " + o.what); if (!peek(*t.e, f->k).same(k.v)) bad("wrong-value", "reading " + k.t.substr(0, 300) + " gives " + show(peek(*t.e, f->k)) + " instead of " + show(k.v)); kill(t); continue; }
    bool judge = k.paren || fault == 2 || stop <= k.first; if (ok && judge) bad("not-reported", "reading " + text.substr(0, stop).substr(0, 300) + " with the stream " + (fault == 2 ? "failing" : "ending") + " inside the element succeeded: " + show(peek(*t.e, f->k))); if (!ok) unchanged(t, "reading from a broken stream");
    // nothing can be read afterwards either
    if (!ok) { o = sut([&] { is >> *t.e; }); if (o.st == 1 || o.st == 3) bad("assertion", o.what); if (fault != 2 && o.st == 0 && !is.fail()) bad("not-reported", "reading again from an exhausted stream succeeded"); if (fault != 2) unchanged(t, "reading from a broken stream"); }
    kill(t); break;
  }
  // the same text without the fault
  if (garbage < 0) { std::istringstream in(text); sut([&] { f->addr->set_pword(in); }); for (auto& k : ts) { Target t; make_target(t, r, f); Out o = sut([&] { in >> *t.e; }); checked(); if (o.st || in.fail()) bad("read-failed", "after a fault, intact text could not be read: " + k.t.substr(0, 200) + " " + o.what); if (!peek(*t.e, f->k).same(k.v)) bad("wrong-value", "after a fault, reading " + k.t.substr(0, 300) + " gives a wrong value"); kill(t); } }
  for (auto& k : ts) k.f.reset(); kill_guard(guard);
}
// ---- polynomials as text, read into variables that already hold something
void do_pst(const Op& op) {
  Rng r(op.seed); fmpz_poly_t z; fmpq_poly_t q; fmpz_poly_init(z); fmpq_poly_init(q); static const char* names[] = {"x", "a", "_b", "alpha", "x1y", "Z_"};
  for (int round = 0; round < 4; round++) {
    std::string var = names[r.below(6)], text; std::map<int, mpq_class> want; int n = 1 + (int)r.below(6); bool integral = r.below(2);
    for (int i = 0; i < n; i++) { mpq_class c = integral ? mpq_class(model::gen_mpz(r, 90)) : model::gen_mpq(r, 60); int e = (int)r.below(r.below(3) ? 4 : 20); if (c < 0 || i || r.one_in(6)) { if (r.below(2)) text += " "; text += c < 0 ? "-" : "+"; if (r.below(2)) text += " "; } want[e] += c; mpq_class a = abs(c); bool show = e == 0 || a != 1 || r.below(2); if (show) text += a.get_str(); if (e) { if (show) text += r.below(3) ? "*" : r.below(2) ? " * " : ""; text += var; if (e > 1 || r.one_in(4)) { text += r.below(3) ? "^" : " ^ "; text += std::to_string(e); } } if (r.one_in(5)) text += " "; }
    int bad_at = -1; if (r.one_in(4)) { static const char* junk[] = {"@", "1/0", "x^", "1/0*x", "/2", "#", "2*", "x^2.5", "x^x", "((", "1//2", "x y"}; std::string j = junk[r.below(12)]; bad_at = 1; rt::count(rt::F_GARBAGE); if (r.below(2)) text = j + " + " + text; else text += " + " + j; if (r.one_in(5)) { var = "1x"; } }
    int a = 0, b = 0; Out o = sut([&] { a = fmpq_poly_set_str_pretty(q, text.c_str(), var.c_str()); b = fmpz_poly_set_str_pretty(z, text.c_str(), var.c_str()); }); rt::event_str(text); rt::trace("  polynomial %s in %s", text.c_str(), var.c_str()); rt::state(rt::mix64(12500 + round * 4 + (bad_at > 0) * 2 + integral)); checked();
    if (o.st) bad("assertion", "reading the polynomial " + text + " failed: " + o.what);
    if (bad_at > 0) { if (!a || !b) bad("not-reported", "the malformed polynomial " + text + " was read"); continue; }
    if (a) bad("read-failed", "the polynomial " + text + " in " + var + " could not be read"); int top = -1; bool ints = true; for (auto& t : want) { if (t.second != 0) top = t.first; if (t.second.get_den() != 1) ints = false; }
    bool ok = fmpq_poly_length(q) == top + 1; Fmpq t; for (int i = 0; ok && i <= top; i++) { fmpq_poly_get_coeff_fmpq(t.x, q, i); if (to_mpq(t.x) != want[i]) ok = false; } if (!ok) bad("wrong-value", "reading the polynomial " + text + " gives another polynomial");
    if ((b == 0) != ints) bad(ints ? "read-failed" : "not-reported", "reading " + text + " as a polynomial with integer coefficients returned " + std::to_string(b));
    if (!b) { ok = fmpz_poly_length(z) == top + 1; Fmpz u; for (int i = 0; ok && i <= top; i++) { fmpz_poly_get_coeff_fmpz(u.x, z, i); if (mpq_class(to_mpz(u.x)) != want[i]) ok = false; } if (!ok) bad("wrong-value", "reading the polynomial " + text + " with integer coefficients gives another polynomial"); }
  }
  fmpz_poly_clear(z); fmpq_poly_clear(q);
}
}
void restore_blob() {
  std::string b(rt::res->blob, rt::res->bloblen); size_t p = 0; auto line = [&] { size_t e = b.find('\n', p); std::string s = b.substr(p, e - p); p = e + 1; return s; }; auto num = [&] { return (uint64_t)std::stoull(line()); };
  int kind = (int)num(); size_t cut = num(); uint64_t seed = num(); Written x; size_t n = num();
  for (size_t i = 0; i < n; i++) { Entry e; e.type = (int)num(); size_t nk = num(), nv = num(); for (size_t j = 0; j < nk; j++) e.k.push_back(w->models[num()]); for (size_t j = 0; j < nv; j++) { Val v; std::string t = line(); if (!model::parse(e.k[j], t, v)) { fprintf(stderr, "cannot parse %s\n", t.c_str()); exit(3); } e.v.push_back(v); } x.entries.push_back(e); }
  size_t len = num(); x.data = b.substr(p, len); Rng r(seed); rt::trace("  restarted, %s archive of %zu bytes", ar_name[kind], x.data.size());
  if (cut <= x.data.size()) { judge_torn(kind, x.data, cut, false, (int)r.below(8), x, r); invariants(); }
  Loaded L; InBuf in(x.data, ~(size_t)0, false, r.below(2) ? (int)r.range(1, 20) : 0, r.u64()); std::istream is(&in); std::string ctx = std::string("loading from ") + ar_name[kind] + " after a restart"; load(kind, is, x.entries, r, L, ctx, false); if (L.failed) bad("load-failed", ctx + " failed: " + L.why); finish(L, r, ctx); invariants();
}
bool op_io(const Op& op) {
  const std::string& n = op.name;
  if (n == "ser") do_ser(op); else if (n == "arc") do_arc(op); else if (n == "arr") do_arr(op); else if (n == "trn") do_trn(op); else if (n == "txt") do_txt(op); else if (n == "tbd") do_tbd(op); else if (n == "pst") do_pst(op); else return false;
  return true;
}
}
