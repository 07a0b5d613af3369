// World Seq: logical clients that share fields and elements; every operation is checked against the reference model.
#pragma once
#include "world_common.h"
#include <functional>
#include <optional>
using namespace wc;
namespace ws {
struct FRec { FieldP k; const eantic::renf_class* addr = nullptr; int imm = 0; std::string frozen; };   // a field object as the model knows it
typedef std::shared_ptr<FRec> FR;
struct FSlot { FieldPtr h; FR f; };
struct Slot { std::optional<Elem> e; FR f; Val v; bool moved = false; };
enum { NS = 8, NF = 4 };
enum Cls { ARITH, CONV, REL, ROUND, ENC, COPY, FIELD, TEXT };
struct World {
  const Script* s = nullptr; std::string prop; unsigned judged = 0; bool check_values = false, check_enc = false, check_frozen = false, imm_mode = false, strict = false;
  std::vector<FieldP> models; FSlot F[NF]; std::unique_ptr<Slot> S[NS]; FR triv; std::vector<std::weak_ptr<FRec>> all; std::map<std::string, size_t> hashes; std::vector<FR> pin;   // pin: field records that are in use until the operation ends
 
  bool J(Cls c) const { return judged >> c & 1; }
};
extern World* w;
struct Out { int st = 0; std::string what; };          // 0 returned, 1 stopped by an assertion, 2 exception, 3 std::bad_alloc
template <class G> Out sut(G g) {
  Out o; try { rt::Sut s; g(); } catch (rt::AssertStop& a) { o.st = 1; o.what = a.what; } catch (std::bad_alloc&) { o.st = 3; o.what = "std::bad_alloc"; } catch (std::exception& e) { o.st = 2; o.what = e.what(); }
  rt_in_sut = 0; return o;
}
inline Slot& S(int64_t i) { return *w->S[i & (NS - 1)]; }
inline int si(int64_t i) { return (int)(i & (NS - 1)); }
inline bool usable(const Slot& x) { return x.e && !x.moved; }
inline renf* nf(const Slot& x) { return x.e->parent().renf_t(); }
inline renf_elem* el(const Slot& x) { return x.e->renf_elem_t(); }
FR find_addr(const eantic::renf_class* p);
FR find_model(const FieldP& k);
bool same_field(const FieldP& a, const FieldP& b);
void drop(Slot& x);
void abandon(std::initializer_list<int> slots);
// true: the operation returned. otherwise it stopped legitimately (immutable field) and the involved slots were recreated
bool returned(const Out& o, const char* what, std::initializer_list<int> involved, bool needs_embedding);
void put(int slot, const FR& f, const Val& want, Cls c, const char* what);          // slot was written by the code under test
void put_mixed(int slot, const Val& want, Cls c, const char* what);                 // result may live in the field or in the rationals
void want_bool(bool got, bool want, Cls c, const char* what, const Val& a, const std::string& b);
std::string show(const Val& v);
inline void checked() { rt::count(rt::K_CHECKS); }
void state3(const char* op, int64_t variant, const Slot* a, const Slot* b = nullptr);
void invariants();
void ensure_in(int slot, const FR& f);            // slot holds some element of that field
bool same_fr(const Slot& a, const Slot& b);
size_t small_bits(const Slot& a);
// fields
FieldPtr make_field(const FieldP& k, int variant, Rng& r, long prec, Out& o);
FR adopt(const FieldPtr& p, const FieldP& k, const char* how);
long pick_prec(Rng& r);
// operations
bool op_core(const Op& op);      // world_ops.cpp
bool op_field(const Op& op);     // world_fields.cpp
bool op_io(const Op& op);        // world_io.cpp

extern int64_t want_restart;
void restore_blob();
// scalar types
enum { NSCALAR = 12 };           // short ... unsigned long long, mpz, mpq, fmpz, fmpq
}
