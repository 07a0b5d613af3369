From 03329e51372d9abd15eff3f1192250980d57fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:35 +0000
Subject: [PATCH 01/34] fix: do not delete a field that another thread just
 obtained from make()

The last external reference was dropped before the lock on the registry of
fields was taken, so make() could still hand out the field that was about to be
deleted. Also, the thread that deletes the field now synchronizes with the
threads that released it before.
---
 libeantic/srcxx/renf_class.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 0d4bf83..ab4a42c 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -286,16 +286,26 @@ void intrusive_ptr_add_ref(const renf_class* nf) {
 
 // Stop tracking a pointer to the field `nf`.
 void intrusive_ptr_release(const renf_class* nf) {
-    if (nf->refcount.fetch_sub(1, std::memory_order_release) == 4)
+    // Unless this might be the last external reference, we only need to update
+    // the counter.
+    size_t count = nf->refcount.load(std::memory_order_relaxed);
+    while (count != 4)
+        if (nf->refcount.compare_exchange_weak(count, count - 1, std::memory_order_acq_rel, std::memory_order_relaxed))
+            return;
+
+    // This is the last reference except for the ones internal to the
+    // renf_class itself. However, until we hold the lock on the registry,
+    // another thread can still obtain a reference to this field through
+    // make(). So we must only drop our reference while holding the lock.
+    std::lock_guard<std::mutex> lock(fields_mutex);
+
+    if (nf->refcount.fetch_sub(1, std::memory_order_acq_rel) == 4)
     {
         // All references to this field have been released, i.e., all
         // intrusive_ptr<const renf_class*> are gone except for the ones
         // internal to the renf_class itself.
         // We remove this field from the registry of fields and then free the
         // memory it is occupying.
-
-        std::lock_guard<std::mutex> lock(fields_mutex);
-
         assert(fields.find(nf) != fields.end());
         fields.erase(nf);
         delete(nf);
-- 
2.43.0


From 31542dffe077710f78c949a892bbf04c0ecedb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:35 +0000
Subject: [PATCH 02/34] fix: do not look at the embedding of unrelated fields
 in make()

Two fields that only differ in the name of their generator have the same hash,
so creating one of them read the embedding of the other one which could be
subject to refinement in another thread.
---
 libeantic/srcxx/renf_class.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index ab4a42c..3c4df74 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -46,7 +46,9 @@ struct fields_hasher {
 // faster.
 struct fields_equality {
     bool operator()(const renf_class* lhs, const renf_class* rhs) const {
-        return renf_equal(lhs->renf_t(), rhs->renf_t()) && lhs->gen_name() == rhs->gen_name();
+        // Names come first: they never change whereas looking at the embedding
+        // of a field is not safe while it is being refined in another thread.
+        return lhs->gen_name() == rhs->gen_name() && renf_equal(lhs->renf_t(), rhs->renf_t());
     }
 };
 
-- 
2.43.0


From 016cd61b26e577351d2a370ed96128cc97f09a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:57 +0000
Subject: [PATCH 03/34] fix: do not serialize a field as another one that was
 at the same address before

---
 libeantic/e-antic/cereal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/e-antic/cereal.hpp b/libeantic/e-antic/cereal.hpp
index 4fb9e75..62b1eff 100644
--- a/libeantic/e-antic/cereal.hpp
+++ b/libeantic/e-antic/cereal.hpp
@@ -30,7 +30,10 @@ template <class Archive>
 void save(Archive & archive, const boost::intrusive_ptr<const renf_class> & self)
 {
 #if CEREAL_VERSION >= 10301
-    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [](auto) {}));
+    // The archive identifies fields by their address. We keep a reference to
+    // the field in the deleter so that the address cannot be recycled for
+    // another field until the serialization of the whole file is complete.
+    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [self](auto) {}));
 #else
     uint32_t id = archive.registerSharedPointer(self.get());
 #endif
-- 
2.43.0


From 97fcbf41198749306569f2c88eff53e4810082bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:57 +0000
Subject: [PATCH 04/34] fix: generator of a field defined by a linear
 polynomial

The root of a*x + b is -b/a and not -a/b.
---
 libeantic/src/renf_elem/gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/gen.c b/libeantic/src/renf_elem/gen.c
index b0891e4..f16f0fb 100644
--- a/libeantic/src/renf_elem/gen.c
+++ b/libeantic/src/renf_elem/gen.c
@@ -17,8 +17,8 @@ void renf_elem_gen(renf_elem_t a, const renf_t nf)
 {
     if (nf->nf->flag & NF_LINEAR)
     {
-        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs + 1);
-        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs + 1);
 
         fmpz_neg(LNF_ELEM_NUMREF(a->elem), LNF_ELEM_NUMREF(a->elem));
 
-- 
2.43.0


From 1ff76c866091eaa67fbd87c842a4446c60a3ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:57 +0000
Subject: [PATCH 05/34] fix: renf_elem_fmpq_div computed the product instead of
 the quotient

---
 libeantic/src/renf_elem/fmpq_div.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_div.c b/libeantic/src/renf_elem/fmpq_div.c
index d2e8eb3..9b6449e 100644
--- a/libeantic/src/renf_elem/fmpq_div.c
+++ b/libeantic/src/renf_elem/fmpq_div.c
@@ -17,5 +17,5 @@ void renf_elem_fmpq_div(renf_elem_t a, const fmpq_t b, const renf_elem_t c, cons
 {
     renf_elem_set(a, c, nf);
     renf_elem_inv(a, a, nf);
-    renf_elem_mul_fmpq(a, c, b, nf);
+    renf_elem_mul_fmpq(a, a, b, nf);
 }
-- 
2.43.0


From 7a9f97fb28d78f4b79e404eb19858e6dd29e3722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:17 +0000
Subject: [PATCH 06/34] fix: memory leaks in fmpq_poly_check_unique_real_root

---
 libeantic/src/fmpq_poly_extra/check_unique_real_root.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 0eaadac..b5c50a0 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -86,7 +86,12 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
             }
         }
         else
+        {
+            arf_clear(l);
+            arf_clear(r);
+            arb_clear(b);
             return 0;
+        }
         arb_clear(b);
 
         /* 2 - expensive testing                                        */
@@ -96,6 +101,8 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         fmpq_init(qr);
         arf_get_fmpq(ql, l);
         arf_get_fmpq(qr, r);
+        arf_clear(l);
+        arf_clear(r);
 
         fmpz_poly_init(pol2);
         fmpz_poly_fit_length(pol2, pol->length);
-- 
2.43.0


From feaf8fdb58391ba7ed1e8a5a6c3b45dea2a34a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:17 +0000
Subject: [PATCH 07/34] fix: floor and ceil of zero in fields of degree at
 least three

The zero polynomial has no constant coefficient, so the rounding read a stale
coefficient of a previous value of the element.
---
 libeantic/src/renf_elem/rounding_template.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index 2ea68a4..bba9720 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -46,6 +46,12 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
     slong size, cond = WORD_MIN, prec;
     fmpz_t zsize;
 
+    if (nf_elem_is_zero(b->elem, nf->nf))
+    {
+        fmpz_zero(a);
+        return;
+    }
+
     if (nf_elem_is_rational(b->elem, nf->nf))
     {
         if (nf->nf->flag & NF_LINEAR)
-- 
2.43.0


From 6a4da85de1b66d497c45ac51e88262fa4b709e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:23 +0000
Subject: [PATCH 08/34] fix: do not negate the argument of renf_elem_get_d
 while computing

Another thread that was copying the same element, e.g., the generator of a
shared field, could see the negated value.
---
 libeantic/src/renf_elem/get_d.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libeantic/src/renf_elem/get_d.c b/libeantic/src/renf_elem/get_d.c
index 08d6594..8ef0389 100644
--- a/libeantic/src/renf_elem/get_d.c
+++ b/libeantic/src/renf_elem/get_d.c
@@ -34,9 +34,13 @@ static int renf_elem_overflows_d(renf_elem_t a, renf_t nf)
         fmpz_clear(dbl_max);
         return cmp > 0 ? 1 : 0;
     } else {
-        renf_elem_neg(a, a, nf);
-        int overflow = renf_elem_overflows_d(a, nf);
-        renf_elem_neg(a, a, nf);
+        renf_elem_t minus_a;
+        renf_elem_init(minus_a, nf);
+        renf_elem_neg(minus_a, a, nf);
+
+        int overflow = renf_elem_overflows_d(minus_a, nf);
+
+        renf_elem_clear(minus_a, nf);
 
         return -overflow;
     }
-- 
2.43.0


From 84be4bc50802168d49ab9f12c59171fd2de027f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:49 +0000
Subject: [PATCH 09/34] fix: memory leak when a field cannot be created

The minimal polynomial and the ball were not freed when the callback that
describes the embedding throws; in particular this leaked whenever the given
ball does not contain a unique root.
---
 libeantic/srcxx/renf_class.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 3c4df74..5b5b2ce 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -136,8 +136,19 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
             throw std::invalid_argument("renf_class: can not read polynomial from string");
         }
 
+        std::string ball;
+        try
+        {
+            ball = emb(prec);
+        }
+        catch (...)
+        {
+            fmpq_poly_clear(p);
+            throw;
+        }
+
         arb_init(e);
-        if (arb_set_str(e, emb(prec).c_str(), prec))
+        if (arb_set_str(e, ball.c_str(), prec))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
-- 
2.43.0


From 884f96250dbc3b499a483f367f5249b375a5949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:49 +0000
Subject: [PATCH 10/34] fix: memory leaks when running out of memory while
 creating a field

---
 libeantic/srcxx/renf_class.cpp | 42 +++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 5b5b2ce..2d0dc63 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -12,6 +12,7 @@
 
 #include <iostream>
 #include <atomic>
+#include <memory>
 #include <mutex>
 #include <stdexcept>
 #include <type_traits>
@@ -72,11 +73,19 @@ renf_class::renf_class(const ::renf_t k, const std::string & gen_name) : name(ge
     renf_init_set(nf, k);
 
     // We prepare a cache of 0,1, and the generator of this field.
-    cache = new renf_elem_class[3] {
-        renf_elem_class(*this),
-        renf_elem_class(*this, 1),
-        renf_elem_class(*this),
-    };
+    try
+    {
+        cache = new renf_elem_class[3] {
+            renf_elem_class(*this),
+            renf_elem_class(*this, 1),
+            renf_elem_class(*this),
+        };
+    }
+    catch (...)
+    {
+        renf_clear(nf);
+        throw;
+    }
     renf_elem_gen(cache[2].renf_elem_t(), renf_t());
 }
 
@@ -95,20 +104,19 @@ const renf_class& renf_class::make()
 
 boost::intrusive_ptr<const renf_class> renf_class::make(const ::renf_t k, const std::string & gen_name)
 {
-    const auto* key = new renf_class(k, gen_name);
+    std::unique_ptr<const renf_class> key(new renf_class(k, gen_name));
 
     std::lock_guard<std::mutex> lock(fields_mutex);
 
-    const auto entry = fields.find(key);
+    const auto entry = fields.find(key.get());
 
     if (entry == fields.end())
     {
-        fields.insert(key);
-        return key;
+        fields.insert(key.get());
+        return key.release();
     }
     else
     {
-        delete key;
         return *entry;
     }
 }
@@ -169,11 +177,19 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
         fmpq_poly_clear(p);
         arb_clear(e);
 
-        auto field = make(nf, gen);
+        try
+        {
+            auto field = make(nf, gen);
 
-        renf_clear(nf);
+            renf_clear(nf);
 
-        return field;
+            return field;
+        }
+        catch (...)
+        {
+            renf_clear(nf);
+            throw;
+        }
     }
 }
 
-- 
2.43.0


From 8484ad5a3efc09a823253396d87ad6e9830b354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:49 +0000
Subject: [PATCH 11/34] fix: memory leaks when an element cannot be created

---
 libeantic/srcxx/renf_elem_class.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 0aae188..2b17235 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -427,6 +427,7 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
     if (err)
     {
         fmpq_poly_clear(p);
+        flint_free(t);
         throw std::invalid_argument("renf_elem_class fmpq_poly_set_str_pretty");
     }
     renf_elem_init(a, nf->renf_t());
@@ -445,7 +446,10 @@ renf_elem_class::renf_elem_class(const renf_class& k, const renf_elem_class & va
     else if (value.is_rational())
         renf_elem_set_mpq(a, static_cast<mpq_class>(value).get_mpq_t(), nf->renf_t());
     else
+    {
+        renf_elem_clear(a, nf->renf_t());
         throw std::logic_error("not implemented: coercion between these number fields");
+    }
 }
 
 renf_elem_class::renf_elem_class(const renf_class& k, const std::vector<int> & coefficients)
-- 
2.43.0


From 0953716fb2f67e1cd15cc23c21fadfe399b6a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:11 +0000
Subject: [PATCH 12/34] fix: reject polynomials with a zero denominator such as
 1/0*x

---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 4c45892..eda5484 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -60,6 +60,8 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
 
         if (ans)
             return ans;
+        if (fmpz_is_zero(fmpq_denref(coeff)))
+            return -1;
         x = y;
     }
     else
-- 
2.43.0


From 714ff8301e00fcfa3600c87ac4d5d3a89791047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:23 +0000
Subject: [PATCH 13/34] fix: infinite loop when refining an embedding whose
 midpoint is very close to the root

The bisection step reported success without shrinking the ball when it could
not determine the sign at the midpoint, so the precision was never increased.
---
 libeantic/src/fmpz_poly_extra/bisection_step_arb.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index 40fbf9a..59e3e57 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -54,7 +54,7 @@ void _fmpz_poly_bisection_step_arf(arf_t l, arf_t r, const fmpz * pol, slong len
 
 int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slong prec)
 {
-    int sl, sr;
+    int sl, sr, progress;
     arb_t b, c, rres;
     arf_t l, r;
 
@@ -96,6 +96,9 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
 
     _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
     arb_set_interval_arf(rres, l, r, prec);
+
+    /* The ball does not shrink if the sign at the midpoint could not be determined. */
+    progress = !arb_contains(rres, a);
     arb_intersection(res, rres, a, prec);
 
     arb_clear(b);
@@ -104,7 +107,7 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
     arf_clear(l);
     arf_clear(r);
 
-    return 1;
+    return progress;
 }
 
 int fmpz_poly_bisection_step_arb(arb_t res, const fmpz_poly_t pol, arb_t a, slong prec)
-- 
2.43.0


From 1a6e11ee988cf22e062c9baccfffbd79f06933d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:23 +0000
Subject: [PATCH 14/34] fix: bring fractions into lowest terms when parsing

Otherwise, an element created from the string 4/6 is not equal to 2/3.
---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index eda5484..b9ef1e3 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -62,6 +62,7 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
             return ans;
         if (fmpz_is_zero(fmpq_denref(coeff)))
             return -1;
+        fmpq_canonicalise(coeff);
         x = y;
     }
     else
-- 
2.43.0


From e11f11b0ab049a09d21aafea5ea0d629f40766ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:50 +0000
Subject: [PATCH 15/34] fix: do not accept a ball that only contains a root
 after rounding its endpoints

---
 libeantic/src/fmpq_poly_extra/check_unique_real_root.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index b5c50a0..4bb1360 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -60,7 +60,7 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         arb_init(c);
         arf_init(l);
         arf_init(r);
-        arb_get_interval_arf(l, r, a, prec);
+        arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
         arb_set_arf(b, l);
         _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
         lsign = arb_sgn2(c);
-- 
2.43.0


From 36b98306f7f6aa76b82c6da3e1f9e9c102376e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:15 +0000
Subject: [PATCH 16/34] fix: do not read an element from a stream that has none

At the end of a stream, in front of spaces, and on a stream in a failed state,
operator>> set the element to zero. Also, a space before the closing
parenthesis made it skip the parenthesis.
---
 libeantic/srcxx/renf_class.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 2d0dc63..1999b29 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -278,28 +278,33 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
 
     if (is.eof()) throw std::invalid_argument("empty stream");
 
+    is >> std::ws;
+
+    if (!is.good())
+    {
+        // There is nothing (left) to read on this stream.
+        is.setstate(std::ios_base::failbit);
+        return is;
+    }
+
     bool paren = is.peek() == std::char_traits<char>::to_int_type('(');
     if (paren)
     {
-        // read until ")"
+        // read until ")" ignoring any spaces
         is.get();
-        while (!is.eof() && is.peek() != std::char_traits<char>::to_int_type(')') && is.peek() != EOF) {
-            char c;
-            is >> c;
-            s += c;
+        while (is.good() && is.peek() != std::char_traits<char>::to_int_type(')') && is.peek() != EOF) {
+            const auto c = is.get();
+            if (!isspace(c)) s += static_cast<char>(c);
         }
-        if (is.eof()) throw std::invalid_argument("invalid stream");
+        if (!is.good()) throw std::invalid_argument("invalid stream");
         is.get(); // remove ) from the stream
     }
     else
     {
-        if (paren) is.get();
         // read until space or EOF
-        while (!is.eof() && !isspace(is.peek()) && is.peek() != EOF) {
-            char c;
-            is >> c;
-            s += c;
-        }
+        while (is.good() && !isspace(is.peek()) && is.peek() != EOF)
+            s += static_cast<char>(is.get());
+        if (is.bad()) throw std::invalid_argument("invalid stream");
     }
 
     a = renf_elem_class(*nf, s);
-- 
2.43.0


From 003ca31a11118b0f481ca1446c81b6ba4f1ccb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:07 +0000
Subject: [PATCH 17/34] fix: reading an integer at the end of a stream marked
 the stream as failed

---
 libeantic/srcxx/renf_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 1999b29..1dee8e1 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -302,7 +302,7 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
     else
     {
         // read until space or EOF
-        while (is.good() && !isspace(is.peek()) && is.peek() != EOF)
+        while (is.good() && is.peek() != EOF && !isspace(is.peek()))
             s += static_cast<char>(is.get());
         if (is.bad()) throw std::invalid_argument("invalid stream");
     }
-- 
2.43.0


From 140cc02acfa0e1f0b324111924231a564fa01eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:18 +0000
Subject: [PATCH 18/34] fix: assertion failure when comparing very small
 elements

The logarithm of the condition number was negative for elements close to zero so
elements were evaluated with zero or even negative precision.
---
 .../src/fmpz_poly_extra/relative_condition_number_2exp.c      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c b/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c
index 3c78cf3..dac4658 100644
--- a/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c
@@ -49,7 +49,9 @@ int _fmpz_poly_relative_condition_number_2exp(slong * cond, fmpz * p, slong len,
         fmpz_clear(cond2);
         return 1;
     }
-    *cond = fmpz_get_si(cond2);
+    /* A condition number is at least one: we must never ask for less than the */
+    /* working precision (or even for a negative precision) when x is tiny.    */
+    *cond = FLINT_MAX(fmpz_get_si(cond2), 0);
     fmpz_clear(cond2);
     return 0;
 }
-- 
2.43.0


From 3a993f50ce3a9c80472d680448c0738925aeaadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:18 +0000
Subject: [PATCH 19/34] fix: abort when refining the embedding of a linear
 field whose generator is zero

---
 libeantic/src/renf/refine_embedding.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index bf15abb..423a77a 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -25,6 +25,14 @@ void renf_refine_embedding(renf_t nf, slong prec)
 
     assert(!renf_set_immutable(nf, 1) && "An embedding cannot be safely refined in a multi-threaded environment; you should have refined as needed and called renf_set_immutable() before entering multi-threaded code. Alternatively, you might also be able to use a distinct copy of the renf_t in each thread.");
 
+    if ((nf->nf->flag & NF_LINEAR) && arb_rel_accuracy_bits(nf->emb) < prec)
+    {
+        /* The root is rational, possibly zero where we cannot achieve any */
+        /* relative accuracy by iteration.                                 */
+        arb_fmpz_div_fmpz(nf->emb, fmpq_poly_numref(nf->nf->pol), fmpq_poly_numref(nf->nf->pol) + 1, prec + 2);
+        arb_neg(nf->emb, nf->emb);
+    }
+
     _fmpz_poly_relative_condition_number_2exp(&cond,
             nf->nf->pol->coeffs, nf->nf->pol->length,
             nf->emb, FLINT_MAX(nf->prec, 64));
-- 
2.43.0


From ea05d345c851ac73a48312af55798d1ae5fa3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:41 +0000
Subject: [PATCH 20/34] fix: do not refuse a ball just because the signs at its
 endpoints are hard to decide

---
 libeantic/src/fmpq_poly_extra/check_unique_real_root.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 4bb1360..5e15f49 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -85,7 +85,7 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
                 return 1;
             }
         }
-        else
+        else if (lsign * rsign == 1 || !arb_is_finite(a) || arb_is_exact(a))
         {
             arf_clear(l);
             arf_clear(r);
@@ -94,7 +94,7 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         }
         arb_clear(b);
 
-        /* 2 - expensive testing                                        */
+        /* 2 - expensive testing, also when a sign could not be decided */
         fmpq_t ql, qr;
 
         fmpq_init(ql);
-- 
2.43.0


From 9debcb69eea50edcc99fe0e468425e0582f77fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:51 +0000
Subject: [PATCH 21/34] fix: a field could not be created again from its own
 construction

When the midpoint of the embedding has few bits or when the embedding is much
better than the precision of the field, the ball was rounded until it did not
isolate the root anymore.
---
 libeantic/srcxx/renf_class.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 1dee8e1..350bd1e 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -10,6 +10,7 @@
     (at your option) any later version.  See <http://www.gnu.org/licenses/>.
 */
 
+#include <algorithm>
 #include <iostream>
 #include <atomic>
 #include <memory>
@@ -163,7 +164,16 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
             throw std::invalid_argument("renf_class: can not read ball from string");
         }
 
-        if (!fmpq_poly_check_unique_real_root(p, e, prec))
+        bool unique = fmpq_poly_check_unique_real_root(p, e, prec);
+        if (!unique)
+        {
+            // Rounding to prec bits might have made the ball too big to
+            // isolate the root. So we try again with all the given digits.
+            arb_set_str(e, ball.c_str(), std::max(prec, 4 * static_cast<slong>(ball.size())));
+            unique = fmpq_poly_check_unique_real_root(p, e, prec);
+        }
+
+        if (!unique)
         {
             fmpq_poly_clear(p);
             arb_clear(e);
@@ -218,7 +228,13 @@ const renf_elem_class& renf_class::gen() const
 }
 
 std::tuple<std::string, std::string, std::string, slong> renf_class::construction() const {
-  char * emb = arb_get_str(renf_t()->emb, arf_bits(arb_midref(renf_t()->emb)), 0);
+  // Print enough digits so that the printed ball is not much bigger than the
+  // actual one; otherwise, it might contain several roots.
+  slong digits = arf_bits(arb_midref(renf_t()->emb));
+  if (!arb_is_exact(renf_t()->emb))
+    digits = std::max(digits, arb_rel_accuracy_bits(renf_t()->emb));
+
+  char * emb = arb_get_str(renf_t()->emb, digits, 0);
   char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
 
   const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
-- 
2.43.0


From 95bd1c99d2e921bd5c761d5472654d7f08386329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:23 +0000
Subject: [PATCH 22/34] fix: crash in renf_elem_get_arb when the embedding is
 exact

---
 libeantic/src/renf_elem/get_arb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/get_arb.c b/libeantic/src/renf_elem/get_arb.c
index f31f807..270c90b 100644
--- a/libeantic/src/renf_elem/get_arb.c
+++ b/libeantic/src/renf_elem/get_arb.c
@@ -31,7 +31,9 @@ renf_elem_get_arb(arb_t x, renf_elem_t a, renf_t nf, slong prec)
     }
 
     renf_elem_relative_condition_number_2exp(&cond, a, nf);
-    slong pprec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
+    slong pprec = nf->prec;
+    if (!arb_is_exact(nf->emb)) /* exact embeddings have infinite accuracy */
+        pprec = FLINT_MAX(pprec, arb_rel_accuracy_bits(nf->emb));
     do
     {
         renf_elem_set_evaluation(a, nf, pprec + cond);
-- 
2.43.0


From 74697ec600d513155c541560d763077cbd5b8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:23 +0000
Subject: [PATCH 23/34] fix: wrong result of renf_elem_fmpq_sub in quadratic
 fields when subtracting zero

---
 libeantic/src/renf_elem/fmpq_sub.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_sub.c b/libeantic/src/renf_elem/fmpq_sub.c
index 6e5a164..6f6c67c 100644
--- a/libeantic/src/renf_elem/fmpq_sub.c
+++ b/libeantic/src/renf_elem/fmpq_sub.c
@@ -24,6 +24,9 @@ static void arb_fmpq_sub(arb_t a, const fmpq_t c, const arb_t b, slong prec)
 
 void renf_elem_fmpq_sub(renf_elem_t a, const fmpq_t c, const renf_elem_t b, const renf_t nf)
 {
-    nf_elem_fmpq_sub(a->elem, c, b->elem, nf->nf);
+    /* We do not use nf_elem_fmpq_sub() here. In quadratic fields, it does not */
+    /* reset the coefficient of the generator in a when b is zero.             */
+    nf_elem_sub_fmpq(a->elem, b->elem, c, nf->nf);
+    nf_elem_neg(a->elem, a->elem, nf->nf);
     arb_fmpq_sub(a->emb, c, b->emb, nf->prec);
 }
-- 
2.43.0


From cf088d4b9cd6cf9d572e28d3762342072436c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:40 +0000
Subject: [PATCH 24/34] fix: refining an embedding by bisection could move on
 to another root

---
 .../src/fmpz_poly_extra/bisection_step_arb.c  | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index 59e3e57..bc9657e 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -56,17 +56,18 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
 {
     int sl, sr, progress;
     arb_t b, c, rres;
-    arf_t l, r;
+    arf_t l, r, ll, rr;
 
     arf_init(l);
     arf_init(r);
     arb_init(b);
     arb_init(c);
-    arb_init(rres);
 
     /* set l, r as the left and right endpoint of the ball */
     /* compute the signs of pol(l) and pol(r)              */
-    arb_get_interval_arf(l, r, a, prec);
+    /* The endpoints must not be rounded, the rounded      */
+    /* interval might contain another root.                */
+    arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
 
     arb_set_arf(b, l);
     _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
@@ -76,7 +77,6 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
         arf_clear(r);
         arb_clear(b);
         arb_clear(c);
-        arb_clear(rres);
         return 0;
     }
     sl = arf_sgn(arb_midref(c));
@@ -89,18 +89,33 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
         arf_clear(r);
         arb_clear(b);
         arb_clear(c);
-        arb_clear(rres);
         return 0;
     }
     sr = arf_sgn(arb_midref(c));
 
-    _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
-    arb_set_interval_arf(rres, l, r, prec);
+    arb_init(rres);
+    arf_init(ll);
+    arf_init(rr);
+
+    /* The smallest ball around l and r might be slightly too big; bisect */
+    /* again until it does not contain anything that was not in a.        */
+    do
+    {
+        arf_set(ll, l);
+        arf_set(rr, r);
+        _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
+
+        /* There is no change if the sign at the midpoint could not be determined. */
+        progress = !arf_equal(l, ll) || !arf_equal(r, rr);
+        arb_set_interval_arf(rres, l, r, prec);
+    }
+    while (progress && !arb_contains(a, rres));
 
-    /* The ball does not shrink if the sign at the midpoint could not be determined. */
-    progress = !arb_contains(rres, a);
-    arb_intersection(res, rres, a, prec);
+    if (progress)
+        arb_set(res, rres);
 
+    arf_clear(ll);
+    arf_clear(rr);
     arb_clear(b);
     arb_clear(c);
     arb_clear(rres);
-- 
2.43.0


From 59ec9371964e927746fce2fb77445528e334756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:18 +0000
Subject: [PATCH 25/34] fix: elements and fields in Python could outlive the
 field they refer to

---
 pyeantic/src/pyeantic/cppyy_eantic.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index c60459d..a7e08d6 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -131,10 +131,29 @@ def unwrap_intrusive_ptr(K):
         raise TypeError("argument must be an intrusive_ptr to a renf_class")
 
     wrapped = K.get()
-    wrapped.__lifeline = K
+    # Note that cppyy overwrites the attribute __lifeline so we use another one.
+    wrapped.__intrusive_ptr = K
 
     return wrapped
 
+def enable_lifeline(proxy, name):
+    r"""
+    Make sure that the elements returned by ``zero()``, ``one()``, ``gen()``
+    and the field returned by ``parent()`` stay alive even when there are no
+    other references to their field in Python.
+    """
+    if name == "renf_class":
+        for method in ["zero", "one", "gen"]:
+            # In C++, these are references to elements that the field owns.
+            implementation = getattr(proxy, method)
+            setattr(proxy, method, lambda self, implementation=implementation: eantic.renf_elem_class(implementation(self)))
+    else:
+        parent = proxy.parent
+        proxy.parent = lambda self: unwrap_intrusive_ptr(parent(self))
+
+cppyy.py.add_pythonization(filtered("renf_class")(enable_lifeline), "eantic")
+cppyy.py.add_pythonization(filtered("renf_elem_class")(enable_lifeline), "eantic")
+
 def intrusive_ptr_deserialize(intrusive):
     cppyy.include('e-antic/cereal.hpp')
     return unwrap_intrusive_ptr(intrusive)
-- 
2.43.0


From 219cf995e45c9974e57c6b20ec54c08bcac32e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:30 +0000
Subject: [PATCH 26/34] fix: do not round the isolating intervals when
 enumerating embeddings

With roots that agree in more bits than the requested precision the
rounded interval did not isolate a root and renf_init aborted.
---
 libeantic/src/renf/set_embeddings_fmpz_poly.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf/set_embeddings_fmpz_poly.c b/libeantic/src/renf/set_embeddings_fmpz_poly.c
index 72d068e..b2e0d8c 100644
--- a/libeantic/src/renf/set_embeddings_fmpz_poly.c
+++ b/libeantic/src/renf/set_embeddings_fmpz_poly.c
@@ -51,7 +51,8 @@ slong renf_set_embeddings_fmpz_poly(renf * nf, fmpz_poly_t pol, slong lim, slong
     {
         arb_set_fmpz(a, c + i);
         arb_mul_2exp_si(a, a, 1);
-        arb_add_si(a, a, 1, prec);
+        /* the midpoint must not be rounded, the interval might not isolate the root anymore */
+        arb_add_si(a, a, 1, ARF_PREC_EXACT);
         mag_one(arb_radref(a));
         arb_mul_2exp_si(a, a, k[i] - 1);
 
-- 
2.43.0


From 3be1d25c230340582683c510a566c1ff1661b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:30 +0000
Subject: [PATCH 27/34] fix: fields with overlapping enclosures are not
 necessarily equal

Enclosures of two distinct roots can overlap although each contains only one
root. Such fields were considered equal and renf_class::make() returned the
field of the other root.
---
 libeantic/src/renf/equal.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf/equal.c b/libeantic/src/renf/equal.c
index 24edd06..3981821 100644
--- a/libeantic/src/renf/equal.c
+++ b/libeantic/src/renf/equal.c
@@ -21,5 +21,28 @@ int nf_equal(const nf_t nf1, const nf_t nf2)
 
 int renf_equal(const renf_t nf1, const renf_t nf2)
 {
-    return nf_equal(nf1->nf, nf2->nf) && arb_overlaps(nf1->emb, nf2->emb);
+    renf_t nf;
+    slong prec;
+    int equal;
+
+    if (!nf_equal(nf1->nf, nf2->nf) || !arb_overlaps(nf1->emb, nf2->emb))
+        return 0;
+
+    /* Both enclosures contain exactly one root. It is the same if one of them */
+    /* is contained in the other but it might differ if they merely overlap.   */
+    if ((nf1->nf->flag & NF_LINEAR) || arb_contains(nf1->emb, nf2->emb) || arb_contains(nf2->emb, nf1->emb))
+        return 1;
+
+    renf_init_set(nf, nf2);
+    prec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
+    do
+    {
+        prec *= 2;
+        renf_refine_embedding(nf, prec);
+        equal = arb_contains(nf1->emb, nf->emb);
+    }
+    while (!equal && arb_overlaps(nf1->emb, nf->emb));
+    renf_clear(nf);
+
+    return equal;
 }
-- 
2.43.0


From 21c5b70b54fe2a5bef5e987e8db5c36a1595dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:30 +0000
Subject: [PATCH 28/34] fix: print the embedding of a field with all its digits
 in construction()

arb_get_str() without ARB_STR_MORE drops the digits that are not certain and
enlarges the radius accordingly. The enlarged ball could contain another root
so that the field could not be reconstructed.
---
 libeantic/srcxx/renf_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 350bd1e..38eaa4d 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -234,7 +234,7 @@ std::tuple<std::string, std::string, std::string, slong> renf_class::constructio
   if (!arb_is_exact(renf_t()->emb))
     digits = std::max(digits, arb_rel_accuracy_bits(renf_t()->emb));
 
-  char * emb = arb_get_str(renf_t()->emb, digits, 0);
+  char * emb = arb_get_str(renf_t()->emb, digits, ARB_STR_MORE);
   char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
 
   const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
-- 
2.43.0


From bb849b1d307fc2a3d222978533c84c92f0d922b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:23 +0000
Subject: [PATCH 29/34] fix: real roots missed because their upper bound was
 too small

The bound on positive roots balanced coefficients against coefficients of the
same sign and against zero coefficients. The isolation of real roots then did
not see roots beyond the bound, e.g., x^5 + x^4 - x^3 + x^2 - 2*x + 1 had no
real root.
---
 libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
index 71168f8..2e575fb 100644
--- a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
@@ -50,6 +50,9 @@ slong _fmpz_poly_positive_root_upper_bound_2exp_local_max(const fmpz * pol, slon
         bmin = WORD_MAX;
         for (j = i + 1; j < len; j++)
         {
+            /* only coefficients with the sign of the leading one can make up for p_i */
+            if (fmpz_sgn(pol + j) != sgn) continue;
+
             /* compare the current bound with the log (in base 2) of */
             /* (- 2^coeffs[j] * p_i / p_j) ^ (1 / (j - i))           */
             /* which equals                                          */
-- 
2.43.0


From 9459baba8653e645eea7004b412fbd966c832a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:23 +0000
Subject: [PATCH 30/34] fix: random fields of degree one

renf_randtest aborted when the random polynomial was linear and its root was
found exactly.
---
 libeantic/src/renf/randtest.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libeantic/src/renf/randtest.c b/libeantic/src/renf/randtest.c
index 12e1aa4..5a3147c 100644
--- a/libeantic/src/renf/randtest.c
+++ b/libeantic/src/renf/randtest.c
@@ -67,19 +67,24 @@ void renf_randtest(renf_t nf, flint_rand_t state, slong len, slong prec, mp_bitc
     fmpz_poly_isolate_real_roots(NULL, &n_exact,
             c_array, k_array, &n_interval, p);
 
+    arb_init(emb);
+
     if (n_interval == 0)
     {
-        fprintf(stderr, "Runtime error\n");
-        abort();
+        /* p is irreducible, so its root can only be found exactly when p is linear */
+        assert(n_exact == 1 && p->length == 2);
+        arb_fmpz_div_fmpz(emb, p->coeffs, p->coeffs + 1, prec);
+        arb_neg(emb, emb);
     }
+    else
+    {
+        assert(n_interval >= 0);
+        i = n_randint(state, (ulong)n_interval);
 
-    assert(n_interval >= 0);
-    i = n_randint(state, (ulong)n_interval);
+        arb_from_interval(emb, c_array + i, k_array[i], (slong)(fmpz_bits(c_array + i) + (ulong)FLINT_MAX(k_array[i], 0) + 2));
+    }
 
     /* construct the associated number field */
-    arb_init(emb);
-    arb_from_interval(emb, c_array + i, k_array[i], (slong)(fmpz_bits(c_array + i) + (ulong)FLINT_MAX(k_array[i], 0) + 2));
-
     fmpq_poly_init(p2);
     fmpq_poly_set_fmpz_poly(p2, p);
 
-- 
2.43.0


From 92540e039a76a15c3ea31f95a510a84ebd17a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:23 +0000
Subject: [PATCH 31/34] fix: fmpz_poly_set_str_pretty kept coefficients of the
 previous value

---
 libeantic/src/fmpz_poly_extra/set_str_pretty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/src/fmpz_poly_extra/set_str_pretty.c b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
index 5567284..c7cce9b 100644
--- a/libeantic/src/fmpz_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
@@ -33,6 +33,7 @@ int fmpz_poly_set_str_pretty(fmpz_poly_t p, const char * s, const char * var)
         return -1;
     }
 
+    fmpz_poly_zero(p);
     for (long i = fmpq_poly_length(q) - 1; i >= 0; i--)
     {
         fmpz_poly_set_coeff_fmpz(p, i, fmpq_poly_numref(q) + i);
-- 
2.43.0


From aee8aa0b86bff27772fff1ae68ee8f322e1b1f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:13 +0000
Subject: [PATCH 32/34] fix: reject floor division between different number
 fields

floordiv() of two irrational elements in different fields interpreted the
divisor as an element of the field of the dividend which gave wrong results
and accessed memory out of bounds.
---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 2b17235..9f3d2de 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -952,6 +952,7 @@ mpz_class renf_elem_class::floordiv(const renf_elem_class& rhs) const
             return (*this / rhs).floor();
         if (this->is_rational())
             return renf_elem_class(rhs.parent(), static_cast<mpq_class>(*this)).floordiv(rhs);
+        throw std::logic_error("not implemented: floor division of renf_elem_class from different number fields");
     }
 
     mpz_class ret;
-- 
2.43.0


From 918be468230756d99ef369b0eda92115ccb51538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:23 +0000
Subject: [PATCH 33/34] fix: the construction of a field could describe a ball
 with another root just outside of the embedding

---
 libeantic/srcxx/renf_class.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 38eaa4d..52a15ca 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -11,6 +11,7 @@
 */
 
 #include <algorithm>
+#include <cstring>
 #include <iostream>
 #include <atomic>
 #include <memory>
@@ -235,6 +236,34 @@ std::tuple<std::string, std::string, std::string, slong> renf_class::constructio
     digits = std::max(digits, arb_rel_accuracy_bits(renf_t()->emb));
 
   char * emb = arb_get_str(renf_t()->emb, digits, ARB_STR_MORE);
+
+  // The radius is always rounded up, so there might still be another root
+  // just outside of the actual ball. In that case, we print a smaller ball.
+  arb_t ball;
+  arb_init(ball);
+  arb_set_str(ball, emb, std::max(renf_t()->prec, 4 * static_cast<slong>(std::strlen(emb))));
+
+  if (!fmpq_poly_check_unique_real_root(renf_t()->nf->pol, ball, renf_t()->prec))
+  {
+    ::renf_t refined;
+    renf_init_set(refined, renf_t());
+
+    do
+    {
+      digits *= 2;
+      renf_refine_embedding(refined, digits);
+
+      flint_free(emb);
+      emb = arb_get_str(refined->emb, digits, ARB_STR_MORE);
+      arb_set_str(ball, emb, std::max(renf_t()->prec, 4 * static_cast<slong>(std::strlen(emb))));
+    }
+    while (!fmpq_poly_check_unique_real_root(renf_t()->nf->pol, ball, renf_t()->prec));
+
+    renf_clear(refined);
+  }
+
+  arb_clear(ball);
+
   char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
 
   const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
-- 
2.43.0


From 2e07a1ad060c036a515008091332155c3547b2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 34/34] fix: abort in floor and ceil when the enclosure of an
 element is extremely large

---
 libeantic/src/renf_elem/rounding_template.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index bba9720..1a496e6 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -63,14 +63,15 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
         return;
     }
 
-    /* ensure that the encolsure is not infinite */
-    if (arf_is_inf(arb_midref(b->emb)) || mag_is_inf(arb_radref(b->emb)))
+    /* ensure that the enclosure is not infinite (or so large that the
+       size of its endpoints does not fit into a slong) */
+    if (arf_is_inf(arb_midref(b->emb)) || mag_cmp_2exp_si(arb_radref(b->emb), COEFF_MAX) > 0)
     {
         renf_elem_relative_condition_number_2exp(&cond, b, nf);
         prec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
         renf_elem_set_evaluation(b, nf, prec + cond);
 
-        while (arf_is_inf(arb_midref(b->emb)) || mag_is_inf(arb_radref(b->emb)))
+        while (arf_is_inf(arb_midref(b->emb)) || mag_cmp_2exp_si(arb_radref(b->emb), COEFF_MAX) > 0)
         {
             prec *= 2;
             renf_refine_embedding(nf, prec);
-- 
2.43.0

