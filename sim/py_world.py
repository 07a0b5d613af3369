#!/usr/bin/env python3
"""World P: Python clients of pyeantic under a seeded scheduler (see DESIGN.md). Started by check_py.py, which sets up the
environment (own build of the library, poisoned freed memory, fixed hash seed). One run is a script of epochs; every epoch runs
in a process forked from a pristine interpreter in which no number field exists, so a new epoch is a restart in which only
pickled bytes survive. Inside an epoch 1-3 client threads run; exactly one runs at a time, and control is handed over, and the
garbage collector is run, only at the points listed in the script (lines of pyeantic/cppyythonizations code and operation ends).
"""
import sys, os, gc, json, time, random, hashlib, signal, threading, select, pickle, copy
from fractions import Fraction as Q

# ---- reference model ---------------------------------------------------------------------------------------------------------
class Field:
    def __init__(self, poly, name, lo, hi):     # ascending integer coefficients, isolating interval
        self.poly, self.name, self.lo, self.hi = [Q(c) for c in poly], name, Q(lo), Q(hi); self.deg = len(poly) - 1; self.m, self.r = float(self.lo + self.hi) / 2, float(self.hi - self.lo) / 2
    def ev(self, p, x):
        r = Q(0)
        for c in reversed(p): r = r * x + c
        return r
    def text(self): return " + ".join("%d*%s^%d" % (c, self.name, i) if i else "%d" % c for i, c in enumerate(self.poly) if c).replace("+ -", "- ")
    def ball(self, k):
        return ("[%s +/- %s]" if k % 3 == 0 else "%s +/- %s") % (self.m, self.r)
    def halve(self):
        m = (self.lo + self.hi) / 2
        if self.deg == 1: self.lo = self.hi = -self.poly[0] / self.poly[1]; return
        if (self.ev(self.poly, m) > 0) == (self.ev(self.poly, self.lo) > 0): self.lo = m
        else: self.hi = m
    def red(self, v):
        v = list(v)
        while len(v) > self.deg:
            c = v.pop() / self.poly[-1]
            for i in range(self.deg): v[len(v) - self.deg + i] -= c * self.poly[i]
        return tuple(v + [Q(0)] * (self.deg - len(v)))
    def mul(self, a, b):
        r = [Q(0)] * (2 * self.deg - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b): r[i + j] += x * y
        return self.red(r)
    def inv(self, a):
        n = self.deg; cols = []; e = tuple([Q(1)] + [Q(0)] * (n - 1)); x = self.red([Q(0), Q(1)]) if n > 1 else None
        p = a
        for i in range(n): cols.append(p); p = self.mul(p, x) if n > 1 else p
        m = [[cols[j][i] for j in range(n)] + [e[i]] for i in range(n)]
        for i in range(n):
            k = next(k for k in range(i, n) if m[k][i]); m[i], m[k] = m[k], m[i]
            d = m[i][i]; m[i] = [y / d for y in m[i]]
            for k in range(n):
                if k != i and m[k][i]: f = m[k][i]; m[k] = [y - f * z for y, z in zip(m[k], m[i])]
        return tuple(r[n] for r in m)
    def sgn(self, v):
        if not any(v): return 0
        if not any(v[1:]): return 1 if v[0] > 0 else -1
        for _ in range(4000):
            a, b = Q(0), Q(0)
            for c in reversed(v):
                ps = [a * self.lo, a * self.hi, b * self.lo, b * self.hi]; a, b = min(ps) + c, max(ps) + c
            if a > 0: return 1
            if b < 0: return -1
            self.halve()
        raise AssertionError("undecidable")

FIELDS = [
 Field([-1, 1], "a", 0, 2),                     # the rationals, as in renf_elem(5)
 Field([-2, 0, 1], "x", 1, 2), Field([-2, 0, 1], "x", -2, -1), Field([-2, 0, 1], "y", 1, 2), Field([-3, 0, 1], "x", 1, 2),
 Field([-2, 0, 0, 1], "x", 1, 2), Field([-1, -3, 0, 1], "x", 1, 2), Field([-1, -3, 0, 1], "x", -1, 0), Field([2, 0, -4, 0, 1], "t", "0.5", 1),
 Field([5, 0, -5, 0, 1], "x", -2, "-1.5"), Field([-1, -1, 0, 0, 0, 1], "b", 1, "1.25"), Field([3, -7], "q", 0, 1),
]
OPS = ["mk", "gen", "zero", "one", "num", "text", "vec", "copy", "bin", "bini", "ibin", "neg", "pow", "cmp", "cmpi", "parent", "repr", "hash",
       "drop", "drop", "cycle", "fin", "dumps", "loads", "loads", "deep", "torn", "badfield", "badelem", "audit", "dropall", "dropfields", "num0", "round", "batch"]

# ---- scripts -----------------------------------------------------------------------------------------------------------------
def generate(seed, index):
    r = random.Random(seed * 1000003 + index)
    sel = r.sample(range(1, len(FIELDS)), r.choice([1, 2, 2, 3, 4]))
    w = [r.choice([0.2, 1, 1, 3]) for _ in OPS]
    ep = []
    for e in range(r.choice([1, 1, 2, 2, 3])):
        nc = r.choice([1, 1, 1, 2, 2, 3]); total = r.randrange(6, 40)
        cl = [[] for _ in range(nc)]
        if e == 0: cl[0].append(["mk", 0, 0, 0, 0])
        elif r.random() < .9: cl[0].append(["loads", 0, 0, 0, 0])
        for _ in range(total): cl[r.randrange(nc)].append([r.choices(OPS, w)[0]] + [r.randrange(1 << 16) for _ in range(4)])
        if r.random() < .9: cl[-1].append(["dumps"] + [r.randrange(1 << 16) for _ in range(4)])
        horizon = r.choice([60, 200, 600])
        sched = sorted([r.randrange(horizon), r.randrange(nc)] for _ in range(r.choice([0, 2, 6, 20, 60]) if nc > 1 else 0))
        gcs = sorted(r.randrange(horizon) for _ in range(r.choice([0, 1, 4, 16, 40])))
        ep.append({"clients": cl, "sched": sched, "gcs": gcs})
    return {"fields": sel, "epochs": ep, "seed": seed, "index": index}

# ---- execution (inside a forked child) ---------------------------------------------------------------------------------------
class Violation(Exception):
    def __init__(self, kind, msg): self.kind, self.msg = kind, msg

class Sim:
    def __init__(self, script, epoch, store, trace):
        import cppyy; self.cppyy = cppyy
        from pyeantic import eantic; self.ea = eantic
        self.fields = script["fields"]; self.ep = script["epochs"][epoch]; self.store = store; self.trace = trace
        self.pool = []; self.log = []; self.cnt = {}; self.n = 0; self.viol = None; self.order = hashlib.md5(); self.states = set()
        self.sched = {n: c for n, c in self.ep["sched"]}; self.gcs = set(self.ep["gcs"]); self.busy = 0; self.known = {}
    def count(self, k, n=1): self.cnt[k] = self.cnt.get(k, 0) + n

    # scheduling
    def tracer(self, frame, event, arg):
        f = frame.f_code.co_filename
        if "pyeantic" in f or "cppyythonizations" in f: return self.liner
        return None
    def liner(self, frame, event, arg):
        if event == "line": self.point()
        return self.liner
    def point(self):
        self.n += 1; me = self.cur
        self.count("steps")
        if self.n in self.gcs: self.count("garbage_collection"); gc.collect()
        c = self.sched.get(self.n)
        if c is not None and c != me and c < len(self.sem) and not self.done[c]: self.count("preemption"); self.switch(c)
    def switch(self, c):
        me = self.cur; self.cur = c; self.order.update(b"%d:%d " % (self.n, c)); self.sem[c].release(); self.sem[me].acquire()
    def client(self, c):
        self.sem[c].acquire()
        try:
            for i, op in enumerate(self.ep["clients"][c]):
                if self.viol: break
                try:
                    sys.settrace(self.tracer)
                    try: out = self.op(op)
                    finally: sys.settrace(None)
                    self.count("operations"); self.log.append("%d %s -> %s" % (c, " ".join(map(str, op)), out))
                    self.order.update(op[0].encode())
                    self.states.add(hashlib.md5(("%s|%s|%d" % (op[0], out[:24], len(self.sem))).encode()).hexdigest()[:12])
                except Violation as v: self.viol = self.viol or (v.kind, v.msg); self.log.append("%d %s -> VIOLATION %s" % (c, " ".join(map(str, op)), v.msg))
                except Exception as e:
                    self.viol = self.viol or ("exception", "%s raised %s: %s" % (op[0], type(e).__name__, str(e)[:300])); self.log.append("%d %s -> %s" % (c, op[0], self.viol[1]))
                out = None; self.point()
        finally:
            self.done[c] = True
            nxt = [k for k in range(len(self.done)) if not self.done[k]]
            if nxt: self.cur = nxt[0]; self.sem[nxt[0]].release()
            else: self.fin.release()
    def run(self):
        n = len(self.ep["clients"]); self.sem = [threading.Semaphore(0) for _ in range(n)]; self.done = [False] * n; self.fin = threading.Semaphore(0); self.cur = 0
        ts = [threading.Thread(target=self.client, args=(c,)) for c in range(n)]
        for t in ts: t.start()
        self.sem[0].release(); self.fin.acquire()
        for t in ts: t.join()
        ts = None
        if not self.viol:
            try: self.audit(); gc.collect(); self.audit()
            except Violation as v: self.viol = (v.kind, v.msg)
            except Exception as e: self.viol = ("exception", "final audit raised %s: %s" % (type(e).__name__, str(e)[:300]))

    # objects: entries are (kind, object, field index, value)
    def read(self, x):
        nv = [int(str(v)) for v in x.num_vector()]; d = int(str(x.den())); v = [Q(c, d) for c in nv]
        return v
    def addr(self, K): return self.cppyy.addressof(K)
    def verify(self, e, what):
        kind, x, f, v = e; F = FIELDS[f]; self.count("checks")
        if kind == "F":
            if x.degree() != F.deg or str(x.gen_name()) != F.name: raise Violation("wrong-field", "%s: the field %s in %s shows as degree %d in %s" % (what, F.text(), F.name, x.degree(), x.gen_name()))
            return self.addr(x)
        got = self.read(x); got = tuple(got + [Q(0)] * (F.deg - len(got)))
        if got != v: raise Violation("wrong-value", "%s: element of %s is %s but should be %s" % (what, F.text(), list(map(str, got)), list(map(str, v))))
        p = x.parent()
        if p.degree() != F.deg or str(p.gen_name()) != F.name: raise Violation("wrong-parent", "%s: parent of an element of %s shows as degree %d in %s" % (what, F.text(), p.degree(), p.gen_name()))
        return self.addr(p)
    def audit(self):
        where = {}
        pool = list(self.pool)
        for e in pool:
            a = self.verify(e, "audit"); f = e[2]
            if where.setdefault(f, a) != a: raise Violation("field-not-shared", "two live objects over %s have different field objects" % FIELDS[f].text())
        if len(set(where.values())) != len(where): raise Violation("field-shared", "objects over different fields share one field object")
        for f in where:   # the field really is the one described
            o = next(e for e in pool if e[2] == f); K = o[1] if o[0] == "F" else o[1].parent()
            g = K.gen(); d = float(g)
            if not (abs(d - FIELDS[f].m) <= FIELDS[f].r + 1e-9): raise Violation("wrong-root", "generator of %s is %r" % (FIELDS[f].text(), d))
            self.verify(("E", g, f, FIELDS[f].red([Q(0), Q(1)])), "generator")
    def add(self, e, what):
        self.verify(e, what); self.pool.append(e)
        if len(self.pool) > 24: del self.pool[0]
    def pick(self, k, kinds="EF", f=None):
        c = [e for e in self.pool if e[0] in kinds and (f is None or e[2] in f)]
        return c[k % len(c)] if c else None
    def alive(self, f): return next((e for e in self.pool if e[2] == f), None)
    def same(self, K, f, live, what):
        if live is not None and self.addr(K) != self.addr(live[1] if live[0] == "F" else live[1].parent()): raise Violation("field-not-shared", "%s: a second object for the live field %s" % (what, FIELDS[f].text()))
    def small(self, k): return (k % 4001) - 2000 if k % 3 else (k % 13) - 6
    def make(self, f, k):
        F = FIELDS[f]; args = [F.text(), F.name, F.ball(k)]
        if k & 8: args.append([32, 64, 128, 300][(k >> 4) % 4])
        return self.ea.renf(*args)

    def op(self, op):
        o, a, b, c, d = (op + [0] * 5)[:5]; ea = self.ea
        if o == "dropall" and a % 4: o = "drop"
        if o in ("gen", "zero", "one", "num", "text", "vec", "batch", "badelem") and not self.pick(0, "F"): self.op(["mk", a, b])
        if o in ("copy", "neg", "pow", "repr", "hash", "parent", "round", "bini", "cmpi", "bin", "ibin", "cmp", "dumps", "deep") and not self.pick(0, "E"): self.op(["text", a, b, c])
        if o == "mk":
            f = self.fields[a % len(self.fields)]; live = self.alive(f); K = self.make(f, b); self.same(K, f, live, "make"); self.add(("F", K, f, None), "make"); return "field %d" % f
        if o in ("gen", "zero", "one", "num", "text", "vec", "batch"):
            e = self.pick(a, "F")
            if e is None: return "skip"
            K, f = e[1], e[2]; F = FIELDS[f]
            if o == "gen": x, v = K.gen(), F.red([Q(0), Q(1)])
            elif o == "zero": x, v = K.zero(), F.red([])
            elif o == "one": x, v = K.one(), F.red([Q(1)])
            elif o == "num":
                n = [self.small(b), self.small(b) << 40, self.small(b) << 70][c % 3]; v = F.red([Q(n)])
                if d % 4 == 0 and b % 7: n = self.cppyy.gbl.mpq_class(self.small(b), b % 7); v = F.red([Q(self.small(b), b % 7)]); n.canonicalize()
                x = ea.renf_elem(K, n)
            elif o == "text":
                cs = [self.small(b + 7 * i) for i in range(F.deg)]; den = 1 + c % 5
                x = ea.renf_elem(K, " + ".join("%d/%d*%s^%d" % (q, den, F.name, i) for i, q in enumerate(cs))); v = F.red([Q(q, den) for q in cs])
            elif o == "vec": cs = [self.small(b + 5 * i) for i in range(F.deg)]; x = ea.renf_elem(K, cs); v = F.red([Q(q) for q in cs])
            else:
                xs = [K.gen() * i + K.one() for i in range(1, 2 + b % 4)]; v = [F.red([Q(1), Q(i)]) for i in range(1, 2 + b % 4)]
                if F.deg == 1: v = [F.red([Q(1), Q(i)]) for i in range(1, 2 + b % 4)]
                for x, q in zip(xs, v): self.add(("E", x, f, q), o)
                return "batch"
            self.add(("E", x, f, v), o); return "elem of %d" % f
        if o == "num0": n = self.small(a); self.add(("E", ea.renf_elem(n), 0, (Q(n),)), o); return "rational"
        if o in ("copy", "neg", "pow", "repr", "hash", "parent", "round", "bini", "cmpi"):
            e = self.pick(a, "E")
            if e is None: return "skip"
            x, f, v = e[1:]; F = FIELDS[f]
            if o == "copy": self.add(("E", ea.renf_elem(x), f, v), o)
            elif o == "neg": self.add(("E", -x, f, tuple(-q for q in v)), o)
            elif o == "pow":
                n = b % 7 - (3 if any(v) else 0); q = F.red([Q(1)]); w = v if n >= 0 else F.inv(v)
                for _ in range(abs(n)): q = F.mul(q, w)
                if max(abs(t.numerator).bit_length() + t.denominator.bit_length() for t in q) > 1500: return "skip"
                self.add(("E", x ** n, f, q), o)
            elif o == "repr": s = repr(x); str(x.parent()); return "shown"
            elif o == "hash":
                y = (x + 3) - 3; self.count("checks")
                if not (y == x) or hash(y) != hash(x): raise Violation("hash", "equal elements with different hash or unequal: %s" % repr(x))
            elif o == "round":
                z = x.floor(); lo = int(str(z)); s = F.sgn(tuple([v[0] - lo] + list(v[1:]))); t = F.sgn(tuple([v[0] - lo - 1] + list(v[1:]))); self.count("checks")
                if s < 0 or t >= 0: raise Violation("wrong-floor", "floor of %s is %d" % (repr(x), lo))
            elif o == "parent":
                K = x.parent(); e = x = None; self.add(("F", K, f, None), o)
            elif o == "bini":
                n = q = self.small(b); k = c % 8
                if d % 4 == 0: q = Q(self.small(b), 1 + d % 5); n = self.cppyy.gbl.mpq_class(q.numerator, q.denominator); k = [0, 2, 4, 5][c % 4]
                elif d % 4 == 1: n = self.cppyy.gbl.mpz_class(q); k = [0, 2, 4, 5][c % 4]
                elif d % 16 == 2: n = q = 0
                if k == 6 and not any(v) or k == 5 and not q: return "skip"
                y = [lambda: x + n, lambda: n + x, lambda: x - n, lambda: n - x, lambda: x * n, lambda: x / n, lambda: n / x, lambda: n * x][k]()
                m = F.red([Q(q)]); w = [lambda: tuple(s + t for s, t in zip(v, m))] * 2 + [lambda: tuple(s - t for s, t in zip(v, m)), lambda: tuple(t - s for s, t in zip(v, m)), lambda: F.mul(v, m), lambda: tuple(s / q for s in v), lambda: F.mul(m, F.inv(v)), lambda: F.mul(v, m)]
                w = w[k]()
                # n - x and n / x start from the rational n; when x is rational as well, so is the parent of the result
                if k in (3, 6) and not any(v[1:]) and y.parent().degree() == 1: f = 0; w = w[:1]
                self.add(("E", y, f, w), o)
            elif o == "cmpi":
                n = self.small(b) if c % 2 or abs(v[0]) > 10**9 else int(v[0]); s = F.sgn(tuple([v[0] - n] + list(v[1:]))); self.count("checks")
                if [x < n, x <= n, x == n, x != n, x >= n, x > n] != [s < 0, s <= 0, s == 0, s != 0, s >= 0, s > 0]: raise Violation("wrong-order", "comparison of %s with %d" % (repr(x), n))
            return "elem of %d" % f
        if o in ("bin", "ibin", "cmp"):
            e = self.pick(a, "E")
            if e is None: return "skip"
            x, f, v = e[1:]; g = self.pick(b, "E", (f, 0) if f else (f,)); y, fy, w = g[1:]
            F = FIELDS[f]; w = F.red([w[0]]) if fy == 0 and f else w
            if o == "cmp":
                s = F.sgn(tuple(p - q for p, q in zip(v, w))); self.count("checks")
                if [x < y, x <= y, x == y, x != y, x >= y, x > y] != [s < 0, s <= 0, s == 0, s != 0, s >= 0, s > 0]: raise Violation("wrong-order", "comparison of %s with %s" % (repr(x), repr(y)))
                return "order %d" % s
            k = c % 4
            if k == 3 and not any(w): return "skip"
            r = [lambda: tuple(p + q for p, q in zip(v, w)), lambda: tuple(p - q for p, q in zip(v, w)), lambda: F.mul(v, w), lambda: F.mul(v, F.inv(w))][k]()
            if max(t.numerator.bit_length() + t.denominator.bit_length() for t in r) > 1500: return "skip"
            if o == "ibin":
                z = ea.renf_elem(x)
                if k == 0: z += y
                elif k == 1: z -= y
                elif k == 2: z *= y
                else: z /= y
                self.verify(e, "other operand"); self.verify(g, "other operand")
            else: z = [lambda: x + y, lambda: x - y, lambda: x * y, lambda: x / y][k]()
            self.add(("E", z, f, r), o); return "elem of %d" % f
        if o == "drop":
            if not self.pool: return "skip"
            e = self.pool.pop(a % len(self.pool)); self.count("adversarial_drop_order"); return "drop %s of %d" % (e[0], e[2])
        if o == "dropall": self.pool[:] = []; return "dropped"
        if o == "dropfields": self.pool[:] = [e for e in self.pool if e[0] != "F"]; return "dropped"
        if o == "cycle":
            if not self.pool: return "skip"
            e = self.pool.pop(a % len(self.pool)); l = [e]; l.append(l); self.count("garbage_cycle"); return "cycle"
        if o == "fin":
            if not self.pool: return "skip"
            e = self.pool.pop(a % len(self.pool)); l = [Finalizer(self, b), e]; l.append(l); self.count("finalizer"); return "finalizer"
        if o == "dumps":
            if not self.pool: return "skip"
            es = [self.pool[(a + i * (1 + b % 3)) % len(self.pool)] for i in range(1 + c % 4)]
            data = pickle.dumps([e[1] for e in es], d % 4 + 2); self.count("pickles"); self.store.append((data, [(e[0], e[2], e[3]) for e in es]))
            for e in es: self.verify(e, "after pickling")
            return "%d objects" % len(es)
        if o == "loads":
            if not self.store: return "skip"
            data, ms = self.store[a % len(self.store)]; lives = [self.alive(m[1]) for m in ms]; xs = pickle.loads(data); self.count("unpickles")
            if len(xs) != len(ms): raise Violation("wrong-pickle", "wrong number of objects")
            at = {}
            for x, m, live in zip(xs, ms, lives):
                ad = self.verify((m[0], x, m[1], m[2]), "unpickled")
                if at.setdefault(m[1], ad) != ad: raise Violation("field-not-shared", "unpickled objects over %s do not share their field" % FIELDS[m[1]].text())
                if live is not None and ad != self.addr(live[1] if live[0] == "F" else live[1].parent()): raise Violation("field-not-shared", "unpickled object over %s does not share the live field" % FIELDS[m[1]].text())
            keep = b % (len(xs) + 1)
            for x, m in list(zip(xs, ms))[keep:]: self.add((m[0], x, m[1], m[2]), "unpickled")
            return "%d objects" % len(xs)
        if o == "deep":
            if not self.pool: return "skip"
            es = [self.pool[(a + i) % len(self.pool)] for i in range(1 + c % 3)]
            xs = copy.deepcopy([e[1] for e in es]) if b % 2 else [copy.copy(e[1]) for e in es]
            for x, e in zip(xs, es):
                if self.verify((e[0], x, e[2], e[3]), "copied") != self.verify(e, "original"): raise Violation("field-not-shared", "copy does not share its field")
                self.add((e[0], x, e[2], e[3]), "copied")
            return "%d objects" % len(es)
        if o == "torn":
            if not self.store: return "skip"
            data, ms = self.store[a % len(self.store)]; cut = b % len(data); self.count("torn_pickle"); self.count("checks")
            try: pickle.loads(data[:cut])
            except Exception: return "refused"
            raise Violation("torn-accepted", "a pickle cut off at byte %d of %d was accepted" % (cut, len(data)))
        if o == "badfield":
            f = self.fields[a % len(self.fields)]; F = FIELDS[f]; self.count("rejected_input"); self.count("checks")
            bad = [(F.text(), F.name, "100 +/- 0.5"), (F.text() + " +", F.name, F.ball(b)), (F.text(), F.name, "nonsense"), (F.text(), F.name + "zz", F.ball(b))]
            if F.deg > 1 and F.poly[1] == 0 and F.poly[0] < 0 and F.deg == 2: bad.append((F.text(), F.name, "0 +/- 10"))
            try: K = self.make_raw(bad[c % len(bad)])
            except Exception: return "refused"
            raise Violation("not-refused", "%r was accepted" % (bad[c % len(bad)],))
        if o == "badelem":
            e = self.pick(a, "F")
            if e is None: return "skip"
            self.count("rejected_input"); self.count("checks"); t = ["%s +", "1/0*%s", "2**%s", "%s^^2", "3 zz"][b % 5]
            try: ea.renf_elem(e[1], t.replace("%s", FIELDS[e[2]].name))
            except Exception: self.verify(e, "after a refused element"); return "refused"
            raise Violation("not-refused", "element %r was accepted" % t)
        if o == "audit": self.audit(); return "ok"
        raise AssertionError(o)
    def make_raw(self, args): return self.ea.renf(*args)

class Finalizer:
    """runs client code from inside the garbage collector"""
    def __init__(self, sim, k): self.sim, self.k = sim, k
    def __del__(self):
        s = self.sim
        if s.viol: return
        try:
            f = s.fields[self.k % len(s.fields)]; live = s.alive(f); K = s.make(f, self.k >> 2); s.same(K, f, live, "finalizer"); s.verify(("F", K, f, None), "finalizer")
            x = K.gen() + 1; K = None; s.verify(("E", x, f, FIELDS[f].red([Q(1), Q(1)])), "finalizer")
            if self.k & 1 and s.pool: del s.pool[self.k % len(s.pool)]
            if self.k & 2: s.pool.append(("E", x, f, FIELDS[f].red([Q(1), Q(1)])))
        except Violation as v: s.viol = s.viol or (v.kind, v.msg)
        except Exception as e: s.viol = s.viol or ("exception", "finalizer: %s: %s" % (type(e).__name__, str(e)[:200]))

def child(script, epoch, store, wfd, trace):
    for s in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE): signal.signal(s, signal.SIG_DFL)
    if not trace:
        n = os.open("/dev/null", os.O_WRONLY); os.dup2(n, 2); os.dup2(n, 1)
    s = Sim(script, epoch, store, trace); s.run()
    out = pickle.dumps({"viol": s.viol, "log": s.log, "cnt": s.cnt, "order": s.order.hexdigest(), "states": list(s.states), "store": s.store if not s.viol else []})
    while out: out = out[os.write(wfd, out):]
    s.pool[:] = []
    if not s.viol: gc.collect()          # every object goes away; nothing may crash
    os.write(wfd, b"END"); os._exit(0)

def execute(script, trace=False, timeout=60):
    """one run: every epoch in its own process forked from this pristine one"""
    store = []; res = {"viol": None, "log": [], "cnt": {}, "order": "", "states": []}
    for ep in range(len(script["epochs"])):
        r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush(); pid = os.fork()
        if pid == 0:
            os.close(r); code = 3
            try: child(script, ep, store, w, trace)
            except BaseException as e: 
                if trace: import traceback; traceback.print_exc()
                os._exit(7)
        os.close(w); buf = b""; end = time.time() + timeout; hang = False
        while True:
            p = select.select([r], [], [], max(0, end - time.time()))[0]
            if not p: hang = True; break
            b = os.read(r, 1 << 16)
            if not b: break
            buf += b
        os.close(r)
        if hang: os.kill(pid, signal.SIGKILL)
        st = os.waitpid(pid, 0)[1]
        done = buf.endswith(b"END")
        try: d = pickle.loads(buf[:-3] if done else buf)
        except Exception: d = None
        if d:
            res["log"] += ["-- epoch %d" % ep] + d["log"]; res["states"] += d["states"]; res["order"] = hashlib.md5((res["order"] + d["order"]).encode()).hexdigest(); store = d["store"]
            for k, v in d["cnt"].items(): res["cnt"][k] = res["cnt"].get(k, 0) + v
            if ep: res["cnt"]["restart"] = res["cnt"].get("restart", 0) + 1
        if hang: res["viol"] = ("hang", "epoch %d did not end" % ep)
        elif d and d["viol"]: res["viol"] = tuple(d["viol"])
        elif not done or st: 
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7: raise RuntimeError("harness failure in epoch %d" % ep)
            res["viol"] = ("crash", "the interpreter died with status %d in epoch %d%s" % (st, ep, "" if d is None else " while dropping everything"))
        if res["viol"]: break
    res["hash"] = hashlib.md5(json.dumps([res["log"], res["viol"]]).encode()).hexdigest()
    return res

def warm():
    """make cppyy compile everything once, then drop all fields and elements; what goes wrong here is left for the runs to report"""
    s = Sim({"fields": [1, 5], "epochs": [{"clients": [[]], "sched": [], "gcs": []}]}, 0, [], False); s.cur = 0; s.sem = []; s.done = []
    def op(x):
        try: s.op(x)
        except Exception: pass
    for o in OPS:
        for k in range(9):
            s.pool[:] = s.pool[:6]; s.fields = [1 + k % 4, 5]
            op(["mk", k % 2, 8 * (k % 2), 0, 0]); op(["gen", k, 0, 0, 0])
            if k == 3: op(["num0", 5, 0, 0, 0])
            if o not in ("cycle", "fin"): op([o, k, k, k, k])
            op(["audit"]); op(["dumps", k, k, k, k]); op(["loads", k, 0, 0, 0])
    s.pool[:] = []; s.store[:] = []; op = s = None; gc.collect()

def minimise(script, kind, budget=120):
    end = time.time() + budget
    def bad(s):
        if time.time() > end: return False
        try: r = execute(s)
        except RuntimeError: return False
        return bool(r["viol"] and r["viol"][0] == kind)
    cur = json.loads(json.dumps(script)); again = True
    while again and time.time() < end:
        again = False
        for k in reversed(range(len(cur["epochs"]))):
            if len(cur["epochs"]) > 1:
                t = json.loads(json.dumps(cur)); del t["epochs"][k]
                if bad(t): cur = t; again = True
        for k in range(len(cur["epochs"])):
            for key in ("sched", "gcs"):
                n = len(cur["epochs"][k][key])
                while n:
                    i = 0
                    while i < len(cur["epochs"][k][key]):
                        t = json.loads(json.dumps(cur)); del t["epochs"][k][key][i:i + n]
                        if bad(t): cur = t; again = True
                        else: i += n
                    n //= 2
            for c in range(len(cur["epochs"][k]["clients"])):
                n = len(cur["epochs"][k]["clients"][c])
                while n:
                    i = 0
                    while i < len(cur["epochs"][k]["clients"][c]):
                        t = json.loads(json.dumps(cur)); del t["epochs"][k]["clients"][c][i:i + n]
                        if bad(t): cur = t; again = True
                        else: i += n
                    n //= 2
    return cur

def main():
    mode = sys.argv[1]; gc.disable(); signal.alarm(150); warm(); signal.alarm(0); gc.collect(); gc.freeze()
    if mode == "search":
        seed, first, step, seconds, minruns, out = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5]), int(sys.argv[6]), sys.argv[7]
        t0 = time.time(); i = first; agg = {"runs": 0, "cnt": {}, "hashes": [], "orders": [], "states": set(), "nontrivial": 0, "viol": None, "samples": []}
        while (time.time() - t0 < seconds or agg["runs"] < minruns) and time.time() - t0 < max(seconds, 240):
            s = generate(seed, i); r = execute(s); agg["runs"] += 1
            for k, v in r["cnt"].items(): agg["cnt"][k] = agg["cnt"].get(k, 0) + v
            if r["cnt"].get("checks"): agg["nontrivial"] += 1
            agg["hashes"].append(r["hash"][:16]); agg["orders"].append(r["order"][:16]); agg["states"] |= set(r["states"])
            if agg["runs"] <= 1: agg["samples"].append({"seed": seed, "run": i, "operations": r["cnt"].get("operations", 0), "first_events": r["log"][:6]})
            if r["viol"]: s["kind"], s["msg"], s["hash"] = r["viol"][0], r["viol"][1], r["hash"]; json.dump(s, open(out + ".viol", "w")); break
            i += step
        agg["states"] = list(agg["states"]); json.dump(agg, open(out, "w"))
    elif mode == "determinism":
        for i in range(int(sys.argv[3])):
            s = generate(int(sys.argv[2]), i); a, b = execute(s), execute(s)
            if a["hash"] != b["hash"]: print("run %d differs" % i); print([x for x in zip(a["log"], b["log"]) if x[0] != x[1]][:3], a["viol"], b["viol"]); sys.exit(1)
    elif mode == "hashes":
        for i in range(int(sys.argv[3])): print(execute(generate(int(sys.argv[2]), i))["hash"])
    elif mode == "minimise":
        s = json.load(open(sys.argv[2])); m = minimise(s, s["kind"]); r = execute(m)
        if not r["viol"]: sys.exit(1)
        m["kind"], m["msg"], m["hash"], m["trace"] = r["viol"][0], r["viol"][1], r["hash"], r["log"][-60:]; m["property"] = "C16"; json.dump(m, open(sys.argv[3], "w"), indent=1)
    elif mode in ("replay", "one"):
        s = json.load(open(sys.argv[2])) if mode == "replay" else generate(int(sys.argv[2]), int(sys.argv[3])); r = execute(s, trace="-v" in sys.argv)
        print("\n".join(r["log"])); print("KIND %s\nMSG %s\nHASH %s" % ((r["viol"] or ("none", "")) + (r["hash"],))); sys.exit(1 if r["viol"] else 0)

main()
