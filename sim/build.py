#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree.

guest objects: the library's own sources (listed in its Makefile.am) and the worlds, compiled with gcc's thread sanitizer
instrumentation but linked against our own runtime (rt.cpp); calls into libc, pthread, FLINT and GMP are redirected with objcopy.
host objects: runtime, reference model, runner.
"""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EANTIC_REPO", "/repo")
OUT = os.environ.get("EANTIC_BUILD", os.path.join(V, "build"))
S = os.path.join(V, "sim")
WORLDS = {"simT": ["world_t.cpp"], "simSeq": ["world_seq.cpp", "world_ops.cpp", "world_fields.cpp", "world_io.cpp"]}
LIBDIR = "/usr/lib/x86_64-linux-gnu"

class BuildError(Exception): pass

def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stderr[-6000:])
    return r.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def headers(dirs, exts):
    m = []
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts): m.append(f.encode() + b"\0" + rd(os.path.join(r, f)))
    return h(*m) if m else "none"

def listed(makefile, exts, base):
    t = open(makefile).read()
    return [os.path.join(base, x) for x in sorted(set(re.findall(r"[A-Za-z0-9_/]+\.(?:%s)\b" % exts, t))) if os.path.exists(os.path.join(base, x))]

def write_if_changed(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        with open(p + ".tmp%d" % os.getpid(), "w") as f: f.write(s)
        os.replace(p + ".tmp%d" % os.getpid(), p)

def exported():
    fn = {}
    for lib in ("libflint.so", "libgmp.so"):
        for l in sh(["nm", "-D", "--defined-only", os.path.join(LIBDIR, lib)]).split("\n"):
            p = l.split()
            if len(p) == 3 and p[1] in "TWi": fn[p[2].split("@")[0]] = lib
    return fn

STR = "St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
STR_W = "_M_dispose _M_mutate _M_replace _M_replace_aux _M_append _M_assign _M_erase assign append insert erase replace push_back pop_back resize reserve clear swap shrink_to_fit aS pL _M_set_length _M_destroy".split()
def std_spec(sym):
    """memory that functions of the C++ standard library read and write through their arguments, for the few classes whose members live in the shared library"""
    m = re.match(r"_ZN(K?)%s(.*)" % STR, sym)
    if m:
        r = m.group(2); k = re.match(r"(\d+)(.*)", r)
        name = k.group(2)[:int(k.group(1))] if k else r[:2]; rest = k.group(2)[int(k.group(1)):] if k else r[2:]
        src = rest in ("ERKS4_", "IERKS4_", "EOS4_")
        if m.group(1): return [0, 8] if name == "substr" else [8, 8 if src else 0]
        if name in ("D1", "D2"): return [8 | 64]
        if name in ("C1", "C2"): return [0, 8] if src else None
        if name in STR_W: return [8 | 64, (8 | 64 if name == "swap" else 8) if src or name == "swap" else 0]
        return None
    if re.match(r"_ZNS[oi]|_ZNSt9basic_iosIcSt11char_traitsIcEE|_ZSt(16__ostream_insert|ls|rs|7getline|2ws)I.*RSt13basic_[io]stream", sym) or re.match(r"_ZSt16__ostream_insertIc", sym):
        if re.match(r"_ZNS[oi](C[12]|D[012])|_ZNSt9basic_iosIcSt11char_traitsIcEE(C[12]|D[012])", sym): return None
        return [2 | 64]
    return None

def gen_headers(gen, L, libdir="/nonexistent"):
    """local.h and config.generated.h as configure would write them"""
    write_if_changed(gen + "/local.h", open(L + "/e-antic/local.h.in").read().replace("@libdir@", libdir))
    write_if_changed(gen + "/config.generated.h", "#define HAVE_DLFCN_H 1\n")

def sut_sources(L):
    csrc = listed(L + "/src/Makefile.am", "c", L + "/src"); cxx = listed(L + "/srcxx/Makefile.am", "cpp", L + "/srcxx")
    if len(csrc) < 50 or not cxx: raise BuildError("cannot find the library's sources")
    return csrc, cxx

def build(target, verbose=False):
    gen = OUT + "/gen"; obj = OUT + "/obj"; os.makedirs(gen, exist_ok=True); os.makedirs(obj, exist_ok=True)
    L = REPO + "/libeantic"
    gen_headers(gen, L)
    csrc, cxx = sut_sources(L)
    hh = headers([L + "/e-antic", L + "/src", L + "/srcxx", gen], (".h", ".hpp", ".in")); sh_h = headers([S], (".h",))
    gflags = ["-fsanitize=thread", "-fexceptions", "-fno-omit-frame-pointer", "-fno-pie", "-fno-builtin-memcmp", "-w"]
    inc = ["-I" + gen, "-I" + L]
    jobs = []   # (kind, output, command, key)
    guests = []
    def job(src, flags, cc, tag, hdr):
        # the same source must give the same object wherever /repo is: the path is not part of the key
        k = h(cc, *flags, rd(src), hdr, os.path.basename(src))
        o = "%s/%s-%s-%s.o" % (obj, tag, os.path.basename(src).replace(".", "_"), k)
        jobs.append((o, [cc] + flags + ["-c", src])); return o
    for c in csrc: guests.append(job(c, ["-O1", "-std=gnu11", "-DBUILD_LIBEANTIC"] + gflags + inc, "gcc", "g", hh + os.path.relpath(c, L)))
    for c in cxx: guests.append(job(c, ["-O1", "-std=c++17", "-DBUILD_LIBEANTIC"] + gflags + inc, "g++", "g", hh))
    for c in WORLDS[target]: guests.append(job(S + "/" + c, ["-O1", "-std=c++17", "-I" + S] + gflags + inc, "g++", "w", hh + sh_h))
    hosts = [job(S + "/" + c, ["-O2", "-std=c++17", "-fno-pie", "-w"], "g++", "h", sh_h) for c in ("rt.cpp", "model.cpp", "main.cpp")]
    todo = [j for j in jobs if not os.path.exists(j[0])]
    todo.sort(key=lambda j: -os.path.getsize(j[1][-1]))
    def run(j):
        o, cmd = j; t = o + ".tmp%d" % os.getpid(); sh(cmd + ["-o", t]); os.replace(t, o)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: list(ex.map(run, todo))
    bk = h(*sorted(guests + hosts), rd(S + "/redefine.txt"), rd(S + "/ext_spec.txt"), rd(os.path.abspath(__file__)))
    exe = "%s/%s-%s" % (OUT, target, bk)
    if os.path.exists(exe): return exe
    # combine the guest objects, redirect calls that leave the guest
    work = OUT + "/link-%s-%d" % (target, os.getpid()); os.makedirs(work, exist_ok=True)
    try:
        sh(["ld", "-r", "-o", work + "/guest.o"] + guests)
        und = set()
        for l in sh(["nm", "-u", work + "/guest.o"]).split("\n"):
            p = l.split()
            if len(p) == 2: und.add(p[1])
        ex = exported(); libc = set(open(S + "/redefine.txt").read().split())
        spec = {}
        for l in open(S + "/ext_spec.txt"):
            p = l.split(); spec[p[0]] = [int(x) for x in p[1:]]
        mp = []; ext = []
        for s in sorted(und):
            if s in libc: mp.append("%s sim_%s" % (s, s))
            elif s in ex: mp.append("%s ext_%s" % (s, s)); ext.append(s)
            elif std_spec(s): mp.append("%s ext_%s" % (s, s)); ext.append(s); spec[s] = [255 - 1] + std_spec(s)
        open(work + "/map", "w").write("\n".join(mp) + "\n")
        sh(["objcopy", "--redefine-syms=" + work + "/map", work + "/guest.o", work + "/guest2.o"])
        a = ["\t.text"]; c = ["#include <stdint.h>"]; tab = []
        for i, s in enumerate(ext):
            a.append("""\t.globl ext_%s
\t.type ext_%s,@function
ext_%s:
\tpush %%rbp
\tmov %%rsp,%%rbp
\tsub $0xc0,%%rsp""" % (s, s, s))
            for k in range(8): a.append("\tmovups %%xmm%d,0x%x(%%rsp)" % (k, 16 * k))
            for k, r in enumerate("rdi rsi rdx rcx r8 r9 rax".split()): a.append("\tmov %%%s,0x%x(%%rsp)" % (r, 0x80 + 8 * k))
            a.append("\tmov $%d,%%edi\n\tlea 0x80(%%rsp),%%rsi\n\tcall rt_ext_enter" % i)
            for k in range(8): a.append("\tmovups 0x%x(%%rsp),%%xmm%d" % (16 * k, k))
            for k, r in enumerate("rdi rsi rdx rcx r8 r9 rax".split()): a.append("\tmov 0x%x(%%rsp),%%%s" % (0x80 + 8 * k, r))
            a.append("\tleave\n\tjmp %s\n\t.size ext_%s,.-ext_%s" % (s, s, s))
            if s in spec:
                v = (spec[s] + [255] * 8)[:8]; c.append("static const uint8_t s%d[]={%s};" % (i, ",".join(map(str, v)))); tab.append("s%d" % i)
            else: tab.append("0")
        a.append('\t.section .note.GNU-stack,"",@progbits')
        c.append("const uint8_t* const rt_ext_spec[]={%s};" % ",".join(tab + ["0"]))
        c.append("const char* const rt_ext_name[]={%s};" % ",".join(['"%s"' % s for s in ext] + ["0"]))
        open(work + "/tramp.s", "w").write("\n".join(a) + "\n"); open(work + "/tab.c", "w").write("\n".join(c) + "\n")
        sh(["gcc", "-c", work + "/tramp.s", "-o", work + "/tramp.o"]); sh(["gcc", "-fno-pie", "-c", work + "/tab.c", "-o", work + "/tab.o"])
        sh(["g++", "-no-pie", "-rdynamic", "-Wl,-z,now", "-o", exe + ".tmp%d" % os.getpid(), work + "/guest2.o", work + "/tramp.o", work + "/tab.o"] + hosts + ["-lflint", "-lgmpxx", "-lgmp", "-lpthread", "-ldl"])
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    finally:
        for f in os.listdir(work): os.unlink(work + "/" + f)
        os.rmdir(work)
    return exe

if __name__ == "__main__":
    for t in sys.argv[1:] or ["simT", "simSeq"]:
        try: print(build(t))
        except BuildError as e: print(e, file=sys.stderr); sys.exit(2)
