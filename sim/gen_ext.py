#!/usr/bin/env python3
# One-off generator of ext_spec.txt: which memory the FLINT/GMP functions read and write through their pointer
# arguments (from the const-ness in FLINT's and GMP's prototypes). Run by hand; the result is committed.
import json,subprocess,sys,os
hdrs="stdio.h gmp.h flint/flint.h flint/fmpz.h flint/fmpq.h flint/fmpz_vec.h flint/fmpz_poly.h flint/fmpz_poly_factor.h flint/fmpq_poly.h flint/fmpz_mat.h flint/fmpq_mat.h flint/arith.h flint/mag.h flint/arf.h flint/arb.h flint/arb_poly.h flint/arb_fmpz_poly.h flint/nf.h flint/nf_elem.h flint/ulong_extras.h".split()
src="".join("#include <%s>\n"%h for h in hdrs)
open("/tmp/ext_all.c","w").write(src)
ast=json.loads(subprocess.run(["clang","-fsyntax-only","-Xclang","-ast-dump=json","/tmp/ext_all.c"],capture_output=True,check=True).stdout)
fn={}
for d in ast["inner"]:
    if d.get("kind")!="FunctionDecl": continue
    n=d["name"]
    if n in fn or n.startswith("__builtin"): continue
    ps=[(p["type"].get("desugaredQualType") or p["type"]["qualType"]) for p in d.get("inner",[]) if p["kind"]=="ParmVarDecl"]
    # only integer-class register arguments count; give up on functions with floating point or struct arguments
    if any(t in("double","float","long double") for t in ps): ps=[t for t in ps if t not in("double","float","long double")]
    fn[n]=ps
types={}
out=[]
for n,ps in fn.items():
    for t in ps[:6]:
        if t.endswith("*") and "(" not in t and t.count("*")==1:
            b=t[:-1].strip(); types[b]=None
tl=[b for b in types if b.replace("const ","").replace("restrict","").strip() not in("void","FILE","struct _IO_FILE","struct __va_list_tag")]
c=src+"int main(){\n"
def ty(b): return b
for i,b in enumerate(tl):
    c+='printf("%%d %%zu\\n",%d,sizeof(%s));\n'%(i,b)
c+="}"
open("/tmp/ext_sz.c","w").write(c)
subprocess.run(["gcc","-w","-o","/tmp/ext_sz","/tmp/ext_sz.c","-lflint","-lgmp"],check=True)
for l in subprocess.run(["/tmp/ext_sz"],capture_output=True,text=True,check=True).stdout.split("\n"):
    if l: i,s=l.split(); types[tl[int(i)]]=int(s)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"ext_spec.txt"),"w") as f:
    for n in sorted(fn):
        spec=[]
        for t in fn[n][:6]:
            v=0
            if t.endswith("*") and "(" not in t and t.count("*")==1:
                b=t[:-1].strip(); s=types.get(b)
                if s and s>=4 and s<=252: v=(s//4)|(0 if b.startswith("const") else 64)
            spec.append(v)
        if any(spec): f.write(n+" "+" ".join(map(str,spec))+"\n")
