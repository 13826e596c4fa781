#!/usr/bin/env python3
"""spec/ops.json -> C++ table with one call thunk per intrinsic (compiled against /repo's neon_sim.h)."""
import json, sys
ops = json.load(open(sys.argv[1]))
out = open(sys.argv[2], "w")
w = out.write
w('#include "neon_sim.h"\n#include "engine.h"\n')
KK = dict(void="T_VOID", vec="T_VEC", sca="T_SCA", ptr="T_PTR", int="T_INT")
def size(t):
    return {"void":0,"ptr":8,"int":4}.get(t["k"]) if t["k"] in ("void","ptr","int") else (t["bits"]//8 if t["k"]=="sca" else t["bits"]//8*t["lanes"]*t["n"])
def cty(t):
    if t["k"]=="ptr": return ("const " if t["const"] else "")+t["c"]+"*"
    return t.get("c","void")
def ty(t): return "{%s,'%s',%d,%d,%d,%d}" % (KK[t["k"]], t.get("b","-"), t.get("bits",0), t.get("lanes",1 if t["k"]=="sca" else 0), t.get("n",1), size(t))
stems={}
rows=[]
for i,o in enumerate(ops):
    off=0; ex=[]; 
    for a in o["args"]:
        ex.append("*(const %s*)(a+%d)" % (cty(a) if a["k"]!="ptr" else cty(a)+" const", off)); off+=(size(a)+7)//8*8
    sig="%s(*)(%s)" % (cty(o["ret"]), ",".join(cty(a) for a in o["args"]))
    # operands are copied to locals of the declared type first, so that alignment and aliasing are ordinary
    body="".join(" %s x%d; __builtin_memcpy(&x%d,a+%d,sizeof x%d);" % (cty(a),j,j,sum((size(b)+7)//8*8 for b in o["args"][:j]),j) for j,a in enumerate(o["args"]))
    call="((%s)f)(%s)" % (sig, ",".join("x%d"%j for j in range(len(o["args"]))))
    if o["ret"]["k"]=="void": body+=" %s; (void)r;" % call
    else: body+=" %s q=%s; __builtin_memcpy(r,&q,sizeof q);" % (cty(o["ret"]),call)
    w("static void t%d(void*f,void*r,const u8*a){%s }\n" % (i,body))
    for a in o["args"]+[o["ret"]]:
        if a["k"] not in("void",): w("static_assert(sizeof(%s)==%d,\"%s\");\n" % (cty(a),size(a),o["name"]))
    m=o.get("mem"); im=o.get("imm")
    import re
    stem=re.sub(r"q$","",re.sub(r"^v([a-z]+[0-9]?q?).*$",r"\1",o["name"]))
    stem=stems.setdefault(stem,len(stems))
    rows.append('{"%s","%s",t%d,%d,{%s},%s,%s,%d,%d,%d,%s,%d,%d,%d,%d,%d,%d,%d,%d,%d}' % (o["name"],o.get("sym",o["name"]),i,len(o["args"]),",".join(ty(a) for a in o["args"]),ty(o["ret"]),
        {"ld":"M_LD","st":"M_ST"}[m["dir"]] if m else "M_NONE", m["n"] if m else 0, m["lanes"] if m else 0, m["es"] if m else 0,
        {"full":"F_FULL","lane":"F_LANE","dup":"F_DUP"}[m["form"]] if m else "F_FULL", m["fp"] if m else 0,
        im["arg"] if im else -1, im["lo"] if im else 0, im["hi"] if im else 0, 1 if im and im.get("validated") else 0,
        im["tol"][0] if im and im.get("tol") else -1000, o["fp"], off, stem))
w("const OpDesc OPS[]={\n"+",\n".join(rows)+"\n};\nconst int NOPS=%d;\n" % len(ops))
