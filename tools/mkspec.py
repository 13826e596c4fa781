#!/usr/bin/env python3
"""Design-time tool: writes spec/ops.json, the committed API table (name, parameter and return types) of the
intrinsics that are declared in neon_sim.h and defined in the library. The checks read the table, not the header's text."""
import re, subprocess, json, sys
src = subprocess.check_output(["g++", "-E", "-P", "-x", "c++", "/repo/neon_sim.h"], text=True)
subprocess.check_call(["g++","-O0","-c","/repo/neon_sim.cpp","-o","/tmp/_spec.o"])
syms = {l.split()[2] for l in subprocess.check_output(["nm","--defined-only","/tmp/_spec.o"],text=True).splitlines() if len(l.split())==3 and l.split()[1]=="T"}
subprocess.check_call(["rm","-f","/tmp/_spec.o"])
TY = re.compile(r"^(u?int|float)(8|16|32|64)(?:x(\d+))?(?:x(\d))?_t$")
def ty(t):
    t = t.replace("const", " ").strip()
    ptr = t.endswith("*"); t = t.rstrip("* ").strip()
    if t == "void": return dict(k="void")
    if t == "int": return dict(k="int", c="int")
    if t == "float": t = "float32_t"
    if t == "double": t = "float64_t"
    m = TY.match(t); assert m, t
    b = {"int":"s","uint":"u","float":"f"}[m[1]]; bits=int(m[2])
    if ptr: return dict(k="ptr", c=t, b=b, bits=bits)
    if m[3]: return dict(k="vec", c=t, b=b, bits=bits, lanes=int(m[3]), n=int(m[4] or 1))
    return dict(k="sca", c=t, b=b, bits=bits)
ops=[]
seen=set()
for m in re.finditer(r"([A-Za-z_0-9]+)\s+(v[a-z0-9_]+)\s*\(([^()]*)\)\s*;", src):
    r,name,ps=m.groups()
    if name in seen or name not in syms: continue
    seen.add(name)
    args=[]
    for q in ps.split(","):
        q=q.strip(); const="const" in q.split()
        q2=re.sub(r"([A-Za-z_]\w*)$","",q).strip()  # drop the parameter name
        d=ty(q2)
        if d["k"]=="ptr": d["const"]=const
        args.append(d)
    o=dict(name=name, ret=ty(r), args=args)
    # memory form
    mm=re.match(r"^v(ld|st)([1-4])(q?)(?:_(lane|dup))?_([suf])(8|16|32|64)$", name)
    if any(a["k"]=="ptr" for a in args):
        assert mm, name
        vec=[a for a in args if a["k"]=="vec"]+([o["ret"]] if o["ret"]["k"]=="vec" else [])
        n=int(mm[2]); bits=int(mm[6]); lanes=(128 if mm[3] else 64)//bits
        form={"lane":"lane","dup":"dup",None:"full"}[mm[4]]
        assert vec[0]["lanes"]==lanes and vec[0]["n"]==n and vec[0]["bits"]==bits, name
        o["mem"]=dict(dir=mm[1], n=n, lanes=lanes, es=bits//8, form=form, fp=(n*lanes if form=="full" else n)*bits//8)
    ii=[i for i,a in enumerate(args) if a["k"]=="int"]
    if ii:
        assert len(ii)==1
        v=[a for a in args if a["k"]=="vec"][0]
        if "_lane_" in name: lo,hi=0,v["lanes"]-1
        elif name.startswith("vext"): lo,hi=0,v["lanes"]-1
        elif re.match(r"v(q?r?shru?n)_n",name): lo,hi=1,v["bits"]//2
        elif re.match(r"v(r?shr|r?sra)q?_n",name): lo,hi=1,v["bits"]
        elif re.match(r"v(shl|shll)q?_n",name): lo,hi=0,v["bits"]-1
        else: raise SystemExit("range? "+name)
        o["imm"]=dict(arg=ii[0],lo=lo,hi=hi)
    ops.append(o)
# Intrinsics that validate their immediate (found by probing the tree this framework was written for);
# "tol": values outside the architectural range whose acceptance is tolerated (see C09).
VALID = """vld2_lane_u8 vld3_lane_u8 vld4_lane_u8 vgetq_lane_f32 vext_u8 vext_u16 vext_s16 vextq_u16 vshrn_n_s16 vshr_n_u16
vshrn_n_s32 vshrn_n_s64 vshrn_n_u16 vshrn_n_u32 vshrn_n_u64 vqshrun_n_s16 vqshrun_n_s32 vqshrun_n_s64 vqrshrun_n_s16""".split()
for o in ops:
    if o["name"] in VALID:
        o["imm"]["validated"]=True
        o["imm"]["tol"]=[o["imm"]["hi"]+1] if o["name"].startswith("vext") else []
# floating-point class (C11): 0 integer/data movement, 1 rounding-mode independent only, 2 float arithmetic (excluded)
for o in ops:
    n=o["name"]; fl=any(a.get("b")=="f" for a in o["args"]+[o["ret"]])
    if not fl: c=0
    elif re.match(r"v(ld|st|get|dup|mov|combine|rev|reinterpret|bsl|ext|trn|zip|uzp)",n): c=0
    elif re.match(r"v(max|min|pmax|pmin|c[lg][te]|ceq|recpe)q?_",n) or re.match(r"vcvt[nmpa]?q?_[su]32_f32",n): c=1
    else: c=2
    o["fp"]=c
# Functions the library exports under a C++ name only (their definition does not match the header's declaration, or
# has none): reachable by a program that declares them as they are defined.
PAIR = """uint32x2_t ver_u32 uint32x2_t uint32x2_t;int8x16_t vmaxq_u8 int8x16_t int8x16_t;int8x16_t vminq_u8 int8x16_t int8x16_t
float64x1_t vsub_f32 float64x1_t float64x1_t;int16x8_t vmaxq_u16 int16x8_t int16x8_t;int32x4_t vmaxq_u32 int32x4_t int32x4_t
int16x8_t vminq_u16 int16x8_t int16x8_t;int32x4_t vminq_u32 int32x4_t int32x4_t;int64x2_t vsubl_s32 int32x4_t int32x2_t
uint64x2_t vsubl_u32 uint32x4_t uint32x2_t;int16x4_t vsubn_s32 int32x4_t int32x4_t;int32x2_t vsubn_s64 int64x2_t int64x2_t
uint16x4_t vsubn_u32 uint32x4_t uint32x4_t;uint32x2_t vsubn_u64 uint64x2_t uint64x2_t"""
for l in re.split(r"[;\n]", PAIR):
    r,n,*a=l.split()
    ops.append(dict(name=n+"_cxx", sym="_Z%d%s" % (len(n),n)+"".join("%d%s" % (len(x),x) if x not in a[:i] else "S_" for i,x in enumerate(a)), ret=ty(r), args=[ty(x) for x in a], fp=2 if "f" in a[0] else 0))
json.dump(ops,open("/verif/spec/ops.json","w"),indent=0)
print(len(ops), sum("mem" in o for o in ops), sum("imm" in o for o in ops))
print([o["name"] for o in ops if o["fp"]==1],[o["name"] for o in ops if o["fp"]==2])
print([ (o["name"],o["imm"]["lo"],o["imm"]["hi"]) for o in ops if "imm" in o])
