#!/usr/bin/env python3
# Generates harness/reflbits.inc: reflected bit-field layouts covering every member width of every storage type.
out=["// generated by tools/gen_reflbits.py"]
names=[]
for ty,w in (("uint8",8),("uint16",16),("uint32",32),("uint64",64),("int8",8),("int16",16),("int32",32),("int64",64)):
    lays=[]
    for a in range(1,w):
        if w>16 and not (a<=9 or a%8 in(0,1,7) or a>=w-3): continue
        rest=w-a
        if rest==1: lays.append((a,1))
        elif a<=w//2: lays.append((a,(rest+1)//2,rest//2) if rest>1 else (a,rest))
        else: lays.append((a,rest) if a%2 else (rest,a))
    # a layout that does not fill the storage
    lays.append((3,2) if w==8 else (5,w//2-3))
    for k,l in enumerate(lays):
        if any(x==0 for x in l): continue
        n="BL_%s_%d"%(ty,k)
        mem=["%s_m%d"%(n,i) for i in range(len(l))]
        out+=["using %s = BitMemberDecl<%d, %d>;"%(m,i,s) for i,(m,s) in enumerate(zip(mem,l))]
        out.append("using %s = BitFieldType<%s, %s>;"%(n,ty,", ".join(mem)))
        out.append("REFLECTOR_CREATE(%s, BITFIELD, 1, VARNAMES, %s)"%(n,", ".join(mem)))
        names.append((n,ty,l))
out.append("struct BitLayout { const char *name; const reflectorStatic *refl; int bytes; bool isSigned; int n; int size[4]; };")
out.append("static const std::vector<BitLayout> &bitLayouts() { static const std::vector<BitLayout> l{")
for n,ty,l in names:
    out.append('  {"%s", GetReflectedClass<%s>(), int(sizeof(%s)), %s, %d, {%s}},'%(n,n,n,"false" if ty[0]=="u" else "true",len(l),", ".join(map(str,l))))
out.append("}; return l; }")
open("harness/reflbits.inc","w").write("\n".join(out)+"\n")
print(len(names))
