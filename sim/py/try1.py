import sys, random, os, time, collections, shutil
sys.path.insert(0,'/verif/sim/py'); sys.path.insert(0,'/verif/sim')
import zyg, ncl, model as M, oracle, build
exe=build.build()
root=zyg.scratch_root()
z=zyg.Zygote(exe,root,0)
a0=int(sys.argv[1]); a1=int(sys.argv[2]); verbose=len(sys.argv)>3
cnt=collections.Counter()
def history(r):
    ops=[("start",)]
    for _ in range(r.randint(5,40)):
        k=r.random()
        if k<0.7: ops.append(("tick", r.choice([0,50,100,100,200,300,1000])*1000000))
        else: ops.append(("key", r.choice(ncl.KEYS), r.random()<0.6))
    return ops
def plan(ops,seed):
    s="alloc %d\ndir @DIR@\nopts 80 60 %% 0 0\nnew\nwatch %s\n"%(seed," ".join(["p1","p2","p3","p4","p5","v1","v2","focusIndex","service.currentFocus"]))
    for o in ops:
        if o[0]=="start": s+="start @DIR@/main.ncl\n"
        elif o[0]=="tick": s+="tick 0 %d 0\n"%o[1]
        elif o[0]=="key": s+="key %s %d\n"%(o[1],o[2])
    return s+"delete\n"
t=time.time()
for seed in range(a0,a1):
    r=random.Random(seed)
    g=ncl.Gen(r); d=g.doc()
    try:
        m=M.Model(d)
    except M.Unsupported as e:
        cnt["build-unsup "+str(e)[:20]]+=1; continue
    if ncl.has_zero_cycle(m): cnt["cycle"]+=1; continue
    files=ncl.render(d, ncl.Style(r))
    ops=history(r)
    res=z.run(plan(ops,seed),files)
    segs=res.segments()
    body=segs[3:3+len(ops)]
    if not res.crashed() and (len(body[0][1])==0 or not body[0][1][-0:] ): pass
    st=[l for l in (body[0][1] if body else []) if l.startswith("R ")]
    if st and st[0].startswith("R 0"):
        cnt["parse-fail"]+=1; print(seed,"PARSE",zyg.unesc(st[0][4:])[:300]); 
        if verbose: print(files)
        continue
    c=oracle.Checker(d,["p1","p2","p3","p4","p5","v1","v2","focusIndex","service.currentFocus"])
    try:
        mm=c.check(ops,body)
    except Exception as e:
        print(seed,"ORACLE-EXC",repr(e)); 
        if verbose: raise
        continue
    if res.crashed():
        cnt["crash"]+=1
        msg=[l for l in res.stderr.splitlines() if "ERROR" in l or "FATAL" in l or "runtime error" in l or "Assert" in l or "SIM" in l]
        print(seed,"CRASH",res.exit,res.signal,(msg or res.stderr.splitlines()[-1:] or [""])[0][:200], "inc=",c.inconclusive, "mm=",mm and mm.text())
    elif mm: cnt["mismatch"]+=1; print(seed,"MISMATCH",mm.text())
    elif c.inconclusive: cnt["inc "+c.inconclusive[:40]]+=1
    else: cnt["ok"]+=1; cnt["steps"]+=c.steps
    cnt["variants"]+=c.variants_used
    if verbose:
        print(files["main.ncl"]); print(files); print(plan(ops,seed)); print("\n".join(res.log)); print(res.stderr[:3000])
print(cnt, time.time()-t)
z.close(); shutil.rmtree(root)
