import sys, random, json, time
import build, engine, gen, emit, model
def explore(o, kind, checks, n=40, feats=(), seed=1, cases=64, show=6, crate_feats=("std","derive")):
    t=time.time()
    root=build.workdir("ex")
    deps,cr=build.libs("/tmp/w/exlib","f_"+"_".join(crate_feats),crate_feats)
    print("libs",time.time()-t)
    r=random.Random(seed)
    items=[(f"m{i}",gen.gen_item(r,o,kind)) for i in range(n)]
    by=dict(items)
    parts=[items[i::8] for i in range(8)]
    b=engine.Batch(root,deps,cr,feats)
    t=time.time()
    res=build.pool(lambda p: b.compile(p) if p else (None,{}),parts)
    print("compile",time.time()-t)
    fails={}
    for (bin,bad),p in zip(res,parts):
        for k,m in bad.items(): fails.setdefault(k,[]).append(("compile",m,None))
    t=time.time()
    outs=build.pool(lambda x: b.run(x[0],cases,seed,checks) if x[0] else [],res)
    print("run",time.time()-t)
    for rows in outs:
        for x in rows:
            if "fail" in x or "abort" in x: fails.setdefault(x["decl"].split(".")[0],[]).append((x["check"],x.get("fail") or x.get("abort"),x.get("case")))
    print(len(fails),"of",n,"fail")
    cl={}
    for k,fs in fails.items():
        for c,m,_ in fs:
            cl.setdefault((c,"".join(ch for ch in m[:40] if not ch.isdigit()) if c in("compile","abort") else ""),[]).append(k)
    for k,v in sorted(cl.items(),key=lambda x:-len(x[1])): print(len(v),k)
    ks=sorted(fails,key=lambda k: sum(len(emit.decl_text(d)) for d in by[k]["decls"]))
    for k in ks[:show]:
        print("-----",k)
        for d in by[k]["decls"]: print(emit.decl_text(d))
        for f in fails[k][:4]: print("   ",f)
    import shutil; shutil.rmtree(root)
    return fails,by
