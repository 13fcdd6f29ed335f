import sys
import check,spec,front,loops,terms as T
orig=loops.solve_container
def sc(ex,s,*a):
    r=orig(ex,s,*a)
    print("solve",s.name,r, flush=True)
    if r and s.closed:
        ixs=[T.fresh("g") for _ in range(1)]
        try:
            t=s.closed(T.fresh("k"),ixs); print("   closed monos",len(t.a), T.show(t)[:1500])
        except Exception as e: print(e)
    return r
loops.solve_container=sc
ts=[t for t in check.load_tasks() if sys.argv[1] in t.name]
t=ts[0]
front.preload(t.units)
v=spec.V(t)
t.fn(v)
