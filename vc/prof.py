import sys,cProfile,pstats
import check,spec,front
ts=[t for t in check.load_tasks() if sys.argv[1] == t.name]
t=ts[0]
front.preload(t.units)
v=spec.V(t)
p=cProfile.Profile(); p.enable()
try: t.fn(v)
finally:
    p.disable(); pstats.Stats(p).sort_stats("cumtime").print_stats(45)
