import sys,time
from terms import *
from values import *
import front, exec as X
from exec import Exec
import prover
def setup(ex):
    p = ex.sym("mini_opt::QP","P")
    print({k:type(v).__name__ for k,v in p.f.items()})
    po = ex.new(p,"problem")
    s = ex.sym("mini_opt::QPInteriorPointSolver","S")
    print({k:type(v).__name__ for k,v in s.f.items()})
    return po,s
t=time.time()
u=front.unit("qp"); print("front",time.time()-t)
ex=Exec([u])
po,s=setup(ex)
N=s.f["dims_"].f["N"];M=s.f["dims_"].f["M"];K=s.f["dims_"].f["K"]
print(show(N),show(M))
q=ex.load(po)
def vec(n,name): return Mat(n,1,lambda i,j: app(name,(i,)))
v=vec(N+2*M+K,"var"); r=vec(N+2*M+K,"r")
s=s.with_("variables_",v).with_("r_",r).with_("p_",PtrV(po,TRUE))
q=q.with_("G",Mat(N,N,lambda i,j: app("G",(i,j)))).with_("c",vec(N,"c")).with_("A_eq",Mat(K,N,lambda i,j:app("A",(i,j)))).with_("b_eq",vec(K,"b"))
cons=q.f["constraints"]
q=q.with_("constraints",VecV(M,cons.fn,cons.elt))
ex.heap[po.obj]=q
so=ex.new(s,"self")
e=fresh("i")
ex.assume(le(0,N),le(0,M),le(0,K))
var_=lambda i: cons.fn(i).f["variable"]
ex.assume(forall([e],implies(conj(le(0,e),lt(e,M)),conj(le(0,var_(e)),lt(var_(e),N)))))
f=u.find(sys.argv[1])[0]
args=[]
for p in u.params(f):
    args.append(ex.sym(X.qt(p),p["name"]))
t=time.time()
outs=ex.explore(lambda: ex.call_fn(u,f,so,args))
print("exec",time.time()-t, [(o.kind,[show(c) for c in o.conds]) for o in outs])
for o in outs:
    s2=o.heap[so.obj]
    for fld in s2.f:
        if s2.f[fld] is not s.f[fld] and isinstance(s2.f[fld],Mat):
            g=fresh("g")
            print(fld, show(s2.f[fld].fn(g,ZERO))[:600])
t=time.time()
for ob in ex.obls:
    r=prover.prove(ob.ctx,ob.goal)
    if r.status!="proved": print(r.status,r.backend,ob.label,show(ob.goal)[:200],[show(x) for x in ob.ctx.ground])
print(len(ex.obls),"obls",time.time()-t,prover.stats)
