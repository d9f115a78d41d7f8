import math
from collections import Counter
def tris(sol):
    out=[]
    for s in sol[1]:
        V=s[1]
        for f in s[3]:
            out.append(tuple(tuple(V[i][:3]) for i in f))
    return out
def weld(T,tol=1e-6):
    grid={};rep=[];out=[]
    def key(p):
        k=tuple(int(round(c/ (tol*4))) for c in p)
        for dx in (-1,0,1):
            for dy in (-1,0,1):
                for dz in (-1,0,1):
                    for i in grid.get((k[0]+dx,k[1]+dy,k[2]+dz),()):
                        if max(abs(a-b) for a,b in zip(rep[i],p))<=tol: return i
        rep.append(p); grid.setdefault(k,[]).append(len(rep)-1); return len(rep)-1
    for t in T: out.append(tuple(key(p) for p in t))
    return rep,out
def check(T,tol=1e-6):
    rep,F=weld(T,tol)
    deg=[f for f in F if len(set(f))<3]
    E=Counter()
    for f in F:
        if len(set(f))<3: continue
        for i in range(3): E[(f[i],f[(i+1)%3])]+=1
    bad=[e for e in E if E[e]!=E[(e[1],e[0])]]
    dup=[e for e in E if E[e]>1]
    return dict(n=len(F),deg=len(deg),open=len(bad),dup=len(dup),vol=vol(T),area=sum(area(t) for t in T))
def cross(a,b): return (a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0])
def sub(a,b): return tuple(x-y for x,y in zip(a,b))
def dot(a,b): return sum(x*y for x,y in zip(a,b))
def nrm(t): return cross(sub(t[1],t[0]),sub(t[2],t[0]))
def area(t): return math.sqrt(dot(nrm(t),nrm(t)))/2
def vol(T): return sum(dot(t[0],cross(t[1],t[2])) for t in T)/6
def normals(sol):
    bad=0
    for s in sol[1]:
        for f in s[3]:
            n=nrm([s[1][i][:3] for i in f])
            for i in f:
                if dot(n,s[2][i][:3])<=0: bad+=1
    return bad
