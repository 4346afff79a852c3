#!/usr/bin/env python3
"""Generates harness/model/src/toys.rs: small curves whose parameters meet the
preconditions the library documents (prime/odd order for complete Weierstrass
addition, b = 1 and y = s line without rational points for Montgomery, a square
and d non-square for Edwards).  Deterministic; run by hand, output committed."""
import random, math, sys
rng = random.Random(20240601)

def is_prime(n):
    if n < 2: return False
    for q in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n % q == 0: return n == q
    d, s = n-1, 0
    while d % 2 == 0: d//=2; s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37):
        x = pow(a,d,n)
        if x in (1,n-1): continue
        for _ in range(s-1):
            x = x*x % n
            if x == n-1: break
        else: return False
    return True
def leg(a,p):
    a%=p
    return 0 if a==0 else (1 if pow(a,(p-1)//2,p)==1 else -1)
def sqrt(a,p):
    a%=p
    if a==0: return 0
    if leg(a,p)!=1: return None
    if p%4==3: return pow(a,(p+1)//4,p)
    # Tonelli
    q,s=p-1,0
    while q%2==0: q//=2; s+=1
    z=2
    while leg(z,p)!=-1: z+=1
    m,c,t,r=s,pow(z,q,p),pow(a,q,p),pow(a,(q+1)//2,p)
    while t!=1:
        i,t2=0,t
        while t2!=1: t2=t2*t2%p; i+=1
        b=pow(c,1<<(m-i-1),p); m=i; c=b*b%p; t=t*c%p; r=r*b%p
    return r

# general curve y^2 = x^3 + a2 x^2 + a4 x + a6
class E:
    def __init__(s,p,a2,a4,a6): s.p,s.a2,s.a4,s.a6=p,a2%p,a4%p,a6%p
    def rhs(s,x): return (((x+s.a2)*x+s.a4)*x+s.a6)%s.p
    def disc_ok(s):
        p=s.p; a,b,c=s.a2,s.a4,s.a6
        return (a*a*b*b-4*b**3-4*a**3*c-27*c*c+18*a*b*c)%p!=0
    def add(s,P,Q):
        p=s.p
        if P is None: return Q
        if Q is None: return P
        if P[0]==Q[0]:
            if (P[1]+Q[1])%p==0: return None
            l=(3*P[0]*P[0]+2*s.a2*P[0]+s.a4)*pow(2*P[1],-1,p)%p
        else: l=(Q[1]-P[1])*pow(Q[0]-P[0],-1,p)%p
        x=(l*l-s.a2-P[0]-Q[0])%p
        return (x,(l*(P[0]-x)-P[1])%p)
    def mul(s,k,P):
        if k<0: return s.mul(-k,(P[0],-P[1]%s.p)) if P else None
        R=None
        while k:
            if k&1: R=s.add(R,P)
            P=s.add(P,P); k>>=1
        return R
    def rand(s):
        while True:
            x=rng.randrange(s.p); y=sqrt(s.rhs(x),s.p)
            if y is not None:
                if rng.random()<.5: y=-y%s.p
                return (x,y)
    def count(s):
        p=s.p
        if p<70000: return p+1+sum(leg(s.rhs(x),p) for x in range(p))
        # BSGS over Hasse interval, until unique
        lo,hi=p+1-2*math.isqrt(p)-2,p+1+2*math.isqrt(p)+2
        cand=None
        for _ in range(8):
            P=s.rand(); m=math.isqrt(hi-lo)+1
            baby={}; Q=None
            for j in range(m):
                baby.setdefault(Q,[]).append(j); Q=s.add(Q,P)
            G=s.mul(m,P); R=s.mul(lo,P); found=set()
            # want lo + i*m + j with  (lo+i*m)P + jP = 0 -> -(lo+i*m)P in baby
            for i in range(m+1):
                N=None if R is None else (R[0],-R[1]%p)
                for j in baby.get(N,[]):
                    n=lo+i*m+j
                    if n<=hi: found.add(n)
                R=s.add(R,G)
            cand=found if cand is None else cand&found
            if len(cand)==1: return cand.pop()
        return None

def prime_with(lo,hi,cond):
    while True:
        p=rng.randrange(lo,hi)|1
        if is_prime(p) and cond(p): return p

def fac_cof(n):
    """split n = h*r with r prime, h small; None otherwise"""
    for h in range(1,65):
        if n%h==0 and is_prime(n//h): return h,n//h
    return None

W,M,T=[],[],[]
c34=lambda p:p%4==3
c58=lambda p:p%8==5
def gen_w(lo,hi,cond,a=None,n=1,odd_cof=False):
    for _ in range(n):
        while True:
            p=prime_with(lo,hi,cond); aa=rng.randrange(1,p) if a is None else a; b=rng.randrange(1,p)
            e=E(p,0,aa,b)
            if not e.disc_ok(): continue
            N=e.count()
            if N is None: continue
            if odd_cof:
                f=fac_cof(N)
                if f is None or f[0]%2==0 or f[0]==1: continue
                h,r=f
            else:
                if not is_prime(N) or N==p: continue
                h,r=1,N
            G=e.mul(h,e.rand())
            if G is None: continue
            W.append((p,aa,b,r,h,G)); break
def no_root(p,s,A):
    # x^3+Ax^2+x-s^2 has no root mod p : gcd(x^p-x, f)=1
    f=[(-s*s)%p,1,A%p]  # monic cubic low coefs
    def mulmod(u,v):
        r=[0]*5
        for i,a in enumerate(u):
            for j,b in enumerate(v): r[i+j]=(r[i+j]+a*b)%p
        for d in (4,3):
            c=r[d]; r[d]=0
            for k in range(3): r[d-3+k]=(r[d-3+k]-c*f[k])%p
        return r[:3]
    R,B,k=[1,0,0],[0,1,0],p
    while k:
        if k&1: R=mulmod(R,B)
        B=mulmod(B,B); k>>=1
    R[1]=(R[1]-1)%p
    g=f+[1]; h=R
    def trim(u):
        while u and u[-1]%p==0: u=u[:-1]
        return u
    g,h=trim(g),trim(h)
    while h:
        inv=pow(h[-1],-1,p)
        g=g[:]
        while len(g)>=len(h):
            c=g[-1]*inv%p; off=len(g)-len(h)
            for i in range(len(h)): g[off+i]=(g[off+i]-c*h[i])%p
            g=trim(g)
            if not g: break
        g,h=h,g
    return len(g)==1
def gen_mt(lo,hi,cond,n=1):
    """a Montgomery curve by^2=x^3+Ax^2+x (b=1) and the birational twisted
    Edwards curve a x^2+y^2=1+d x^2y^2 scaled so that a=1 or a=-1."""
    for _ in range(n):
        while True:
            p=prime_with(lo,hi,cond); A=rng.randrange(3,p-2)
            e=E(p,A,1,0)
            if not e.disc_ok(): continue
            a,d=(A+2)%p,(A-2)%p
            if leg(a,p)!=1 and leg(-a,p)!=1: continue
            N=e.count()
            if N is None: continue
            f=fac_cof(N)
            if f is None or f[1]<5 or f[0]%f[1]==0: continue
            h,r=f
            # Edwards with a' in {1,-1}
            ap=1 if leg(a,p)==1 else p-1
            t=sqrt(a*pow(ap,-1,p),p)      # a = ap t^2 ;  X = t x
            dp=d*pow(t*t,-1,p)%p
            if leg(ap,p)!=1 or leg(dp,p)!=-1: continue
            s=None
            for c in range(1,200):
                if no_root(p,c,A): s=c; break
            if s is None: continue
            G=e.mul(h,e.rand())
            if G is None or e.mul(r,G) is not None: continue
            # z for elligator
            z=2
            while leg(z,p)!=-1: z+=1
            u,v=G
            # Montgomery (b=1) <-> twisted Edwards a x^2+y^2=1+d x^2 y^2: x=u/v, y=(u-1)/(u+1)
            x=u*pow(v,-1,p)%p*t%p; y=(u-1)*pow(u+1,-1,p)%p
            assert (ap*x*x+y*y-1-dp*x*x*y*y)%p==0
            M.append((p,A,1,s,r,h,G,z))
            T.append((p,ap if ap==1 else -1,dp,r,h,(x,y),t,z))
            break
for (lo,hi) in ((17,64),(64,128),(128,256),(256,512),(1000,2000),(32768,65536),(65537,69000)):
    gen_w(lo,hi,c34); gen_w(lo,hi,c58)
gen_w(1000,2000,c34,a=-3); gen_w(1000,2000,lambda p:c34(p) and p%3==1,a=0)
gen_w(1000,2000,c34,odd_cof=True,n=2)
gen_w(1<<31,1<<32,c34); gen_w(1<<32,1<<33,c58); gen_w((1<<62),(1<<63),c34)
for (lo,hi) in ((17,64),(64,128),(128,256),(256,512),(1000,2000),(32768,65536),(65537,69000)):
    gen_mt(lo,hi,c34); gen_mt(lo,hi,c58)
gen_mt(1<<31,1<<32,c58); gen_mt(1<<32,1<<33,c34); gen_mt(1<<62,1<<63,c58)
o=open(sys.argv[1],'w')
o.write("// Generated by tools/gen_toys.py. Do not edit.\n#![allow(clippy::all)]\n")
o.write("pub struct W{pub p:&'static str,pub a:&'static str,pub b:&'static str,pub r:&'static str,pub h:&'static str,pub gx:&'static str,pub gy:&'static str}\n")
o.write("pub struct M{pub p:&'static str,pub a:&'static str,pub b:&'static str,pub s:&'static str,pub r:&'static str,pub h:&'static str,pub gx:&'static str,pub gy:&'static str,pub z:&'static str}\n")
o.write("pub struct T{pub p:&'static str,pub a:&'static str,pub d:&'static str,pub r:&'static str,pub h:&'static str,pub gx:&'static str,pub gy:&'static str,pub t:&'static str,pub z:&'static str}\n")
o.write("/// `T[i]` is the twisted Edwards curve birational to `M[i]`; `t` is the x-scaling.\n")
o.write("pub static WS:&[W]=&[\n")
for p,a,b,r,h,G in W: o.write('W{p:"%d",a:"%d",b:"%d",r:"%d",h:"%d",gx:"%d",gy:"%d"},\n'%(p,a,b,r,h,*G))
o.write("];\npub static MS:&[M]=&[\n")
for p,A,b,s,r,h,G,z in M: o.write('M{p:"%d",a:"%d",b:"%d",s:"%d",r:"%d",h:"%d",gx:"%d",gy:"%d",z:"%d"},\n'%(p,A,b,s,r,h,*G,z))
o.write("];\npub static TS:&[T]=&[\n")
for p,a,d,r,h,G,t,z in T: o.write('T{p:"%d",a:"%d",d:"%d",r:"%d",h:"%d",gx:"%d",gy:"%d",t:"%d",z:"%d"},\n'%(p,a,d,r,h,*G,t,z))
o.write("];\n")
print(len(W),len(M))
