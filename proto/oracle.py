import numpy as np
from fractions import Fraction
from collections import defaultdict
from scipy.special import spherical_jn
from scipy.interpolate import CubicSpline
# symbolic: state dict (c,A,B,s)->coef
def deriv(t, leg):
    out=defaultdict(int)
    sg = -1 if leg==1 else 1
    for (c,A,B,s),k in t.items():
        # d along n_leg w.r.t r : dA = n_leg.n1, dB = n_leg.n2
        dA=(1,0) if leg==1 else (0,1)   # (const power of c) leg1: n1.n1=1; leg2: n2.n1=c
        dB=(0,1) if leg==1 else (1,0)
        if A: out[(c+(0 if leg==1 else 1),A-1,B,s)]+=sg*k*A
        if B: out[(c+(1 if leg==1 else 0),A,B-1,s)]+=sg*k*B
        if leg==1: out[(c,A+1,B,s+1)]+=sg*k
        else: out[(c,A,B+1,s+1)]+=sg*k
    return {a:b for a,b in out.items() if b}
def localterm(m1,m2):
    t={(0,0,0,0):1}
    for _ in range(m1): t=deriv(t,1)
    for _ in range(m2): t=deriv(t,2)
    return t  # times (-1)^s K_{q,s}
# convert to polynomials in c, x1, x2, s
def toc(t):
    out=defaultdict(int)
    from math import comb
    for (c,A,B,s),k in t.items():
        k=k*(-1)**s
        # A=(x2 c - x1)^A ; B=(x2 - x1 c)^B
        for i in range(A+1):
            for j in range(B+1):
                co=k*comb(A,i)*(-1)**(A-i)*comb(B,j)*(-1)**(B-j)
                # (x2c)^i (-x1)^(A-i) (x2)^j (-x1c)^(B-j)
                out[(c+i+B-j, A-i+B-j, i+j, s)]+=co
    return {a:b for a,b in out.items() if b}
def dc(t):
    out=defaultdict(int)
    for (c,a,b,s),k in t.items():
        if c: out[(c-1,a,b,s)]+=k*c
        out[(c,a+1,b+1,s+1)]+=k   # dK_s/dc = +x1x2 K_{s+1}
    return dict(out)
def lap(t):
    d=dc(t); out=defaultdict(int)
    for (c,a,b,s),k in d.items():
        out[(c,a,b,s)]+=k; out[(c+2,a,b,s)]-=k
    return {a:b for a,b in dc(out).items() if b}
class K:
    def __init__(self,pk,kmin,kmax,rmax=6000):
        # pk callable
        self.pk=pk;self.kmin=kmin;self.kmax=kmax
        self.rg=np.concatenate([[0],np.geomspace(0.2,rmax,1500)])
        self.tab={}
        u=np.linspace(np.log(kmin),np.log(kmax),160001); k=np.exp(u)
        w=np.full_like(u,u[1]-u[0]); w[1:-1:2]*=4/3; w[2:-1:2]*=2/3; w[0]/=3;w[-1]/=3
        self.k=k; self.w=w*k**3*pk(k)/(2*np.pi**2)
    def js(self,s,x):
        out=np.empty_like(x); sm=x<1e-2
        out[~sm]=spherical_jn(s,x[~sm])/x[~sm]**s
        df=1.
        for i in range(s+1): df*=(2*i+1)
        out[sm]=1/df*(1-x[sm]**2/(2*(2*s+3)))
        return out
    def direct(self,q,s,r):
        return np.sum(self.w*self.k**(2*s-q+0.)*self.js(s,self.k*r))
    def ev(self,q,s,r):
        if (q,s) not in self.tab:
            y=np.array([self.direct(q,s,r_) for r_ in self.rg])
            self.tab[(q,s)]=CubicSpline(self.rg,y)
        return self.tab[(q,s)](r)
    def ren(self,x1,x2):
        if not hasattr(self,'rensp'):
            from scipy.interpolate import RectBivariateSpline
            g=np.linspace(0,self.chimax,60); 
            J=np.sinc(np.outer(g,self.k[::8])/np.pi)
            w=self.w[::8]*self.k[::8]**-4.
            # crude: trapz on subsample
            u=np.log(self.k[::8]); w=self.k[::8]**-3.*self.pk(self.k[::8])/(2*np.pi**2)*(u[1]-u[0])*self.k[::8]**2
            M=np.einsum('ik,jk,k->ij',J,J,w)
            self.rensp=RectBivariateSpline(g,g,M)
        return self.rensp(x1,x2,grid=False)
def evalpoly(t,q,x1,x2,c,Kf):
    r=np.sqrt(np.maximum(x1*x1+x2*x2-2*x1*x2*c,0))
    tot=0
    by=defaultdict(float)
    for (pc,a,b,s),k in t.items():
        by[s]=by[s]+k*c**pc*x1**a*x2**b
    for s,v in by.items():
        kk=Kf.ev(q,s,r)
        if q==4 and s==0: kk=kk-Kf.ren(x1,x2)
        tot=tot+v*kk
    return tot
