import sys,os,ctypes,time,itertools
B=sys.argv[1]
sys.setdlopenflags(os.RTLD_GLOBAL|os.RTLD_LAZY)
sys.path.insert(0,B+'/stage'); sys.path.insert(0,'/tmp/proto')
ctypes.CDLL(B+'/stub.so',mode=os.RTLD_GLOBAL|os.RTLD_LAZY)
import coffe, numpy as np
from oracle import *
k=np.geomspace(1e-5,100,3000)
def P(k):
    q=k/0.67/0.19
    t=np.log(1+2.34*q)/(2.34*q)*(1+3.89*q+(16.1*q)**2+(5.46*q)**3+(6.71*q)**4)**-.25
    return 5e6*(k/0.05)**0.96*0.05*t*t
H0=1/2997.92458
EFF=['density','rsd','d1','d2','g1','g2','g3','lensing','g4','g5']
def mk(effs,**kw):
    c=coffe.Coffe(omega_m=0.32,omega_baryon=0.05,h=0.67,**{'has_'+e:(e in effs) for e in EFF})
    c.set_galaxy_bias1(zs,1+0.5*zs); c.set_galaxy_bias2(zs,1.3+0.3*zs)
    c.set_magnification_bias1(zs,0.2+0.1*zs); c.set_magnification_bias2(zs,0.3+0.2*zs)
    c.set_evolution_bias1(zs,0.1+0.2*zs); c.set_evolution_bias2(zs,0.4-0.1*zs)
    c.number_density1
    c.set_power_spectrum_linear(k,P(k))
    return c
zs=np.linspace(0,3,50)
bias=[lambda z:1+0.5*z,lambda z:1.3+0.3*z]; sb=[lambda z:.2+.1*z,lambda z:.3+.2*z]; ev=[lambda z:.1+.2*z,lambda z:.4-.1*z]
pops=(1,1)
c0=mk(['density'])
Kf=K(P,1e-5,100)
zg=np.linspace(0,2.5,1500)
chig=np.array([c0.comoving_distance(z) for z in zg]); 
Kf.chimax=chig[-1]
from scipy.interpolate import CubicSpline as CS
zof=CS(chig,zg)
Dsp=CS(zg,[c0.growth_factor(z) for z in zg]); fsp=CS(zg,[c0.growth_rate(z) for z in zg]); Hsp=CS(zg,[c0.hubble_rate_conformal(z) for z in zg]); Hpsp=CS(zg,[c0.hubble_rate_conformal_derivative(z) for z in zg])
Om=0.32; h=0.67
print('H0 check',c0.hubble_rate(0.),H0*h, 'gr',c0.growth_factor(0))
def G(z,x,p):
    s=sb[p](z);e=ev[p](z);H=Hsp(z)
    return Hpsp(z)/H**2+(2-5*s)/(x*H)+5*s-e
def amp(e,z,x,p,zc=None):
    f=fsp(z);H=Hsp(z);D=Dsp(z)
    Phi=-1.5*Om*(H0*h)**2*(1+z)
    return D*{ 'density':lambda:bias[p](z),'rsd':lambda:-f,'d1':lambda:-f*H*G(z,x,p),'d2':lambda:(3-ev[p](z))*f*H*H,
     'g1':lambda:(1+G(z,x,p))*Phi,'g2':lambda:(5*sb[p](z)-2)*Phi,'g3':lambda:(f-1)*Phi}[e]()
ops={'density':(0,0),'rsd':(2,2),'d1':(1,2),'d2':(0,2),'g1':(0,2),'g2':(0,2),'g3':(0,2),'lensing':(0,2),'g4':(0,2),'g5':(0,2)}
def iw(e,z,x,p,lam):
    zl=zof(lam);D=Dsp(zl);Phi=-1.5*Om*(H0*h)**2*(1+zl)*D
    s=sb[p](z)
    return {'lensing':lambda:-(2-5*s)*(x-lam)/(x*lam)*Phi,'g4':lambda:2*(2-5*s)/x*Phi,'g5':lambda:2*G(z,x,p)*Hsp(zl)*(fsp(zl)-1)*Phi}[e]()
gx,gw=np.polynomial.legendre.leggauss(100)
def pairval(e1,e2,zb,r,mu):
    x0=float(c0.comoving_distance(zb)); x1=x0-r*mu/2;x2=x0+r*mu/2
    c=(2*x0*x0-r*r+mu*mu*r*r/2)/(2*x0*x0-mu*mu*r*r/2)
    z1=float(zof(x1));z2=float(zof(x2))
    m1,p1=ops[e1];m2,p2=ops[e2]
    t=toc(localterm(m1,m2));q=p1+p2
    i1=e1 in('lensing','g4','g5');i2=e2 in('lensing','g4','g5')
    if e1=='lensing': t=lap(t)
    if e2=='lensing': t=lap(t)
    # split integration at peak
    def nodes(x,split):
        pts=[0,split,x] if 0<split<x else [0,x]
        n=[];w=[]
        for a,b in zip(pts[:-1],pts[1:]):
            n.append((b-a)/2*gx+(a+b)/2);w.append((b-a)/2*gw)
        return np.concatenate(n),np.concatenate(w)
    if not i1 and not i2:
        return float(amp(e1,z1,x1,0)*amp(e2,z2,x2,1)*evalpoly(t,q,np.array(x1),np.array(x2),c,Kf))
    if i1 and not i2:
        l,w=nodes(x1,min(x2*c,x1)); return float(amp(e2,z2,x2,1)*np.sum(w*iw(e1,z1,x1,0,l)*evalpoly(t,q,l,x2,c,Kf)))
    if i2 and not i1:
        l,w=nodes(x2,min(x1*c,x2)); return float(amp(e1,z1,x1,0)*np.sum(w*iw(e2,z2,x2,1,l)*evalpoly(t,q,x1,l,c,Kf)))
    l1,w1=nodes(x1,-1); tot=0
    for a,b in zip(l1,w1):
        l2,w2=nodes(x2,a); tot+=b*iw(e1,z1,x1,0,a)*np.sum(w2*iw(e2,z2,x2,1,l2)*evalpoly(t,q,a,l2,c,Kf))
    return float(tot)
def theory(e1,e2,*a):
    return pairval(e1,e2,*a)+(pairval(e2,e1,*a) if e1!=e2 else 0)
if __name__=='__main__':
    pts=[(1.0,60.,0.4),(1.0,100.,-0.7),(0.6,30.,0.9)]
    vals={}
    for i,e1 in enumerate(EFF):
        for e2 in EFF[i:]:
            if e1==e2:
                c=mk([e1]); v=[c.compute_corrfunc(z=a,r=b,mu=m) for a,b,m in pts]
            else:
                c=mk([e1,e2]); 
                c.has_only_cross_correlations=True
                v=[c.compute_corrfunc(z=a,r=b,mu=m) for a,b,m in pts]
            th=[theory(e1,e2,*p) for p in pts]
            bad=max(abs(a/b-1) if b else abs(a) for a,b in zip(v,th))
            print(e1,e2,'OK ' if bad<5e-3 else 'BAD',['%.5g'%(a/b if b else a) for a,b in zip(v,th)],['%.4g'%b for b in th],flush=True)
