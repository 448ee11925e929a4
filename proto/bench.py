import sys
src=open('/tmp/proto/cmp.py').read().split("if __name__")[0]
src=src.replace("def mk(effs,**kw):","def mk_old(effs,**kw):")
exec(src.split("zs=np")[0])
kk,pp=np.loadtxt('/repo/PkL_CLASS.dat',unpack=True)
c=coffe.Coffe(**{'has_'+e:False for e in EFF}); print({k:v for k,v in c.parameters.items() if k.startswith('omega') or k=='h'})
h=c.h
def setp(c): c.set_power_spectrum_linear(kk*h,pp/h**3)
for nm,e in [('den','density'),('rsd','rsd'),('d1','d1'),('d2','d2'),('g1','g1'),('g2','g2'),('g3','g3'),('g4','g4'),('g5','g5'),('len','lensing'),('all',None),]:
    c=coffe.Coffe(**{'has_'+x:(x==e or e is None) for x in EFF}); setp(c)
    for i,m in enumerate([0.,.2,.5,.8,.95]):
        x,y=np.loadtxt(f'/repo/tests/benchmarks/benchmark_{nm}_corrfunc{i}.dat',unpack=True)
        v=np.array([c.compute_corrfunc(z=1.0,r=a/h,mu=m) for a in x])
        print(nm,m,'worst rel',np.max(np.abs(v/y-1)[np.abs(y)>0]) , np.median(v/y),flush=True)
