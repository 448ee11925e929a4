import sys
src=open('/tmp/proto/cmp.py').read().split("if __name__")[0]
src=src.replace("np.geomspace(1e-4,10,1500)","np.geomspace(1e-5,100,3000)").replace("K(P,1e-4,10)","K(P,1e-5,100)")
exec(src)
Kf.rg=np.concatenate([[0],np.geomspace(0.2,6000,2500)]); 
for e1,e2 in [('density','density'),('rsd','g5'),('rsd','lensing'),('rsd','g4'),('d1','d1'),('d1','lensing')]:
    c=mk([e1,e2]);c.has_only_cross_correlations=(e1!=e2)
    for p in [(1.0,60.,0.4),(1.0,100.,-0.7),(0.6,30.,0.9),(1.0,60.,0.)]:
        v=c.compute_corrfunc(z=p[0],r=p[1],mu=p[2]); out=[]
        for n in (100,400,1600):
            gx,gw=np.polynomial.legendre.leggauss(n); out.append(theory(e1,e2,*p))
        c.integration_1d_prec=1e-5; v2=c.compute_corrfunc(z=p[0],r=p[1],mu=p[2]) if 0 else 0
        print(e1,e2,p,v,v/np.array(out),flush=True)
