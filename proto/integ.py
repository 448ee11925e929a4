import sys
exec(open('cmp.py').read().split("zs=np")[0].replace("B=sys.argv[1]","B=sys.argv[1]"))
for kmn,kmx,n in [(1e-4,10,1500),(1e-5,10,1500),(1e-5,100,3000),(1e-5,300,400)]:
    kk=np.geomspace(kmn,kmx,n)
    c=coffe.Coffe(omega_m=0.32,omega_baryon=0.05,h=0.67); c.set_power_spectrum_linear(kk,P(kk))
    Kf=K(P,kmn,kmx)
    for (nn,l) in [(0,0),(0,2),(0,4),(1,1),(1,3),(2,0),(2,2),(3,1)]:
        out=[]
        for r in (0.,1e-3,0.5,2.,10.,60.,100.,200.,1000.,3000.):
            v=c.integral(r=r,n=nn,l=l)
            w=Kf.w; x=Kf.k*r
            from scipy.special import spherical_jn
            if nn>=l:
                d=np.sum(w*Kf.js(l,x)*Kf.k**(l-nn+0.)*(x**(l-nn) if nn<l else 1)) if True else 0
                # want r^(n-l) j_l/(kr)^n = k^(l-n) j_l/(kr)^l  
                d=np.sum(w*Kf.js(l,x)*Kf.k**(float(l-nn)))
            else: d=np.sum(w*spherical_jn(l,x)/np.where(x>0,x,1)**nn)
            out.append('%.4f'%(v/d) if d else '%.1e'%v)
        print(kmn,kmx,n,(nn,l),out,flush=True)
