"""Evaluates what the specification CoffeTerms derives: expressions, polynomials and K(q,s)."""
import multiprocessing as mp

import numpy as np
from scipy.interpolate import CubicSpline, RectBivariateSpline
from scipy.special import spherical_jn

H0 = 1.0 / 2997.92458           # h/Mpc, c = 1


def ev(x, env):
    """An expression of the specification: number, name, or [operator, arguments]."""
    if isinstance(x, str):
        return env[x]
    if not isinstance(x, list):
        return float(x)
    op, a = x[0], [ev(y, env) for y in x[1:]]
    if op == "+":
        return a[0] + a[1]
    if op == "-":
        return a[0] - a[1]
    if op == "*":
        return a[0] * a[1]
    if op == "/":
        return a[0] / a[1]
    if op == "^":
        return a[0] ** a[1]
    if op == "exp":
        return np.exp(a[0])
    raise KeyError(op)


def bessel_over(s, x):
    """j_s(x)/x^s for an array."""
    out = np.empty_like(x)
    small = x < 0.5 + s
    xs = x[small]
    df = 1.0
    for i in range(s + 1):
        df *= 2 * i + 1
    t = np.full_like(xs, 1 / df)
    tot = t.copy()
    for n in range(1, 20):
        t = t * (-(xs ** 2) / 2) / (n * (2 * s + 2 * n + 1))
        tot += t
    out[small] = tot
    xl = x[~small]
    j0 = np.sin(xl) / xl
    if s == 0:
        out[~small] = j0
    else:
        a, b = j0, (j0 - np.cos(xl)) / xl
        for n in range(1, s):
            a, b = b, (2 * n + 1) / xl * b - a
        out[~small] = b / xl ** s
    return out


def _row(args):
    k, w, qs, r = args
    x = k * r
    by = {}
    out = []
    for q, s in qs:
        if s not in by:
            by[s] = bessel_over(s, x)
        out.append(float(np.sum(w * k ** float(2 * s - q) * by[s])))
    return out


def _ren(args):
    k, w, x1, xs = args
    a = w * k ** -4.0 * bessel_over(0, k * x1)
    return [float(np.sum(a * bessel_over(0, k * x))) for x in xs]


class Kernels:
    """K(q,s)(r) for a spectrum given as a function, on [kmin, kmax]; pairs (q,s) all at once."""

    def __init__(self, pk, kmin, kmax, qs, rmax=9000.0, nk=30001, nr=420, ren=None, pool=None):
        u = np.linspace(np.log(kmin), np.log(kmax), nk)
        k = np.exp(u)
        w = np.full(nk, (u[1] - u[0]) / 3)
        w[1:-1:2] *= 4
        w[2:-1:2] *= 2
        self.k, self.w = k, w * k ** 3 * pk(k) / (2 * np.pi ** 2)
        self.qs = sorted(qs)
        lin = np.linspace(0, 0.5, 6)
        self.r = np.concatenate([lin, np.geomspace(0.6, rmax, nr)])
        m = pool.map if pool else lambda f, a: list(map(f, a))
        y = np.array(m(_row, [(k, self.w, self.qs, r) for r in self.r]))
        self.tab = {qs: CubicSpline(self.r, y[:, i]) for i, qs in enumerate(self.qs)}
        self.ren = None
        if ren:
            g = np.linspace(0.0, ren, 90)
            kk = k[::3]
            ww = np.full(len(kk), (u[3] - u[0]))
            ww[0] = ww[-1] = ww[0] / 2
            ww = ww * kk ** 3 * pk(kk) / (2 * np.pi ** 2)
            self.ren = RectBivariateSpline(g, g, np.array(m(_ren, [(kk, ww, x, g) for x in g])))

    def direct(self, q, s, r):
        return _row((self.k, self.w, [(q, s)], r))[0]

    def __call__(self, q, s, r):
        return self.tab[(q, s)](r)


class Transverse:
    """J(t) = Int dk k P(k) J0(k t)."""

    def __init__(self, pk, kmin, kmax, tmax=1600.0, nk=60001, nt=500):
        from scipy.special import j0
        u = np.linspace(np.log(kmin), np.log(kmax), nk)
        k = np.exp(u)
        w = np.full(nk, (u[1] - u[0]) / 3)
        w[1:-1:2] *= 4
        w[2:-1:2] *= 2
        w = w * k ** 2 * pk(k)
        self.t = np.concatenate([np.linspace(0, 1, 41), np.geomspace(1.02, tmax, nt)])
        self.s = CubicSpline(self.t, [float(np.sum(w * j0(k * t))) for t in self.t])

    def __call__(self, t):
        return self.s(t)


class Poly:
    """A term of the specification: sum of coef c^i x1^j x2^k K(q,s)."""

    def __init__(self, entry):
        self.q, self.div = entry["q"], entry["divergent"]
        self.by = {}
        for m, k in entry["p"]:
            self.by.setdefault(m[3], []).append((k, m[0], m[1], m[2]))

    def __call__(self, K, x1, x2, c):
        """(value, sum of absolute values of the parts)."""
        r = np.sqrt(np.maximum(x1 * x1 + x2 * x2 - 2 * x1 * x2 * c, 0.0))
        tot = scale = 0.0
        for s, ms in self.by.items():
            v = sum(k * c ** i * x1 ** a * x2 ** b for k, i, a, b in ms)
            kk = K(self.q, s, r)
            if self.div and s == 0:
                kk = kk - K.ren(x1, x2, grid=False)
            tot = tot + v * kk
            scale = scale + np.abs(v * kk)
        return tot, scale


class Cosmology:
    """Background functions from a table of the package's own public ones."""
    NAMES = ("comoving_distance", "growth_factor", "growth_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative")

    def __init__(self, z, cols, om, h):
        self.zmax = z[-1]
        self.chi = CubicSpline(z, cols[0])
        self.z = CubicSpline(cols[0], z)
        self.chimax = cols[0][-1]
        self.D, self.f, self.H, self.Hp = (CubicSpline(z, c) for c in cols[1:])
        self.om, self.h = om, h

    def source(self, z, x, bias):
        """The quantities at a source; bias gives b, s, e of its population as functions of redshift."""
        return {"z": z, "x": x, "f": self.f(z), "D": self.D(z), "H": self.H(z), "Hp": self.Hp(z), "Om": self.om, "H0": H0 * self.h,
                **{n: g(z) for n, g in bias.items()}}

    def along(self, lam):
        z = self.z(lam)
        return {"l": lam, "zl": z, "Dl": self.D(z), "fl": self.f(z), "Hl": self.H(z)}


GX = {n: np.polynomial.legendre.leggauss(n) for n in (24, 40, 60, 100, 200, 300)}


def nodes(x, split, n, width=None):
    """Quadrature nodes on [0, x], split where the integrand is peaked."""
    pts = [0.0]
    for p in sorted({split} | ({split - width, split + width, split - 6 * width, split + 6 * width} if width else set())):
        if 0 < p < x:
            pts.append(p)
    pts.append(x)
    g, w = GX[n]
    xs, ws = [], []
    for a, b in zip(pts[:-1], pts[1:]):
        xs.append((b - a) / 2 * g + (a + b) / 2)
        ws.append((b - a) / 2 * w)
    return np.concatenate(xs), np.concatenate(ws)


class Terms:
    def __init__(self, spec):
        self.spec = spec
        self.order = spec["order"]
        self.integrated = set(spec["integrated"])
        self.idx = {e: i for i, e in enumerate(self.order)}
        self.poly = {(a, b): Poly(spec["terms"][i][j]) for i, a in enumerate(self.order) for j, b in enumerate(self.order)}

    def qs(self, effects=None):
        out = set()
        for (a, b), p in self.poly.items():
            if effects is None or (a in effects and b in effects):
                out |= {(p.q, s) for s in p.by}
        return out

    def divergent(self, a, b):
        return self.poly[(a, b)].div

    def amp(self, e, cosmo, z, x, bias):
        return float(ev(self.spec["amplitude"][e], cosmo.source(z, x, bias)))

    def kern(self, e, cosmo, z, x, bias, lam):
        return ev(self.spec["kernel"][e], {**cosmo.source(z, x, bias), **cosmo.along(lam)})

    def ordered(self, e1, e2, cosmo, K, bias1, bias2, zbar, r, mu, n=100):
        """The correlation of contribution e1 at point 1 with e2 at point 2, and a scale of its parts."""
        chi = float(cosmo.chi(zbar))
        x1, x2 = chi - r * mu / 2, chi + r * mu / 2
        c = (2 * chi * chi - r * r + mu * mu * r * r / 2) / (2 * chi * chi - mu * mu * r * r / 2)
        z1, z2 = float(cosmo.z(x1)), float(cosmo.z(x2))
        p = self.poly[(e1, e2)]
        i1, i2 = e1 in self.integrated, e2 in self.integrated
        rp = r * np.sqrt(max(1 - mu * mu, 1e-4))
        if not i1 and not i2:
            a = self.amp(e1, cosmo, z1, x1, bias1) * self.amp(e2, cosmo, z2, x2, bias2)
            v, s = p(K, np.float64(x1), np.float64(x2), c)
            return float(a * v), float(abs(a) * s)
        if i1 and not i2:
            lam, w = nodes(x1, min(x2 * c, x1), n, rp)
            a = w * self.amp(e2, cosmo, z2, x2, bias2) * self.kern(e1, cosmo, z1, x1, bias1, lam)
            v, s = p(K, lam, x2, c)
            return float(np.sum(a * v)), float(np.sum(np.abs(a) * s))
        if i2 and not i1:
            lam, w = nodes(x2, min(x1 * c, x2), n, rp)
            a = w * self.amp(e1, cosmo, z1, x1, bias1) * self.kern(e2, cosmo, z2, x2, bias2, lam)
            v, s = p(K, x1, lam, c)
            return float(np.sum(a * v)), float(np.sum(np.abs(a) * s))
        l1, w1 = nodes(x1, -1.0, n)
        a1 = w1 * self.kern(e1, cosmo, z1, x1, bias1, l1)
        tot = scale = 0.0
        sin = np.sqrt(max(1 - c * c, 1e-12))
        for lam, a in zip(l1, a1):
            l2, w2 = nodes(x2, lam * c, 40, max(lam * sin, 1e-3))
            b = w2 * self.kern(e2, cosmo, z2, x2, bias2, l2)
            v, s = p(K, lam, l2, c)
            tot += a * np.sum(b * v)
            scale += abs(a) * np.sum(np.abs(b) * s)
        return float(tot), float(scale)

    def plane(self, e1, e2, cosmo, K, bias1, bias2, z, r, mu):
        """The plane-parallel form: amplitudes at the mean redshift, leg 1 of population 1."""
        x = float(cosmo.chi(z))
        v = s = 0.0
        q = self.poly[(e1, e2)].q
        a = self.amp(e1, cosmo, z, x, bias1) * self.amp(e2, cosmo, z, x, bias2)
        for m, k in self.spec["plane"][e1][e2]:
            t = a * k * (mu * r) ** m[0] * float(K(q, m[1], r))
            v, s = v + t, s + abs(t)
        return v, s

    def plane_pair(self, e1, e2, *a):
        v, s = self.plane(e1, e2, *a)
        if e1 != e2:
            w, t = self.plane(e2, e1, *a)
            return v + w, s + t
        return v, s

    def limber(self, e1, e2, cosmo, J, bias1, bias2, z, r, mu):
        x = float(cosmo.chi(z))
        env = {"z": z, "x": x, "D": float(cosmo.D(z)), "Om": cosmo.om, "H0": H0 * cosmo.h, "absmu": abs(mu), "r": r, "half": 0.5, "pi": np.pi,
               "s1": float(bias1["s"](z)), "s2": float(bias2["s"](z)), "b1": float(bias1["b"](z)), "b2": float(bias2["b"](z))}
        L = self.spec["limber"]
        if e1 != e2:
            t = ev(L["densityacross"], env)
            env["J"] = J(t)
            v = float(ev(L["density"], env))
            env["J"] = abs(J(t)) + 0.1 * abs(J(t / 4))      # near its zeros, J is a difference
            return v, abs(float(ev(L["density"], env)))
        g, w = GX[200]
        u = (g + 1) / 2
        env.update(cosmo.along(u * x), u=u)
        env["J"] = J(ev(L["lensingacross"], env))
        v = float(np.sum(w / 2 * ev(L["lensing"], env)))
        return v, abs(v)

    def pair(self, e1, e2, *a, **kw):
        v, s = self.ordered(e1, e2, *a, **kw)
        if e1 != e2:
            w, t = self.ordered(e2, e1, *a, **kw)
            return v + w, s + t
        return v, s
