"""Concrete values of the abstract tokens of spec/CoffeValuation.tla, and of the value classes
of spec/CoffeTables.tla."""
import copy
import math

import numpy as np


def logspace(a, b, n):
    return [float(x) for x in np.geomspace(a, b, n)]


def pk_shape(k, amp=2.0e4, keq=0.015, tilt=0.96):
    k = np.asarray(k)
    q = k / keq / 5
    t = np.log(1 + 2.34 * q) / (2.34 * q) * (1 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25
    return [float(x) for x in amp * 65 * (k / keq) ** tilt * t ** 2]


def pk_table(v):
    if v == 1:
        k = logspace(1e-4, 30, 220)
        return [k, pk_shape(k)]
    k = logspace(2e-4, 15, 180)
    return [k, pk_shape(k, 1.3e4, 0.019, 1.0)]


def bias(v, base, slope):
    z = [0.0, 0.5, 1.0, 1.7, 2.5, 4.0, 7.0] if v != 2 else [0.0, 0.4, 0.9, 1.6, 3.0, 6.0]
    return [z, [base + slope * x * (1 + 0.1 * v) + 0.17 * v for x in z]]


V = {
    "omega_m": [0.3, 0.33, 0.27], "omega_baryon": [0.05, 0.045, 0.06], "omega_gamma": [9e-5, 7e-5, 2e-4],
    "h": [0.67, 0.7, 0.64], "w0": [-1.0, -0.9, -1.1], "wa": [0.0, 0.1, -0.15], "n_s": [0.96, 0.98, 0.94],
    "T_cmb": [2.726, 2.8, 2.6], "N_ur": [2.0328, 3.046, 1.0], "m_ncdm": [0.0, 0.1, 0.2], "YHe": [0.24, 0.25, 0.23],
    "N_ncdm": [1, 2, 3],
    "k_per_decade_for_bao": [70, 80, 90], "k_per_decade_for_pk": [10, 20, 30],
    "start_large_k_at_tau_h_over_tau_k": [0.05, 0.04, 0.03], "l_max_g": [30, 40, 50], "l_max_ur": [35, 45, 55],
    "tol_perturb_integration": [1e-6, 1e-4, 1e-3], "radiation_streaming_trigger_tau_over_tau_k": [45.0, 50.0, 60.0],
    "ur_fluid_trigger_tau_over_tau_k": [30.0, 40.0, 50.0],
    "sigma8": [0.8156, 0.83, 0.79], "A_s": [0.0, 2.1e-9, 1.9e-9],
    "k_min": [1e-5, 3e-5, 1e-4], "k_max": [50.0, 20.0, 10.0],
    "has_density": [True, False], "has_rsd": [True, False], "has_lensing": [True, False], "has_d1": [True, False],
    "has_d2": [False, True], "has_g1": [False, True], "has_g2": [False, True], "has_g3": [False, True],
    "has_g4": [False, True], "has_g5": [False, True],
    "has_flatsky_local": [False, True], "has_flatsky_local_nonlocal": [False, True], "has_flatsky_nonlocal": [False, True],
    "covariance_cosmic": [True, False], "covariance_mixed": [True, False], "covariance_poisson": [True, False],
    "has_binned_covariance": [True, False], "has_only_cross_correlations": [False, True],
    "number_density1": [[1e-3], [2e-3], [5e-4]], "number_density2": [[1e-3], [3e-3], [7e-4]],
    "pixelsize": [[10.0], [8.0], [12.5]], "fsky": [[1.0], [0.5], [0.3]],
    "covariance_populations": [[1, 2, 1, 2], [1, 1, 2, 2], [1, 3, 4, 2]],
    "covariance_integration_method": ["standard", "fftlog"], "covariance_integration_sampling": [64, 128, 200],
    "covariance_interpolation_method": ["bilinear", "bicubic"],
    "z_mean": [[1.0], [0.7], [1.2]], "deltaz": [[0.2], [0.15], [0.1]], "z_min": [[0.9], [0.85], [0.8]], "z_max": [[1.1], [1.2], [1.05]],
    "galaxy_bias1": [bias(v, 1.2, 0.5) for v in range(3)], "galaxy_bias2": [bias(v, 1.6, 0.3) for v in range(3)],
    "galaxy_bias3": [bias(v, 0.9, 0.2) for v in range(3)], "galaxy_bias4": [bias(v, 1.1, 0.7) for v in range(3)],
    "magnification_bias1": [bias(v, 0.3, 0.2) for v in range(3)], "magnification_bias2": [bias(v, 0.6, -0.1) for v in range(3)],
    "evolution_bias1": [bias(v, -0.4, 0.3) for v in range(3)], "evolution_bias2": [bias(v, 0.2, 0.5) for v in range(3)],
    "integration_1d_type": ["gsl", "exponential"], "integration_1d_prec": [1e-5, 1e-3, 1e-2],
    "background_sampling": [120, 150, 100], "integrals_fftlog_sampling": [4096, 2048, 1024], "integration_sampling": [2000, 3000, 1000],
    "sep": [[20.0, 60.0], [30.0], [15.0, 40.0, 90.0]], "mu": [[0.3, -0.6], [0.5], [0.0, 0.9]], "l": [[0, 2], [2], [1, 0, 4]],
    "pk_type": ["linear"], "verbose": [False, True],
    "pk": [None, pk_table(1), pk_table(2)],
}

# contexts: other starting points (token 0), and other values, for the same histories
CONTEXTS = {
    "plain": {},
    "flat": {"has_flatsky_local": [True, False], "has_flatsky_local_nonlocal": [True, False], "has_flatsky_nonlocal": [True, False],
             "covariance_integration_method": ["fftlog", "standard"], "l": [[0, 2], [2], [4, 0, 2]]},
    "bins": {"z_mean": [[0.6, 1.0], [0.7, 1.3], [0.8, 1.1]], "deltaz": [[0.1, 0.2], [0.2, 0.1], [0.05, 0.15]],
             "z_min": [[0.5, 0.9], [0.55, 0.95], [0.45, 1.0]], "z_max": [[0.7, 1.2], [0.75, 1.1], [0.8, 1.15]],
             "number_density1": [[1e-3, 5e-4], [2e-3, 1e-4], [1e-4, 2e-4]], "number_density2": [[1e-3, 8e-4], [3e-3, 1e-4], [1e-4, 5e-4]],
             "pixelsize": [[10.0, 12.0], [5.0, 7.0], [8.0, 20.0]], "fsky": [[1.0, 0.5], [0.2, 0.3], [0.7, 0.6]],
             "has_lensing": [False, True], "has_binned_covariance": [False, True],
             "covariance_populations": [[1, 1, 1, 1], [1, 2, 2, 1], [4, 3, 2, 1]]},
    "pk": {"pk": [pk_table(1), pk_table(1), pk_table(2)], "has_lensing": [False, True], "m_ncdm": [0.06, 0.1, 0.2]},
    "div": {"has_d2": [True, False], "has_g1": [True, False], "has_g3": [True, False], "has_lensing": [False, True],
            "sep": [[20.0, 60.0], [30.0], [15.0, 40.0]]},
}


def table(ctx="plain"):
    t = copy.copy(V)
    t.update(CONTEXTS[ctx])
    return t


# the relative tolerance below which two numbers count as the same, and what counts as zero
RTOL, ATOL = 1e-7, 1e-11


def flat(x, out=None):
    out = [] if out is None else out
    if isinstance(x, list):
        out.append("[")
        for y in x:
            flat(y, out)
        out.append("]")
    elif isinstance(x, dict):
        for k in sorted(x):
            out.append(k)
            flat(x[k], out)
    else:
        out.append(x)
    return out


def same(a, b, rtol=RTOL, atol=ATOL):
    """Equality of two returned values: same shape, numbers equal up to rounding."""
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return False
    nums = [abs(x) for x in fa if isinstance(x, float) and math.isfinite(x)]
    scale = 0.0
    for x, y in zip(fa, fb):
        if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if x != y or type(x) is not type(y):
                return False
        elif x == y:
            pass
        elif isinstance(x, float) and isinstance(y, float) and math.isnan(x) and math.isnan(y):
            pass
        elif not (math.isfinite(x) and math.isfinite(y)):
            return False
        elif abs(x - y) > rtol * max(abs(x), abs(y)):
            if not scale:
                scale = max(nums) if nums else 1.0
            if abs(x - y) > atol * scale:
                return False
    return True


class Tokens:
    """Numbers -> tokens, per kind: equal values get equal tokens."""

    def __init__(self, rtol=RTOL, atol=ATOL):
        self.reps, self.rtol, self.atol = {}, rtol, atol

    def __call__(self, kind, v):
        reps = self.reps.setdefault(kind, [])
        for i, r in enumerate(reps):
            if same(r, v, self.rtol, self.atol):
                return i
        reps.append(v)
        return len(reps) - 1
