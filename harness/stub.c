/*
 * The sandbox has no CLASS.  The extension module leaves `parse_external_power_spectrum`
 * undefined; this stand-in supplies it, with a deterministic P(k, z=0) that depends on every
 * parameter CLASS would have been given, so that histories which invalidate the power spectrum
 * can be replayed on the real extension module.  Nothing here is part of the code under test.
 */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include "common.h"

static long calls = 0;
long coffe_stub_calls(void) { return calls; }

int parse_external_power_spectrum(coffe_parameters_t *par)
{
    ++calls;
    coffe_free_spline(&par->power_spectrum);
    coffe_free_spline(&par->power_spectrum_norm);
    const size_t n = 600;
    double *k = (double *)malloc(sizeof(double) * n);
    double *pk = (double *)malloc(sizeof(double) * n);
    const double h = par->h;
    const double om = par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu;
    const double gamma = om * h * exp(-par->Omega0_baryon * (1 + sqrt(2 * h) / om));
    double amp = par->A_s != 0 ? par->A_s * 4e8 : par->sigma8 * par->sigma8;
    amp *= (1 + 0.03 * (par->w0 + 1) + 0.01 * par->wa);
    amp *= 1 + 0.05 * (par->T_cmb - 2.726) + 0.01 * (par->N_ur - 2.0328) - 0.2 * par->m_ncdm
         + 0.01 * par->N_ncdm + 0.02 * par->YHe + 3.0 * par->Omega0_gamma;
    amp *= 1 + 1e-4 * par->class_precision.k_per_decade_for_bao
         + 1e-3 * par->class_precision.k_per_decade_for_pk
         + 1e-1 * par->class_precision.start_large_k_at_tau_h_over_tau_k
         + 1e-3 * par->class_precision.l_max_g
         + 1e-3 * par->class_precision.l_max_ur
         + 1e1 * par->class_precision.tol_perturb_integration
         + 1e-4 * par->class_precision.radiation_streaming_trigger_tau_over_tau_k
         + 1e-4 * par->class_precision.ur_fluid_trigger_tau_over_tau_k
         + 0.1 * (int)par->pk_type;
    const double lo = log(par->k_min < 1e-5 ? par->k_min : 1e-5), hi = log(par->k_max < 10. ? 10. : par->k_max);
    for (size_t i = 0; i < n; ++i){
        k[i] = exp(lo + (hi - lo) * (double)i / (n - 1));
        if (i == 0 && par->k_min < k[0])
            k[0] = par->k_min;
        if (i == n - 1 && par->k_max > k[i])
            k[i] = par->k_max;
        const double q = k[i] / h / gamma;
        const double t = log(1 + 2.34 * q) / (2.34 * q)
            * pow(1 + 3.89 * q + pow(16.1 * q, 2) + pow(5.46 * q, 3) + pow(6.71 * q, 4), -0.25);
        pk[i] = amp * 2.2e7 / h / h / h * pow(k[i] / par->k_pivot, par->n_s) * 0.05 * t * t;
    }
    par->k_min_norm = par->k_min;
    par->k_max_norm = par->k_max;
    coffe_init_spline(&par->power_spectrum, k, pk, n, par->interp_method);
    coffe_init_spline(&par->power_spectrum_norm, k, pk, n, par->interp_method);
    free(k);
    free(pk);
    return EXIT_SUCCESS;
}
