id = "shared-window-of-equation-of-state"
property = "P07"
edits = [("src/background.c", """        double *w_array = (double *)coffe_malloc(sizeof(double)*(bins + 1));
        for (size_t i = 0; i <= bins; ++i){
            z = z_max*i/(double)bins;
            z_array[i] = z;
            w_array[i] = coffe_dark_energy_eos(z, par);
        }
""", """        double *w_array = (double *)coffe_malloc(sizeof(double)*(bins + 1));
        /* the equation of state rarely changes, so its samples are kept */
        static double w_kept[16385];
        static double w_kept_w0 = 0;
        const int keep = (w_kept_w0 == par->w0);
        for (size_t i = 0; i <= bins; ++i){
            z = z_max*i/(double)bins;
            z_array[i] = z;
            if (!keep)
                w_kept[i] = coffe_dark_energy_eos(z, par);
            w_array[i] = w_kept[i];
        }
        w_kept_w0 = par->w0;
""")]
needs = "two objects in one process with the same w0 and different wa, the second one's background computed after the first one's"
breaks = "the second object's background uses the first one's wa"
demo = '''
a = make(pk=False, w0=-0.9, wa=0.0)
a.hubble_rate(1.0)
b = make(pk=False, w0=-0.9, wa=0.3)
got = b.hubble_rate(1.0)
om, og = b.omega_m, b.omega_gamma
de = 2.0 ** (3 * (1 - 0.9 + 0.3)) * np.exp(-3 * 0.3 * 0.5)
want = b.hubble_rate(0.0) * np.sqrt(om * 8 + og * 16 + (1 - om - og) * de)
check(close(got, want, 1e-3), "hubble rate of the second object %g, %g" % (got, want))
'''
