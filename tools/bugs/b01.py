id = "stale-average-covariance"
property = "P01"
edits = [("python/coffe/coffe.pyx", """        for i in range(self._parameters.density2_len):
            self._parameters.density2[i] = temp[i]
        self._free_covariance_multipoles()
        self._free_average_covariance_multipoles()
""", """        for i in range(self._parameters.density2_len):
            self._parameters.density2[i] = temp[i]
        self._free_covariance_multipoles()
""")]
needs = "the covariance of averaged multipoles computed, then number_density2 changed, then the same covariance asked for again without any other covariance in between"
breaks = "the averaged covariance is the one of the previous number densities"
demo = '''
kw = dict(sep=[20.0, 50.0], l=[0, 2], z_min=[0.9], z_max=[1.1], number_density1=[1e-3], number_density2=[1e-3], pixelsize=[10.0], fsky=[1.0],
          covariance_populations=[1, 2, 1, 2])
a = make(**kw)
a.compute_average_covariance_bulk()
a.number_density2 = [3e-3]
got = [x.value for x in a.compute_average_covariance_bulk()]
b = make(**{**kw, "number_density2": [3e-3]})
want = [x.value for x in b.compute_average_covariance_bulk()]
check(close(got, want), "averaged covariance after number_density2 changed")
'''
