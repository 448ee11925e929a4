id = "refused-deltaz-stays"
property = "P03"
edits = [("python/coffe/coffe.pyx", """        if not all(_>= 0 and _ < 10 for _ in temp):
            raise ValueError

        if self._parameters.deltaz_len:
            free(self._parameters.deltaz)

        self._parameters.deltaz_len = len(temp)
        self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
        for i in range(self._parameters.deltaz_len):
            self._parameters.deltaz[i] = temp[i]
""", """        if self._parameters.deltaz_len:
            free(self._parameters.deltaz)

        self._parameters.deltaz_len = len(temp)
        self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
        for i, item in enumerate(temp):
            if not (item >= 0 and item < 10):
                self._parameters.deltaz_len = i
                raise ValueError
            self._parameters.deltaz[i] = item
""")]
needs = "a list for deltaz whose later element is out of range, refused, and the parameter read (or the covariance computed) afterwards"
breaks = "a refused list leaves its leading part behind as the new value"
demo = '''
a = make(pk=False, z_mean=[0.5, 1.0], deltaz=[0.1, 0.2])
try:
    a.deltaz = [0.3, 12.0]
    check(False, "refused")
except ValueError:
    pass
check(close(a.deltaz, [0.1, 0.2]), "deltaz after a refused value: %s" % list(a.deltaz))
'''
