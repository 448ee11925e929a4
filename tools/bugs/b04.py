id = "pixelsize-close-kept"
property = "P04"
edits = [("python/coffe/coffe.pyx", """        if self._parameters.pixelsize_len:
            free(self._parameters.pixelsize)

        self._parameters.pixelsize_len = len(temp)
        self._parameters.pixelsize = <double *> malloc(sizeof(double) * len(temp))
        for i in range(self._parameters.pixelsize_len):
            self._parameters.pixelsize[i] = temp[i]
""", """        # identical values leave everything as it is
        if len(temp) == self._parameters.pixelsize_len and np.allclose(temp, self.pixelsize):
            return

        if self._parameters.pixelsize_len:
            free(self._parameters.pixelsize)

        self._parameters.pixelsize_len = len(temp)
        self._parameters.pixelsize = <double *> malloc(sizeof(double) * len(temp))
        for i in range(self._parameters.pixelsize_len):
            self._parameters.pixelsize[i] = temp[i]
""")]
needs = "pixelsize changed by less than a part in 1e5"
breaks = "the small change is dropped"
demo = '''
a = make(pk=False)
a.pixelsize = [10.0]
a.pixelsize = [10.00005]
check(list(a.pixelsize) == [10.00005], "pixelsize reads back %r" % list(a.pixelsize))
'''
