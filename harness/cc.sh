#!/bin/sh
# gcc, except that the C file Cython generates (glue, large) is compiled without optimisation.
case "$*" in
  *"-c "*/coffe.c) exec gcc "$@" -O0 -g0 ;;
  *) exec gcc "$@" ;;
esac
