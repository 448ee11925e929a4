"""python -m coffe of a build: module_main.py BUILD_DIR ARGUMENTS..."""
import ctypes
import os
import runpy
import sys

b = sys.argv[1]
sys.setdlopenflags(os.RTLD_GLOBAL | os.RTLD_LAZY)
ctypes.CDLL(b + "/stub.so", os.RTLD_GLOBAL | os.RTLD_LAZY)
sys.path[0] = b + "/stage"
sys.argv[1:] = sys.argv[2:]
runpy.run_module("coffe", run_name="__main__", alter_sys=True)
