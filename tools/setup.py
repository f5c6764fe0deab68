#!/usr/bin/env python3
"""Probes the tools the checks need; every check builds its own binaries from /repo's working tree."""
import shutil, subprocess, sys
miss = [t for t in ("gfortran", "mpif90", "mpirun", "ninja", "g++", "gcc") if not shutil.which(t)]
import numpy, scipy
print("numpy", numpy.__version__, "missing tools:", miss)
sys.exit(1 if miss else 0)
