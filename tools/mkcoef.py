#!/usr/bin/env python3
"""Tolerances of P16: the proved error bound per (function group, options, matrix, class) and CPU path, plus 0.02.
usage: mkcoef.py MEASURE_FILE > tools/coefficients.txt  (written by `engine check P16 --measure`)"""
import sys, math
for l in open(sys.argv[1]):
    w = l.split()
    print(' '.join(w[:-6] + ['%.2f' % (math.ceil((float(v) + 0.02) * 100 - 1e-6) / 100 if float(v) > 0 else 0) for v in w[-6:]]))
