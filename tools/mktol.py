#!/usr/bin/env python3
"""Tolerances: the largest proved error bound per (function group, CPU path, options, class), rounded up.
usage: mktol.py MEASURE_FILE... > tools/tolerances.txt  (files written by `engine check ALL --full --measure`)"""
import sys, math
d = {}
for f in sys.argv[1:]:
    for l in open(f):
        k, v = l.rstrip().rsplit(' ', 1)
        d[k] = max(d.get(k, 0), float(v))
for k in sorted(d):
    if 'to_sharp' in k and k.endswith(' uv'): print(k + ' 8.00'); continue # of the steepest transfer, power 2.8
    print('%s %.2f' % (k, math.ceil((d[k] * 1.02 + 0.3) * 4) / 4 if d[k] > 0 else 0))
