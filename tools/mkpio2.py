#!/usr/bin/env python3-vt
# Writes cpp/pio2_hard.hpp: for every binary exponent, the f64 and f32 values
# nearest to a multiple of pi/2 (largest convergents of the continued fraction
# of 2^e / (pi/2)), the hardest arguments for trigonometric range reduction.
import os
from mpmath import mp, mpf, pi, floor
mp.prec = 2600
def conv(e, bits):
    x = mpf(2) ** e / (pi / 2); q0, q1 = 1, 0; out = []; a = floor(x); f = x - a
    while f != 0:
        x = 1 / f; a = int(floor(x)); q0, q1 = a * q0 + q1, q0
        if q0 >= 1 << bits: break
        out.append(q0); f = x - a
    return out[-2:]
def table(name, typ, bits, es, suf):
    v = set()
    for e in es:
        for q in conv(e, bits):
            if q.bit_length() + e >= 3: v.add((q, e))
    v = sorted(v, key=lambda p: mpf(p[0]) * mpf(2) ** p[1])
    return 'static const %s %s[] = {\n%s\n};\n' % (typ, name, ',\n'.join(', '.join('0x%xp%d%s' % (q, e, suf) for q, e in v[i:i + 4]) for i in range(0, len(v), 4)))
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'cpp', 'pio2_hard.hpp'), 'w') as f:
    f.write('// Generated by tools/mkpio2.py: values next to multiples of pi/2.\n')
    f.write(table('g_pio2_f64', 'double', 53, range(-52, 971), ''))
    f.write(table('g_pio2_f32', 'float', 24, range(-23, 104), 'f'))
