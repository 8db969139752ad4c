"""Real numbers as the fixed point integers of FixedPoint.tla, and back."""
import math
ONE = 1000000
NAN, PINF, NINF = -2000000001, 2000000002, -2000000002

def fx(v):
    try:
        v = float(v)
    except Exception:
        return NAN
    if math.isnan(v):
        return NAN
    if math.isinf(v) or abs(v) > 1990.0:
        return PINF if v > 0 else NINF
    return int(round(v * ONE))

def fxs(a):
    return [fx(v) for v in a]

def fxm(a):
    return [fxs(r) for r in a]

def fl(i):
    if i == NAN: return float('nan')
    if i == PINF: return float('inf')
    if i == NINF: return float('-inf')
    return i / ONE
