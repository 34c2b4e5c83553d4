"""Bit-level abstract values: each bit of a machine word is 0, 1 or free ('?').
A value built from one random word by constant shifts and masks keeps its free bits independent, so the ranges
computed from it are exact; anything else is sound but possibly too wide, and the caller must say so."""
from dom import *

def bits(t, w):
    """(list of w entries in {0, 1, '?'}, exact)"""
    if t.op == 'int': return [(t.a[0] >> i) & 1 for i in range(w)], True
    if t.op == 'sym': return ['?'] * w, str(t.a[0]).startswith('rand#')
    if t.op == 'app' and t.a[0].startswith('op:') and len(t.a[1]) == 2:
        o = t.a[0][3:]; a, b = t.a[1]
        if o in ('Shl', 'Shr') and b.op == 'int' and 0 <= b.a[0] < w:
            v, ex = bits(a, w); k = b.a[0]
            return ([0] * k + v[:w - k] if o == 'Shl' else v[k:] + [0] * k), ex
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            x, e1 = bits(a, w); y, e2 = bits(b, w)
            def f(p, q):
                if o == 'BitAnd': return 0 if p == 0 or q == 0 else p if q == 1 else q if p == 1 else '?'
                if o == 'BitOr': return 1 if p == 1 or q == 1 else p if q == 0 else q if p == 0 else '?'
                return p ^ q if p != '?' and q != '?' else '?'
            return [f(p, q) for p, q in zip(x, y)], e1 and e2 and (a.op == 'int' or b.op == 'int')
    if t.op == 'app' and t.a[0] == 'num:wrapping_mul' and t.a[1][1].op == 'int' and t.a[1][1].a[0] > 0:
        n = t.a[1][1].a[0]; k = (n & -n).bit_length() - 1
        v, ex = bits(t.a[1][0], w)
        return ([0] * k + v[:w - k] if n == 1 << k else [0] * k + ['?'] * (w - k)), ex and n == 1 << k
    if t.op == 'app' and t.a[0] == 'bitnot':
        v, ex = bits(t.a[1][0], w)
        return [b if b == '?' else 1 - b for b in v], ex
    return ['?'] * w, False

def count_range(kind, t, w):
    """(least, greatest, exact) of trailing/leading zeros, ones"""
    v, ex = bits(t, w)
    if kind.startswith('leading'): v = v[::-1]
    if kind.endswith('ones') and kind != 'count_ones': v = [b if b == '?' else 1 - b for b in v]
    if kind.startswith('count'):
        one = 1 if kind == 'count_ones' else 0
        return sum(b == one for b in v), sum(b != 1 - one for b in v), ex
    lo = next((i for i, b in enumerate(v) if b != 0), w)
    hi = next((i for i, b in enumerate(v) if b == 1), w)
    return lo, hi, ex
COUNTS = ('trailing_zeros', 'leading_zeros', 'trailing_ones', 'leading_ones', 'count_ones', 'count_zeros')
