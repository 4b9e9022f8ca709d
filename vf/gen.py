"""Shared generators (all produce JSON-able values)."""
from hypothesis import strategies as st


def num(lo, hi, step=0.01):
    """Multiples of step in [lo, hi]; shrinks towards the value closest to 0."""
    a, b = round(lo / step), round(hi / step)
    dec = max(0, len(repr(step).split('.')[-1]) if '.' in repr(step) else 0)
    return st.integers(a, b).map(lambda i: round(i * step, dec))


def real(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def pt(lo=-2., hi=2., step=0.01):
    return st.lists(num(lo, hi, step), min_size=3, max_size=3)


def ipt(lo=-3, hi=3):
    return st.lists(st.integers(lo, hi), min_size=3, max_size=3)


def dct(**kw):
    return st.fixed_dictionaries(kw)


def angle(lo=0.05, hi=6.2):
    return num(lo, hi, 0.01)


name = st.sampled_from(['a', 'b', 'lens', 'ground'])
