"""C11: the number of worker threads does not change results (differential against one thread)."""
import os
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F
import traceon.excitation as E
import traceon.geometry as G
import traceon.interpolation as I
import traceon.solver as S

threads = st.one_of(st.integers(2, 12), st.sampled_from([16, 31, 40, 64, 100, 150]), st.just(None))
val = st.one_of(num(0.5, 5, 0.5), st.integers(-4, -1))


class using:
    """TRACEON_THREADS for the duration of a block (None: unset, the library's default)."""
    def __init__(self, n): self.n = n
    def __enter__(self):
        self.old = os.environ.get('TRACEON_THREADS')
        if self.n is None: os.environ.pop('TRACEON_THREADS', None)
        else: os.environ['TRACEON_THREADS'] = str(self.n)
    def __exit__(self, *a):
        if self.old is None: os.environ.pop('TRACEON_THREADS', None)
        else: os.environ['TRACEON_THREADS'] = self.old


def base(roles, n):
    return dict(items=st.lists(roles, min_size=1, max_size=n), v=st.lists(val, min_size=n, max_size=n), pts=st.lists(pt(-3, 3), min_size=2, max_size=3),
                slots=st.permutations(range(6)), ho=st.booleans(), t=st.lists(threads, min_size=1, max_size=3), rep=st.integers(1, 2))


rad_ = dct(**base(F.role_radial, 3), ms=st.sampled_from([0.1, 0.2, 0.25, 0.5, 1, 3]))
d3_ = dct(**base(F.role_3d, 2), ms=st.sampled_from([0.4, 0.6, 1]))
axial_ = dct(**base(F.role_radial, 3), ms=st.sampled_from([0.25, 0.5]), N=st.one_of(st.integers(2, 12), st.integers(13, 120), st.just(None)), z=num(-2, 1), L=num(0.5, 6))


def build(c, sym3):
    items = c['items']
    assume(any(i['role'] in F.SOURCES for i in items))
    mesh, names = F.system_mesh(items, sym3, c['ms'], c['ho'], slots=c['slots'])
    if sym3: assume(len(mesh.triangles) < 600)
    return F.excite(mesh, sym3, items, names, c['v']), mesh, [i['role'] for i in items]


def same(a, b, what, tol=1e-8):
    for k, nme in ((slice(0, 3), 'electric field'), (slice(3, 4), 'electrostatic potential'), (slice(4, 7), 'magnetic field'), (slice(7, 8), 'magnetostatic potential')):
        s = max(np.abs(a[:, k]).max(), np.abs(b[:, k]).max())
        e = np.abs(a[:, k] - b[:, k]).max()
        assert e <= tol*s, f'{what}: {nme} differs by {e} (size {s})'


def charges(f): return [x.charges for x in (f.electrostatic_point_charges, f.magnetostatic_point_charges, f.current_point_charges)]


def solving(sym3):
    def check(c, rec):
        exc, mesh, roles = build(c, sym3)
        pts = [np.array(p) + 0.0137 for p in c['pts']]
        with using(1): f1 = S.solve_direct(exc); s1 = S.solve_direct_superposition(exc)
        a = F.probe(f1, pts)
        n = len(charges(f1)[0]) + len(charges(f1)[1])
        for t in c['t']:
            for _ in range(c['rep']):
                with using(t): f2 = S.solve_direct(exc)
                for x, y in zip(charges(f1), charges(f2)):
                    assert x.shape == y.shape, f'{t} threads: {y.shape} charges instead of {x.shape}'
                    if len(x): assert np.abs(x - y).max() <= 1e-8*max(np.abs(x).max(), 1e-300), f'{t} threads: charges differ by {np.abs(x - y).max()} ({roles}, {n} elements)'
                same(a, F.probe(f2, pts), f'{t} threads, {roles}, {n} elements')
        t = c['t'][-1]
        with using(t): s2 = S.solve_direct_superposition(exc)
        assert set(s1) == set(s2), f'{t} threads: fields of {sorted(s2)} instead of {sorted(s1)}'
        for k in s1: same(F.probe(s1[k], pts), F.probe(s2[k], pts), f'superposition with {t} threads, {roles}')
        rec.nontrivial(n > 0 and any(x is None or x > 1 for x in c['t']))
        rec.tag(*roles, *('default' if x is None else 'more threads than elements' if x > n else 'uneven split' if n % x else 'even split' for x in c['t']))
    return check


def c_axial(c, rec):
    exc, mesh, roles = build(c, False)
    f = S.solve_direct(exc)
    z0, z1 = c['z'], c['z'] + c['L']
    with using(1): i1 = I.FieldRadialAxial(f, z0, z1, c['N'])
    pts = [np.array([x, y, z]) for x, y in ((0., 0.), (0.01, -0.02)) for z in np.linspace(z0, z1, 7 + 2*min(len(i1.z), 40))]
    a = F.probe(i1, pts)
    for t in c['t']:
        for _ in range(c['rep']):
            with using(t): i2 = I.FieldRadialAxial(f, z0, z1, c['N'])
            assert np.array_equal(i1.z, i2.z), f'{t} threads: {len(i2.z)} samples instead of {len(i1.z)}'
            same(a, F.probe(i2, pts), f'interpolation of {roles} with {t} threads, {len(i1.z)} samples')
    rec.nontrivial(any(x is None or x > 1 for x in c['t']))
    n = len(i1.z)
    rec.tag(*roles, *('default' if x is None else 'more threads than samples' if x > n else 'uneven split' if n % x else 'even split' for x in c['t']))


PROPERTY = Property('C11', [
    Sub('solve', rad_, solving(False), quick=320, shards=8, rule='a radial system with at least one element, solved with one thread and with another number of threads (possibly more than elements) or the default'),
    Sub('solve3', d3_, solving(True), quick=64, shards=8, rule='the same in 3D'),
    Sub('axial', axial_, c_axial, quick=240, shards=8, rule='axial interpolation with another number of threads, possibly more than samples'),
], assumptions=['The reference is the same computation with TRACEON_THREADS=1; C08-C10 decide that result itself.', 'Equality is required to 1e-8 of the largest charge or field; the rows of the matrix are computed identically whatever the split.'])
