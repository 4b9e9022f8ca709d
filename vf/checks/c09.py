"""C09: solutions are linear in the applied excitations."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F
import traceon.excitation as E
import traceon.solver as S

mag = st.sampled_from([1, 1, 1, 1e-5, 1e-3, 1e4])
val_ = st.one_of(num(0.5, 5, 0.5), num(-5, -0.5, 0.5), st.integers(1, 4), st.integers(-4, -1), st.sampled_from([0, 0.0]))
val = st.one_of(val_, st.tuples(val_, mag).map(lambda t: t[0]*t[1]))


def system_(roles, n):
    return dct(items=st.lists(roles, min_size=2, max_size=n), v1=st.lists(val, min_size=n, max_size=n), v2=st.lists(val, min_size=n, max_size=n),
               a=num(-3, 3, 0.1), b=num(-3, 3, 0.1), pts=st.lists(pt(-3, 3), min_size=2, max_size=4), slots=st.permutations(range(6)), ho=st.booleans(),
               nm=st.permutations(['a', 'b', 'lens', 'ground', 'x0']))


rad_ = system_(F.role_radial, 4)
d3_ = system_(F.role_3d, 3)


def build(c, sym3):
    items = c['items']
    assume(any(i['role'] in F.SOURCES for i in items))
    mesh, names = F.system_mesh(items, sym3, 0.5 if sym3 else 0.25, c['ho'], slots=c['slots'], names=c['nm'][:len(items)])
    if sym3: assume(len(mesh.triangles) < 1000)
    return items, mesh, names


def close(a, b, scale, what):
    err = np.abs(a - b).max(axis=0)
    for k, nme in ((slice(0, 3), 'electric field'), (slice(3, 4), 'electrostatic potential'), (slice(4, 7), 'magnetic field'), (slice(7, 8), 'magnetostatic potential')):
        s = max(scale[:, k].max(), 1e-12)
        assert err[k].max() <= 1e-9*s, f'{what}: {nme} off by {err[k].max()} (scale {s})'


def linear(sym3):
    def check(c, rec):
        items, mesh, names = build(c, sym3)
        roles = [i['role'] for i in items]
        pts = [np.array(p) + 0.0137 for p in c['pts']]
        v1, v2 = c['v1'], c['v2']
        comb = [c['a']*x + c['b']*y for x, y in zip(v1, v2)]
        ps = [F.probe(S.solve_direct(F.excite(mesh, sym3, items, names, v)), pts) for v in (v1, v2, comb)]
        close(ps[2], c['a']*ps[0] + c['b']*ps[1], np.abs(c['a']*ps[0]) + np.abs(c['b']*ps[1]), f'combination of {roles}')
        src = [k for k, r in enumerate(roles) if r in F.SOURCES]
        rec.nontrivial(any(v1[k] for k in src) and any(v2[k] for k in src) and c['a'] and c['b'])
        rec.tag('3d' if sym3 else 'radial', *roles)
    return check


def superposition(sym3):
    def check(c, rec):
        items, mesh, names = build(c, sym3)
        roles = [i['role'] for i in items]
        pts = [np.array(p) + 0.0137 for p in c['pts']]
        v = c['v1'][:len(items)]
        exc = F.excite(mesh, sym3, items, names, v)
        d = S.solve_direct_superposition(exc)
        expect = {n for n, r, x in zip(names, roles, v) if r in F.SOURCES and x != 0}
        assert set(d) == expect, f'fields for groups {sorted(d)} instead of {sorted(expect)}'
        direct = F.probe(S.solve_direct(exc), pts)
        total, scale = np.zeros_like(direct), np.abs(direct)
        for k, n in enumerate(names):
            if n not in d: continue
            unit = [(1. if j == k else 0.) if r in F.SOURCES else 0. for j, r in enumerate(roles)]
            got = F.probe(d[n], pts)
            ref = F.probe(S.solve_direct(F.excite(mesh, sym3, items, names, unit)), pts)
            close(got, ref, np.abs(ref) + np.abs(got)*1e-3, f'unit field of the {roles[k]} group in {roles}')
            total += v[k]*got; scale = scale + np.abs(v[k]*got)
        close(total, direct, scale, f'weighted superposition of {roles}')
        rec.nontrivial(len(d) >= 2)
        rec.tag('3d' if sym3 else 'radial', f'{len(d)} fields', *roles)
        if {'volt'} & set(roles) and {'coil', 'mpot'} & set(roles): rec.tag('electric and magnetic')
    return check


PROPERTY = Property('C09', [
    Sub('linear', rad_, linear(False), quick=480, shards=8, rule='a radial system with sources that are non-zero in both excitations and both weights non-zero'),
    Sub('linear3', d3_, linear(True), quick=80, shards=8, rule='the same in 3D'),
    Sub('superposition', rad_, superposition(False), quick=480, shards=8, rule='a radial system in which at least two groups have a non-zero voltage, current or magnetostatic potential'),
    Sub('superposition3', d3_, superposition(True), quick=80, shards=8, rule='the same in 3D'),
], assumptions=['Equality is required to 1e-9 of the size of the terms: the linear systems are solved in double precision.'])
