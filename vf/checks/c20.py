"""C20: launch velocities have the requested energy and direction."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, tracks as T
import traceon.tracing as TR
import traceon.solver as S
import traceon.geometry as G
import traceon.excitation as E
import traceon.interpolation as I

energy = st.one_of(num(0.01, 5000), st.integers(1, 60000), st.sampled_from([1e-6, 1e-3, 39999.9, 40000, 40001., 2e5]), st.floats(1e-6, 1e5, allow_nan=False))
comp = st.one_of(st.sampled_from([0, 0., 1, -1, 1., -1.]), num(-5, 5), st.floats(-1, 1, allow_nan=False), st.integers(-20, 20))
expo = st.sampled_from([0, 0, 0, 0, -80, -20, -3, 3, 20, 80])
form = st.sampled_from(['list', 'tuple', 'array', 'int array', 'strided', 'reversed'])
ang = st.one_of(num(-7, 7), st.sampled_from([0, 0., math.pi/2, math.pi, -math.pi/2, 2*math.pi, 1, 2, 3, 1e-9]), st.floats(-10, 10, allow_nan=False))


def shaped(d, f):
    if f == 'list': return list(d)
    if f == 'tuple': return tuple(d)
    if f == 'int array': return np.array([int(x) for x in d])
    if f == 'strided': return np.repeat(np.array(d, float), 3)[::3]
    if f == 'reversed': return np.array(d[::-1], float)[::-1]
    return np.array(d, float)


def compare(v, eV, d, what):
    v = np.asarray(v); d = np.asarray(d, float)
    assert v.shape == (3,), f'{what}: shape {v.shape}'
    assert abs(np.linalg.norm(v) - eV) <= 1e-12*eV, f'{what}: magnitude {np.linalg.norm(v)}, energy {eV}'
    u = d/np.abs(d).max(); u = u/math.sqrt(u @ u)
    assert np.abs(v/eV - u).max() <= 1e-12, f'{what}: direction {v/eV}, requested {u}'


def c_vec(c, rec):
    d = [x*10.**c['x'] if c['x'] else x for x in c['d']]
    g = shaped(d, 'array' if c['x'] and c['f'] == 'int array' else c['f'])
    assume(np.abs(np.asarray(g, float)).max() > 0 and np.abs(np.asarray(g, float)).max() > 1e-90)
    want = np.array(g, float)
    before = np.array(g, copy=True)
    v = TR.velocity_vec(c['e'], g)
    compare(v, c['e'], want, f'velocity_vec({c["e"]}, {g!r})')
    assert np.array_equal(before, np.array(g)), 'the direction given was modified'
    w = TR.velocity_vec(np.float64(c['e']), g)
    assert np.array_equal(v, w)
    rec.nontrivial(np.count_nonzero(want) > 1 or c['x']); rec.tag(c['f'])


def c_angles(c, rec):
    e, th, ph = c['e'], c['th'], c['ph']
    compare(TR.velocity_vec_spherical(e, th, ph), e, [math.sin(th)*math.cos(ph), math.sin(th)*math.sin(ph), math.cos(th)], f'velocity_vec_spherical({e}, {th}, {ph})')
    for kw, s in (({}, -1), (dict(downward=True), -1), (dict(downward=False), 1)):
        v = TR.velocity_vec_xz_plane(e, th, **kw)
        compare(v, e, [math.sin(th), 0., s*math.cos(th)], f'velocity_vec_xz_plane({e}, {th}, {kw})')
        assert v[1] == 0
    rec.nontrivial(th != 0)


def c_reject(c, rec):
    for name, f in dict(vec=lambda: TR.velocity_vec(c['bad'], [0., 0., 1.]), spherical=lambda: TR.velocity_vec_spherical(c['bad'], 1., 2.), xz=lambda: TR.velocity_vec_xz_plane(c['bad'], 0.3), up=lambda: TR.velocity_vec_xz_plane(c['bad'], 0.3, downward=False)).items():
        try: r = f()
        except Exception: continue
        raise AssertionError(f'{name}: energy {c["bad"]} gives {r}')
    for d in ([0., 1.], [1., 0., 0., 0.], [[0., 0., 1.]], 1.):
        try: r = TR.velocity_vec(10., d)
        except Exception: continue
        raise AssertionError(f'direction {d} gives {r}')
    rec.nontrivial()


def tracers(k, b):
    if k == 'radial': return S.FieldRadialBEM().get_tracer(b)
    if k == '3d': return S.Field3D_BEM().get_tracer(b)
    p = G.Path.line([.5, 0., -.5], [.5, 0., .5]); p.name = 'a'
    e = E.Excitation(p.mesh(mesh_size=0.5), F.RAD); e.add_voltage(a=1.)
    return I.FieldRadialAxial(S.solve_direct(e), 500., 501., 4).get_tracer(b)


def c_trace(c, rec):
    how, e = c['how'], c['e']
    d = np.array(c['d'], float); assume(np.linalg.norm(d) > 0.01)
    if how == 'vec': v = TR.velocity_vec(e, d*10.**c['x'])
    elif how == 'spherical':
        v = TR.velocity_vec_spherical(e, c['th'], c['ph']); d = np.array([math.sin(c['th'])*math.cos(c['ph']), math.sin(c['th'])*math.sin(c['ph']), math.cos(c['th'])])
    else:
        v = TR.velocity_vec_xz_plane(e, c['th'], downward=how == 'down'); d = np.array([math.sin(c['th']), 0, (-1 if how == 'down' else 1)*math.cos(c['th'])])
    u = d/np.linalg.norm(d)
    x = np.array(c['p'])
    b = [[x[i] - c['h'][i], x[i] + c['h'][i]] for i in range(3)]
    t, P = tracers(c['k'], b)(x, v)
    s = T.speed(e)
    assert np.abs(P[:, 3:] - s*u).max() <= 1e-9*s, f'velocity {P[0, 3:]} m/s for {e} eV along {u}; expected {s*u}'
    assert np.abs(P[:, :3] - (x + np.outer(t*s, u))).max() <= 1e-9, 'the electron does not move along its launch direction'
    # it leaves the box where the ray does
    far = min(((b[i][1] if u[i] > 0 else b[i][0]) - x[i])/u[i] for i in range(3) if abs(u[i]) > 1e-12)
    assert t[-1]*s >= far - 1e-9 and t[-2]*s <= far + 1e-9, f'the trajectory ends at distance {t[-1]*s}, the box at {far}'
    rec.nontrivial(len(t) > 2); rec.tag(how, c['k'])


PROPERTY = Property('C20', [
    Sub('vec', dct(e=energy, d=st.lists(comp, min_size=3, max_size=3), x=expo, f=form), c_vec, quick=1500, shards=1, rule='a direction with more than one non-zero component, or of extreme length'),
    Sub('angles', dct(e=energy, th=ang, ph=ang), c_angles, quick=1500, shards=1, rule='an angle other than zero'),
    Sub('reject', dct(bad=st.one_of(st.sampled_from([0, 0., -0., -1, -1e-300, float('-inf')]), st.floats(max_value=0, allow_nan=False), st.integers(-1000, 0))), c_reject, quick=60, shards=1, rule='an energy that is not positive'),
    Sub('trace', dct(how=st.sampled_from(['vec', 'spherical', 'down', 'up']), e=energy, d=st.lists(num(-5, 5), min_size=3, max_size=3), x=expo, th=ang, ph=ang, p=st.lists(num(-2, 2), min_size=3, max_size=3), h=st.lists(num(0.05, 2), min_size=3, max_size=3), k=st.sampled_from(['radial', '3d', 'axial'])),
        c_trace, quick=400, shards=2, rule='a trajectory of more than two points without any field'),
], assumptions=['Direction vectors have lengths between 1e-90 and 1e90.'])
