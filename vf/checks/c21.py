"""C21: plane, axis and focus computations find the geometric intersection."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, tracks as T
import traceon.tracing as TR
import traceon.focus as FO
import traceon.solver as S

dist = st.one_of(num(0.01, 5), st.sampled_from([0.01, 1., 5.]), num(0.001, 0.05, 0.001))
vcomp = num(-3, 3)
side = st.lists(st.tuples(dist, num(-5, 5), num(-5, 5), vcomp, vcomp, vcomp).map(list), min_size=0, max_size=8)
some = st.lists(st.tuples(dist, num(-5, 5), num(-5, 5), vcomp, vcomp, vcomp).map(list), min_size=1, max_size=8)
expo = st.sampled_from([0, 0, 0, -100, -20, -3, 3, 20, 100])
AX = dict(xy=2, xz=1, yz=0, axis=0)


def frame_of(c):
    """orthonormal n, t1, t2"""
    if c['plane'] != 'any':
        i = AX[c['plane']]
        I = np.eye(3)
        return I[i], I[(i + 1) % 3], I[(i + 2) % 3]
    n = np.array(c['n'], float); assume(np.linalg.norm(n) > 0.1)
    n /= np.linalg.norm(n)
    a = np.eye(3)[np.argmin(np.abs(n))]
    t1 = np.cross(n, a); t1 /= np.linalg.norm(t1)
    return n, t1, np.cross(n, t1)


def polyline(c, d):
    """rows with signed distances d to the plane"""
    n, t1, t2 = frame_of(c)
    rows = c['rows']
    o = np.array(c['o'])
    if c['plane'] == 'axis': o = o*(1 - n)
    P = np.array([np.concatenate([o + r[1]*t1 + r[2]*t2, np.array(r[3:6])*1e6]) for r in rows])
    if c['plane'] == 'any': P[:, :3] += np.outer(d, n)
    else:
        i = AX[c['plane']]
        P[:, i] = o[i] + np.asarray(d)
    s = 10.**c['s']
    P[:, :3] *= s
    return n, t1, t2, o*s, P, s


def call(c, n, t1, t2, o, P, s):
    k = c['plane']
    if k == 'xy': return TR.xy_plane_intersection(P, o[2])
    if k == 'xz': return TR.xz_plane_intersection(P, o[1])
    if k == 'yz': return TR.yz_plane_intersection(P, o[0])
    if k == 'axis': return TR.axis_intersection(P)
    return TR.plane_intersection(P, o + s*(c['u'][0]*t1 + c['u'][1]*t2), n*10.**c['x']*(-1 if c['flip'] else 1))


def agree(got, want, P, d, k, what):
    j = min(k + 1, len(P) - 1)
    size = np.abs(P[:, :3]).max() + 1e-300
    # rounding of the distances moves the crossing along the segment
    lost = 1e-13*size/max(abs(d[k] - d[j]), 1e-300) if j != k else 0
    tol = np.concatenate([np.full(3, 1e-12*size), np.full(3, 1e-9*np.abs(P[:, 3:]).max() + 1e-6)]) + lost*np.abs(P[k] - P[j])
    assert got.shape == (6,) and np.all(np.abs(got - want) <= tol), f'{what}: {got}, the polyline crosses the plane at {want} (segment {k})'


def c_cross(c, rec):
    A, B = c['a'], c['b']
    on = c['on']
    if on == 'start': assume(B); A = []
    if on == 'end': assume(A); B = []
    if on in ('none', 'vertex'): assume(A and B)
    if on in ('start', 'end'): assume(c['plane'] != 'any' or c['n'].count(0) == 2)
    mid = [[0.] + c['m']] if on != 'none' else []
    sg = -1 if c['down'] else 1
    d = np.array([-sg*r[0] for r in A] + [0.]*len(mid) + [sg*r[0] for r in B])
    c = dict(c, rows=A + mid + B)
    if on in ('start', 'end'): c['x'] = 0; c['s'] = 0; c['o'] = [float(round(x)) for x in c['o']]; c['u'] = [0, 0]
    n, t1, t2, o, P, s = polyline(c, d)
    d = (P[:, :3] - o) @ n if c['plane'] == 'any' and on == 'none' else d*s
    if on == 'none':
        k = len(A) - 1
        f = d[k]/(d[k] - d[k+1])
        want = P[k] + f*(P[k+1] - P[k])
    else:
        k = len(A); want = P[k]
    before = P.copy()
    got = call(c, n, t1, t2, o, P, s)
    if on == 'vertex':   # any of the two segments may be taken
        assert np.abs(got[:3] - want[:3]).max() <= 1e-8*s and np.abs(got[3:] - want[3:]).max() <= 1., f'{c["plane"]}: {got}, the polyline passes the plane at its point {want}'
    elif c['plane'] == 'axis':
        assert np.ndim(got) == 0 and abs(got - want[2]) <= 1e-9*s, f'axis intersection at z={got}, expected {want[2]}'
    else: agree(got, want, P, d, k, c['plane'])
    assert np.array_equal(before, P), 'the trajectory was modified'
    rec.nontrivial(len(P) > 2 or on != 'none'); rec.tag(c['plane'], on, 'down' if c['down'] else 'up')


def c_vertex_axis(c, rec):
    c = dict(c, on='none' if c['on'] == 'vertex' and c['plane'] == 'axis' else c['on'])
    if c['plane'] == 'axis' and c['on'] != 'none': c['plane'] = 'yz'
    c_cross(c, rec)


def c_long(c, rec):
    """the same for trajectories of many points, as long traces have"""
    rng = np.random.default_rng(c['seed'])
    A, Bn = c['na'], c['nb']
    n, t1, t2 = frame_of(c)
    o = np.array(c['o']); N = A + Bn
    if c['plane'] == 'axis': o = o*(1 - n)
    # distances: near the crossing like those of a trace, small steps on either side, not monotonic
    w = 0.01*(np.arange(N) - A + rng.uniform(0.2, 0.8)) if c['even'] else np.sort(np.concatenate([-rng.uniform(0.01, 5, A), rng.uniform(0.01, 5, Bn)]))
    d = w*(1 + 0.3*np.sin(np.arange(N)*c['wave']))*(-1 if c['down'] else 1)
    P = np.concatenate([o + rng.uniform(-4, 4, (N, 1))*t1 + rng.uniform(-4, 4, (N, 1))*t2, rng.uniform(-3e6, 3e6, (N, 3))], axis=1)
    if c['plane'] == 'any': P[:, :3] += np.outer(d, n); d = (P[:, :3] - o) @ n
    else: P[:, AX[c['plane']]] = o[AX[c['plane']]] + d
    if c['miss']: P = P[:A]
    before = P.copy()
    try: got = call(dict(c, u=[0.5, -1.], x=0), n, t1, t2, o, P, 1.)
    except Exception as e:
        assert c['miss'], f'{c["plane"]}: {e!r} for a trajectory of {N} points, the {A}th of which is the last before the plane'
    else:
        assert not c['miss'], f'{c["plane"]}: the trajectory of {A} points stays on one side of the plane, but an intersection {got} is returned'
        k = A - 1
        want = P[k] + d[k]/(d[k] - d[k + 1])*(P[k + 1] - P[k])
        if c['plane'] == 'axis': assert np.ndim(got) == 0 and abs(got - want[2]) <= 1e-9, f'axis intersection at z={got}, expected {want[2]}'
        else: agree(got, want, P, d, k, c['plane'])
    assert np.array_equal(before, P), 'the trajectory was modified'
    rec.nontrivial(len(P) > 1000); rec.tag(c['plane'], 'miss' if c['miss'] else 'cross', f'10^{int(math.log10(len(P)))} points')


def c_miss(c, rec):
    c = dict(c, rows=c['a'])
    d = np.array([(-1 if c['down'] else 1)*r[0] for r in c['a']])
    n, t1, t2, o, P, s = polyline(c, d)
    if len(P) == 1: P = np.repeat(P, 2, 0)
    try: got = call(c, n, t1, t2, o, P, s)
    except Exception as e:
        assert not isinstance(e, (TypeError, AttributeError, IndexError)), repr(e)
    else: raise AssertionError(f'{c["plane"]}: the trajectory stays on one side of the plane, but an intersection {got} is returned')
    rec.nontrivial(len(c['a']) > 1); rec.tag(c['plane'])


def c_traced(c, rec):
    """straight trajectories of the tracer itself"""
    d = np.array(c['d']); assume(np.linalg.norm(d) > 0.1)
    u = d/np.linalg.norm(d)
    n = np.array(c['n'], float); assume(np.linalg.norm(n) > 0.1)
    n /= np.linalg.norm(n)
    assume(abs(n @ u) > 0.05)
    x = np.array(c['p'])
    b = [[x[i] - 3, x[i] + 3] for i in range(3)]
    t, P = (S.FieldRadialBEM() if c['k'] else S.Field3D_BEM()).get_tracer(b)(x, TR.velocity_vec(c['e'], d))
    hit = x + c['f']*2.9*u
    got = TR.plane_intersection(P, hit, -n if c['flip'] else n)
    assert np.abs(got[:3] - hit).max() <= 1e-9, f'intersection {got[:3]} of a straight trajectory with a plane through {hit}'
    v = T.speed(c['e'])*u
    assert np.abs(got[3:] - v).max() <= 1e-8*T.speed(c['e'])
    for q, f in ((2, TR.xy_plane_intersection), (1, TR.xz_plane_intersection), (0, TR.yz_plane_intersection)):
        if abs(u[q]) > 0.05:
            g = f(P, hit[q])
            assert np.abs(g[:3] - hit).max() <= 1e-9, f'{f.__name__} gives {g[:3]}, expected {hit}'
        if abs(u[q]) > 0.05:
            try: g = f(P, x[q] - math.copysign(1e-3, u[q]))
            except Exception: pass
            else: raise AssertionError(f'{f.__name__} finds {g} behind the start of a straight trajectory')
    rec.nontrivial(len(P) > 2)


def c_focus(c, rec):
    f = np.array(c['f'])*10.**c['s']
    s = 10.**c['s']
    if c['extra']:          # bundles of many rays
        rng = np.random.default_rng(c['seed'])
        c = dict(c, rays=c['rays'] + [dict(a=x[:2], t=5*x[2], v=math.copysign(0.1 + 4*abs(x[3]), x[3]), j=x[4:], m=i % 2) for i, x in enumerate(rng.uniform(-1, 1, (c['extra'], 7)).tolist())])
    a = np.array([r['a'] for r in c['rays']], float)*c['w']
    ac = a - a.mean(0)
    assume((ac**2).sum() > 1e-3*c['w']**2)
    ends, bundle = [], []
    for r, ai in zip(c['rays'], a):
        di = np.array([ai[0], ai[1], 1.])
        e = f + r['t']*s*di
        if c['spread']: e = e + np.array(r['j'])*c['spread']*s*min(c['w'], 1.)
        vz = r['v']*1e6
        row = np.concatenate([e, vz*di]); ends.append(row)
        junk = np.array([[k*0.37*s + 1, -k*s, 2*k*s, 1e5*(k + 1), 3e5, -2e5*(k + 1)] for k in range(r['m'])]).reshape(-1, 6)
        bundle.append(np.concatenate([junk, row[None]]))
    E = np.array(ends).astype(np.longdouble)
    al = E[:, 3:5]/E[:, 5:]
    B = E[:, :2] - E[:, 2:3]*al
    alc, Bc = al - al.mean(0), B - B.mean(0)
    Z = -(alc*Bc).sum()/(alc**2).sum()
    res = math.sqrt(((Bc + Z*alc)**2).mean())          # how far the rays miss each other
    want = np.array([*(B.mean(0) + Z*al.mean(0)), Z]).astype(float)
    cond = 1/math.sqrt((alc**2).mean())
    size = float(np.abs(E[:, :3]).max()) + np.abs(want).max()
    tol = 1e-14*float((1 + np.abs(al).max())**2)*(size*(1 + cond) + res*cond**2)
    how = c['how']
    arg = {'list': bundle, 'tuple': tuple(bundle), 'iterator': iter(bundle), 'array': np.array([b[-1:] for b in bundle])}[how]
    before = [b.copy() for b in bundle]
    got = FO.focus_position(arg)
    assert got.shape == (3,)
    if not c['spread']: assert np.abs(got - f).max() <= tol, f'the rays meet at {f}, focus {got}'
    assert np.abs(got - want).max() <= tol, f'focus {got}, least squares {want} (tolerance {tol})'
    assert all(np.array_equal(x, y) for x, y in zip(before, bundle)), 'the trajectories were modified'
    rec.nontrivial(len(bundle) > 2); rec.tag('spread' if c['spread'] else 'meeting', how, 'many rays' if c['extra'] else 'few rays')


plane = st.sampled_from(['any', 'any', 'any', 'xy', 'xz', 'yz', 'axis'])
normal = st.one_of(st.lists(num(-1, 1), min_size=3, max_size=3), st.sampled_from([[0, 0, 1], [1, 0, 0], [0, -1, 0]]))
common = dict(plane=plane, n=normal, o=st.lists(num(-4, 4), min_size=3, max_size=3), u=st.lists(num(-4, 4), min_size=2, max_size=2), x=expo, flip=st.booleans(), down=st.booleans(), s=st.sampled_from([0, 0, -6, -3, 2]))
ray = dct(a=st.lists(num(-1, 1), min_size=2, max_size=2), t=num(-5, 5), v=st.one_of(num(0.1, 5), num(-5, -0.1)), j=st.lists(num(-1, 1), min_size=3, max_size=3), m=st.integers(0, 3))

count = st.one_of(st.integers(1, 20000), st.sampled_from([1, 2, 1000, 4096, 65536, 100001, 230000]))
PROPERTY = Property('C21', [
    Sub('cross', dct(a=some, b=some, m=st.lists(num(-5, 5), min_size=5, max_size=5), on=st.sampled_from(['none', 'none', 'none', 'vertex', 'start', 'end']), **common), c_vertex_axis, quick=2500, shards=2, rule='a polyline of more than two points, or one with a point in the plane'),
    Sub('long', dct(na=count, nb=count, even=st.booleans(), wave=num(0, 3), seed=st.integers(0, 10**6), miss=st.sampled_from([False]*4 + [True]), **{k: v for k, v in common.items() if k not in ('u', 'x', 's')}), c_long, quick=160, shards=2, rule='a polyline of more than 1000 points'),
    Sub('miss', dct(a=some, **common), c_miss, quick=800, shards=1, rule='a polyline of at least two distinct points'),
    Sub('traced', dct(d=st.lists(num(-1, 1), min_size=3, max_size=3), n=normal, p=st.lists(num(-2, 2), min_size=3, max_size=3), e=num(0.1, 5000), f=num(0.02, 1), k=st.booleans(), flip=st.booleans()), c_traced, quick=300, shards=1, rule='a traced trajectory of more than two points'),
    Sub('focus', dct(f=st.lists(num(-4, 4), min_size=3, max_size=3), s=st.sampled_from([0, 0, -3, 2]), w=st.sampled_from([1., 1., .1, .01, 3., 1e-3, 1e-5, 1e-7]), spread=st.sampled_from([0, 0, 1e-3, 0.3]), how=st.sampled_from(['list', 'list', 'tuple', 'iterator', 'array']), rays=st.lists(ray, min_size=2, max_size=12), extra=st.sampled_from([0]*12 + [20, 50, 100, 199, 500, 2000]), seed=st.integers(0, 10**6)), c_focus, quick=1500, shards=1, rule='more than two rays'),
], assumptions=['Normals have lengths between 1e-100 and 1e100; trajectories have at least two points; a sample is either in the plane or at least 1e-3 of the typical size away from it.', 'Rays for the focus have a non-zero z velocity and are not all parallel.'])
