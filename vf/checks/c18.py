"""C18: traced trajectories are accurate solutions of the equation of motion."""
import math
import numpy as np
from scipy.constants import m_e, e as QE, mu_0
from scipy.integrate import solve_ivp
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, tracks as T
from .c12 import role_ring
import traceon.backend as B
import traceon.excitation as E
import traceon.solver as S
import traceon.interpolation as I
import traceon.geometry as G

val = st.one_of(num(0.5, 5, 0.5), num(-5, -0.5, 0.5))
atols = st.sampled_from([None, None, 1e-10, 1e-8, 1e-6, 1e-12])
launch_ = dict(x=st.lists(num(-1, 1), min_size=3, max_size=3), d=st.lists(num(-1, 1), min_size=3, max_size=3), e=st.one_of(num(20, 3000), st.sampled_from([0.5, 30000.])), ratio=st.one_of(num(0.05, 1.2), st.just(0.9)), atol=atols,
             lo=st.lists(num(0.02, 0.6), min_size=3, max_size=3), hi=st.lists(num(0.02, 0.6), min_size=3, max_size=3), pick=st.lists(num(0, 1), min_size=4, max_size=6), up=st.booleans())
launch = dct(**launch_)
common = dict(v=st.lists(val, min_size=6, max_size=6), ho=st.booleans(), slots=st.permutations(range(6)), la=launch, kind=st.sampled_from(['any', 'any', 'elec', 'mag']))


def charges(f):
    out = []
    for q in (f.electrostatic_point_charges, f.magnetostatic_point_charges, f.current_point_charges):
        if len(q): out.append(np.asarray(q.positions).reshape(-1, q.positions.shape[-1])[:, [0, -1]] if q.positions.shape[-1] == 2 or f.symmetry == F.RAD else np.asarray(q.positions).reshape(-1, 3))
    return np.concatenate(out) if out else np.zeros((0, 2))


def distance(f, Q, p):
    if not len(Q): return 9.
    if Q.shape[1] == 2: return np.hypot(Q[:, 0] - math.hypot(p[0], p[1]), Q[:, 1] - p[2]).min()
    return np.linalg.norm(Q - p, axis=1).min()


def scaled(f, eV, la, x, box, u=1.):
    """The field times a factor such that potentials are a given fraction of the energy and orbits not smaller than a few centimetres (times u)."""
    p = [x] + [np.array([box[0][i], box[1][j], box[2][k]]) for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    v = F.probe(f, p)
    top = np.abs(v[:, 3] - v[0, 3]).max(); H = np.linalg.norm(v[:, 4:7], axis=1).max()
    k = []
    if top > 0: k.append(la['ratio']*eV/top)
    if H > 0: k.append(m_e*T.speed(eV)/(QE*mu_0*H*u*max(0.04, 0.3*(1.3 - la['ratio']))))
    return (min(k)*f, min(k)) if k else (f, 1.)


def track(g, x, d, la, box, rec, near, energy, skip=lambda a, b: False, u=1.):
    eV = la['e']; near0 = 0.12*u
    v = eV*np.asarray(d)/np.linalg.norm(d)
    tracer = g.get_tracer(box)
    args = () if la['atol'] is None else (la['atol'],)
    t, P = tracer(x, v, *args)
    atol = la['atol'] or 1e-10
    T.check_start(t, P, x, v)
    T.check_bounds(P, box)
    n = len(t)
    sp = np.linalg.norm(P[:, 3:], axis=1); dx = np.linalg.norm(np.diff(P[:, :3], axis=0), axis=1)
    assert np.all(dx <= 0.01*sp.max()/sp.min()*1.001), f'a step of length {dx.max()}'
    acc = T.acceleration([(1., g)])
    # a step longer than the system from a place without any field cannot be seen to be too long by the method
    blind = lambda a, b: np.linalg.norm(b[:3] - a[:3]) > u and np.linalg.norm(acc(a))*(np.linalg.norm(b[:3] - a[:3])/np.linalg.norm(a[3:]))**2 < 150*atol
    near_ = lambda a, b: min(near(a[:3]), near(b[:3])) < near0 or skip(a, b) or (u < 1 and blind(a, b))
    done = T.check_steps(t, P, acc, atol, T.sample_steps(n, la['pick']), f'in a {type(g).__name__}', skip=near_)
    # no step may jump: positions and velocities are consistent everywhere
    am = 0.5*np.diff(t)[:, None]*(P[1:, 3:] + P[:-1, 3:]) - np.diff(P[:, :3], axis=0)
    lim = 0.5*np.diff(t)*np.linalg.norm(np.diff(P[:, 3:], axis=0), axis=1) + 1e-9*u + 20*atol + 1e-12*np.abs(P[:, :3]).max()
    # where they disagree (forces which change sign within a step may do so), the step itself is compared
    done += T.check_steps(t, P, acc, atol, np.flatnonzero(np.linalg.norm(am, axis=1) > lim)[:20], f'in a {type(g).__name__}, where positions and velocities disagree', skip=near_)
    far = n > 2 and all(near(P[i, :3]) > near0 for i in range(0, n, max(1, n//40))) and not any(skip(P[i], P[i + 1]) for i in range(n - 1))
    if far and energy is not None and n < 3000:
        W = lambda i: 0.5*m_e*sp[i]**2/QE - (energy(P[i, :3]) if energy else 0.)
        # each step leaves a velocity error of at most atol/dt
        lim = 5*m_e/QE*np.sum(sp[1:]*atol/np.diff(t)) + 1e-9*0.5*m_e*sp.max()**2/QE
        for i in T.sample_steps(n, la['pick']) + [n - 1]:
            assert abs(W(i) - W(0)) <= lim + 1e-6*eV*(la['ratio'] if energy else 0), f'total energy changes from {W(0)} to {W(i)} eV along the trajectory (allowed {lim})'
    if far and 3 < n < 400 and atol <= 1e-8:
        V, L = sp[0], max(dx.sum(), 1e-3*u); Tt = L/V
        f = lambda s, w: np.concatenate([w[3:], acc(np.concatenate([w[:3]*L, w[3:]*V]))*Tt/V])
        s = solve_ivp(f, (0, t[-1]/Tt), np.concatenate([P[0, :3]/L, P[0, 3:]/V]), method='DOP853', rtol=1e-11, atol=1e-12)
        err = np.abs(s.y[:3, -1]*L - P[-1, :3]).max()
        assert err <= 200*n*atol + 1e-8*L, f'the end of the trajectory differs by {err} from an independent integration ({n} points, tolerance {atol})'
        rec.tag('whole trajectory')
    t2, P2 = tracer(x, v, *args)
    assert np.array_equal(t, t2) and np.array_equal(P, P2), 'tracing twice gives different trajectories'
    return n, done


def make(c, sym3, u=1.):
    items = [i for i in c['items'] if c['kind'] == 'any' or i['role'] in (('volt', 'diel') if c['kind'] == 'elec' else ('mpot', 'coil', 'miz'))]
    assume(any(i['role'] in F.SOURCES for i in items))
    mesh, names = F.system_mesh(items, sym3, c.get('ms') or (0.6 if sym3 else 0.4), c['ho'], slots=c['slots'], coil=0.1 if 'ms' in c else 0.25)
    if sym3: assume(len(mesh.triangles) < 500)
    if u != 1: mesh = mesh.map_points(lambda p: u*np.asarray(p))
    return S.solve_direct(F.excite(mesh, sym3, items, names, c['v']))


def c_bem(sym3):
    return lambda c, rec: one(c, rec, sym3, make(c, sym3, c.get('u', 1.)))


def one(c, rec, sym3, f, least=True):
    u = c.get('u', 1.)
    la = c['la']; assume(any(la['d']))
    x = u*(np.array([1.3, 1.3, 1.3]) + la['x'] if sym3 else np.array([0.5, 0.3, 1.1]) + 1.2*np.array(la['x']))
    Q = charges(f)
    near = lambda p: distance(f, Q, p)
    assume(near(x) > 0.15*u)
    box = [[x[i] - u*la['lo'][i], x[i] + u*la['hi'][i]] for i in range(3)]
    g, k = scaled(f, la['e'], la, x, box, u)
    el, ma = f.is_electrostatic(), f.is_magnetostatic()
    n, done = track(g, x, la['d'], la, box, rec, near, g.electrostatic_potential_at_point if el else False, u=u)
    rec.nontrivial(done > 0 and least); rec.tag('elec' if el else '', 'mag' if ma else '', f'{int(math.log10(n))}', f'atol {la["atol"]}', f'unit {u}')


body = lambda role, **k: dct(role=st.just(role), d=st.one_of(F.radial_closed_, F.radial_open_) if not k else F.radial_closed_, **k)
magnetic = [body('mpot'), body('miz', K=st.sampled_from([2, 5.5]))]
several = st.one_of(*(st.tuples(*x).flatmap(st.permutations) for x in (
    [magnetic[1], dct(role=st.just('coil'), d=F.coil_)], [magnetic[0], dct(role=st.just('coil'), d=F.coil_)], [magnetic[1], dct(role=st.just('coil'), d=F.coil_), body('volt')],
    [body('volt'), body('diel', K=st.sampled_from([2, 3.5]))], [body('volt'), magnetic[0], dct(role=st.just('coil'), d=F.coil_)], [body('volt'), body('volt'), *magnetic])))


def c_many(c, rec):
    f = make(c, False)
    q = (f.electrostatic_point_charges, f.magnetostatic_point_charges, f.current_point_charges)
    n = max(map(len, q)); assume(n < 1500)
    one(c, rec, False, f, least=n >= 100)
    rec.tag('elements ' + ('<100' if n < 100 else '<300' if n < 300 else 'more'), f'{sum(len(x) > 40 for x in q)} kinds of more than 40')


def c_axial(c, rec):
    f = make(c, False)
    z0, L = c['z0'], c['L']
    a = I.FieldRadialAxial(f, z0, z0 + L, c['N'])
    la = c['la']; assume(any(la['d'][:2]) or la['d'][2])
    x = np.array([0.1*la['x'][0], 0.1*la['x'][1], z0 + L*(0.5 + 0.7*la['x'][2])])
    box = [[-0.3*la['lo'][0] - .12, 0.3*la['hi'][0] + .12], [-0.3*la['lo'][1] - .12, .3*la['hi'][1] + .12], [z0 - c['out'][0]*(1 if c['out'][0] > 0 else L), z0 + L + c['out'][1]*(1 if c['out'][1] > 0 else L)]]
    if not T.inside(box, x): x[2] = min(max(x[2], box[2][0]), box[2][1])
    d = np.array(la['d'])*[0.1, 0.1, 1.] if c['along'] else la['d']
    assume(np.any(d))
    g, k = scaled(a, la['e'], la, x, [[-.1, .1], [-.1, .1], [max(z0, x[2] - 1), min(z0 + L, max(z0, x[2] + 1))]])
    inn = lambda p: z0 <= p[2] <= z0 + L
    # steps across the ends of the interval or across a sample position, where the interpolant has a jump in a derivative
    h = a.z[1] - a.z[0]
    cell = lambda p: math.floor((p[2] - z0)/h)
    n, done = track(g, x, d, la, box, rec, lambda p: 9., None if not a.is_magnetostatic() or a.is_electrostatic() else False, skip=lambda p, q: cell(p) != cell(q))
    # outside the interval the electron moves in a straight line
    t, P = g.get_tracer(box)(x, la['e']*np.array(d)/np.linalg.norm(d), *(() if la['atol'] is None else (la['atol'],)))
    out = [i for i in range(n - 1) if not inn(P[i]) and not inn(P[i + 1]) and (P[i, 2] < z0) == (P[i + 1, 2] < z0)]
    for i in out[:200]:
        assert np.array_equal(P[i, 3:], P[i + 1, 3:]), f'the velocity changes outside the interpolated interval, from {P[i]} to {P[i + 1]}'
    rec.nontrivial(done > 0); rec.tag('elec' if a.is_electrostatic() else '', 'mag' if a.is_magnetostatic() else '', 'outside' if out else 'inside', f'{int(math.log10(n))}')


# ---------------------------------------------------------------- start outside the bounds
def c_outside(c, rec):
    f = make(c, c['three'])
    x = np.array(c['la']['x'])*2; d = c['la']['d']; assume(any(d))
    b = [[x[i] - c['la']['lo'][i], x[i] + c['la']['hi'][i]] for i in range(3)]
    k = c['ax']
    b[k] = [x[k] + 0.01, x[k] + 0.5] if c['side'] else [x[k] - .5, x[k] - 0.01]
    g = I.FieldRadialAxial(f, -1, 1, 10) if c['axial'] and not c['three'] else f
    t, P = g.get_tracer(b)(x, c['la']['e']*np.array(d)/np.linalg.norm(d))
    assert len(t) == 1 and P.shape == (1, 6) and t[0] == 0 and np.array_equal(P[0, :3], x), f'{len(t)} points for an electron which starts outside the bounds'
    rec.nontrivial(); rec.tag('axial' if g is not f else type(f).__name__)


# ---------------------------------------------------------------- analytic motion in fields given as functions
ana_ = dct(k=st.sampled_from(['E', 'B', 'EB', 'harm']), E=num(-200, 200), B=num(-3e-4, 3e-4, 1e-6), v=dct(e=num(5, 1000), d=st.lists(num(-1, 1), min_size=3, max_size=3)), ax=st.integers(0, 2), atol=st.sampled_from([1e-10, 1e-8, 1e-12]), half=st.lists(num(0.1, 1.5), min_size=3, max_size=3))


def c_analytic(c, rec):
    d = np.array(c['v']['d']); assume(np.linalg.norm(d) > 0.1)
    v = T.speed(c['v']['e'])*d/np.linalg.norm(d)
    u = np.zeros(3); u[c['ax']] = 1.
    Ev, Bv = (c['E']*u if 'E' in c['k'] else 0*u), (c['B']*u if 'B' in c['k'] else 0*u)
    w2 = (3e8 if c['k'] == 'harm' else 0)
    EM = -QE/m_e
    if c['k'] == 'harm':
        w = 0.3*np.linalg.norm(v)
        fun = lambda x, y, z, a, b, cc: w*w*np.array([x, y, z])/-EM
        # pulled towards the origin: ends of the box are reached or the orbit is bounded
        amp = np.linalg.norm(v)/w
        b = [[-0.3*amp, 0.3*amp]]*3
    else:
        fun = lambda x, y, z, a, b_, cc: Ev + np.cross([a, b_, cc], Bv)
        b = [[-h, h] for h in c['half']]
        if 'B' in c['k'] and c['B']:       # gyration inside the box would go on for long
            assume(abs(v @ u) > 0.05*np.linalg.norm(v) or np.linalg.norm(v)*m_e/(QE*abs(c['B'])) > 3)
    t, P = B.trace_particle(np.zeros(3), v, fun, b, c['atol'])
    assert t[0] == 0 and np.all(np.diff(t) > 0); T.check_bounds(P, b)
    n = len(t)
    if c['k'] == 'harm':
        X = np.outer(np.sin(w*t)/w, v); Vv = np.outer(np.cos(w*t), v)
    else:
        om = -EM*c['B'] if 'B' in c['k'] else 0.     # electrons turn with om = eB/m around the field
        vp = (v @ u)*u; vt = v - vp; cr = np.cross(u, vt)
        s, co = (np.sin(om*t)/om, (1 - np.cos(om*t))/om) if om else (t, 0*t)
        X = np.outer(t, vp) + np.outer(0.5*t**2, EM*Ev) + np.outer(s, vt) + np.outer(co, cr)
        Vv = np.outer(1 + 0*t, vp) + np.outer(t, EM*Ev) + np.outer(np.cos(om*t), vt) + np.outer(np.sin(om*t), cr)
    err = np.abs(P[:, :3] - X).max()
    L = np.abs(P[:, :3]).max()
    assert err <= 20*n*c['atol'] + 1e-8*L, f'{c["k"]}: position off by {err} after {n} steps'
    assert np.abs(P[:, 3:] - Vv).max() <= 1e-7*np.abs(Vv).max() + 50*n*c['atol']/np.diff(t).min(), f'{c["k"]}: velocity'
    rec.nontrivial(n > 2); rec.tag(c['k'])


# ---------------------------------------------------------------- more steps than one block of the native code
long_ = dct(k=st.sampled_from(['axial', 'axial', '3d']), s=st.sampled_from([100., 200., 400.]), e=num(20, 3000), R=num(0.5, 1.5), v=val, v2=val, n=num(1.01, 2.3), d=st.lists(num(-1, 1), min_size=2, max_size=2), up=st.booleans(), mag=st.booleans(), ratio=num(0.02, 0.5), off=st.lists(num(-1, 1), min_size=2, max_size=2), pick=st.lists(num(0, 1), min_size=3, max_size=3))


def c_long(c, rec):
    s = c['s']
    sgn = 1 if c['up'] else -1
    if c['k'] == 'axial':
        p = G.Path.line([c['R'], 0., -.5], [c['R'], 0., .5]); p.name = 'a'
        q = G.Path.line([c['R'] + .3, 0., 1.5], [c['R'], 0., 2.5]); q.name = 'b'
        mesh = (p.mesh(mesh_size=0.5) + q.mesh(mesh_size=0.5)).map_points(lambda x: s*np.asarray(x)); sym = F.RAD
    else:
        p = G.Surface.rectangle_xy(-.5, .5, -.5, .5).move(dx=c['R'] + 1.5); p.name = 'a'
        q = G.Surface.rectangle_yz(-.5, .5, .5, 1.5).move(dx=-c['R'] - 1.); q.name = 'b'
        mesh = (p.mesh(mesh_size=0.7) + q.mesh(mesh_size=0.7)).map_points(lambda x: s*np.asarray(x)); sym = F.D3
    ex = E.Excitation(mesh, sym)
    (ex.add_magnetostatic_potential if c['mag'] else ex.add_voltage)(a=c['v'], b=c['v2'])
    f = S.solve_direct(ex)
    if c['k'] == 'axial': f = I.FieldRadialAxial(f, -4*s, 6*s, 101)
    N = c['n']*1e5
    Lz = 0.01*N                    # path length if the speed stays
    x = np.array([0.05*s*c['off'][0], 0.05*s*c['off'][1], -sgn*Lz/2 + 0.3*s])
    d = np.array([0.03*c['d'][0], 0.03*c['d'][1], sgn])
    box = [[-.4*s - .1*Lz, .4*s + .1*Lz]]*2 + [[x[2] - (1e-3 if sgn > 0 else Lz), x[2] + (Lz if sgn > 0 else 1e-3)]]
    v = F.probe(f, [np.array([0., 0.05*s, z]) for z in np.linspace(x[2], x[2] + sgn*Lz, 40)])
    top, H = np.abs(v[:, 3]).max(), np.linalg.norm(v[:, 4:7], axis=1).max()
    k = (c['ratio']*c['e']/top if top else 1.) if not c['mag'] else (m_e*T.speed(c['e'])/(QE*mu_0*H*s) if H else 1.)
    g = k*f
    w = c['e']*d/np.linalg.norm(d)
    t, P = g.get_tracer(box)(x, w)
    T.check_start(t, P, x, w); T.check_bounds(P, box)
    n = len(t)
    sp = np.linalg.norm(P[:, 3:], axis=1)
    dx = np.linalg.norm(np.diff(P[:, :3], axis=0), axis=1)
    assert np.all(dx <= 0.01*sp.max()/sp.min()*1.001) and np.all(dx > 0), f'steps between {dx.min()} and {dx.max()} in a trajectory of {n} points'
    idx = sorted({i for b in (99999, 199998, 299997) for i in range(b - 3, b + 4)} | set(T.sample_steps(n, c['pick'])))
    done = T.check_steps(t, P, T.acceleration([(1., g)]), 1e-10, idx, f'of a trajectory of {n} points')
    am = 0.5*np.diff(t)[:, None]*(P[1:, 3:] + P[:-1, 3:]) - np.diff(P[:, :3], axis=0)
    lim = 0.5*np.diff(t)*np.linalg.norm(np.diff(P[:, 3:], axis=0), axis=1) + 1e-10 + 1e-12*np.abs(P[:, :3]).max()
    done += T.check_steps(t, P, T.acceleration([(1., g)]), 1e-10, np.flatnonzero(np.linalg.norm(am, axis=1) > lim)[:20], f'of a trajectory of {n} points, where positions and velocities disagree')
    # total energy
    W0 = c['e']
    for i in T.sample_steps(n, c['pick']) + [n - 1]:
        W = 0.5*m_e*sp[i]**2/QE - g.electrostatic_potential_at_point(P[i, :3]) + g.electrostatic_potential_at_point(P[0, :3])
        if c['mag'] or c['k'] == '3d': assert abs(W - W0) <= 1e-4*W0, f'energy {W} at step {i}, initially {W0}'
    rec.nontrivial(n > 1e5); rec.tag(c['k'], 'mag' if c['mag'] else 'elec', f'{n//100000} blocks')


PROPERTY = Property('C18', [
    Sub('radial', dct(items=st.lists(F.role_radial, min_size=1, max_size=3), **common), c_bem(False), quick=200, shards=8, rule='at least one step away from charges compared with an integration of high order'),
    Sub('many', dct(items=several, ms=st.sampled_from([0.03, 0.05, 0.07, 0.1]), **dict(common, kind=st.sampled_from(['any', 'any', 'mag', 'elec']))), c_many, quick=64, shards=8, rule='the same in a field of at least 100 elements of one kind'),
    Sub('three_d', dct(items=st.lists(F.role_3d, min_size=1, max_size=2), **common), c_bem(True), quick=100, shards=8, rule='the same in 3D'),
    Sub('small', dct(items=st.lists(F.role_radial, min_size=1, max_size=3), u=st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5]), **dict(common, la=dct(**dict(launch_, atol=st.sampled_from([None, 1e-10, 1e-12, 1e-13, 1e-14]))))), c_bem(False), quick=160, shards=6, rule='the same in systems of a centimetre to ten micrometres, with small tolerances'),
    Sub('axial', dct(items=st.lists(role_ring, min_size=1, max_size=3), z0=num(-1, 1), L=num(0.5, 3), N=st.sampled_from([2, 5, 12, 40, 100]), out=st.lists(st.one_of(num(0.01, 2), num(-0.45, -0.01)), min_size=2, max_size=2), along=st.booleans(), **common), c_axial, quick=200, shards=8, rule='at least one step within one interval of the interpolation compared'),
    Sub('analytic', ana_, c_analytic, quick=120, shards=2, rule='a trajectory of more than two points in a field given by a function'),
    Sub('outside', dct(items=st.lists(role_ring, min_size=1, max_size=1), three=st.just(False), ax=st.integers(0, 2), side=st.booleans(), axial=st.booleans(), **common), c_outside, quick=40, shards=1, rule='start outside the bounds'),
    Sub('long', long_, c_long, quick=24, shards=4, rule='a trajectory of more than 100000 points'),
], assumptions=['Steps are checked one by one from their own starting point, with twenty times the requested tolerance; those close to charges (0.12 m) or across a sample position of an interpolation are left out.',
                'Fields are scaled such that potentials are at most about the electron energy.'])
