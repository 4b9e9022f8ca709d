"""Sequences of calls that reach the compiled code, executed by a child process whose copy of it is built with sanitisers."""
import json, os, select, subprocess, sys, tempfile
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def own(a):
    """A copy of its own (not part of a larger array), so that reading next to it is reading outside it."""
    return np.array(a, dtype=float, order='C')


# ------------------------------------------------------------------ in the child
def execute(c):
    return {'flow': x_flow, 'kernel': x_kernel, 'axial': x_axial, 'trace': x_trace, 'mesh': x_mesh, 'threads': x_threads}[c['k']](c)


def x_flow(c):
    from . import flow as W
    f, out = W.Flow(c['p']), []
    for s in c['steps']:
        if W.applicable(c['p'], s): out += f.run(s)
    return out


def x_kernel(c):
    import traceon.backend as B
    a, p, q, u = [own(x) for x in c['tri']], own(c['p']), own(c['q']), own(c['u'])
    n0 = np.cross(a[1] - a[0], a[2] - a[0])
    if abs(n0 @ (p - a[0])) < 1e-2*np.linalg.norm(n0): p = p + .1*n0/np.linalg.norm(n0)      # the flux at a point of the triangle's edges is not finite
    out = [[B.potential_triangle(a[0], a[1], a[2], p), B.flux_triangle(a[0], a[1], a[2], p, u/max(np.linalg.norm(u), 1e-3)), B.self_potential_triangle_v0(own(a[0]), own(a[1]), own(a[2])),
            B.self_potential_triangle(a[0], a[1], a[2], (a[0] + a[1] + a[2])/3)]]
    l = own(c['line']); l[:, 1] = 0
    out.append(B.higher_order_normal_radial(c['al'], l))
    out.append(B.normal_2d(own(l[0, ::2]), own(l[1, ::2])))
    out.append(B.normal_3d(own(c['tri'])))
    for al in (-1., 0., 1., c['al']):
        for vs in ([own(v) for v in l], [own(v[::2]) for v in l]):
            j, x = B.position_and_jacobian_radial(al, vs[0], vs[2], vs[3], vs[1])
            out += [[j], x]
    for al, be in ((0., 0.), (1., 0.), (0., 1.), (c['al'], .3)):
        j, x = B.position_and_jacobian_3d(al, be, own(c['tri'])); out += [[j], x]
    rp = l[:, [0, 2]]
    out.append([B.potential_radial_ring(abs(p[0]), p[2], abs(q[0]) + .01, q[2]), B.dr1_potential_radial_ring(abs(p[0]), p[2], abs(q[0]) + .01, q[2]), B.dz1_potential_radial_ring(abs(p[0]), p[2], abs(q[0]) + .01, q[2])])
    out.append(B.current_field_radial_ring(abs(p[0]), p[2], abs(q[0]) + .01, q[2]))
    out.append([B.self_potential_radial(own(l)), B.self_field_dot_normal_radial(own(l), 2.)])
    n = c['n']
    L = own([l + np.array([0., 0., 2.5*i]) for i in range(n)]); T = own([np.array(c['tri']) + np.array([0., 0., 9.*i]) for i in range(n)])
    z = own(np.linspace(-1, 2, c['nz']))
    j2, p2 = B.fill_jacobian_buffer_radial(L); j3, p3 = B.fill_jacobian_buffer_3d(T)
    ch = own([1., -2., 0.5, 3.][:n])
    out += [j2, p2, j3, p3, B.triangle_areas(T)]
    out.append(B.axial_derivatives_radial(z, ch, own(j2), own(p2)))
    out += [[B.potential_radial(p, ch, own(j2), own(p2))], B.field_radial(p, ch, own(j2), own(p2)), [B.potential_3d(p, ch, own(j3), own(p3))], B.field_3d(p, ch, own(j3), own(p3))]
    out.append(B.axial_coefficients_3d(ch, own(j3), own(p3), z))
    pc = own(p3); pc[..., 0] = np.abs(pc[..., 0]) + .05; pc[..., 1] = 0.
    out += [[B.current_potential_axial(float(c['al']), ch, own(j3), pc)], B.current_field(p, ch, own(j3), pc), B.current_axial_derivatives_radial(z, ch, own(j3), pc)]
    kinds = [[1, 2, 5, 3, 6][k] for k in c['kinds'][:n]]
    m = [np.zeros((n, n)) for _ in (0, 1)]
    for lo, hi in c['rows']:
        lo, hi = min(lo, n - 1), min(hi, n - 1)
        if lo > hi: lo, hi = hi, lo
        B.fill_matrix_radial(m[0], L, np.array(kinds, dtype=np.uint8), own([2.]*n), own(j2), own(p2), lo, hi)
        m[1][lo:hi + 1] = 0
        B.fill_matrix_3d(m[1], T, np.array(kinds, dtype=np.uint8), own([2.]*n), own(j3), own(p3), lo, hi)
    out += m
    pos = own(c['pos'])
    try: out.append(B.plane_intersection(pos, p, u))
    except ValueError: out.append([0.])
    f = B.kronrod_adaptive(lambda x: np.cos(x), 0., abs(c['al']) + .1); out.append([f])
    return out


def axial_points(z, c):
    zs = [z[0], z[-1], np.nextafter(z[0], -9), np.nextafter(z[0], 9), np.nextafter(z[-1], 9), np.nextafter(z[-1], -9), z[0] - 1, z[-1] + 1, 1e300, -1e300, np.inf, -np.inf, np.nan]
    zs += [z[i % len(z)] for i in c['node']] + [np.nextafter(z[i % len(z)], -9) for i in c['node']] + [z[0] + f*(z[-1] - z[0]) for f in c['f']]
    r = c['r']
    return [np.array([a*r, b*r, x]) for x in zs for a, b in ((1, 0), (0, 0), (.6, -.8))]


def x_axial(c):
    import traceon.backend as B
    rng = np.random.RandomState(c['seed'])
    n = c['nz']
    z = own(np.linspace(c['z'], c['z'] + c['L'], n))
    c2 = own(rng.normal(size=(n - 1, B.DERIV_2D_MAX, 6))); c3 = own(rng.normal(size=(n - 1, 2, B.NU_MAX, B.M_MAX, 4)))
    out = []
    for p in axial_points(z, c):
        out += [[B.potential_radial_derivs(p, z, c2), B.potential_3d_derivs(p, z, c3)], B.field_radial_derivs(p, z, c2), B.field_3d_derivs(p, z, c3)]
    return out


def x_trace(c):
    import traceon.backend as B
    rng = np.random.RandomState(c['seed'])
    n = c['nz']
    z = own(np.linspace(c['z'], c['z'] + c['L'], n))
    zero = c['long'] > 0
    # potentials small against the energy of the electron (2.8 eV), so that it leaves the box
    dz, amp = c['L']/(n - 1), 0. if zero else c['amp']
    s2 = c['L']**-np.arange(float(B.DERIV_2D_MAX))[:, None]*dz**-np.arange(5., -1, -1)[None, :]
    s3 = c['L']**-(2*np.arange(float(B.NU_MAX))[:, None] + np.arange(float(B.M_MAX))[None, :])[:, :, None]*dz**-np.arange(3., -1, -1)[None, None, :]
    c2 = own(rng.uniform(-1, 1, size=(2, n - 1, B.DERIV_2D_MAX, 6))*amp*s2); c3 = own(rng.uniform(-1, 1, size=(2, n - 1, 2, B.NU_MAX, B.M_MAX, 4))*amp*s3)
    x = own([.01*c['r']*c['L'], 0.02*c['L'], c['z'] + c['f'][0]*c['L']]); v = own(c['v'])*1e6
    if not np.any(v): v = own([0., 0., 1e6])
    # steps are at most 1 cm, so the number of blocks of stored steps follows from the size of the box
    w = c['long']*0.01*B.TRACING_BLOCK_SIZE if zero else min(.3*c['L'], 10.)
    b = own([[-w, w], [-w, w], [x[2] - w, x[2] + w]])
    if c['out']: b = b + 3*w
    res = [B.trace_particle_radial_derivs(x, v, b, 1e-6, z, c2[0].copy(), c2[1].copy()), B.trace_particle_3d_derivs(x, v, b, 1e-6, z, c3[0].copy(), c3[1].copy())]
    if not zero: res.append(B.trace_particle(x, v, lambda *a: np.array([1., -2., a[0]/c['L']])*c['amp']/c['L'], b, 1e-6))
    out = []
    for t, p in res:
        out += [[len(t)], t[:50], p[:50], t[-50:], p[-50:]]
        for pos in (p, p[-1:], p[:2].copy()):
            try: out.append(B.plane_intersection(own(pos), own(.5*(x + p[-1, :3])), own([0., .3, 1.])))
            except ValueError: out.append([0.])
    return out


def x_mesh(c):
    from . import flow as W
    import traceon.mesher as M
    P = own(c['pts']); n = len(P)
    t = np.array([[i % n for i in e] for e in c['tris']]).reshape(-1, 6 if c['six'] else 3)
    l = np.array([[i % n for i in e] for e in c['lines']]).reshape(-1, 4 if c['six'] else 2)
    if c['flat']: P[:, 1] = 0.
    gl = {'a': np.arange(len(l))} if len(l) else {}
    gt = {'a': np.arange(len(t)), 'b': np.arange(0, len(t), 2)} if len(t) else {}
    m = M.Mesh(points=P, lines=l, triangles=t, physical_to_lines=gl, physical_to_triangles=gt, ensure_outward_normals=c['en'])
    out = W.mesh_arrays(m)
    for f in (m.move(dx=1.), m.mirror_xz(), m + m.move(dx=.5)): out += W.mesh_arrays(f)
    for g in m.get_electrodes():
        m.ensure_inward_normals(g); m.ensure_outward_normals(g)
        out += W.mesh_arrays(m.extract_physical_group(g))
    return out


def x_threads(c):
    os.environ['TRACEON_THREADS'] = str(c['t'])
    try: return x_flow(dict(p=c['p'], steps=['solve', 'interp', 'axial']))
    finally: os.environ['TRACEON_THREADS'] = '1'


def child(so):
    """Reads one case per line, answers one line per case."""
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)              # ends with its parent
    from . import target
    target.import_traceon(so)
    import warnings, traceback
    import traceon.logging as L
    warnings.simplefilter('ignore'); np.seterr(all='ignore')
    L.set_log_level(L.LogLevel.SILENT)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    out.write('ready\n'); out.flush()
    for line in sys.stdin:
        try:
            r = execute(json.loads(line))
            f = tempfile.NamedTemporaryFile(dir=os.environ['_VF_TMP'], suffix='.npz', delete=False)
            np.savez(f, *[np.asarray(a, float) for a in r]); f.close()
            out.write('ok %d %s\n' % (len(r), f.name))
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            out.write('exception %s: %s [%s]\n' % (type(e).__name__, str(e).replace('\n', ' ')[:500], ' <- '.join('%s:%s' % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-4:]))))
        out.flush()


# ------------------------------------------------------------------ in the checking process
class Child:
    def __init__(self, so, rt, fill, tmp):
        from . import target
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ, LD_PRELOAD=rt, PYTHONMALLOC='malloc', VF_REPO=target.REPO, TRACEON_THREADS='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', _VF_TMP=tmp,
                   ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_segv=1:abort_on_error=0:detect_stack_use_after_return=1:max_malloc_fill_size=16777216:malloc_fill_byte=%d' % fill,
                   UBSAN_OPTIONS='print_stacktrace=1')
        env.pop('TRACEON_LOG_LEVEL', None)
        self.p = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); from vf import native; native.child(sys.argv[1])' % HERE, so],
                                  env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True)
        self.ready = self.p.stdout.readline().strip() == 'ready'

    def report(self):
        self.err.seek(0)
        return self.err.read().decode(errors='replace')

    def send(self, line):
        try: self.p.stdin.write(line + '\n'); self.p.stdin.flush()
        except BrokenPipeError: pass

    def receive(self, seconds):
        """('ok', arrays) | ('exception', text) | ('died', report) | ('slow', None)"""
        if not select.select([self.p.stdout], [], [], seconds)[0]: return 'slow', None
        a = self.p.stdout.readline().strip()
        if a.startswith('ok '):
            _, n, fn = a.split(' ')
            with np.load(fn) as d: r = [d['arr_%d' % i] for i in range(int(n))]
            os.unlink(fn)
            return 'ok', r
        if a.startswith('exception '): return 'exception', a
        rc = self.p.wait()
        return 'died', f'exit status {rc}: ' + self.report()

    def close(self):
        try: self.p.stdin.close()
        except OSError: pass
        self.p.kill(); self.p.wait()
