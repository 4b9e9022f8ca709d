"""C24: log output respects the selected verbosity and never affects results."""
import ctypes, json, os, re, subprocess, sys, tempfile, warnings
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property, HarnessError
from ..gen import *
from .. import flow as W, target
import traceon.logging as L
import traceon.mesher as M
import traceon.tracing as T

LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'SILENT']
libc = ctypes.CDLL(None)


class Capture:
    """Everything written to the standard output and error descriptors, by Python or C code."""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush(); libc.fflush(None)
        self.f = [tempfile.TemporaryFile() for _ in (1, 2)]
        self.old = [os.dup(fd) for fd in (1, 2)]
        for fd, f in zip((1, 2), self.f): os.dup2(f.fileno(), fd)
        return self

    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush(); libc.fflush(None)
        for fd, o in zip((1, 2), self.old): os.dup2(o, fd); os.close(o)
        self.out, self.err = [], []
        for f, l in zip(self.f, (self.out, self.err)):
            f.seek(0); l += f.read().decode(errors='replace').splitlines(); f.close()


def severity(line):
    for s, p in ((0, 'DEBUG'), (2, 'WARNING'), (3, 'ERROR')):
        if line.startswith(p): return s
    return 1


def strip(line): return re.sub(r'[0-9.]+', '#', line)


def messages(lines, level): return [strip(l) for l in lines if severity(l) >= level]


other_ = st.one_of(st.tuples(st.just('velocity'), st.sampled_from([1, 100., 39999, 40001, 50000, 1e6])),
                   st.tuples(st.just('xz'), st.sampled_from([100, 60000.])), st.tuples(st.just('sph'), st.sampled_from([100, 60000.])),
                   st.tuples(st.just('degenerate'), st.integers(0, 3)), st.tuples(st.just('log'), st.sampled_from(['debug', 'info', 'warning', 'error']))).map(list)
op_ = st.integers(0, 9).flatmap(lambda i: other_ if i >= 7 else st.tuples(st.just('step'), st.sampled_from(W.STEPS)).map(list))
steps_ = dct(p=W.problem_, ops=st.lists(op_, min_size=3, max_size=9), levels=st.lists(st.sampled_from([4, 4, 0, 1, 2, 3]), min_size=9, max_size=9), hold=st.lists(st.booleans(), min_size=9, max_size=9))


def do(flow, op):
    k, x = op
    if k == 'step': return flow.run(x)
    if k == 'velocity': return [T.velocity_vec(x, [0., 1., -1.])]
    if k == 'xz': return [T.velocity_vec_xz_plane(x, 0.3)]
    if k == 'sph': return [T.velocity_vec_spherical(x, 0.3, 1.)]
    if k == 'degenerate':
        t = [[0, 1, 2]] + [[0, 1, 1]]*x
        return W.mesh_arrays(M.Mesh(points=[[0., 0., 0.], [1., 0., 0.], [0., 0., 1.]], triangles=t, physical_to_triangles={'a': np.arange(len(t))}))
    getattr(L, 'log_' + x)('a message %d' % len(x))
    return []


def c_steps(c, rec):
    ops = [o for o in c['ops'] if o[0] != 'step' or W.applicable(c['p'], o[1])]
    assume(ops)
    # a level stays selected over several calls when hold is set
    lv = []
    for i in range(len(ops)): lv.append(lv[-1] if lv and c['hold'][i] else c['levels'][i])

    def run(levels):
        flow, out = W.Flow(c['p']), []
        last = None
        for op, l in zip(ops, levels):
            if l != last: L.set_log_level(L.LogLevel(l)); last = l
            with Capture() as cap: r = do(flow, op)
            out.append((r, cap.out, cap.err))
        return out
    with np.errstate(all='warn'), warnings.catch_warnings():
        warnings.simplefilter('always')
        for w in (DeprecationWarning, PendingDeprecationWarning, ImportWarning, ResourceWarning): warnings.simplefilter('ignore', w)
        ref = run([0]*len(ops))
        got = run(lv)
        quiet = run([4]*len(ops))
    seen = set()
    for res, levels in ((got, lv), (quiet, [4]*len(ops))):
        for op, l, (r, o, e), (rr, ro, re_) in zip(ops, levels, res, ref):
            what = f'{op} at level {LEVELS[l]}'
            d = W.equal(r, rr)
            if d: d = W.equal(r, rr, 1e-9)
            assert d is None, f'{what}: the results differ from those at level DEBUG: {d}'
            if l == 4:
                assert not o and not e, f'{what}: wrote {(o + e)[:3]}'
            want = messages(ro, l) if l < 4 else []
            assert [strip(x) for x in o] == want, f'{what}: wrote {o[:3]}, expected {want[:3]}'
            if op[0] == 'log' and l < 4:
                n = ['debug', 'info', 'warning', 'error'].index(op[1])
                assert bool(o) == (n >= l), f'{what}: wrote {o}'
            if op[0] in ('velocity', 'xz', 'sph') and op[1] > 40000 and l <= 2:
                assert len(o) == 1 and 'energy' in o[0], f'{what}: no warning about the energy: {o}'
            if op[0] == 'step' and op[1] == 'solve' and l <= 1: assert o, f'{what}: no information shown'
            seen |= {severity(x) for x in ro}
    rec.tag(*['messages ' + LEVELS[s].lower() for s in seen], *[o[1] if o[0] == 'step' else o[0] for o in ops])
    rec.nontrivial(bool(seen) and len(set(lv)) > 1)


# names close to those of the levels, and names of anything else the enumeration has
near_ = st.tuples(st.sampled_from(['', ' ', '_', '__', '.', '-', 'x', '=']), st.sampled_from(LEVELS + ['WARN', 'INF', 'CLASS', 'MRO', 'NAME', 'VALUE', 'MEMBERS', 'DOC', 'LEVEL']), st.sampled_from(['', ' ', '_', '__', '.', 's', '1', 'x', '\t']), st.booleans()).map(lambda t: (t[0] + (t[1] if t[3] else t[1].lower()) + t[2]))
env_value_ = st.one_of(st.none(), st.sampled_from(LEVELS).flatmap(lambda s: st.lists(st.booleans(), min_size=len(s), max_size=len(s)).map(lambda b: ''.join(x.upper() if u else x.lower() for x, u in zip(s, b)))),
                         st.sampled_from(LEVELS), st.sampled_from(LEVELS).map(str.lower),
                         st.sampled_from(['', 'verbose', '0', '2', '4', 'none', 'warn', ' info', 'silent ', 'LogLevel.SILENT', 'quiet', 'fatal', 'critical', 'off', 'true', 'False', 'info,debug']),
                         near_, near_, st.text(st.characters(codec='ascii', categories=['L', 'N', 'P']), max_size=8))
env_ = dct(env=env_value_,
           later=st.one_of(st.none(), st.integers(0, 4)))

CHILD = r'''
import sys, json
sys.path.insert(0, %r)
from vf import target
so = sys.argv[1]
target.import_traceon(so)
import traceon.logging as L, traceon.tracing as T, traceon.mesher as M, traceon.geometry as G, traceon.excitation as E, traceon.solver as S
later = json.loads(sys.argv[2])
def go():
    for n in ('debug', 'info', 'warning', 'error'):
        getattr(L, 'log_' + n)('message ' + n)
    T.velocity_vec(50000., [0., 0., 1.])
    M.Mesh(points=[[0., 0., 0.], [1., 0., 0.], [0., 0., 1.]], triangles=[[0, 1, 2], [0, 1, 1]])
    p = G.Path.line([1., 0., 0.], [1., 0., 1.]); p.name = 'a'
    e = E.Excitation(p.mesh(mesh_size=0.5, higher_order=True), E.Symmetry.RADIAL)
    e.add_voltage(a=3)
    f = S.solve_direct(e)
    return f.electrostatic_potential_at_point([0.2, 0., 0.1])
r = [go()]
print('-----')
if later is not None:
    L.set_log_level(L.LogLevel(later))
    r.append(go())
print('-----')
print(repr(r))
'''


def c_env(c, rec):
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = {k: v for k, v in os.environ.items() if k != 'TRACEON_LOG_LEVEL'}
    if c['env'] is not None: env['TRACEON_LOG_LEVEL'] = c['env']
    env['TRACEON_THREADS'] = '1'; env['VF_REPO'] = target.REPO
    p = subprocess.run([sys.executable, '-c', CHILD % here, os.environ['_VF_SO'], json.dumps(c['later'])], env=env, capture_output=True, text=True)
    what = f"TRACEON_LOG_LEVEL={c['env']!r}"
    assert p.returncode == 0, f'{what}: importing or using the package failed: {p.stderr[-600:]}'
    parts = p.stdout.split('-----\n')
    if len(parts) != 3: raise HarnessError('unexpected output ' + p.stdout[-500:])
    up = (c['env'] or '').upper()
    lv = LEVELS.index(up) if up in LEVELS else 1
    assert not p.stderr.strip(), f'{what}: wrote to standard error: {p.stderr[:300]}'
    for txt, l in ((parts[0], lv), (parts[1], c['later'])):
        if l is None: continue
        lines = txt.splitlines()
        w = f'{what} then level {c["later"]}'
        assert all(severity(x) >= l for x in lines) and (l < 4 or not lines), f'{w}: level {LEVELS[l]} shows {lines}'
        for k, n in enumerate(('debug', 'info', 'warning', 'error')):
            assert any(('message ' + n) in x for x in lines) == (k >= l), f'{w}: level {LEVELS[l]} shows {lines}'
        assert any('50000' in x for x in lines) == (l <= 2) and any('egenerate' in x for x in lines) == (l <= 0) and any('matrix' in x for x in lines) == (l <= 1), f'{w}: level {LEVELS[l]} shows {lines}'
    v = eval(parts[2])
    assert max(v) - min(v) <= 1e-12*abs(v[0]), f'{what}: potential depends on the level: {v}'
    rec.tag('known' if up in LEVELS else 'unknown' if c['env'] is not None else 'unset')
    rec.nontrivial(c['env'] is not None)


CHILD_MANY = r"""
import sys, os, io, json, contextlib, importlib
sys.path.insert(0, %r)
from vf import target
os.environ.pop('TRACEON_LOG_LEVEL', None)
target.import_traceon(sys.argv[1])
import traceon.logging as L
out = []
for v in json.loads(sys.argv[2]):
    os.environ['TRACEON_LOG_LEVEL'] = v
    try:
        L = importlib.reload(L)
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            for n in ('debug', 'info', 'warning', 'error'): getattr(L, 'log_' + n)('message ' + n)
        out.append([n for n in ('debug', 'info', 'warning', 'error') if 'message ' + n in b.getvalue()])
    except Exception as e: out.append(repr(e))
print('-----' + json.dumps(out))
"""


def c_env_many(c, rec):
    """Many values in one process; any that looks wrong is confirmed with a process of its own."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, VF_REPO=target.REPO); env.pop('TRACEON_LOG_LEVEL', None)
    p = subprocess.run([sys.executable, '-c', CHILD_MANY % here, os.environ['_VF_SO'], json.dumps(c['values'])], env=env, capture_output=True, text=True)
    if p.returncode: raise HarnessError('child failed: ' + p.stderr[-500:])
    got = json.loads(p.stdout.split('-----')[-1])
    for v, g in zip(c['values'], got):
        up = v.upper(); lv = LEVELS.index(up) if up in LEVELS else 1
        if g != ['debug', 'info', 'warning', 'error'][lv:]:
            c_env(dict(env=v, later=None), rec)
        rec.tag('known' if up in LEVELS else 'unknown')
    rec.nontrivial(len(set(c['values'])) > 10)


def c_wrong(c, rec):
    """A rejected request leaves the level as it was."""
    L.set_log_level(L.LogLevel(c['l']))
    try: L.set_log_level(c['bad'])
    except (AssertionError, TypeError, ValueError): pass
    else: return
    with Capture() as cap:
        for n in ('debug', 'info', 'warning', 'error'): getattr(L, 'log_' + n)('x')
    assert len(cap.out) == 4 - c['l'] and not cap.err, f"level {LEVELS[c['l']]} after a rejected request: {cap.out}"
    rec.nontrivial()


PROPERTY = Property('C24', [
    Sub('steps', steps_, c_steps, quick=180, shards=8, rule='messages at some level are issued and at least two levels are used.'),
    Sub('env', env_, c_env, quick=60, shards=6, rule='the variable is set.'),
    Sub('env_many', dct(values=st.lists(st.one_of(near_, near_, near_, env_value_.filter(lambda v: v is not None and '\0' not in v)), min_size=12, max_size=120)), c_env_many, quick=30, shards=3, rule='more than ten different values.'),
    Sub('wrong', dct(l=st.integers(0, 4), bad=st.sampled_from([0, 1, 2, 3, 4, 5, -1, 'info', 'INFO', None, 1.])), c_wrong, quick=40, rule='the request was rejected.')],
    assumptions=['Messages are attributed to a severity by their documented prefix (none: information); numbers in messages are ignored when comparing levels.',
                 'Notices that the meshio file formats print about their own limitations are not messages of the library; files are written as .vtk, which has none.',
                 'Python warnings count as output at the silent level, with the interpreter\'s default filters.'])
