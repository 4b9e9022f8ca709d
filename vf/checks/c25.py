"""C25: native code never reads or writes outside its buffers (search under address and undefined-behaviour sanitisers, and
a differential between two fillings of memory nobody initialised)."""
import atexit, json, os, re
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property, HarnessError
from ..gen import *
from .. import flow as W, native as N, target

kids = {}


def children():
    if kids.get('pid') != os.getpid():
        kids.clear(); kids['pid'] = os.getpid()
    for i, (so, fill) in enumerate(zip(os.environ['_VF_ASAN_SO'].split(':'), (0xff, 0x00))):
        if i not in kids:
            kids[i] = N.Child(so, os.environ['_VF_ASAN_RT'], fill, target.scratch_dir())
            if not kids[i].ready: raise HarnessError('the sanitised process did not start: ' + kids[i].report()[-2000:])
    return kids[0], kids[1]


def summary(rep):
    m = re.search(r'(ERROR: AddressSanitizer: .*|runtime error: .*)', rep)
    frames = re.findall(r'#\d+ \S+ in (\S+) (\S+\.[ch]:\d+)', rep)[:3]
    return (m.group(1)[:300] if m else rep[-600:]) + ''.join(f' <- {f} {os.path.basename(w)}' for f, w in frames)


def run(kind, count=lambda c: True):
    def check(c, rec):
        case = dict(c, k=kind)
        if 'steps' in c: assume(any(W.applicable(c['p'], s) for s in c['steps']))
        line = json.dumps(case)
        ab = children()
        for x in ab: x.send(line)
        res = [x.receive(60) for x in ab]
        for i, (how, r) in enumerate(res):
            if how == 'died': kids.pop(i, None)
            if how == 'slow': kids.pop(i).close()
        for how, r in res:
            if how == 'died':
                if 'AddressSanitizer' not in r and 'runtime error' not in r and 'exit status -9' in r: raise HarnessError('the sanitised process was ended: ' + r[-500:])
                assert False, 'the compiled code was stopped: ' + summary(r)
        if any(how == 'slow' for how, r in res):
            rec.tag('took too long under the sanitisers')
            return
        for how, r in res: assert how == 'ok', f'{r}' + ('' if res[0][0] == res[1][0] else ' (only with one of two fillings of uninitialised memory)')
        d = W.equal(res[0][1], res[1][1], 1e-9)
        assert d is None, f'the result depends on the contents of memory that nobody initialised: {d}'
        rec.tag(*[s for s in c.get('steps', [])])
        rec.nontrivial(bool(res[0][1]) and count(c))
    return check


edge = st.sampled_from([-1., 1., 0., 0.5, -0.999999, 0.3])
grid = st.lists(st.sampled_from([0., 1., -1., .5, 2., 1e-3]), min_size=3, max_size=3)
xyz = st.one_of(pt(-2, 2), grid)
# triangles and lines that have an area or length
tri_ = dct(o=pt(-2, 2), a=num(0.1, 2), b=num(0.05, 2), t=num(-1, 1)).map(lambda d: [d['o'], [d['o'][0] + d['a'], d['o'][1], d['o'][2]], [d['o'][0] + d['t'], d['o'][1] + d['b'], d['o'][2] + .5*d['t']]])
line_ = dct(r=num(0.3, 2), z=num(-1, 1), ang=num(-3, 3), L=num(0.05, 0.25), b=num(-0.2, 0.2)).map(lambda d: [[d['r'] + s*d['L']*np.cos(d['ang']) - h*d['L']*np.sin(d['ang']), 0., d['z'] + s*d['L']*np.sin(d['ang']) + h*d['L']*np.cos(d['ang'])] for s, h in ((-1, 0), (1, 0), (-1/3, d['b']), (1/3, d['b']))])
kernel_ = dct(tri=tri_, line=line_, p=xyz, q=xyz, u=pt(-1, 1), al=st.one_of(edge, num(-1, 1)), n=st.integers(1, 4), nz=st.integers(1, 4), kinds=st.lists(st.integers(0, 4), min_size=4, max_size=4),
              rows=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=2), pos=st.lists(st.lists(num(-2, 2, 0.5), min_size=6, max_size=6), min_size=1, max_size=4))
ax = dict(z=num(-2, 2), L=st.one_of(num(0.1, 4), st.sampled_from([1e-6, 1e3, 0.3])), nz=st.one_of(st.integers(2, 4), st.integers(2, 40)), seed=st.integers(0, 1000), r=st.sampled_from([0., 1e-12, 0.1, 1.]),
          f=st.lists(st.floats(0, 1), min_size=2, max_size=4), node=st.lists(st.integers(0, 39), min_size=1, max_size=4))
axial_ = dct(**ax)
trace_ = dct(**ax, v=st.lists(num(-1, 1, 0.5), min_size=3, max_size=3), amp=st.sampled_from([0., .01, .1]), long=st.sampled_from([0]*25 + [.7, 1.2]), out=st.sampled_from([False]*5 + [True]))
idx = lambda k: st.lists(st.integers(0, 15), min_size=k, max_size=k, unique=True)
mesh_ = st.booleans().flatmap(lambda six: dct(six=st.just(six), pts=st.lists(st.tuples(*[num(-1, 1, 0.5)]*3).map(list), min_size=6, max_size=12), tris=st.lists(idx(6 if six else 3), max_size=8), lines=st.lists(idx(4 if six else 2), max_size=6), flat=st.booleans(), en=st.booleans()))
flow_ = dct(p=W.problem_, steps=st.lists(st.sampled_from([s for s in W.STEPS if s not in ('text', 'pickle', 'file')]), min_size=2, max_size=7))
threads_ = dct(p=W.problem_.filter(lambda p: not p['sym3'] and W.applicable(p, 'interp')), t=st.integers(2, 60))

PROPERTY = Property('C25', [
    Sub('flow', flow_, run('flow'), quick=240, shards=8, rule='some step produced results.'),
    Sub('kernel', kernel_, run('kernel'), quick=600, shards=4, rule='every case.'),
    Sub('axial', axial_, run('axial'), quick=400, shards=2, rule='every case.'),
    Sub('trace', trace_, run('trace', lambda c: not c['out']), quick=300, shards=4, rule='the trajectory starts inside the bounds.'),
    Sub('mesh', mesh_, run('mesh', lambda c: c['tris'] or c['lines']), quick=400, shards=2, rule='the mesh has elements.'),
    Sub('threads', threads_, run('threads'), quick=80, shards=2, rule='every case.')],
    needs_asan=True,
    assumptions=['The sanitised build is clang -O1 of the same source, without -ffast-math; memory errors that only the optimised code of gcc has are outside this check.',
                 'Reads inside a larger array that the argument is part of are found only where the check passes the argument as an array of its own.',
                 'Uninitialised variables and heap memory are filled with NaN patterns in one process and zeros in the other; dependence that cancels in both is not seen.'])
