"""Builds the C backend of /repo's working tree into a scratch directory and
imports the traceon package from /repo against that fresh build."""
import atexit, ctypes, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get('VF_REPO', '/repo')
_scratch = None
SO = None


class BuildError(Exception):
    pass


def scratch_dir():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf-')
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('build failed: %s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p.stdout


def build_backend():
    """The shared library exactly as setup.py builds it."""
    d = os.path.join(scratch_dir(), 'build')
    os.makedirs(d, exist_ok=True)
    _run([sys.executable, 'setup.py', '-q', 'build_ext', '--force', '--build-lib', d + '/lib', '--build-temp', d + '/tmp'], cwd=REPO)
    for root, _, files in os.walk(d + '/lib'):
        for f in files:
            if f.startswith('traceon_backend') and f.endswith('.so'):
                return os.path.join(root, f)
    raise BuildError('no shared library produced')


def build_asan():
    """Two sanitised variants of the same source: uninitialised variables hold NaN-like patterns in one and zeros in the other."""
    out, jobs = [], []
    for init in ('pattern', 'zero'):
        so = os.path.join(scratch_dir(), f'traceon_asan_{init}.so')
        cmd = ['clang', '-shared', '-fPIC', '-O1', '-g', '-DNDEBUG', '-w', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow',
               '-fno-sanitize-recover=all', '-shared-libasan', '-mavx', '-ftrivial-auto-var-init=' + init, 'traceon/backend/traceon-backend.c', '-o', so, '-lm']
        jobs.append((cmd, subprocess.Popen(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        out.append(so)
    for cmd, p in jobs:
        o, _ = p.communicate()
        if p.returncode: raise BuildError('build failed: %s\n%s' % (' '.join(cmd), o[-3000:]))
    rt = subprocess.run(['clang', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True, text=True).stdout.strip()
    return ':'.join(out), rt


def import_traceon(so_path):
    """Import traceon from REPO with every load of the compiled backend redirected to so_path."""
    global SO
    SO = so_path
    sys.path.insert(0, REPO)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')   # hypothesis only; /opt/venv wins
    real_cdll, real_isfile = ctypes.CDLL, os.path.isfile

    def cdll(name, *a, **k):
        if isinstance(name, str) and os.path.basename(name).startswith('traceon_backend'):
            name = so_path
        return real_cdll(name, *a, **k)

    def isfile(p):
        if isinstance(p, str) and os.path.basename(p).startswith('traceon_backend'):
            return True
        return real_isfile(p)

    ctypes.CDLL, os.path.isfile = cdll, isfile
    try:
        import traceon, traceon.backend
    finally:
        ctypes.CDLL, os.path.isfile = real_cdll, real_isfile
    assert os.path.realpath(traceon.__file__).startswith(os.path.realpath(REPO) + os.sep), traceon.__file__
    import traceon.excitation, traceon.focus, traceon.geometry, traceon.interpolation, traceon.logging
    import traceon.mesher, traceon.solver, traceon.tracing, traceon.util
    return traceon
