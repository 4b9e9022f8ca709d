"""Runner: generated-input search (Hypothesis) with sharding, crash/hang
containment, shrinking to a replay file, and measured evidence."""
import argparse, glob, hashlib, importlib, json, mmap, os, signal, sys, time, traceback

from . import target

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT = {'quick': 120.0, 'thorough': 300.0}
WALL_CAP = {'quick': 700.0, 'thorough': 3300.0}
SHRINK_SECONDS = 45.0


class Sub:
    """One executable sub-property: strategy -> JSON-able case, check(case, rec)."""
    def __init__(self, name, strategy, check, quick=100, thorough=None, shards=1, rule='', thorough_shards=8):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.shards, self.rule, self.thorough_shards = shards, rule, thorough_shards


class Property:
    def __init__(self, id, subs, assumptions=(), probes=(), needs_asan=False):
        self.id, self.subs, self.assumptions, self.probes, self.needs_asan = id, list(subs), list(assumptions), list(probes), needs_asan


class Rec:
    """Handed to each check: records whether the case was non-trivial and its class."""
    def __init__(self):
        self.is_nontrivial, self.tags = False, set()
    def nontrivial(self, cond=True):
        if cond: self.is_nontrivial = True
    def tag(self, *names):
        self.tags.update(names)


class _Stop(BaseException):
    pass


class HarnessError(Exception):
    pass


def _describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ' <- '.join('%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-4:]))
    return '%s: %s [%s]' % (type(exc).__name__, str(exc)[:1500], where)


def _case_digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()


def _run_case(sub, case, rec):
    import numpy as np
    with np.errstate(all='ignore'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sub.check(case, rec)


def _reset_state():
    """Known global state of the package before each case."""
    import traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    os.environ['TRACEON_THREADS'] = '1'


def _worker(prop, sub, shard, nshards, n, seed, out, cur, flag):
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    import hypothesis.errors
    res = dict(sub=sub.name, shard=shard, evaluations=0, digests=[], tags={}, samples=[], failure=None, error=None, truncated=False)
    digests, first_fail, best = set(), [None], [None]
    t_cap = time.time() + float(os.environ.get('_VF_CAP', '700'))

    def wrapped(case):
        if flag[0] == 1 and best[0] is None:
            raise _Stop()
        now = time.time()
        if first_fail[0] is not None and now - first_fail[0] > SHRINK_SECONDS:
            raise _Stop()
        if now > t_cap:
            res['truncated'] = True
            raise _Stop()
        with open(cur, 'w') as f:
            json.dump(dict(case=case, cpu=time.process_time()), f)
        rec = Rec()
        res['evaluations'] += 1
        _reset_state()
        try:
            _run_case(sub, case, rec)
        except _Stop:
            raise
        except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
            raise
        except Exception as e:
            if isinstance(e, (HarnessError, MemoryError, ImportError)) or (isinstance(e, AttributeError) and str(e).startswith('module ')):
                raise HarnessError(_describe(e) + ' case=' + json.dumps(case)[:2000]) from e
            msg, size = _describe(e), len(json.dumps(case))
            if first_fail[0] is None:
                first_fail[0] = time.time()
            if best[0] is None or size <= best[0][0]:
                best[0] = (size, case, msg)
            raise
        if first_fail[0] is None:
            if rec.is_nontrivial:
                dg = _case_digest(case)
                if dg not in digests:
                    digests.add(dg)
                    if len(res['samples']) < 2 or (len(res['samples']) < 4 and len(digests) % 17 == 0):
                        res['samples'].append(case)
            for t in rec.tags:
                res['tags'][t] = res['tags'].get(t, 0) + 1

    wrapped.__name__ = 'case_' + sub.name
    test = hseed(seed)(settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
                                suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))(given(sub.strategy)(wrapped)))
    try:
        test()
    except _Stop:
        pass
    except HarnessError as e:
        res['error'] = str(e)
    except BaseException as e:
        if best[0] is None:
            res['error'] = _describe(e)
    if best[0] is not None:
        res['failure'] = dict(case=best[0][1], message=best[0][2])
    res['digests'] = [d.hex() for d in digests]
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def _cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            s = f.read()
        parts = s[s.rindex(')') + 2:].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError):
        return 0.0


def _read_cur(cur):
    try:
        with open(cur) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def run_property(prop, tier, seed, only=None):
    scratch = target.scratch_dir()
    jobs = []
    for si, sub in enumerate(prop.subs):
        if only and sub.name not in only:
            continue
        total = sub.quick if tier == 'quick' else sub.thorough
        total = max(1, int(total * float(os.environ.get('VF_SCALE', '1'))))
        nsh = sub.shards if tier == 'quick' else max(sub.shards, sub.thorough_shards)
        nsh = max(1, min(nsh, total))
        for sh in range(nsh):
            n = total // nsh + (1 if sh < total % nsh else 0)
            jobs.append((sub, sh, nsh, n, seed * 100003 + si * 211 + sh))
    jobs.sort(key=lambda j: j[1])
    flag = mmap.mmap(-1, 1)
    running, results, failures, errors = {}, [], [], []
    t_end = time.time() + WALL_CAP[tier]
    maxp = int(os.environ.get('VF_JOBS', os.cpu_count() or 8))
    pending = list(enumerate(jobs))
    truncated = False
    sys.stdout.flush(); sys.stderr.flush()
    while pending or running:
        while pending and len(running) < maxp and flag[0] == 0:
            k, (sub, sh, nsh, n, sd) = pending.pop(0)
            out, cur = f'{scratch}/r{k}.json', f'{scratch}/c{k}.json'
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    os.environ['_VF_CAP'] = str(max(1.0, t_end - time.time() - 30))
                    log = os.open(f'{scratch}/log{k}', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(log, 1); os.dup2(log, 2)
                    _worker(prop, sub, sh, nsh, n, sd, out, cur, flag)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            running[pid] = (k, sub, out, cur)
        if flag[0] and pending:
            pending = []
        done = []
        for pid, (k, sub, out, cur) in running.items():
            p, status = os.waitpid(pid, os.WNOHANG)
            if p == 0:
                c = _read_cur(cur)
                if c is not None and _cpu_of(pid) - c['cpu'] > CASE_CPU_LIMIT[tier]:
                    os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
                    failures.append((sub, c['case'], 'the call did not finish within %.0f s of CPU time' % CASE_CPU_LIMIT[tier]))
                    flag[0] = 1
                    done.append(pid)
                elif time.time() > t_end:
                    os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
                    truncated = True
                    done.append(pid)
                continue
            done.append(pid)
            if os.path.exists(out):
                with open(out) as f: r = json.load(f)
                results.append(r)
                truncated |= r['truncated']
                if r['error']:
                    errors.append((sub.name, r['error']))
                if r['failure']:
                    failures.append((sub, r['failure']['case'], r['failure']['message']))
                    flag[0] = 1
            else:
                c = _read_cur(cur)
                how = 'signal %d' % os.WTERMSIG(status) if os.WIFSIGNALED(status) else 'exit status %d' % os.WEXITSTATUS(status)
                killed = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL
                if c is None or killed or (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 70):
                    log = open(f'{scratch}/log{k}', errors='replace').read()[-3000:]
                    errors.append((sub.name, f'worker ended by {how}\n{log}'))
                else:
                    failures.append((sub, c['case'], f'the process was ended by the code under test ({how})'))
                    flag[0] = 1
        for pid in done:
            running.pop(pid)
        if not done:
            time.sleep(0.02)
    return results, failures, errors, truncated


def write_replay(prop_id, sub_name, case, message, tier, seed):
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop_id}-{sub_name}-{_case_digest(case).hex()[:8]}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop_id, sub=sub_name, case=case, message=message, tier=tier, seed=seed,
                       how=f'python3 run.py {prop_id} --replay {path}'), f, indent=1)
    return path


def known_findings(prop_id):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('open: property=%s ' % prop_id):
                rest = line.split(' ', 2)[2]
                key, what = rest.split(' ', 1)
                assert key.startswith('key='), line
                out[key[4:]] = what
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    try:
        so = target.build_backend()
        os.environ['_VF_SO'] = so
        target.import_traceon(so)
        mod = importlib.import_module('vf.checks.' + a.property.lower())
        prop = mod.PROPERTY
        if prop.needs_asan:
            os.environ['_VF_ASAN_SO'], os.environ['_VF_ASAN_RT'] = target.build_asan()
    except target.BuildError as e:
        print(e); return 3
    t_build = time.time() - t0
    if a.replay:
        with open(a.replay) as f: d = json.load(f)
        sub = [s for s in prop.subs if s.name == d['sub']][0]
        _reset_state()
        try:
            _run_case(sub, d['case'], Rec())
        except Exception as e:
            traceback.print_exc()
            print(f'VIOLATION property={prop.id} replay={a.replay}')
            return 1
        print('replay passes')
        return 0

    for key, what in known_findings(prop.id).items():
        print(f'KNOWN-FINDING: property={prop.id} {what}')

    results, failures, errors, truncated = run_property(prop, a.tier, seed, a.only)

    evals = sum(r['evaluations'] for r in results)
    distinct = 0
    per_sub, samples = {}, []
    for sub in prop.subs:
        rs = [r for r in results if r['sub'] == sub.name]
        dg = set(d for r in rs for d in r['digests'])
        distinct += len(dg)
        tags = {}
        for r in rs:
            for t, c in r['tags'].items(): tags[t] = tags.get(t, 0) + c
        per_sub[sub.name] = dict(evaluations=sum(r['evaluations'] for r in rs), distinct_nontrivial=len(dg), classes=dict(sorted(tags.items())), rule=sub.rule)
        for s in [s for r in rs for s in r['samples']][:2]:
            txt = json.dumps(s)
            samples.append(dict(sub=sub.name, case=s) if len(txt) < 3000 else dict(sub=sub.name, case_text=txt[:3000] + '...'))
    ev = dict(property=prop.id, tier=a.tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct,
                            rule='Cases are generated by Hypothesis from VERIF_SEED, one stream per sub-check and shard; a case counts once (by the hash of its JSON) and only if its sub-check marked it non-trivial: '
                                 + ' '.join(f'[{s.name}] {s.rule}' for s in prop.subs),
                            samples=samples[:40], per_sub=per_sub, truncated_by_time=truncated, build_s=round(t_build, 2)),
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(failures))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evp = os.path.join(HERE, 'evidence', prop.id + '.json')
    with open(evp + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.rename(evp + '.tmp', evp)
    print(f'{prop.id} {a.tier}: {evals} cases, {distinct} distinct non-trivial, {time.time()-t0:.1f} s' + (' (truncated by time)' if truncated else ''))
    if os.environ.get('VF_VERBOSE'):
        for n, d in per_sub.items():
            print('   ', n, d['evaluations'], d['distinct_nontrivial'], d['classes'])
    if failures:
        for sub, case, msg in failures[:5]:
            path = write_replay(prop.id, sub.name, case, msg, a.tier, seed)
            print(f'  {sub.name}: {msg[:800]}')
            print(f'  case: {json.dumps(case)[:800]}')
            print(f'VIOLATION property={prop.id} replay={path}')
        return 1
    if errors:
        for n, e in errors[:5]:
            print(f'ERROR in {n}: {e}')
        return 4
    if evals == 0:
        print('ERROR: nothing was explored'); return 5
    return 0
