"""Check driver: generates cases, runs each in a forked child of a process that has imported slash from /repo,
judges what the monitors recorded, writes evidence and replay files.

Verdicts are three-valued: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 3)."""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VP_REPO', '/repo')
NPROC = int(os.environ.get('VP_NPROC', '8'))


class Violation(object):

    """One violation: `mechanism` is a stable key naming what failed (used to match known findings)."""

    def __init__(self, mechanism, msg):
        self.mechanism = mechanism
        self.msg = msg


class Check(object):
    prop = None
    level = 'exploration'
    rule = ''
    assumptions = []
    case_timeout = 60
    retries_on_timeout = 2
    n_quick = 100
    n_thorough = 3000
    #: counters that must not be zero for a held verdict
    required = ()
    imports = ('slash.frontend.slash_run', 'slash.frontend.slash_list')

    def setup(self, tier, seed):
        pass

    def teardown(self):
        pass

    def num_cases(self, tier):
        return self.n_quick if tier == 'quick' else self.n_thorough

    def gen(self, rng, i, tier):
        """Returns the i-th case: a JSON-able object"""
        raise NotImplementedError()

    def run(self, case):
        """Runs in a child process, in a scratch directory which is also HOME and cwd. Returns an observation."""
        raise NotImplementedError()

    def judge(self, case, obs):
        """Returns a list of violations. Runs in the child too."""
        raise NotImplementedError()

    def counters(self, case, obs):
        """Measured quantities, added up over all cases"""
        return {}

    def signature(self, case, obs):
        """A hashable describing the behaviour observed, or None if the case was trivial"""
        return None

    def shrink(self, case):
        return iter(())

    def describe(self, case):
        return case


# third-party modules slash loads lazily
PRELOAD = ('pytest', '_pytest.assertion.rewrite', 'psutil', 'logging', 'sqlite3', 'sqlalchemy', 'sqlalchemy.orm', 'sqlalchemy.dialects.sqlite',
           'gossip', 'confetti', 'logbook', 'munch', 'arrow', 'colorama', 'jinja2', 'requests', 'dessert', 'emport', 'pyparsing',
           'vintage', 'ordereddict', 'tabulate', 'xmlrpc.server', 'xmlrpc.client', 'coverage')


def import_slash(check):
    sys.path.insert(0, REPO)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for name in PRELOAD:
            try:
                importlib.import_module(name)
            except ImportError:
                pass
        # byte code cached next to the sources is never trusted for slash itself
        prev, sys.pycache_prefix = sys.pycache_prefix, '/nonexistent/vp-pycache'
        importlib.invalidate_caches()
        try:
            import slash
            if not os.path.realpath(slash.__file__).startswith(os.path.realpath(REPO) + os.sep):
                raise SystemExit('slash imported from {}'.format(slash.__file__))
            for name in check.imports:
                importlib.import_module(name)
        finally:
            sys.pycache_prefix = prev
    # warm caches the children would otherwise each fill
    import gc
    import inspect
    inspect.stack()
    gc.collect()
    gc.freeze()


def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='vp-', dir=base)


def _child(check, case, scratch, out, verbose):
    os.setpgid(0, 0)
    # whatever the parent shell does with them (background jobs ignore SIGINT)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for name in ('SIGTERM', 'SIGHUP', 'SIGALRM', 'SIGCHLD', 'SIGUSR1', 'SIGUSR2'):
        signal.signal(getattr(signal, name), signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, ())
    code = 0
    try:
        os.makedirs(os.path.join(scratch, 'home'))
        os.makedirs(os.path.join(scratch, 'tmp'))
        os.makedirs(os.path.join(scratch, 'proj'))
        os.environ['HOME'] = os.path.join(scratch, 'home')
        os.environ['TMPDIR'] = os.path.join(scratch, 'tmp')
        tempfile.tempdir = None
        os.chdir(os.path.join(scratch, 'proj'))
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        if not verbose:
            errf = os.open(os.path.join(scratch, 'stderr'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(errf, 1)
            os.dup2(errf, 2)
        try:
            obs = check.run(case)
            viols = check.judge(case, obs)
            res = {'violations': [(v.mechanism, v.msg) for v in viols],
                   'counters': dict(check.counters(case, obs)),
                   'signature': check.signature(case, obs)}
            if viols or verbose:
                res['obs'] = obs
        except BaseException:  # pylint: disable=broad-except
            res = {'harness_error': traceback.format_exc()}
        with open(out + '.tmp', 'wb') as f:
            try:
                pickle.dump(res, f)
            except Exception:  # pylint: disable=broad-except
                f.seek(0)
                f.truncate()
                res.pop('obs', None)
                pickle.dump(res, f)
        os.rename(out + '.tmp', out)
    except BaseException:  # pylint: disable=broad-except
        code = 70
    finally:
        os._exit(code)


def _killpg(pid):
    for fn in (os.killpg, os.kill):
        try:
            fn(pid, signal.SIGKILL)
        except OSError:
            pass


class Pool(object):

    """Runs cases in forked children; yields (index, case, result) as they finish"""

    def __init__(self, check, root, verbose=False, nproc=None):
        self.check, self.root, self.verbose = check, root, verbose
        self.nproc = nproc or getattr(check, 'nproc', NPROC)
        self.n = 0

    def start(self, case):
        self.n += 1
        scratch = os.path.join(self.root, 'c{}'.format(self.n))
        os.mkdir(scratch)
        out = scratch + '.out'
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            _child(self.check, case, scratch, out, self.verbose)
        return pid, scratch, out

    def finish(self, pid, scratch, out, status, timed_out):
        _killpg(pid)
        res = None
        if os.path.exists(out):
            try:
                with open(out, 'rb') as f:
                    res = pickle.load(f)
            except Exception:  # pylint: disable=broad-except
                res = None
        if timed_out:
            res = {'timeout': True}
        elif res is None:
            tail = ''
            try:
                with open(os.path.join(scratch, 'stderr'), 'rb') as f:
                    tail = f.read()[-2000:].decode('utf-8', 'replace')
            except OSError:
                pass
            res = {'died': status, 'stderr': tail}
        shutil.rmtree(scratch, ignore_errors=True)
        if os.path.exists(out):
            os.unlink(out)
        return res

    def run_one(self, case, timeout=None):
        for r in self.run_all([(0, case)], timeout=timeout):
            return r[2]

    def run_all(self, cases, timeout=None):
        timeout = timeout or self.check.case_timeout
        cases = iter(cases)
        active = {}
        exhausted = False
        while True:
            while not exhausted and len(active) < self.nproc:
                try:
                    i, case = next(cases)
                except StopIteration:
                    exhausted = True
                    break
                pid, scratch, out = self.start(case)
                active[pid] = (i, case, scratch, out, time.monotonic())
            if not active:
                return
            done = []
            for pid in list(active):
                try:
                    wpid, status = os.waitpid(pid, os.WNOHANG)
                except ChildProcessError:
                    wpid, status = pid, 0
                if wpid == pid:
                    done.append((pid, status, False))
                elif time.monotonic() - active[pid][4] > timeout:
                    _killpg(pid)
                    os.waitpid(pid, 0)
                    done.append((pid, 0, True))
            if not done:
                time.sleep(0.003)
                continue
            for pid, status, timed_out in done:
                i, case, scratch, out, _ = active.pop(pid)
                yield i, case, self.finish(pid, scratch, out, status, timed_out)


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def rng_for(seed, prop, tier, i):
    h = hashlib.sha256('{}:{}:{}'.format(seed, prop, i).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def jsonable(x):
    return json.loads(json.dumps(x, default=repr))


def write_replay(prop, tier, seed, case, viols, obs):
    d = os.path.join(VERIF, 'out', 'replay')
    os.makedirs(d, exist_ok=True)
    text = json.dumps(jsonable({'property': prop, 'tier': tier, 'seed': seed, 'case': case, 'violations': viols, 'observation': obs}), indent=1)
    path = os.path.join(d, '{}-{}.json'.format(prop, hashlib.sha1(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()[:12]))
    with open(path, 'w') as f:
        f.write(text)
    return path


def do_shrink(check, pool, case, mechanisms, budget=400):
    tries = 0
    progress = True
    while progress and tries < budget:
        progress = False
        for cand in check.shrink(case):
            tries += 1
            if tries > budget:
                break
            res = pool.run_one(cand)
            if res.get('violations') and {m for m, _ in res['violations']} & mechanisms:
                case = cand
                progress = True
                break
    return case


def main(check, argv=None):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--n', type=int)
    p.add_argument('--start', type=int, default=0)
    p.add_argument('--replay')
    p.add_argument('--shrink', action='store_true')
    p.add_argument('--verbose', action='store_true')
    p.add_argument('--max-viol', type=int, default=5)
    args = p.parse_args(argv)
    t0 = time.monotonic()
    root = scratch_root()
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    try:
        import_slash(check)
        return _main(check, args, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _main(check, args, root, t0):
    prop, tier, seed = check.prop, args.tier, args.seed
    known = [k for k in load_known() if k['property'] == prop and k.get('status') == 'open']
    known_by_mech = {k['mechanism']: k for k in known}
    check.setup(tier, seed)
    pool = Pool(check, root, verbose=args.verbose)

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        res = pool.run_one(data['case'])
        if args.shrink and res.get('violations'):
            case = do_shrink(check, Pool(check, root), data['case'], {m for m, _ in res['violations']})
            path = args.replay + '.min'
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': case}, f, indent=1)
            print(json.dumps(case, indent=1))
            res = pool.run_one(case)
        print(json.dumps(jsonable(res), indent=1))
        return 1 if res.get('violations') else 0

    n = args.n or check.num_cases(tier)
    counters = collections.Counter()
    sigs = set()
    samples = []
    evaluations = inconclusive = 0
    problems = []
    new_viols = []
    seen_known = collections.Counter()

    def cases():
        for i in range(args.start, args.start + n):
            if len(new_viols) >= args.max_viol:
                return
            yield i, check.gen(rng_for(seed, prop, tier, i), i, tier)

    def handle(i, case, res):
        nonlocal evaluations, inconclusive
        if 'harness_error' in res:
            problems.append('case {}: {}'.format(i, res['harness_error']))
            return
        evaluations += 1
        for k, v in res['counters'].items():
            counters[k] += v
        sig = res['signature']
        if sig is not None:
            if sig not in sigs and len(samples) < 3:
                samples.append({'index': i, 'case': jsonable(check.describe(case))})
            sigs.add(sig)
        fresh = []
        for mech, msg in res['violations']:
            if mech in known_by_mech:
                seen_known[mech] += 1
            else:
                fresh.append((mech, msg))
        if fresh:
            new_viols.append((i, case, fresh, res.get('obs')))

    redo = []
    for i, case, res in pool.run_all(cases()):
        if 'timeout' in res or 'died' in res:
            redo.append((i, case, res))
        else:
            handle(i, case, res)
    # A hang or crash is decided only after it repeats, alone, with time to spare.
    for i, case, res in redo[:6]:
        outcomes = [res]
        for _ in range(check.retries_on_timeout):
            solo = Pool(check, root, nproc=1)
            outcomes.append(solo.run_one(case, timeout=check.case_timeout))
            if 'timeout' not in outcomes[-1] and 'died' not in outcomes[-1]:
                break
        last = outcomes[-1]
        if 'timeout' in last:
            new_viols.append((i, case, [('hang', 'the run never terminated ({} attempts of {} s)'.format(len(outcomes), check.case_timeout))], None))
            evaluations += 1
        elif 'died' in last:
            new_viols.append((i, case, [('crash', 'the process died with wait status {}: {}'.format(last['died'], last['stderr'][-600:]))], None))
            evaluations += 1
        else:
            handle(i, case, last)
    inconclusive += max(0, len(redo) - 6)
    check.teardown()

    for mech, k in known_by_mech.items():
        print('KNOWN-FINDING: property={} {} [{}; seen {} times in this run]'.format(prop, k['what'], mech, seen_known[mech]))
    rc = 0
    for i, case, viols, obs in new_viols:
        path = write_replay(prop, tier, seed, case, viols, obs)
        for mech, msg in viols[:4]:
            print('  case {}: [{}] {}'.format(i, mech, msg[:1500]))
        print('VIOLATION property={} replay={}'.format(prop, path))
        rc = 1
    missing = [c for c in check.required if not counters[c]]
    if rc == 0:
        if problems:
            print('HARNESS ERROR ({} cases)\n{}'.format(len(problems), problems[0]))
            rc = 3
        elif missing or not sigs:
            print('INCONCLUSIVE: monitors observed nothing for {}'.format(missing or 'any case'))
            rc = 3
        elif inconclusive:
            print('INCONCLUSIVE: {} cases timed out'.format(inconclusive))
            rc = 3
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(sigs), 'rule': check.rule,
            'samples': samples, 'observed': dict(sorted(counters.items())),
            'known_findings_seen': dict(seen_known)},
        'assumptions': list(check.assumptions),
        'wall_s': round(time.monotonic() - t0, 2), 'violations': len(new_viols)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('{} {}: {} runs, {} distinct, {} violations, {:.1f}s {}'.format(
        prop, tier, evaluations, len(sigs), len(new_viols), time.monotonic() - t0,
        ' '.join('{}={}'.format(k, v) for k, v in sorted(counters.items()))))
    return rc
