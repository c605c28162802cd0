import collections
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

from vp import core, suite, tbprobe
from vp.core import Check, Violation

VALGRIND = shutil.which('valgrind')
HOWS = ['drop', 'drop', 'reraise', 'from', 'wrap', 'none', 'cut', 'again', 'kept', 'keep', 'keep']
SUITE = '''import slash
from vp import tbrun
@slash.parametrize('n', list(range({})))
def test_x(n):
    tbrun.go(n)
'''


LONG = 30


def suspects(counts):
    """Something increases in most steps"""
    for k in range(2):
        series = [c[k] for c in counts[1:]]
        if len(series) >= 2 and series[-1] > series[0] and sum(b <= a for a, b in zip(series, series[1:])) <= 1:
            return True
    return False


def leaks(series):
    """By about as much in each third of the rounds, and at least one thing per round"""
    n = len(series) // 3
    a, b, c = series[:n], series[n:2 * n], series[-n:]
    return max(a) < min(b) and max(b) < min(c) and series[-1] - series[0] >= len(series) - 1


def block(rng, depth, budget, thread=False):
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        out.append(statement(rng, depth, budget, thread))
    if rng.random() < 0.7:
        out.append(['raise', rng.randrange(8)])
    return out


def statement(rng, depth, budget, thread):
    r = rng.random()
    if depth <= 0 or r < 0.3:
        kind = rng.choice(['gc', 'walk', 'show', 'drop', 'dropall', 'clear', 'rethrow', 'again', 'link', 'link', 'copy', 'error', 'census', 'raise'])
        if kind == 'census' and thread:
            kind = 'walk'
        if kind == 'link':
            return [kind, rng.randrange(40), rng.randrange(40)]
        if kind in ('dropall', 'error', 'census'):
            return [kind]
        return [kind, rng.randrange(40)]

    def sub(t=thread):
        return block(rng, depth - 1, budget, t)
    kind = rng.choice(['h', 'h', 'h', 'made', 'stack', 'gen', 'try', 'try', 'try', 'rec', 'closure', 'method', 'thread', 'loop'])
    if kind in ('h', 'made', 'gen'):
        return [kind, rng.randrange(16) if rng.random() < 0.9 else rng.randrange(32), sub()]
    if kind == 'stack':
        return [kind, rng.randrange(4), sub()]
    if kind == 'try':
        return [kind, rng.choice(HOWS), sub()]
    if kind == 'rec':
        return [kind, rng.choice([0, 1, 3, 10, 40, 150]), sub()]
    if kind == 'loop':
        return [kind, rng.choice([2, 3, 10]), sub()]
    return [kind, sub(True if kind == 'thread' else thread)]


def guarded(program):
    """Each statement in a context, so that one exception is not the end of the program"""
    return [['try', 'drop', [['h', k * 5 % 16, [s]]]] for k, s in enumerate(program)]


class CHECK(Check):
    prop = 'C28'
    technique = ('memory sanitizers (debugging allocator with developer mode, valgrind memcheck) and a reference count census, on generated programs of handled, kept, relinked and collected exceptions')
    rule = ('random programs nesting contexts, recursion, generators, threads, loops and handlers, in which tracebacks obtained from log records and error hooks are walked, formatted, relinked, cleared, '
            'raised again and dropped in any order, with garbage collection disabled, ordinary or after nearly every allocation; outside sessions for several rounds, in tests, and under memcheck')
    required = ('seen', 'raised', 'censuses', 'objects', 'walked', 'bare', 'suites', 'memcheck', 'no_gc', 'hectic_gc', 'tests')
    assumptions = ('the interpreter and slash\'s dependencies (gossip, logbook) are memory-safe themselves',
                   'memcheck runs without its checks for uninitialised values', 'in a session, tracebacks are released once the error hooks have been called')
    dev_mode = True
    n_quick = 130
    n_thorough = 6000
    case_timeout = 500

    def gen(self, rng, i, tier):
        mem = i < 4 if tier == 'quick' else i < 60
        kind = 'memcheck' if mem else rng.choice(['bare', 'bare', 'bare', 'suite', 'suite'])
        budget = [8 if mem and tier == 'quick' else 25 if mem else rng.choice([10, 30, 80])]
        program = []
        while budget[0] > 0:
            program += block(rng, rng.choice([2, 3, 4, 6]), budget)
        case = {'kind': kind, 'program': guarded(program), 'rounds': (1 if tier == 'quick' else 2) if mem else 6, 'tests': rng.choice([5, 8])}
        case['threshold'] = rng.choice([None, None, [0], [1, 1, 1], [7, 3, 3]]) if not mem else rng.choice([None, [0], [300, 5, 5]])
        if case['threshold'] == [1, 1, 1]:
            case['rounds'] = 3
            case['tests'] = 4
        return case

    # running

    def setup(self, tier, seed):
        # what is compiled once need not be compiled under memcheck
        self.cache = tempfile.mkdtemp(prefix='vp-pyc-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        with open(os.path.join(self.cache, 'case.json'), 'w') as f:
            json.dump({'program': [['h', 1, [['raise', 1]]], ['thread', [['raise', 1]]], ['made', 1, []], ['stack', 1, []]], 'rounds': 1, 'path': self.path(), 'census': False}, f)
        subprocess.run([sys.executable, tbprobe.__file__, os.path.join(self.cache, 'case.json'), os.path.join(self.cache, 'out.json')],
                       env=self.env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False)

    def teardown(self):
        shutil.rmtree(self.cache, ignore_errors=True)

    def path(self):
        return [core.REPO, os.path.dirname(os.path.dirname(tbprobe.__file__))]

    def env(self):
        env = dict(os.environ, PYTHONMALLOC='malloc', PYTHONPYCACHEPREFIX=os.path.join(self.cache, 'pyc'))
        for name in ('PYTHONDEVMODE', 'PYTHONDONTWRITEBYTECODE'):
            env.pop(name, None)
        return env

    def run(self, case):
        if case['kind'] == 'memcheck':
            return self.memcheck(case)
        obs = self.apart(case)
        if obs['outcome'] == 'ok' and suspects(obs['value']['counts']):
            # what grows in six rounds may be noise, what grows in many is not
            longer = self.apart(dict(case, rounds=LONG, tests=LONG))
            if longer['outcome'] != 'ok':
                return longer
            obs['value']['long'] = longer['value']['counts']
        return obs

    def apart(self, case):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                fd = os.open('stderr', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(fd, 2)
                try:
                    out = ('ok', self.suite(case) if case['kind'] == 'suite' else self.bare(case))
                except BaseException:  # pylint: disable=broad-except
                    out = ('error', traceback.format_exc())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        with open('stderr', 'rb') as f:
            err = f.read().decode('utf-8', 'replace')
        if os.WIFSIGNALED(status) or not data:
            return {'outcome': 'crash', 'signal': os.WTERMSIG(status) if os.WIFSIGNALED(status) else None, 'stderr': err[:3000]}
        what, value = pickle.loads(data)
        return {'outcome': what, 'value': value, 'stderr': err[:3000] if 'Debug memory' in err or 'Fatal Python' in err else ''}

    def bare(self, case):
        import gc
        if case['threshold']:
            gc.set_threshold(*case['threshold'])
        return tbprobe.bare(case)

    def suite(self, case):
        import gc
        import gossip
        import types
        m = tbprobe.Machine()
        counts = []
        mod = types.ModuleType('vp.tbrun')
        mod.go = lambda n: m.run(case['program'], leave=n % 2 == 0)
        sys.modules['vp.tbrun'] = mod
        with open('test_it.py', 'w') as f:
            f.write(SUITE.format(case['tests']))

        def added(error, result):
            m.capture(error.exc_info)

        def ended():
            m.census()
            m.kept.clear()
            gc.collect()
            gc.collect()
            counts.append(tbprobe.live())
        gossip.register(added, 'slash.error_added')
        gossip.register(ended, 'slash.test_end')
        if case['threshold']:
            gc.set_threshold(*case['threshold'])
        with tbprobe.log_capture(m).applicationbound():
            app, console, escaped = suite.run_app(['.'])
        if escaped is not None or len(counts) != case['tests']:
            raise RuntimeError('{!r} {} tests: {}'.format(escaped, len(counts), console[-1500:]))
        return {'problems': m.problems, 'counts': counts,
                'totals': dict(seen=m.seen, raised=m.raised, censuses=m.censuses, objects=m.objects, walked=m.walked)}

    def memcheck(self, case):
        if VALGRIND is None:
            raise RuntimeError('valgrind is not installed')
        with open('case.json', 'w') as f:
            json.dump(dict(case, path=self.path(), census=False), f)
        p = subprocess.run([VALGRIND, '-q', '--error-exitcode=97', '--undef-value-errors=no', '--leak-check=no', '--num-callers=8', '--log-file=valgrind.log', sys.executable, tbprobe.__file__, 'case.json', 'out.json'],
                           env=self.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
        with open('valgrind.log', encoding='utf-8', errors='replace') as f:
            log = f.read()
        if p.returncode == 97 or p.returncode < 0 or 'Invalid' in log:
            return {'outcome': 'memcheck', 'stderr': log[:4000], 'code': p.returncode}
        if p.returncode:
            return {'outcome': 'error', 'value': p.stdout.decode('utf-8', 'replace')[-3000:] + log[:1000], 'stderr': ''}
        with open('out.json') as f:
            return {'outcome': 'ok', 'value': json.load(f), 'stderr': ''}

    # judging

    def judge(self, case, obs):
        what = {'memcheck': 'under memcheck', 'bare': 'outside sessions', 'suite': 'in tests'}[case['kind']]
        if obs['outcome'] == 'error':
            raise RuntimeError(obs['value'])
        if obs['outcome'] == 'crash':
            if obs['signal'] == signal.SIGKILL:
                raise RuntimeError('killed')
            return [Violation('crash', '{}: the interpreter died of signal {}: {}'.format(what, obs['signal'], obs['stderr'][:600]))]
        if obs['outcome'] == 'memcheck':
            return [Violation('memcheck', '{}: {}'.format(what, obs['stderr'][:800]))]
        out = [Violation(kind, '{}: {}'.format(what, text)) for kind, text in obs['value']['problems']]
        if obs['stderr']:
            out.append(Violation('allocator', '{}: {}'.format(what, obs['stderr'][:600])))
        counts = obs['value'].get('long')
        if counts:
            out += [Violation('growth', '{}: {} alive after each round: {}'.format(what, name, [c[k] for c in counts]))
                    for k, name in enumerate(('tracebacks', 'frames')) if leaks([c[k] for c in counts[1:]])]
        return out[:3]

    def counters(self, case, obs):
        c = collections.Counter()
        if obs['outcome'] == 'ok':
            c.update(obs['value']['totals'])
            c[{'bare': 'bare', 'suite': 'suites', 'memcheck': 'memcheck'}[case['kind']]] += 1
            c['no_gc'] += case['threshold'] == [0]
            c['hectic_gc'] += case['threshold'] == [1, 1, 1]
            c['tests'] += case['tests'] if case['kind'] == 'suite' else 0
        return c

    def signature(self, case, obs):
        if obs['outcome'] != 'ok' or not obs['value']['totals'].get('seen'):
            return None
        return hash(repr((case['kind'], case['threshold'], sorted(obs['value']['totals'].items())))) & 0xffffffffffff

    def shrink(self, case):
        p = case['program']
        for k in range(len(p)):
            yield dict(case, program=p[:k] + p[k + 1:])
        for k, s in enumerate(p):
            for inner in self.inner(s):
                yield dict(case, program=p[:k] + inner + p[k + 1:])

    def inner(self, s):
        for n, x in enumerate(s[1:], 1):
            if isinstance(x, list) and x and isinstance(x[0], list):
                yield x
                for k in range(len(x)):
                    yield [s[:n] + [x[:k] + x[k + 1:]] + s[n + 1:]]
                    for sub in self.inner(x[k]):
                        yield [s[:n] + [x[:k] + sub + x[k + 1:]] + s[n + 1:]]
