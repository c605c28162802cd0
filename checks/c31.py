import collections
import io
import json
import os

from vp import suite
from vp.core import Check, Violation

from checks.c11 import forked

SIGNALS = ('SIGUSR2', 'SIGUSR2', 'SIGUSR2', 'SIGUSR1', 'SIGUSR1', 'SIGHUP', 'SIGWINCH', 'SIGALRM', 'SIGURG')
HOOKS = ('session_start', 'test_start', 'test_end', 'before_session_cleanup', 'tests_loaded', 'test_skip')
PLACES = ('body', 'body', 'body', 'fixture', 'teardown', 'before', 'after', 'module', 'session')

TEMPLATE = '''import slash
from vp import sigprobe

@slash.fixture
def fx(this):
    this.add_cleanup(lambda: sigprobe.from_file('{k}.teardown'))
    sigprobe.from_file('{k}.fixture')
    return 1

@slash.fixture(scope='module')
def mod(this):
    this.add_cleanup(lambda: sigprobe.from_file('{k}.modtd'))
    sigprobe.from_file('{k}.module')

class Test(slash.Test):
    def before(self):
        sigprobe.from_file('{k}.before')
    def after(self):
        sigprobe.from_file('{k}.after')
    def test_m(self, fx):
        sigprobe.from_file('{k}.body')

def test_f(mod, fx):
    sigprobe.from_file('{k}.fbody')

@slash.parametrize('x', [1, 2])
def test_p(x):
    slash.add_cleanup(lambda: sigprobe.from_file('{k}.session'), scope='module')
    sigprobe.from_file('{k}.pbody' + str(x))
'''
KEYS = ('teardown', 'fixture', 'modtd', 'module', 'before', 'after', 'body', 'fbody', 'session', 'pbody1', 'pbody2')


class CHECK(Check):
    prop = 'C31'
    technique = 'runtime monitoring with injected signals: complete event log, results and console of generated sessions interrupted by real signals at random places, vs. a monitored reference run in which the code at those places does what the handlers are to do'
    rule = 'projects with fixtures, hooks, cleanups and tests of every kind, sending signals to themselves (kill, raise_signal, from threads and other processes), registering handlers before and after activation, activating and deactivating the plugin'
    required = ('signals', 'default_skips', 'stacks', 'custom_calls', 'original_calls', 'raising_handlers', 'late_registered', 'deactivated', 'restored', 'in_body', 'in_fixture', 'in_cleanup', 'in_hook', 'replaced')
    assumptions = ('signals arrive while code of a test, fixture, cleanup or hook callback is executing', 'standard output is not a terminal')
    n_quick = 260
    n_thorough = 6000

    def ops(self, rng, state, depth=0, many=1.0):
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.5:
                out.append(['send', rng.choice(SIGNALS), rng.choice(['kill', 'kill', 'kill', 'raise', 'thread', 'child'])])
            elif r < 0.62:
                state['n'] += 1
                out.append(['register', rng.choice(SIGNALS), state['n'], rng.choice(['none', 'none', 'raise', 'skip', 'error', 'cleanup', 'fatal'] if rng.random() < 0.5 else ['none'])])
            elif r < 0.65:
                state['n'] += 1
                for op in (['deactivate'], ['other', rng.choice(SIGNALS), state['n']], ['activate'])[:rng.choice([2, 3, 3])]:
                    out.append(op)
            elif r < 0.68:
                out.append([rng.choice(['activate', 'deactivate', 'unknown', 'deactivate'])])
            elif r < 0.9 and depth < 2:
                k = rng.choice(['try', 'cleanup', 'deep', 'handling'])
                op = [k, self.ops(rng, state, depth + 1)]
                if k == 'handling':
                    op.append(rng.random() < 0.5)
                out.append(op)
            else:
                state['n'] += 1
                out.append(['mark', state['n']])
        return out

    def gen(self, rng, i, tier):
        state = {'n': 0}
        files = rng.choice([1, 1, 2])
        plan = {}
        for k in range(files):
            for key in rng.sample(KEYS, rng.choice([1, 2, 2, 3, 5])):
                plan['{}.{}'.format(k, key)] = self.ops(rng, state)
        early = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            state['n'] += 1
            early.append(['register', rng.choice(SIGNALS), state['n'], rng.choice(['none', 'none', 'raise', 'skip', 'error'])])
        hooks = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops = [[rng.randint(1, 4), op] for op in self.ops(rng, state, depth=5)]
            hooks.append([ops, rng.choice(HOOKS)])
        return {'plan': plan, 'early': early, 'hooks': hooks, 'files': files, 'active': rng.random() < 0.9, 'argv': rng.choice([[], [], ['-x'], ['-v'], ['-vv']])}

    def once(self, case, real):
        from vp import sigprobe
        stream = io.StringIO()
        with open('ops.json', 'w', encoding='utf-8') as f:
            json.dump(case['plan'], f)
        sigprobe.start(real, stream, case['hooks'])
        for k in range(case['files']):
            with open('test_{}.py'.format(k), 'w', encoding='utf-8') as f:
                f.write(TEMPLATE.format(k=k))
        for op in case['early']:
            sigprobe.do(op)
        argv = ['test_{}.py'.format(k) for k in range(case['files'])] + case['argv']
        if case['active']:
            sigprobe.S['active'] = True
            sigprobe.S['current'].update(sigprobe.S['registered'])
            if real:
                argv.append('--with-signal-handling')
        app, text, escaped = suite.run_app(argv, stream=stream)
        out = {'escaped': None if escaped is None else repr(escaped), 'code': None if app is None else app.exit_code, 'log': list(sigprobe.S['log']), 'results': []}
        if app is not None and app.session is not None:
            for r in app.session.results.iter_all_results():
                meta = r.test_metadata
                out['results'].append([None if meta is None else meta.address.split(':')[-1], r.is_started(), r.is_error(), r.is_failure(), r.is_skip(), r.is_success(), r.is_interrupted(), r.is_not_run(),
                                       [e.exception_type.__name__ if e.exception_type else None for e in r.get_errors()], [str(e.message) for e in r.get_errors() + r.get_failures()],
                                       ['SIGUSR2' if 'SIGUSR2' in str(s) else str(s) for s in r.get_skips()]])
        else:
            out['text'] = text[-2000:]
        sigprobe.deactivate()
        out['final'] = sigprobe.final()
        return out

    def run(self, case):
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        out = {}
        for name, real in (('real', True), ('reference', False)):
            out[name] = forked(lambda real=real: self.once(case, real))()
        return out

    def judge(self, case, obs):
        for v in self.violations(case, obs):
            return [v]
        return []

    def violations(self, case, obs):
        real, ref = obs['real'], obs['reference']
        for n, (a, b) in enumerate(zip(real['log'] + [None], ref['log'] + [None])):
            if a != b:
                yield Violation('events', 'event {}: {} with signals, {} when what their handlers do is called; after {}'.format(n, a, b, real['log'][max(0, n - 6):n]))
                return
        for a, b in zip(real['results'], ref['results']):
            if a != b:
                yield Violation('results', 'result with signals {}; when what their handlers do is called: {}'.format(a, b))
                return
        for key in ('escaped', 'code'):
            if real[key] != ref[key]:
                yield Violation(key, '{}: {} with signals, {} when what their handlers do is called'.format(key, real[key], ref[key]))
        if len(real['results']) != len(ref['results']):
            yield Violation('results', '{} results, {} in the reference'.format(len(real['results']), len(ref['results'])))
        for name, ok in real['final'].items():
            if not ok:
                yield Violation('restore', 'the handler of {} is not restored when the plugin is deactivated'.format(name))

    def counters(self, case, obs):
        c = collections.Counter(sessions=1)
        log = obs['real']['log']
        c['signals'] = sum(e[0] == 'send' for e in log)
        c['default_skips'] = sum(s == 'SIGUSR2' for r in obs['real']['results'] for s in r[-1])
        c['stacks'] = sum(e[0] == 'usr1' for e in log)
        c['custom_calls'] = sum(e[0] == 'handler' for e in log)
        c['original_calls'] = sum(e[0] in ('orig', 'other') for e in log)
        c['raising_handlers'] = sum(m.startswith('handler ') or 'handler ' in m for r in obs['real']['results'] for m in r[-2])
        text = json.dumps(case['plan'])
        c['late_registered'] = text.count('"register"')
        c['deactivated'] = text.count('"deactivate"')
        c['restored'] = sum(obs['real']['final'].values()) if case['active'] else 0
        c['in_hook'] = sum(a[0] == 'hook' and b[0] == 'send' for a, b in zip(log, log[1:]))
        for key, names in (('in_body', ('body', 'fbody', 'pbody1', 'pbody2')), ('in_fixture', ('fixture', 'module')), ('in_cleanup', ('teardown', 'modtd', 'session'))):
            c[key] = sum('"send"' in json.dumps(v) for k, v in case['plan'].items() if k.split('.')[1] in names)
        c['in_cleanup'] += text.count('"cleanup", [["send"')
        c['replaced'] = sum('"register", "SIGUSR{}"'.format(k) in text for k in (1, 2))
        return c

    def signature(self, case, obs):
        return repr(obs['real']['log'])

    def shrink(self, case):
        for k in case['plan']:
            yield dict(case, plan={a: b for a, b in case['plan'].items() if a != k})
            for j in range(len(case['plan'][k])):
                yield dict(case, plan=dict(case['plan'], **{k: case['plan'][k][:j] + case['plan'][k][j + 1:]}))
        for key in ('early', 'hooks'):
            for j in range(len(case[key])):
                yield dict(case, **{key: case[key][:j] + case[key][j + 1:]})
        if case['argv']:
            yield dict(case, argv=[])
