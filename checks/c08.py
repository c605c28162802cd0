import os
import re

from vp import core, gensuite, suite
from vp.core import Violation
from vp.enginea import SuiteCheck

GOOD = 'import slash\nfrom vp import vpmon\ndef test_ok():\n    vpmon.here("test", "ok")\ndef test_ok2():\n    vpmon.here("test", "ok2")\n'
TEST = 'def test_a():\n    vpmon.here("test", "a")\n'

# name -> (files, argv, expected: 'zero' | 'nonzero', tests allowed to run)
SPECIAL = {
    'ok': ({'t.py': GOOD}, ['t.py'], 'zero', True),
    'ok-dir': ({'t.py': GOOD}, ['.'], 'zero', True),
    'missing-path': ({'t.py': GOOD}, ['t.py', 'nope.py'], 'nonzero', False),
    'missing-path-first': ({'t.py': GOOD}, ['nope.py', 't.py'], 'nonzero', False),
    'missing-factory': ({'t.py': GOOD}, ['t.py:test_nope'], 'nonzero', False),
    'no-args': ({'t.py': GOOD}, [], 'nonzero', False),
    'empty-dir': ({'d/readme.txt': 'x'}, ['d'], 'nonzero', False),
    'no-tests': ({'t.py': 'import slash\nx = 1\n'}, ['t.py'], 'nonzero', False),
    'filter-all': ({'t.py': GOOD}, ['t.py', '-k', 'nothingmatches'], 'nonzero', False),
    'bad-filter': ({'t.py': GOOD}, ['t.py', '-k', '(a'], 'nonzero', False),
    'syntax-error': ({'t.py': GOOD, 'u.py': 'def test_x(:\n'}, ['.'], 'nonzero', False),
    'import-error': ({'t.py': GOOD, 'u.py': 'import no_such_module_vp\n' + TEST}, ['.'], 'nonzero', False),
    'import-raises': ({'t.py': GOOD, 'u.py': 'raise ValueError("x")\n'}, ['.'], 'nonzero', False),
    'import-base-exception': ({'t.py': GOOD, 'u.py': 'class B(BaseException): pass\nraise B()\n'}, ['.'], 'nonzero', False),
    'import-interrupt': ({'t.py': GOOD, 'u.py': 'raise KeyboardInterrupt()\n'}, ['.'], 'nonzero', False),
    'import-sigint': ({'t.py': GOOD, 'u.py': 'import os, signal\nos.kill(os.getpid(), signal.SIGINT)\n'}, ['.'], 'nonzero', False),
    'import-sigterm': ({'t.py': GOOD, 'u.py': 'import os, signal\nos.kill(os.getpid(), signal.SIGTERM)\n'}, ['.'], 'nonzero', False),
    'import-exit-0': ({'t.py': GOOD, 'u.py': 'import sys\nsys.exit(0)\n'}, ['.'], 'nonzero', False),
    'import-exit-3': ({'t.py': GOOD, 'u.py': 'import sys\nsys.exit(3)\n'}, ['.'], 'nonzero', False),
    'import-skip': ({'t.py': GOOD, 'u.py': 'import slash\nslash.skip_test("x")\n'}, ['.'], 'nonzero', False),
    'bad-fixture': ({'t.py': GOOD, 'u.py': 'def test_x(no_such_fixture): pass\n'}, ['.'], 'nonzero', False),
    'unknown-option': ({'t.py': GOOD}, ['t.py', '--no-such-option'], 'nonzero', False),
    'bad-config-path': ({'t.py': GOOD}, ['t.py', '-o', 'no.such.path=1'], 'nonzero', False),
    'bad-config-value': ({'t.py': GOOD}, ['t.py', '-o', 'run.repeat_each=abc'], 'nonzero', False),
    'bad-slashrc': ({'t.py': GOOD, '.slashrc': 'raise ValueError("rc")\n'}, ['t.py'], 'nonzero', False),
    'exit-slashrc': ({'t.py': GOOD, '.slashrc': 'import sys\nsys.exit(2)\n'}, ['t.py'], 'nonzero', False),
    'bad-slashconf': ({'t.py': GOOD, 'slashconf.py': 'raise ValueError("conf")\n'}, ['t.py'], 'nonzero', False),
    'plugin-activate': ({'t.py': GOOD, '.slashrc': 'import slash\nfrom slash.plugins import PluginInterface, manager\nclass P(PluginInterface):\n    def get_name(self): return "p"\n    def activate(self): raise ValueError("p")\nmanager.install(P(), activate_later=True)\n'}, ['t.py'], 'nonzero', False),
    'loaded-raises': ({'t.py': GOOD, '.slashrc': 'import slash\n@slash.hooks.tests_loaded.register\ndef f(tests): raise ValueError("x")\n'}, ['t.py'], 'nonzero', False),
    'configure-raises': ({'t.py': GOOD, '.slashrc': 'import slash\n@slash.hooks.configure.register\ndef f(): raise ValueError("x")\n'}, ['t.py'], 'nonzero', False),
    'session-start-raises': ({'t.py': GOOD, '.slashrc': 'import slash\n@slash.hooks.session_start.register\ndef f(): raise ValueError("x")\n'}, ['t.py'], 'nonzero', False),
    'before-start-skips': ({'t.py': GOOD, '.slashrc': 'import slash\n@slash.hooks.session_start.register\ndef f(): slash.skip_test("x")\n'}, ['t.py'], 'nonzero', False),
    'session-end-raises': ({'t.py': GOOD, '.slashrc': 'import slash\n@slash.hooks.session_end.register\ndef f(): raise ValueError("x")\n'}, ['t.py'], 'nonzero', True),
    'after-end-raises': ({'t.py': GOOD, '.slashrc': 'import slash\n@slash.hooks.after_session_end.register\ndef f(): raise ValueError("x")\n'}, ['t.py'], 'nonzero', True),
    'session-cleanup-raises': ({'t.py': GOOD, '.slashrc': 'import slash\n@slash.hooks.session_start.register\ndef f(): slash.add_cleanup(g)\ndef g(): raise ValueError("x")\n'}, ['t.py'], 'nonzero', True),
    'session-error-added': ({'t.py': GOOD, '.slashrc': 'import slash\n@slash.hooks.session_start.register\ndef f(): slash.add_error("x")\n'}, ['t.py'], 'nonzero', True),
    'session-failure-added': ({'t.py': GOOD, '.slashrc': 'import slash\n@slash.hooks.session_end.register\ndef f(): slash.add_failure("x")\n'}, ['t.py'], 'nonzero', True),
    'skips-only': ({'t.py': 'import slash\n@slash.skipped\ndef test_a(): pass\ndef test_b(): slash.skip_test("x")\n'}, ['t.py'], 'zero', True),
    'skip-in-module-fixture-td': ({'t.py': 'import slash\n@slash.fixture(scope="module")\ndef f(this):\n    this.add_cleanup(lambda: slash.skip_test("x"))\ndef test_b(f): pass\n'}, ['t.py'], 'zero', True),
    'exit-0-in-test': ({'t.py': GOOD + 'import sys\ndef test_zz(): sys.exit(0)\n'}, ['t.py'], 'nonzero', True),
    'exit-0-in-first-test': ({'t.py': GOOD + 'import sys\ndef test_a(): sys.exit(0)\n'}, ['t.py'], 'nonzero', True),
    'exit-none-in-test': ({'t.py': GOOD + 'import sys\ndef test_a(): sys.exit()\n'}, ['t.py'], 'nonzero', True),
    'exit-str-in-test': ({'t.py': GOOD + 'import sys\ndef test_a(): sys.exit("bye")\n'}, ['t.py'], 'nonzero', True),
    'base-exception-in-test': ({'t.py': GOOD + 'class B(BaseException): pass\ndef test_a(): raise B()\n'}, ['t.py'], 'nonzero', True),
    'generator-exit-in-test': ({'t.py': GOOD + 'def test_a(): raise GeneratorExit()\n'}, ['t.py'], 'nonzero', True),
    'error-in-last-module-scope': ({'t.py': 'import slash\ndef test_b(): slash.add_cleanup(lambda: 1/0, scope="session")\n'}, ['t.py'], 'nonzero', True),
    'bad-suite-file': ({'t.py': GOOD, 's.txt': 't.py\nnope.py\n'}, ['-f', 's.txt'], 'nonzero', False),
    'missing-suite-file': ({'t.py': GOOD}, ['-f', 's.txt'], 'nonzero', False),
    'suite-file': ({'t.py': GOOD, 's.txt': 't.py\n'}, ['-f', 's.txt'], 'zero', True),
    'invalid-x': ({'t.py': 'def test_a(): assert False\n'}, ['t.py', '-x'], 'nonzero', True),
}


class CHECK(SuiteCheck):
    prop = 'C08'
    rule = ('totals, session success, exit code and console summary of one generated suite compared with the individual results and the reference interpreter; '
            'plus {} scenarios of loading and session-level problems run through the command line'.format(len(SPECIAL)))
    required = ('special', 'exit_zero', 'exit_nonzero', 'summaries')
    imports = SuiteCheck.imports + ('slash.frontend.main',)
    profile = dict(p_interrupt=0.015, p_exit=0.02, p_hook_session=0.1, p_stop=0.2)
    n_quick = 200

    def num_cases(self, tier):
        return len(SPECIAL) + super().num_cases(tier)

    def gen(self, rng, i, tier):
        if i < len(SPECIAL):
            return {'special': sorted(SPECIAL)[i]}
        p = dict(self.profile)
        if i % 3 == 0:
            p.update(p_avoid=rng.choice([0.05, 0.3]), p_action=rng.choice([0, 0.05]), p_fx_action=0.02, p_td_action=0.02, p_cleanup_action=0.03, p_interrupt=0, p_exit=0, p_hook=0.05, p_skip=0.5)
        if i % 10 == 1:
            # the only problem of the run comes from a place outside the tests' own code
            p.update(p_avoid=0.35, p_action=0, p_fx_action=0, p_td_action=0, p_cleanup_action=0, p_interrupt=0, p_exit=0, p_hook=1, p_skip=0.1, p_hook_session=0,
                     hook_names=[rng.choice(gensuite.TEST_HOOKS + ['test_avoided'] * 5)])
        spec = gensuite.gen_suite(rng, **p)
        spec['argv'] += rng.choice([[], [], ['-v'], ['-vv'], ['-q'], ['-qq'], ['-vvv'], ['--tb=0'], ['--tb=1'], ['--tb=4'], ['-vv', '--tb=3']])
        if i % 7 == 3:
            spec['prior'] = [rng.choice(sorted(suite.PRIOR))]
        return spec

    def run(self, case):
        if 'special' not in case:
            return suite.run(case)
        from vp import vpmon
        files, argv, _, _ = SPECIAL[case['special']]
        for name, text in files.items():
            os.makedirs(os.path.dirname(os.path.join(os.getcwd(), name)), exist_ok=True)
            with open(name, 'w') as f:
                f.write(text)
        code, out, err, escaped = suite.run_cli(['run'] + argv)
        return {'code': code, 'out': out, 'err': err, 'escaped': repr(escaped) if escaped is not None else None, 'ran': len(vpmon.EV)}

    def judge(self, case, obs):
        if 'special' in case:
            return list(self.judge_special(case, obs))
        return super().judge(case, obs)

    def judge_special(self, case, obs):
        name = case['special']
        _, _, expected, may_run = SPECIAL[name]
        if (obs['code'] == 0) != (expected == 'zero'):
            yield Violation('exit-code:' + name, 'scenario {}: exit code {}\n{}\n{}'.format(name, obs['code'], obs['out'][-500:], obs['err'][-500:]))
        if not may_run and obs['ran']:
            yield Violation('ran:' + name, 'scenario {}: {} tests ran'.format(name, obs['ran']))
        if obs['escaped'] and expected == 'nonzero' and not may_run and 'KeyboardInterrupt' not in obs['escaped'] and "B()" not in obs['escaped']:
            yield Violation('escaped:' + name, 'scenario {}: exception {} escaped the command line'.format(name, obs['escaped']))

    def compare(self, case, obs, model):
        t = obs['totals']
        rs = [x['result'] for x in obs['tests'] if x['result'] is not None]
        every = rs + [obs['global']]
        want = {
            'results': len(rs), 'num_results': len(rs), 'started': sum(r['started'] for r in rs),
            'successful': sum(r['success'] and r['finished'] for r in rs),
            'errors': sum(bool(r['errors']) for r in every), 'failures': sum(bool(r['failures']) and not r['errors'] for r in every),
            'skipped': sum(bool(r['skips']) for r in every),
            'skipped_run': sum(bool(r['skips']) and r['started'] for r in every),
            'not_run': sum(not r['started'] and not r['errors'] and not r['failures'] for r in rs),
            'interrupted': any(r['interrupted'] for r in every), 'fatal': any(r['fatal'] for r in every)}
        want['is_success_skips'] = not any(r['errors'] or r['failures'] or r['interrupted'] for r in every) and all(r['started'] or r['skips'] for r in rs)
        for k, v in want.items():
            if t[k] != v:
                yield Violation('total-' + k, 'total {} is {}, the individual results say {}'.format(k, t[k], v))
        for i, x in enumerate(obs['tests']):
            r = x['result']
            if r is None:
                continue
            if r['success'] != (r['started'] and not (r['errors'] or r['failures'] or r['skips'] or r['interrupted'])):
                yield Violation('success-flag', 'test {}: success={} with {}'.format(x['address'], r['success'], r))
        if obs['exit_code'] != model.exit_code:
            yield Violation('exit-code', 'exit code {} expected {}'.format(obs['exit_code'], model.exit_code))
        good = want['is_success_skips'] and t['complete'] and len(rs) == len(obs['tests'])
        if model.escaped is None and (obs['exit_code'] == 0) != good:
            yield Violation('exit-code', 'exit code {} although the session was {}'.format(obs['exit_code'], 'good' if good else 'not good'))
        if not t['interrupted'] and model.escaped is None and len(rs) != len(obs['tests']):
            yield Violation('num-results', '{} results for {} tests'.format(len(rs), len(obs['tests'])))
        yield from self.results(obs, model, ('errors', 'failures', 'skips', 'interrupted', 'started', 'success', 'not_run'), 'result')
        yield from self.console(case, obs, want)

    def console(self, case, obs, want):
        text = obs['console']
        m = re.search(r'Session ended\. (\d+) successful, (\d+) skipped, (\d+) failed, (\d+) erroneous\.(?: (\d+) not run\.)?', text.replace('\n', ' '))
        if not m:
            yield Violation('console', 'no summary line on the console: {}'.format(text[-300:]))
            return
        got = [int(x or 0) for x in m.groups()]
        exp = [want['successful'], want['skipped_run'], want['failures'], want['errors'], want['not_run']]
        if got != exp:
            yield Violation('console', 'console says successful/skipped/failed/erroneous/not run {} expected {}'.format(got, exp))
        quiet = any(a in ('-qq', '-q') for a in case['argv'])
        listed = [os.path.basename(x) for x in re.findall(r'(?m)^== #\d+: (\S.*?) ?=*$', text)]
        bad = [os.path.basename(x['address']) for i, x in sorted(enumerate(obs['tests'])) if x['result'] and (x['result']['errors'] or x['result']['failures'])]
        skip = [os.path.basename(x['address']) for x in obs['tests'] if x['result'] and x['result']['skips']]
        if not quiet:
            missing = [b for b in bad if b not in listed]
            if missing:
                yield Violation('console-names', 'unsuccessful tests not named in the summary: {} (listed: {})'.format(missing[:3], listed[:6]))
            extra = [x for x in listed if x not in bad and x not in skip]
            if extra:
                yield Violation('console-names', 'summary names tests that had no problem: {}'.format(extra[:3]))
        for x in obs['tests']:
            r = x['result']
            if r and not quiet:
                for ident in r['errors'] + r['failures']:
                    if '@' in ident and '--tb=0' not in case['argv'] and ident not in text:
                        yield Violation('console-messages', 'message {} of {} is not on the console'.format(ident, x['address']))
                        return

    def counters(self, case, obs):
        if 'special' in case:
            return {'special': 1}
        c = super().counters(case, obs)
        c['exit_zero' if obs['exit_code'] == 0 else 'exit_nonzero'] = 1
        c['summaries'] = 'Session ended.' in obs['console']
        return c

    def signature(self, case, obs):
        if 'special' in case:
            return case['special']
        return super().signature(case, obs)

    def shrink(self, case):
        return iter(()) if 'special' in case else gensuite.shrink_suite(case)

    def describe(self, case):
        return case if 'special' in case else super().describe(case)
