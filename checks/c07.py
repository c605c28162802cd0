from vp import gensuite
from vp.core import Violation
from vp.enginea import SuiteCheck

SESSION = ['before_session_start', 'session_start', 'after_session_start']
OUTCOMES = ('test_success', 'test_error', 'test_failure', 'test_skip')


class CHECK(SuiteCheck):
    prop = 'C07'
    rule = 'sequence of every public lifecycle hook (with arguments and context) of one generated suite, compared with the reference interpreter and checked by an independent grammar automaton'
    required = ('hooks', 'failing_callbacks', 'automaton_tests')
    profile = dict(p_hook=0.75, p_action=0.4, p_td_action=0.2, p_interrupt=0.01, p_exit=0.01, p_hook_session=0.08, p_stop=0.1)
    n_quick = 240

    def compare(self, case, obs, model):
        keep = ('hook', 'hook2', 'test', 'before', 'after')
        yield from self.trace(obs, model, lambda e: e['k'] in keep, '*', 'hooks')
        yield from self.automaton(case, obs)

    def automaton(self, case, obs):
        """Grammar of the hooks, independent of the model (only for runs no interrupt, exit or session hook failure cut short)"""
        session_hook = any(h not in gensuite.TEST_HOOKS for h in case['hooks'])
        cut = obs['totals']['interrupted'] or session_hook or any(e['k'] == 'raise' and e.get('what') == 'exit' for e in obs['events'])
        hooks = [e for e in obs['events'] if e['k'] == 'hook' and e['key'] not in ('configure', 'result_summary', 'app_quit', 'error_added', 'interruption_added')]
        names = [e['key'] for e in hooks]
        if cut:
            return
        tests = [i for i, t in enumerate(obs['tests']) if t['result'] is not None and t['result']['started']]
        want_start = ['tests_loaded'] + SESSION
        want_end = (['before_session_cleanup'] if tests else []) + ['session_end', 'after_session_end']
        mid = names[len(want_start):]
        tail = [n for n in mid if n in want_end]
        if names[:len(want_start)] != want_start or sorted(tail) != sorted(want_end) or mid[-2:] != want_end[-2:]:
            yield Violation('grammar-session', 'session hooks: {} ... {}'.format(names[:5], names[-5:]))
        per = {}
        for e in hooks:
            if e['key'].startswith('test_') or e['key'] == 'before_test_cleanups':
                per.setdefault(e['c']['T'], []).append(e['key'])
        for t, seq in per.items():
            seq = [n for n in seq if n != 'tests_loaded']
            if t is None:
                if seq:
                    yield Violation('grammar-test', '{} fired outside any test'.format(seq))
                continue
            res = obs['tests'][t]['result']
            if seq == ['test_avoided']:
                continue
            oc = [n for n in seq if n in OUTCOMES]
            if len(oc) != 1 or seq != ['test_start', 'before_test_cleanups', oc[0], 'test_end']:
                yield Violation('grammar-test', 'hooks of {}: {}'.format(obs['tests'][t]['address'], seq))
        added = sum(1 for e in obs['events'] if e['k'] == 'hook' and e['key'] == 'error_added')
        recorded = sum(len(t['result']['errors']) + len(t['result']['failures']) for t in obs['tests'] if t['result']) + len(obs['global']['errors']) + len(obs['global']['failures'])
        if added != recorded:
            yield Violation('error-added', 'error_added fired {} times, {} errors and failures recorded'.format(added, recorded))

    def counters(self, case, obs):
        c = super().counters(case, obs)
        c['hooks'] = c['ev_hook']
        c['failing_callbacks'] = sum(1 for e in obs['events'] if e['k'] == 'hook2')
        c['automaton_tests'] = sum(1 for e in obs['events'] if e['k'] == 'hook' and e['key'] == 'test_end')
        return c
