from vp import gensuite
from vp.core import Violation
from vp.enginea import SuiteCheck

HOOKS = gensuite.TEST_HOOKS + ['before_session_start', 'session_start', 'after_session_start', 'before_session_cleanup', 'session_end', 'after_session_end', 'error_added']


def cleanup_keys(actions):
    for a in actions:
        if a[0] == 'cleanup':
            yield a[1]
        elif a[0] in ('try', 'swallow'):
            yield from cleanup_keys(a[1])
        elif a[0] in ('handle', 'nth'):
            yield from cleanup_keys(a[2])


class CHECK(SuiteCheck):
    prop = 'C12'
    level = 'fault_enumeration'
    rule = ('one interrupt (SIGINT, SIGTERM, KeyboardInterrupt or TerminatedException), sometimes two, injected at one place of a generated suite; complete event log, '
            'results and exit code compared with the reference interpreter; distinct = distinct event sequences')
    assumptions = ['interrupts arrive while code of a test, fixture, cleanup or hook callback is executing, as the property says; not at arbitrary bytecodes of slash']
    required = ('interrupted', 'in_test', 'in_fixture', 'in_cleanup', 'in_hook', 'in_teardown', 'critical_ran')
    profile = dict(p_interrupt=0, p_action=0.2, p_fx_action=0.1, p_td_action=0.1, p_cleanup=0.65, p_hook=0.1, p_stop=0.05, p_cleanup_action=0.15, fx_params=0.2, test_params=0.2)
    n_quick = 280

    def gen(self, rng, i, tier):
        spec = super().gen(rng, i, tier)
        for _ in range(rng.choice([1, 1, 1, 2])):
            self.inject(rng, spec)
        return spec

    def inject(self, rng, spec):
        acts = spec['actions']
        places = []
        kind = rng.choice(['test', 'test', 'fixture', 'teardown', 'cleanup', 'cleanup', 'hook', 'hook'])
        fxs = spec['conf'] + [f for fl in spec['files'] for f in fl['fixtures']]
        if kind == 'test':
            for fl in spec['files']:
                for t in fl['tests']:
                    if t['type'] == 'func':
                        places.append(t['key'])
                    else:
                        places += [m['key'] for m in t['methods']] + ['{}.{}'.format(t['key'], w) for w in ('before', 'after') if t.get(w)]
        elif kind == 'fixture':
            places = [f['key'] for f in fxs]
        elif kind == 'teardown':
            places = [f['key'] + '/td' for f in fxs if f['kind'] != 'plain']
        elif kind == 'cleanup':
            places = sorted({k for v in acts.values() for k in cleanup_keys(v)})
        ident = 'int{}'.format(rng.randrange(10 ** 6))
        act = rng.choice([['sig', 'SIGINT', ident], ['sig', 'SIGTERM', ident], ['raise', 'kbd', ident], ['raise', 'term', ident]])
        if kind == 'hook':
            name = rng.choice(HOOKS)
            n = 1 if name not in gensuite.TEST_HOOKS else rng.randint(1, 5)
            spec['hooks'][name] = [[['nth', [n], [act]]]]
            return
        if not places:
            return self.inject(rng, spec)
        lst = acts.setdefault(rng.choice(places), [])
        lst.insert(rng.choice([0, len(lst), len(lst)]), ['nth', [rng.choice([1, 1, 1, 2, 3])], [act]])
        return None

    def compare(self, case, obs, model):
        yield from self.trace(obs, model, lambda e: True, '*', 'trace')
        yield from self.results(obs, model, ('errors', 'failures', 'skips', 'interrupted', 'started', 'success', 'finished', 'not_run'), 'result')
        if obs['exit_code'] != model.exit_code:
            yield Violation('exit-code', 'exit code {} expected {}'.format(obs['exit_code'], model.exit_code))
        ints = [e for e in obs['events'] if e['k'] == 'raise' and e['what'] in ('sigSIGINT', 'sigSIGTERM', 'kbd', 'term')]
        if ints and obs['exit_code'] == 0:
            yield Violation('exit-code', 'exit code 0 after an interrupt')
        t = obs['totals']
        any_interrupted = model.glob.interrupted or any(r.interrupted for r in model.results.values())
        if t['interrupted'] != any_interrupted or obs['global']['interrupted'] != model.glob.interrupted:
            yield Violation('interrupted-flag', 'results interrupted: {}, global result interrupted: {}; expected {} and {}'.format(
                t['interrupted'], obs['global']['interrupted'], any_interrupted, model.glob.interrupted))
        if any_interrupted and (t['is_success'] or t['is_success_skips'] or obs['global']['success'] and model.glob.interrupted):
            yield Violation('interrupted-success', 'the interrupted session is successful: {}'.format(t))
        if 'Session ended.' not in obs['console']:
            yield Violation('no-report', 'no final report on the console')

    def counters(self, case, obs):
        c = super().counters(case, obs)
        prev = None
        for e in obs['events']:
            if e['k'] == 'raise' and e['what'] in ('sigSIGINT', 'sigSIGTERM', 'kbd', 'term'):
                c['interrupted'] = 1
                k = prev['k'] if prev else ''
                c['in_fixture'] += k == 'fsetup'
                c['in_cleanup'] += k == 'cleanup'
                c['in_hook'] += k == 'hook'
                c['in_teardown'] += k == 'fteardown'
                c['in_test'] += k in ('test', 'before', 'after')
            prev = e
        c['session_interrupted'] = bool(obs.get('global', {}).get('interrupted')) * 1
        if c['interrupted']:
            c['critical_ran'] = sum(1 for e in obs['events'] if e['k'] == 'cleanup' and e['c']['R'] not in (None, 'G') and obs['tests'][e['c']['R']]['result']['interrupted']) if obs['tests'] else 0
        return c
