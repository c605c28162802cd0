import collections

from vp.core import Violation
from vp.enginea import SuiteCheck

INNER = ('test', 'before', 'after', 'cleanup', 'fsetup', 'fteardown', 'fcleanup', 'ftest_start', 'ftest_end', 'hook', 'hook2', 'mark')


class CHECK(SuiteCheck):
    prop = 'C24'
    rule = 'context snapshot taken at every event (test code, fixtures, cleanups, hooks), compared with the reference interpreter'
    required = ('snapshots', 'in_test', 'outside_test', 'with_fixture', 'in_cleanup', 'after_other_sessions')
    profile = dict(p_cleanup=0.5, p_action=0.4, p_td_action=0.2, p_interrupt=0.03, p_exit=0.03, p_hook=0.3, classes=0.5, wide=0.55)
    n_quick = 200

    def compare(self, case, obs, model):
        a = [e for e in obs['events'] if e['k'] in INNER and e.get('key') not in ('configure', 'result_summary', 'app_quit')]
        b = [e for e in model.events if e['k'] in INNER]
        for x, y in zip(a, b):
            if (x['k'], x.get('key')) != (y['k'], y.get('key')):
                return      # a different history: other properties
            cx, cy = x['c'], y['c']
            for f in ('T', 'TID', 'R', 'FX', 'S', 'CM', 'IDX'):
                if f == 'FX' and x['k'] not in ('fsetup', 'test', 'before', 'after'):
                    continue
                u, v = cx.get(f), cy.get(f)
                if f == 'CM' and u is not None:
                    u = tuple(u)
                if u != v:
                    yield Violation('context-' + f, 'at {} {}: context {} is {!r}, expected {!r}'.format(x['k'], x.get('key'), f, u, v))
                    return
            if x['k'] in ('test', 'before', 'after', 'fsetup') and cx['SC'] != cy['SC']:
                yield Violation('context-SC', 'at {} {}: current scope {!r}, expected {!r}'.format(x['k'], x.get('key'), cx['SC'], cy['SC']))
                return
            if x['k'] == 'cleanup' and cx['PH'] != cy['PH']:
                yield Violation('context-PH', 'at {} {}: cleanup phase {!r}, expected {!r}'.format(x['k'], x.get('key'), cx['PH'], cy['PH']))
                return
        if not obs['ctx_restored']:
            yield Violation('context-restored', 'the context is not back to what it was before the session')
        ids = collections.Counter(t['id'] for t in obs['tests'])
        ran = [t for t in obs['tests'] if t['result'] is not None and t['result']['started']]
        if any(ids[t['id']] > 1 for t in ran):
            yield Violation('ids', 'two tests have the same id: {}'.format(ids.most_common(2)))
        order = [e['c'].get('IDX') for e in obs['events'] if e['k'] == 'hook' and e['key'] == 'test_start']
        if order != list(range(len(order))) and not any(e['k'] == 'hook' and e['key'] == 'test_avoided' for e in obs['events']) and len(order) == len(ran):
            yield Violation('indices', 'test indices in execution order: {}'.format(order))

    def counters(self, case, obs):
        c = super().counters(case, obs)
        ev = obs['events']
        c['snapshots'] = len(ev)
        c['in_test'] = sum(1 for e in ev if e['c']['T'] is not None)
        c['outside_test'] = sum(1 for e in ev if e['c']['T'] is None)
        c['with_fixture'] = sum(1 for e in ev if e['c']['FX'])
        c['in_cleanup'] = sum(1 for e in ev if e['c']['PH'])
        return c
