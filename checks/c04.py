from vp.enginea import SuiteCheck, outer


class CHECK(SuiteCheck):
    prop = 'C04'
    rule = 'fixture set-up / use / tear-down events of one generated suite, compared with the reference interpreter; distinct = distinct event sequences'
    own_quirks = ('fixture-cleanup-failure', 'recompute-order')
    required = ('ev_fsetup', 'ev_fteardown', 'ev_fcleanup', 'rebuilt')
    profile = dict(p_cleanup=0.1, p_action=0.25, p_fx_action=0.25, p_td_action=0.25, p_hook=0.05, p_interrupt=0.01, conf_fx=(0, 4), file_fx=(1, 5), wide=0.6,
                   autouse=0.2, fx_params=0.45, deps=0.8, max_runs=40)
    n_quick = 240

    def compare(self, case, obs, model):
        keep = ('fsetup', 'fteardown', 'fcleanup', 'freg', 'ftest_start', 'ftest_end', 'test', 'before', 'after')
        yield from self.trace(obs, model, lambda e: e['k'] in keep or outer(e), ('fv', 'v', 'n', 'serial'), 'fixtures')
        if model.quirks:
            return
        # independent of the model: every value is torn down at most once, and after everything built from it
        alive, users = {}, {}
        interrupted = obs['totals']['interrupted']
        for e in obs['events']:
            if e['k'] == 'fsetup':
                alive[e['fv']] = e
                for v in e['v'].values():
                    users.setdefault(v, []).append(e['fv'])
            elif e['k'] == 'fteardown':
                if alive.pop(e['fv'], None) is None:
                    yield self.violation('teardown-twice', 'teardown of {} which is not alive'.format(e['fv']))
                for u in users.get(e['fv'], ()):
                    kinds = alive.get(u)
                    if kinds is not None and self.kind_of(case, kinds['key']) != 'plain' and not interrupted and not self.setup_failed(case, obs, u):
                        yield self.violation('teardown-order', '{} torn down while {} is alive'.format(e['fv'], u))

    def kind_of(self, case, key):
        if not hasattr(self, 'kinds'):
            self.kinds = {}
            for f in case['conf'] + [f for fl in case['files'] for f in fl['fixtures']]:
                self.kinds[f['key']] = f['kind']
        return self.kinds[key]

    def setup_failed(self, case, obs, fv):
        """A yield fixture that failed before its yield has no teardown"""
        key = next(e['key'] for e in obs['events'] if e['k'] == 'fsetup' and e['fv'] == fv)
        return self.kind_of(case, key) == 'yield' and not any(e['k'] == 'fteardown' and e['fv'] == fv for e in obs['events'])

    def counters(self, case, obs):
        c = super().counters(case, obs)
        n = {}
        for e in obs['events']:
            if e['k'] == 'fsetup':
                n[e['key']] = n.get(e['key'], 0) + 1
        c['rebuilt'] = sum(1 for k in n if n[k] > 1)
        return c
