from vp.enginea import SuiteCheck, outer


class CHECK(SuiteCheck):
    prop = 'C03'
    rule = 'event log of one generated suite run in-process, compared with the reference interpreter; distinct = distinct event sequences with at least one cleanup'
    assumptions = ['cleanups of an interrupted scope other than critical ones are dropped; SIGKILL is out of scope']
    required = ('ev_cleanup', 'ev_reg', 'nested_cleanups', 'interrupted_runs', 'session_hook_cleanups')
    profile = dict(p_cleanup=0.75, p_cleanup_action=0.4, p_action=0.3, p_fx_action=0.15, p_td_action=0.2, p_interrupt=0.05, p_exit=0.02, p_hook=0.3, p_session_cleanups=0.35,
                   conf_fx=(0, 2), file_fx=(0, 2), fx_params=0.15, max_runs=25)
    n_quick = 240

    def compare(self, case, obs, model):
        keep = ('reg', 'cleanup', 'test', 'before', 'after')
        yield from self.trace(obs, model, lambda e: e['k'] in keep or outer(e), ('serial', 'args', 'kwargs', 'n'), 'cleanups')
        # independent of the model: nothing runs twice, or without having been registered
        reg, ran = set(), set()
        for e in obs['events']:
            if e['k'] == 'reg':
                reg.add(e['serial'])
            elif e['k'] == 'cleanup':
                if e['serial'] in ran or e['serial'] not in reg:
                    yield self.violation('cleanup-twice', 'cleanup {} ran twice or unregistered'.format(e))
                ran.add(e['serial'])

    def counters(self, case, obs):
        c = super().counters(case, obs)
        inside = {e['serial'] for e in obs['events'] if e['k'] == 'reg' and e['c'].get('PH')}
        c['nested_cleanups'] = len(inside)
        c['session_hook_cleanups'] = sum(1 for name, acts in case['hooks'].items() if name in ('tests_loaded', 'session_start', 'before_session_start', 'after_session_start', 'before_session_cleanup') for a in acts if a and a[0][0] == 'cleanup')
        c['interrupted_runs'] = int(bool(obs.get('totals', {}).get('interrupted')))
        return c
