from vp.enginea import SuiteCheck


class CHECK(SuiteCheck):
    prop = 'C01'
    rule = 'complete event log and results of one generated suite, compared with the reference interpreter; distinct = distinct event sequences'
    own_quirks = ('fixture-cleanup-failure',)
    required = ('ev_raise', 'ev_test', 'ev_cleanup', 'ev_fteardown', 'ev_after')
    profile = dict(p_action=0.6, p_fx_action=0.3, p_td_action=0.3, p_interrupt=0.02, p_exit=0.02)

    def compare(self, case, obs, model):
        yield from self.trace(obs, model, lambda e: True, '*', 'trace')
        yield from self.results(obs, model, ('errors', 'failures', 'skips', 'interrupted', 'started', 'success', 'success_skips', 'finished', 'fatal', 'not_run'), 'result')
