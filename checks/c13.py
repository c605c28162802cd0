from vp.enginea import SuiteCheck


class CHECK(SuiteCheck):
    prop = 'C13'
    rule = 'complete event log and results of one generated suite with -x and/or fatal errors, compared with the reference interpreter'
    required = ('stopped_by_x', 'stopped_by_fatal', 'ran_to_end', 'not_run_results')
    profile = dict(p_stop=0.6, p_fatal=0.3, p_action=0.3, p_fx_action=0.1, p_td_action=0.1, tests=(2, 5), files=(1, 3), p_hook=0.15, p_skip=0.25)
    n_quick = 240

    def profile_for(self, rng, i):
        if i % 4 == 3:
            # errors that come after the test that caused them ended
            return dict(self.profile, p_stop=0.8, p_action=0.02, p_fx_action=0.02, p_td_action=0.02, p_cleanup_action=0.03, p_hook=0.05, p_late=0.3, p_fatal=0.1,
                        files=(2, 4), tests=(1, 3), classes=0.15, file_fx=(0, 1), conf_fx=(0, 1))
        return self.profile

    def compare(self, case, obs, model):
        yield from self.trace(obs, model, lambda e: e['k'] != 'raise', '*', 'trace')
        yield from self.results(obs, model, ('errors', 'failures', 'skips', 'interrupted', 'started', 'success', 'finished', 'fatal', 'not_run'), 'result')
        if obs['totals']['complete'] != model.complete:
            yield self.violation('complete', 'session.is_complete() is {}, expected {}'.format(obs['totals']['complete'], model.complete))
        if obs['exit_code'] != model.exit_code:
            yield self.violation('exit-code', 'exit code {} expected {}'.format(obs['exit_code'], model.exit_code))
        not_run = sum(1 for t in obs['tests'] if t['result'] is not None and t['result']['not_run'])
        if obs['totals']['not_run'] != not_run:
            yield self.violation('not-run-count', 'not run total {} but {} tests not run'.format(obs['totals']['not_run'], not_run))

    def counters(self, case, obs):
        c = super().counters(case, obs)
        n = sum(1 for t in obs['tests'] if t['result'] is not None and t['result']['not_run'])
        c['not_run_results'] = n
        fatal = any(t['result'] and t['result']['fatal'] for t in obs['tests'])
        if n and fatal:
            c['stopped_by_fatal'] = 1
        elif n and '-x' in case['argv']:
            c['stopped_by_x'] = 1
        elif not n:
            c['ran_to_end'] = 1
        return c
