"""Base of all checks that run generated suites and compare them with the reference interpreter"""
import collections
import re

from vp import core, gensuite, suite
from vp.core import Violation

IGNORED_HOOKS = ('configure', 'result_summary', 'app_quit')


QUIRKS = (('fixture-cleanup-failure',), ('recompute-order',), ('fixture-cleanup-failure', 'recompute-order'))


class SuiteCheck(core.Check):
    profile = {}
    own_quirks = ()
    #: kinds of events compared, as a predicate over events
    n_quick = 160
    n_thorough = 6000
    case_timeout = 60

    def gen(self, rng, i, tier):
        spec = gensuite.gen_suite(rng, **self.profile_for(rng, i))
        if i % 7 == 3:
            # what went on in the process before must not matter
            spec['prior'] = [rng.choice(sorted(suite.PRIOR)) for _ in range(rng.choice([1, 1, 2]))]
        return spec

    def profile_for(self, rng, i):
        return self.profile

    def run(self, case):
        return suite.run(case)

    def predict(self, case, obs, quirks=()):
        from vp.model import Model
        return Model(case, obs['tests'], quirks).run()

    def judge(self, case, obs):
        if obs['escaped'] is not None:
            return [Violation('escaped', 'an exception escaped slash_run: {}'.format(obs['escaped']))]
        if not obs['tests']:
            return [Violation('not-loaded', 'the suite was not loaded: {}'.format(obs['console'][-800:]))]
        missing = check_variations(case, obs)
        if missing:
            return [Violation('variations', missing)]
        model = self.predict(case, obs)
        obs['model'] = [slim(e) for e in model.events]
        viols = list(self.compare(case, obs, model))
        if not viols:
            return viols
        # defects listed in known_findings.json for C04 that a history may involve: if the history is exactly what they alone lead to,
        # they explain it; they are reported by the checks of the properties they break
        for quirks in QUIRKS:
            try:
                left = list(self.compare(case, obs, self.predict(case, obs, quirks)))
            except Exception:  # pylint: disable=broad-except
                continue
            if not left:
                obs['explained'] = quirks
                return [Violation(q, viols[0].msg) for q in quirks if q in self.own_quirks]
        return viols

    def violation(self, mech, msg):
        return Violation(mech, msg)

    def compare(self, case, obs, model):
        raise NotImplementedError()

    # --- shared comparisons --------------------------------------------------------------------------------------
    def trace(self, obs, model, pred, fields, mech):
        """Compares the two event sequences restricted to pred"""
        a = [proj(e, fields) for e in obs['events'] if not ignored(e) and pred(e)]
        b = [proj(e, fields) for e in model.events if not ignored(e) and pred(e)]
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            yield Violation(mech, 'observed and expected events differ at {}:\n   observed {}\n   expected {}\n   before that: {}'.format(
                i, a[i:i + 4], b[i:i + 4], b[max(0, i - 5):i]))

    def results(self, obs, model, keys, mech):
        for i, t in enumerate(obs['tests']):
            exp = model_result(model, i)
            got = t['result']
            if exp is None or got is None:
                if (exp is None) != (got is None):
                    yield Violation(mech, 'test {} {}: expected result {}, observed {}'.format(i, t['address'], exp, got))
                continue
            for k in keys:
                if norm(got[k]) != norm(exp[k]):
                    yield Violation(mech, 'test {} {}: {} is {!r}, expected {!r}'.format(i, t['address'], k, got[k], exp[k]))

    def counters(self, case, obs):
        c = collections.Counter(tests=len(obs['tests']), events=len(obs['events']))
        for e in obs['events']:
            c['ev_' + e['k']] += 1
        c['after_other_sessions'] = bool(case.get('prior')) * 1
        if obs.get('explained'):
            c['explained_by_known_findings'] = 1
        return c

    def signature(self, case, obs):
        if len(obs['events']) < 5:
            return None
        return hash(tuple((e['k'], e.get('key')) for e in obs['events']) + tuple(repr(t['result']) for t in obs['tests'])) & 0xffffffffffff

    def shrink(self, case):
        return gensuite.shrink_suite(case)

    def describe(self, case):
        return {'files': [{'name': f['name'], 'fixtures': ['{name}:{scope}'.format(**x) for x in f['fixtures']],
                           'tests': [t['name'] for t in f['tests']]} for f in case['files']],
                'actions': dict(list(case['actions'].items())[:4]), 'hooks': case['hooks'], 'argv': case['argv']}


OUTER = ('session_start', 'test_start', 'test_end', 'before_test_cleanups', 'before_session_cleanup', 'session_end')


def outer(e):
    """Events that anchor others: hooks marking where scopes begin and end"""
    return e['k'] == 'hook' and e.get('key') in OUTER


def slim(e):
    return {k: v for k, v in e.items() if k != 'c'}


def ignored(e):
    return e['k'] in ('hook', 'hook2') and e.get('key') in IGNORED_HOOKS


def proj(e, fields):
    if fields == '*':
        return slim(e)
    return tuple(e.get(f) for f in ('k', 'key') + tuple(fields))


def norm(x):
    return sorted(x) if isinstance(x, list) else x


def model_result(model, i):
    r = model.results.get(i)
    if r is None:
        return None
    return {'errors': r.errors, 'failures': r.failures, 'skips': r.skips, 'started': r.started, 'finished': r.finished,
            'interrupted': r.interrupted, 'success': r.is_success(), 'success_skips': r.is_success(True),
            'not_run': not r.started and not r.errors and not r.failures, 'skip': bool(r.skips), 'error': bool(r.errors),
            'failure': bool(r.failures), 'fatal': r.fatal, 'just_failure': bool(r.failures) and not r.errors}


def check_variations(case, obs):
    """Every test must have been loaded once per combination of the parameters it depends on"""
    from vp.model import Model
    m = Model(case, obs['tests'])
    want = collections.Counter()
    for fl in case['files']:
        for t in fl['tests']:
            for name in [''] if t['type'] == 'func' else sorted(m.class_parts(fl, t)['methods']):
                prod = 1
                for n in m.all_params({'file': fl['name'], 'factory': t['name'], 'method': name}).values():
                    prod *= n
                want[fl['name'], t['name'], name] = prod
    got = collections.Counter((t['file'], t['factory'], t['method']) for t in obs['tests'])
    if got != want:
        return 'tests loaded {} expected {}'.format(sorted((got - want).items()), sorted((want - got).items()))
    bound = set()
    for t in obs['tests']:
        b = m.bind(t)
        if set(b) != set(m.all_params(t)):
            return 'variation of {} reports {} but the test depends on {}'.format(t['address'], sorted(t['values']), sorted(m.all_params(t)))
        key = (t['file'], t['factory'], t['method'], tuple(sorted(b.items())))
        if key in bound:
            return 'combination {} of {} appears twice'.format(sorted(b.items()), t['address'])
        bound.add(key)
    return None
