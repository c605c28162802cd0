import collections

from vp import engineb, tree
from vp.core import Violation
from vp.engineb import TreeCheck
from vp.tree import Ref


class CHECK(TreeCheck):
    prop = 'C05'
    technique = 'runtime monitoring: values received by every consumer logged and compared with the reported variation and the reference product'
    rule = 'project trees with parameters on tests, before/after and fixtures reached through every path; each test\'s observed assignment compared with its variation'
    required = ('tests', 'values_delivered', 'bound_through_fixtures', 'multi')
    profile = dict(p_param=0.6, p_fxparam=0.5, p_dep=0.7, p_autouse=0.12, p_label=0.3, p_vtag=0.1, p_nofix=0.5)
    n_quick = 170

    def gen(self, rng, i, tier):
        big = i % 7 == 0
        return {'tree': self.gen_tree(rng, **(dict(max_unit=40, max_total=160, items=2) if big else {})), 'argv': ['--repeat-each', '2'] if rng.random() < 0.1 else []}

    def run(self, case):
        import os
        root = os.path.realpath(os.getcwd())
        tree.write(case['tree'], root)
        first, err = engineb.load([root], root)
        obs = engineb.run([root] + case['argv'], root)
        obs['first'] = [(t['address'], t['ids'], t['labels'], t['values']) for t in first or ()]
        obs['load_error'] = err
        return obs

    def judge(self, case, obs):
        ref = Ref(case['tree'])
        n = sum(ref.count(u) for f in case['tree']['files'] for u in ref.units_of(f['path']))
        if obs['escaped'] is not None or (n and not obs['loads']):
            return [Violation('not-loaded', '{} {}'.format(obs['escaped'], obs['console'][-1500:]))]
        viols = list(engineb.check_params(ref, obs))
        if viols:
            return viols
        reps = 2 if case['argv'] else 1
        want = collections.Counter()
        for f in case['tree']['files']:
            for u in ref.units_of(f['path']):
                want[u.id] = ref.count(u) * reps
        got = collections.Counter(engineb.unit_id(obs['tests'][i]) for i in obs['ran'])
        if got != want:
            return [Violation('params-run', 'runs per test {} expected {}'.format(sorted((got - want).items()), sorted((want - got).items())))]
        second = [(t['address'], t['ids'], t['labels'], t['values']) for t in obs['tests']]
        if obs['first'] != second[::reps]:
            i = next((i for i, (a, b) in enumerate(zip(obs['first'], second[::reps])) if a != b), -1)
            return [Violation('params-determinism', 'loading the same files twice gives {} then {}'.format(obs['first'][i:i + 1], second[i:i + 1]))]
        if obs['code'] != (0 if n else 1):
            return [Violation('params-exit', 'exit code {}: {}'.format(obs['code'], obs['console'][-600:]))]
        return []

    def counters(self, case, obs):
        c = collections.Counter(tests=len(obs['tests']), values_delivered=obs.get('seen_values', 0))
        for t in obs['tests']:
            for n in t['ids']:
                c['bound_through_fixtures'] += '.' in n
                c['bound_before_after'] += n.startswith(('before:', 'after:'))
                c['bound_autouse'] += n.startswith('::')
        c['multi'] = sum(1 for t in obs['tests'] if len(t['ids']) > 1)
        return c
