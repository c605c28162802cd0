import collections
import os

from vp import engineb, tree
from vp.core import Violation
from vp.engineb import TreeCheck
from vp.tree import Ref


def merge(tags):
    """{name: value}; None if two values conflict"""
    out = {}
    for n, v in tags:
        if n in out and out[n] != v:
            return None
        out[n] = v
    return out


class CHECK(TreeCheck):
    prop = 'C23'
    technique = 'runtime monitoring: tags of every loaded test vs. the reference union; conflicting placements must be reported'
    rule = 'project trees with tags on functions, methods, class hierarchies, fixtures and parameter values; every test\'s tags compared with the union attached to it'
    required = ('tests_with_tags', 'from_fixtures', 'from_classes', 'from_values', 'conflicts')
    profile = dict(p_tag=0.5, p_vtag=0.3, shared_tags=0.3, p_dep=0.6, p_class=0.6, p_base=0.8, items=4, p_fxparam=0.25, p_extra=0.1, max_total=60, p_noise=0, p_ba=0.4)
    n_quick = 220

    def gen(self, rng, i, tier):
        conflict = i % 5 == 4
        if i % 10 == 9:
            # conflicts of values with other values only
            return {'tree': self.gen_tree(rng, p_conflict=0.35, shared_tags=0.9, p_tag=0, p_vtag=0.8, p_param=0.95, p_fxparam=0.6, p_dep=0.8, tag_names=2, p_extra=0, files=1, items=2, p_ba=0.2), 'run': rng.random() < 0.3}
        return {'tree': self.gen_tree(rng, **(dict(p_conflict=0.4, shared_tags=0.7, p_extra=0, files=2) if conflict else {})), 'run': rng.random() < 0.3}

    def run(self, case):
        root = os.path.realpath(os.getcwd())
        tree.write(case['tree'], root)
        if case['run']:
            obs = engineb.run([root], root)
            obs['loaded'] = bool(obs['loads'])
            return obs
        from slash.exceptions import TaggingConflict
        try:
            tests, err = engineb.load([root], root)
        except TaggingConflict as e:
            tests, err = None, str(e)
        return {'tests': tests or [], 'loaded': tests is not None, 'error': err, 'ran': [], 'escaped': None}

    def judge(self, case, obs):
        ref = Ref(case['tree'])
        if obs['escaped'] is not None:
            return [Violation('escaped', obs['escaped'])]
        conflict = self.conflict(case, ref)
        if conflict:
            if obs['loaded'] or obs.get('code') == 0:
                return [Violation('conflict-accepted', 'conflicting tags were accepted: {}'.format(conflict))]
            return []
        if not obs['loaded']:
            return [Violation('rejected', 'tags that do not conflict were rejected: {} {}'.format(obs.get('error'), obs.get('console', '')[-800:]))]
        units = {u.id: u for f in case['tree']['files'] for u in ref.units_of(f['path'])}
        known = []
        for t in obs['tests']:
            u = units.get(engineb.unit_id(t))
            if u is None:
                return [Violation('unknown', 'test {} is not in the tree'.format(t['address']))]
            idx, err = engineb.indices_of(ref, u, t)
            if err or set(idx) != set(ref.needed_params(u)):
                return []       # parametrization: another property
            want = {n: None if v is None else repr(v) for n, v in merge(ref.tags(u, idx)).items()}
            if want != t['tags']:
                msg = '{}: tags {}, expected {}'.format(t['address'], sorted(t['tags'].items()), sorted(want.items()))
                if not u.method and self.without_extra(ref, u, idx) == t['tags']:
                    known = [Violation('function-extra-fixture-tags', msg)]
                    continue
                return [Violation('tags', msg)]
        return known

    @staticmethod
    def without_extra(ref, u, idx):
        tags = [tuple(x) for x in u.spec.get('tags', ())]
        for arg, name in u.spec['deps']:
            for fx in ref.closure(ref.resolve(name, ('file', u.path))).values():
                tags += [tuple(x) for x in fx.get('tags', ())]
        for k, i in idx.items():
            tags += [tuple(x) for x in ref.params[k]['values'][i].get('tags', ())]
        return {n: None if v is None else repr(v) for n, v in (merge(tags) or {}).items()}

    @staticmethod
    def conflict(case, ref):
        for f in case['tree']['files']:
            for c in f['items']:
                if c['type'] == 'class':
                    if merge(tuple(t) for k in ref.mro(f, c) for t in k.get('tags', ())) is None:
                        return 'class {}'.format(c['name'])
                for x in ([c] if c['type'] == 'func' else c['methods']):
                    if merge(tuple(t) for t in x.get('tags', ())) is None:
                        return '{} {}'.format(x['key'], x['name'])
        for fx in ref.fx.values():
            if merge(tuple(t) for t in fx.get('tags', ())) is None:
                return fx['key']
        for f in case['tree']['files']:
            for u in ref.units_of(f['path']):
                fixed = merge(ref.static_tags(u))
                if fixed is None:
                    return u.id
                # every value of a parameter occurs in some combination
                per_value = []
                for key, p in ref.needed_params(u).items():
                    per_value.append([[tuple(t) for t in v.get('tags', ())] for v in p['values']])
                import itertools
                for combo in itertools.product(*per_value):
                    if merge(list(fixed.items()) + [t for ts in combo for t in ts]) is None:
                        return '{} {}'.format(u.id, combo)
        return None

    def counters(self, case, obs):
        c = collections.Counter(tests=len(obs['tests']))
        ref = Ref(case['tree'])
        c['tests_with_tags'] = sum(1 for t in obs['tests'] if t['tags'])
        if not obs['loaded']:
            c['conflicts'] = 1
            return c
        for f in case['tree']['files']:
            for u in ref.units_of(f['path']):
                c['from_fixtures'] += any(fx.get('tags') for fx in ref.used_fixtures(u, False).values())
                c['from_classes'] += any(k.get('tags') for k in u.chain)
                c['from_bases'] += any(k.get('tags') for k in u.chain[1:])
                c['from_values'] += any(v.get('tags') for p in ref.needed_params(u).values() for v in p['values'])
        return c
