import collections
import copy
import os

from vp import engineb, tree
from vp.core import Violation
from vp.engineb import TreeCheck
from vp.tree import Ref

BROKEN = ('unknown', 'invisible', 'cycle', 'self', 'scope', 'testname')


class CHECK(TreeCheck):
    prop = 'C26'
    technique = 'runtime monitoring: identity of every fixture value received vs. reference resolution; invalid graphs must stop the run before any test'
    rule = 'project trees whose fixture names are overridden at several levels; every argument\'s origin checked, plus trees made invalid in one place'
    required = ('arguments', 'overridden', 'rejected', 'extra_only')
    profile = dict(names=4, conf=3, filefx=3, dirs=4, p_dep=0.85, p_fxparam=0.12, p_param=0.15, p_use=0.35, p_extra=0.3, p_autouse=0.12, files=5, max_total=40)
    n_quick = 170

    def gen(self, rng, i, tier):
        case = {'tree': self.gen_tree(rng), 'argv': [], 'broken': None, 'reverse': rng.random() < 0.3}
        if i % 3 == 2:
            self.break_tree(rng, case)
        elif i % 10 == 4:
            self.share(rng, case['tree'])
        return case

    def share(self, rng, spec):
        """Tests asking for the same list of extra fixtures, some for more"""
        ref = Ref(spec)
        for f in spec['files']:
            names = sorted({fx['name'] for s in ref.chain_of(('file', f['path'])) for fx in ref.fixtures_at(s) if not fx['autouse']})
            funcs = [x for x in f['items'] if x['type'] == 'func']
            if len(names) < 2 or len(funcs) < 2:
                continue
            shared = [rng.choice(names)]
            f['shared'] = shared
            for x in funcs:
                if {a for a, _ in x['deps']} & set(names):
                    x['deps'] = []
                x['shared'] = True
                x['extra'] = [list(shared)]
                if rng.random() < 0.6:
                    x['extra'].insert(0, [rng.choice([n for n in names if n not in shared])])

    def break_tree(self, rng, case):
        spec = case['tree']
        ref = Ref(spec)
        units = [(f, u) for f in spec['files'] for u in ref.units_of(f['path'])]
        if not units:
            return
        f, u = rng.choice(units)
        kind = rng.choice(BROKEN)
        chain = [] if u.spec.get('extra') and rng.random() < 0.5 else [u.spec]
        site = ('file', f['path'])
        visible = {fx['name'] for s in ref.chain_of(site) for fx in ref.fixtures_at(s)}
        if kind in ('unknown', 'invisible'):
            name = 'fx_nowhere'
            if kind == 'invisible':
                hidden = sorted({fx['name'] for fx in ref.fx.values()} - visible)
                if not hidden:
                    kind = 'unknown'
                else:
                    name = rng.choice(hidden)
            where = rng.choice(['test', 'fixture', 'extra', 'autouse'])
            if where == 'test':
                u.spec['deps'].append([name, name])
            elif where == 'extra':
                u.spec.setdefault('extra', []).append([name])
            else:
                self.new_fixture(f, 'fxz', deps=[[name, name]], autouse=where == 'autouse')
            case['broken'] = kind
            return
        if kind in ('cycle', 'self'):
            n = 1 if kind == 'self' else rng.randint(2, 4)
            names = ['fxz{}'.format(i) for i in range(n)]
            for i, name in enumerate(names):
                self.new_fixture(f, name, deps=[[names[(i + 1) % n], names[(i + 1) % n]]], key=str(i))
            self.use(rng, f, u, names[0])
        elif kind == 'scope':
            a, b = rng.choice([('module', 'test'), ('session', 'test'), ('session', 'module')])
            self.new_fixture(f, 'fxzn', scope=b, key='n')
            self.new_fixture(f, 'fxzw', scope=a, deps=[[rng.choice(['fxzn', 'arg_n']), 'fxzn']], key='w')
            if rng.random() < 0.5:
                self.use(rng, f, u, 'fxzw')
        else:
            self.new_fixture(f, 'test_fixture', key='t')
        case['broken'] = kind

    def use(self, rng, f, u, name):
        how = rng.choice(['arg', 'extra', 'indirect'])
        if how == 'arg':
            u.spec['deps'].append([name, name])
        elif how == 'extra':
            u.spec.setdefault('extra', []).append([name])
        else:
            self.new_fixture(f, 'fxzuser', deps=[[name, name]], key='u')
            u.spec['deps'].append(['fxzuser', 'fxzuser'])

    def new_fixture(self, f, name, key='', **kw):
        fx = dict({'key': 'FZ' + key, 'name': name, 'autouse': False, 'named': False, 'scope': 'test', 'kind': 'plain', 'params': [], 'deps': []}, **kw)
        f['fixtures'].append(fx)

    def run(self, case):
        root = os.path.realpath(os.getcwd())
        tree.write(case['tree'], root)
        ref = Ref(case['tree'])
        files = ref.walk('')
        if case['reverse']:
            argv = [os.path.join(root, p) for p in reversed(files)]
        else:
            argv = [root]
        return engineb.run(argv, root)

    def judge(self, case, obs):
        if obs['escaped'] is not None:
            return [Violation('escaped', obs['escaped'])]
        if case['broken']:
            if obs['code'] == 0:
                return [Violation('accepted-' + case['broken'], 'a fixture graph with {} was accepted: {}'.format(case['broken'], obs['console'][-500:]))]
            if obs['ran'] or any(e['k'] == 'fx' for e in obs['events']):
                return [Violation('late-' + case['broken'], 'tests or fixtures ran although the fixture graph is invalid ({})'.format(case['broken']))]
            return []
        ref = Ref(case['tree'])
        units = {u.id: u for f in case['tree']['files'] for u in ref.units_of(f['path'])}
        if units and (not obs['loads'] or obs['code'] != 0):
            return [Violation('rejected', 'a valid fixture graph was rejected (exit code {}): {}'.format(obs['code'], obs['console'][-1500:]))]
        want = collections.Counter({u: ref.count(units[u]) for u in units})
        got = collections.Counter(engineb.unit_id(obs['tests'][i]) for i in obs['ran'])
        viols = list(engineb.check_params(ref, obs, 'resolution')) + list(engineb.check_activation(ref, obs, 'activated'))
        if not viols and want != got:
            viols = [Violation('runs', 'tests that ran {} expected {}'.format(sorted(got.items()), sorted(want.items())))]
        if viols and any(f.get('shared') for f in case['tree']['files']):
            quirk = self.polluted(case['tree'])
            if quirk is not None:
                ref = Ref(quirk)
                left = list(engineb.check_params(ref, obs, 'resolution')) + list(engineb.check_activation(ref, obs, 'activated'))
                if not left:
                    return [Violation('use-fixtures-shared-list', viols[0].msg)]
        return viols

    @staticmethod
    def polluted(spec):
        """What the tree amounts to when lists given to use_fixtures are extended in place"""
        spec = copy.deepcopy(spec)
        for f in spec['files']:
            if not f.get('shared'):
                continue
            final = list(f['shared'])
            for x in f['items']:
                if x.get('shared'):
                    for group in x['extra'][:-1]:
                        final += group
            for x in f['items']:
                if x.get('shared'):
                    x['extra'] = [final]
        return spec

    def counters(self, case, obs):
        c = collections.Counter(tests=len(obs['tests']))
        if case['broken']:
            c['rejected'] = 1
            c['rejected_' + case['broken']] = 1
            return c
        names = collections.Counter()
        ref = Ref(case['tree'])
        for fx in ref.fx.values():
            names[fx['name']] += 1
        for e in obs['events']:
            for a, v in e.get('args', {}).items():
                c['arguments'] += 1
                if 'F' in v and names[ref.fx[v['F']]['name']] > 1:
                    c['overridden'] += 1
        for f in case['tree']['files']:
            for u in ref.units_of(f['path']):
                c['extra_only'] += bool(u.spec.get('extra'))
        return c
