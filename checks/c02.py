import collections
import os

from vp import engineb, tree
from vp.core import Violation
from vp.engineb import TreeCheck
from vp.tree import Ref


def random_args(rng, ref, root_rel='', n_max=3, bad=0.0):
    """Paths and addresses selecting parts of the tree"""
    spec = ref.spec
    out = []
    dirs = list(spec['dirs'])
    files = [f['path'] for f in spec['files']]
    for _ in range(rng.choice([1, 1, 1, 2, 2, n_max])):
        k = rng.random()
        if k < 0.3:
            arg = rng.choice(dirs) or '.'
            if rng.random() < 0.3:
                arg += '/'
        else:
            path = rng.choice(files)
            units = ref.units_of(path)
            arg = path
            if k > 0.55 and units:
                u = rng.choice(units)
                arg += ':' + rng.choice([u.factory, u.addr])
        if rng.random() < 0.25 and not arg.startswith('.'):
            arg = './' + arg
        if rng.random() < 0.3:
            arg = '@/' + arg        # absolute
        out.append(arg)
    if rng.random() < bad:
        path = rng.choice(files)
        f = ref.files[path]
        cands = ['nowhere', 'nowhere.py', path + ':test_nothing', path + ':', path[:-1], path + ':Nothing.test_x']
        for it in f['items']:
            if it['type'] == 'class':
                cands += [path + ':' + it['name'] + '.test_nothing', path + ':' + it['name'][:-1]]
                if it.get('abstract'):
                    cands.append(path + ':' + it['name'])
            elif not it['name'].startswith('test_'):
                cands.append(path + ':' + it['name'])
            else:
                cands += [path + ':' + it['name'][:-1], path + ':' + it['name'] + 'x']
        cands = [c for c in cands if not c.endswith(':')]
        out.insert(rng.randint(0, len(out)), rng.choice(cands))
    return out


def resolve_args(args, root):
    return [os.path.join(root, a[2:]) if a.startswith('@/') else a for a in args]


def plain(arg):
    return arg[2:] if arg.startswith('@/') else arg


class CHECK(TreeCheck):
    prop = 'C02'
    technique = 'runtime monitoring: sequence of executed test bodies vs. the reference selection, repetition and order'
    rule = 'project trees run with generated mixes of paths and addresses, repetition settings and sort-key handlers; sequence of executed tests compared with the reference'
    required = ('ran', 'repeated', 'reordered', 'errors', 'addresses', 'inherited')
    profile = dict(p_param=0.25, p_fxparam=0.1, p_dep=0.25, p_class=0.55, p_base=0.8, p_abstract=0.35, items=5, files=6, dirs=5, p_repeat=0.2, max_total=50, max_unit=6, p_noise=0.7,
                   empty_files=True, p_ba=0.2, p_extra=0.03)
    n_quick = 220

    def gen(self, rng, i, tier):
        t = self.gen_tree(rng)
        case = {'tree': t, 'args': random_args(rng, Ref(t), bad=0.18), 'each': rng.choice([1, 1, 1, 2, 3]), 'all': rng.choice([1, 1, 1, 2, 3, 4, 5]), 'sort': None}
        if rng.random() < (0.6 if case['all'] > 2 else 0.3):
            case['sort'] = [rng.choice(['reverse', 'random', 'address', 'tuple']), rng.randrange(1000)]
        case['how'] = rng.choice(['flag', 'o'])
        return case

    def run(self, case):
        import random
        root = os.path.realpath(os.getcwd())
        tree.write(case['tree'], root)
        argv = resolve_args(case['args'], root)
        for name in ('each', 'all'):
            if case[name] > 1:
                argv += ['--repeat-' + name, str(case[name])] if case['how'] == 'flag' else ['-o', 'run.repeat_{}={}'.format(name, case[name])]
        keys = {}

        def reorder(tests):
            kind, seed = case['sort']
            order = list(range(len(tests)))
            if kind == 'reverse':
                order.reverse()
            elif kind in ('random', 'tuple'):
                random.Random(seed).shuffle(order)
            else:
                rank = sorted(range(len(tests)), key=lambda i: (tests[i].__slash__.address[::-1], i))
                for pos, i in enumerate(rank):
                    order[i] = pos
            for t, k in zip(tests, order):
                key = ('k', k) if kind == 'tuple' else k
                t.__slash__.set_sort_key(key)
                keys[id(t)] = k
        obs = engineb.run(argv, root, hooks={'tests_loaded': reorder} if case['sort'] else None)
        from vp import vpmon
        flat = [t for b in vpmon.LOADED for t in b]
        obs['keys'] = [keys.get(id(t)) for t in flat]
        return obs

    def judge(self, case, obs):
        ref = Ref(case['tree'])
        sel = [ref.select(plain(a), os.path.realpath(os.getcwd())) for a in case['args']]
        if obs['escaped'] is not None:
            return [Violation('escaped', obs['escaped'])]
        if any(s is None for s in sel):
            if obs['ran'] or obs['code'] == 0:
                return [Violation('bad-path-ignored', 'arguments {}: one selects nothing, yet {} tests ran and the exit code is {}'.format(case['args'], len(obs['ran']), obs['code']))]
            return []
        units = [u for s in sel for u in s]
        seq = []
        for u in units:
            seq += [u.id] * (ref.count(u) * case['each'] * (u.spec.get('repeat') or 1))
        want = seq * case['all']
        if want and not obs['loads']:
            return [Violation('not-loaded', 'arguments {} were not loaded: {}'.format(case['args'], obs['console'][-1000:]))]
        got = [engineb.unit_id(obs['tests'][i]) for i in obs['ran']]
        if case['sort'] is None:
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                return [Violation('sequence', 'arguments {}: tests that ran differ from the selection at {} of {}/{}: ran {}, expected {}'.format(
                    case['args'], i, len(got), len(want), got[i:i + 3], want[i:i + 3]))]
        else:
            a, b = collections.Counter(got), collections.Counter(want)
            if a != b:
                return [Violation('selection', 'arguments {}: ran too often {}, not often enough {}'.format(case['args'], sorted((a - b).items())[:4], sorted((b - a).items())[:4]))]
            keys = [(obs['tests'][i]['repeat_all'], obs['keys'][i]) for i in obs['ran']]
            if keys != sorted(keys):
                return [Violation('sort-keys', 'tests did not run in the order of their sort keys: {}'.format(keys[:12]))]
        # each combination once per repetition, in every pass
        per = max(1, len(obs['ran']) // case['all'])
        for k in range(case['all'] if want else 0):
            combos = collections.Counter()
            for i in obs['ran'][k * per:(k + 1) * per]:
                t = obs['tests'][i]
                combos[engineb.unit_id(t), tuple(sorted(t['ids'].items()))] += 1
            times = collections.Counter(u.id for u in units)
            spec = {u.id: u for u in units}
            for (uid, _), n in combos.items():
                exp = times[uid] * case['each'] * (spec[uid].spec.get('repeat') or 1)
                if n != exp:
                    return [Violation('repetition', '{} ran {} times in pass {}, expected {}'.format(uid, n, k, exp))]
        indices = [obs['tests'][i]['index'] for i in obs['ran']]
        if indices != list(range(len(indices))):
            return [Violation('index', 'indices in execution order: {}'.format(indices[:20]))]
        if obs['code'] != (0 if want else 1):
            return [Violation('exit', 'exit code {}: {}'.format(obs['code'], obs['console'][-500:]))]
        return []

    def counters(self, case, obs):
        c = collections.Counter(ran=len(obs['ran']), tests=len(obs['tests']))
        c['repeated'] = case['each'] > 1 or case['all'] > 1
        c['reordered'] = bool(case['sort']) and len(obs['ran']) > 1
        c['errors'] = not obs['loads']
        c['addresses'] = any(':' in a for a in case['args'])
        ref = Ref(case['tree'])
        for f in case['tree']['files']:
            for u in ref.units_of(f['path']):
                c['inherited'] += bool(u.method) and u.spec not in u.cls['methods']
        return c
