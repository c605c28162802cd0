import collections
import os
import posixpath

from vp import engineb, tree
from vp.core import Violation
from vp.engineb import TreeCheck
from vp.tree import Ref
from checks import c02, c06


class Missing(Exception):
    pass


def gen_suites(rng, t, bad=0.0, n_max=4):
    """{name: [line]}; names are in an order such that each file only nests later ones"""
    ref = Ref(t)
    units = c06.places(ref)
    dirs = [''] + rng.sample(['suites', 'suites/more', 'x y'], rng.randint(0, 3)) + rng.sample(list(t['dirs']), 1)
    names = [posixpath.join(rng.choice(dirs), 'sf{}{}'.format(i, rng.choice(['.txt', '.suite', '', '.lst']))) for i in range(rng.randint(1, n_max))]
    out = {}
    p_filter = rng.choice([0.3, 0.3, 0.9])
    for i, name in enumerate(names):
        lines = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5])):
            k = rng.random()
            if k < 0.12:
                lines.append({'text': rng.choice(['', '   ', '# comment', '  # filter: zzz', '#', '\t'])})
                continue
            line = {'filter': None, 'repeat': None, 'nested': False, 'abs': rng.random() < 0.15, 'form': rng.randrange(8)}
            if k < 0.35 and names[i + 1:]:
                line.update(target=rng.choice(names[i + 1:]), nested=True)
            else:
                arg = c02.random_args(rng, ref, n_max=1)[0]
                arg = c02.plain(arg)
                line['target'] = posixpath.normpath(arg) if ':' not in arg else arg
                if line['target'].startswith('./'):
                    line['target'] = line['target'][2:]
            if rng.random() < p_filter:
                words, tagwords = c06.vocabulary(rng, units)
                words = [w for w in words if ',' not in w] or ['test']
                e = c06.random_expr(rng, words, [w for w in tagwords if ',' not in w] or ['slow'], rng.choice([0, 1, 2]))
                line['filter'] = [e, c06.render(rng, e).replace('\t', ' ')]
            if rng.random() < 0.3:
                line['repeat'] = rng.choice([1, 2, 2, 3, 0])
            if rng.random() < bad:
                files = [f['path'] for f in t['files']]
                if rng.random() < 0.7:
                    line.update(target=rng.choice(['nowhere.py', 'nowhere', 'nowhere.txt', rng.choice(files) + ':test_nothing', 'suites/missing.suite', rng.choice(files)[:-3] + 'q.py']),
                                nested=False, bad='path', repeat=None)
                else:
                    line.update(repeat=rng.choice(['x', 'two', '1.5', '']), bad='repeat')
            lines.append(line)
        out[name] = lines
    return out


def line_text(line, name, root):
    if 'text' in line:
        return line['text']
    target = os.path.join(root, line['target']) if line['abs'] else os.path.relpath(line['target'], os.path.dirname(name) or '.')
    form = line['form']
    opts = []
    if line['filter']:
        opts.append('filter:{}{}'.format('' if form & 1 else ' ', line['filter'][1]))
    if line['repeat'] is not None:
        opts.append('repeat:{}{}'.format('' if form & 2 else ' ', line['repeat']))
    if form & 4:
        opts.reverse()
    s = target
    if opts:
        s += (' # ' if form & 1 else '#').join(['', ', '.join(opts)])
    elif form == 5:
        s += ' # nothing special'
    elif form == 6:
        s += ' #'
    return ('  ' if form == 3 else '') + s


def write_suites(suites, root):
    for name, lines in suites.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w', encoding='utf-8') as f:
            f.write('\n'.join(line_text(x, name, root) for x in lines) + ('\n' if len(lines) % 2 else ''))


class Selection(object):

    """What arguments, suite files and filters select: [(unit id, suffix of the address, tags, prefix of the address)]"""

    def __init__(self, ref, base, root, cwd=''):
        self.ref, self.root, self.cwd = ref, root, os.path.join(root, cwd)
        self.by_unit = collections.defaultdict(list)
        for t in base:
            self.by_unit[engineb.unit_id(t)].append(t)
        units = {u.id: u for f in ref.spec['files'] for u in ref.units_of(f['path'])}
        self.tags = {}
        for uid, tests in self.by_unit.items():
            for t in tests:
                idx, err = engineb.indices_of(ref, units[uid], t)
                self.tags[t['address']] = [] if err else ref.tags(units[uid], idx)

    def path(self, arg, absolute):
        units = self.ref.select(arg, self.root)
        if units is None:
            raise Missing(arg)
        base = os.path.join(self.root, arg.partition(':')[0])
        shown = base if absolute else os.path.relpath(base, self.cwd)
        out = []
        for u in units:
            path = os.path.join(self.root, u.path)
            path = shown if path == os.path.normpath(base) else os.path.join(shown, os.path.relpath(path, base))
            out += [(u.id, path + ':' + t['address'].partition(':')[2], self.tags[t['address']]) for t in self.by_unit[u.id]]
        return out

    def suite(self, suites, name):
        if name not in suites:
            raise Missing(name)
        out = []
        for line in suites[name]:
            if 'text' in line:
                continue
            if line.get('bad') == 'repeat':
                raise Missing('repeat')
            repeat = 1 if line['repeat'] is None else line['repeat']
            if not repeat:
                continue
            got = self.suite(suites, line['target']) if line['nested'] else self.path(line['target'], line['abs'])
            if line['filter']:
                got = [x for x in got if c06.holds(line['filter'][0], x[1], x[2])]
            out += got * repeat
        return out


class CHECK(TreeCheck):
    prop = 'C21'
    technique = 'runtime monitoring: tests run from generated suite files vs. an independent reading of the files'
    rule = 'generated suite files (nested, with filters, repetitions, comments, errors) over generated trees; sequence of executed tests compared with the reference'
    required = ('ran', 'nested', 'filtered', 'repeated', 'errors', 'directories', 'combined', 'nested_repeated')
    profile = dict(p_tag=0.3, p_vtag=0.2, p_param=0.4, p_fxparam=0.15, p_class=0.4, max_total=30, max_unit=5, p_noise=0.2, p_extra=0, nasty=0.1, shared_tags=0.4, p_autouse=0.05)
    n_quick = 240

    def gen(self, rng, i, tier):
        t = self.gen_tree(rng)
        suites = gen_suites(rng, t, bad=0.05 if i % 3 == 0 else 0)
        case = {'tree': t, 'suites': suites, 'f': [rng.choice(list(suites)) for _ in range(rng.choice([1, 1, 1, 2]))], 'paths': [], 'k': None, 'each': 1, 'all': 1,
                'how': rng.choice(['flag', 'flag', 'rc']), 'cwd': rng.choice([''] * 3 + list(t['dirs'])), 'absf': rng.random() < 0.3, 'sources': rng.random() < 0.25}
        if rng.random() < 0.15:
            case['f'].append('suites')
        if rng.random() < 0.25:
            case['paths'] = [c02.plain(a) for a in c02.random_args(rng, Ref(t), n_max=2)]
        if rng.random() < 0.2:
            words, tagwords = c06.vocabulary(rng, c06.places(Ref(t)))
            e = c06.random_expr(rng, words, tagwords, 1)
            case['k'] = [e, c06.render(rng, e)]
        if rng.random() < 0.2:
            case[rng.choice(['each', 'all'])] = 2
        return case

    def run(self, case):
        root = os.path.realpath(os.getcwd())
        tree.write(case['tree'], root)
        write_suites(case['suites'], root)
        base, err = engineb.load([root], root)
        cwd = os.path.join(root, case['cwd'])
        os.chdir(cwd)

        def path(p):
            return os.path.join(root, p) if case['absf'] else os.path.relpath(os.path.join(root, p), cwd)
        argv = [os.path.join(root, p) for p in case['paths']]
        fs = [path(p) for p in case['f']]
        rc = ['import slash']
        if case['how'] == 'rc':
            rc.append('slash.config.root.run.suite_files = {!r}'.format(fs[:1]))
            fs = fs[1:]
        if case['sources']:
            rc.append('slash.config.root.run.default_sources = [{!r}]'.format(root))
        with open('.slashrc', 'w', encoding='utf-8') as f:
            f.write('\n'.join(rc) + '\n')
        for p in fs:
            argv += ['-f', p]
        if case['k']:
            argv += ['-k', case['k'][1]]
        for name in ('each', 'all'):
            if case[name] > 1:
                argv += ['--repeat-' + name, str(case[name])]
        obs = engineb.run(argv, root, cwd=cwd)
        os.chdir(root)
        obs['base'] = base
        return obs

    def expected(self, case, obs, root):
        ref = Ref(case['tree'])
        sel = Selection(ref, obs['base'], root, case['cwd'])
        out = []
        ordered = True
        for p in case['paths']:
            out += sel.path(p, True)
        for p in case['f']:
            if p == 'suites':
                inside = sorted(n for n in case['suites'] if n.startswith('suites/'))
                ordered = ordered and len(inside) < 2
                if not inside and not os.path.isdir(os.path.join(root, 'suites')):
                    raise Missing('suites')
                for n in inside:
                    out += sel.suite(case['suites'], n)
            else:
                out += sel.suite(case['suites'], p)
        if case['k']:
            out = [x for x in out if c06.holds(case['k'][0], x[1], x[2])]
        return out, ordered

    def judge(self, case, obs):
        root = os.path.realpath(os.getcwd())
        if obs['base'] is None:
            return [Violation('base', 'the tree does not load')]
        stats = obs['stats'] = collections.Counter()
        if obs['escaped']:
            return [Violation('escaped', obs['escaped'])]
        try:
            want, ordered = self.expected(case, obs, root)
        except Missing as e:
            stats['errors'] += 1
            if obs['ran'] or obs['started'] or obs['code'] == 0:
                return [Violation('error-ignored', '{} cannot be used, but {} tests ran and the exit code is {}'.format(e, len(obs['ran']), obs['code']))]
            return []
        if not want:
            if obs['ran'] or obs['code'] == 0:
                return [Violation('nothing-selected', 'nothing is selected, but {} tests ran, exit code {}'.format(len(obs['ran']), obs['code']))]
            return []
        if not obs['loads']:
            return [Violation('not-loaded', obs['console'][-1500:])]
        seq = [x[0] for x in want for _ in range(case['each'])] * case['all']
        got = [engineb.unit_id(obs['tests'][i]) for i in obs['ran']]
        what = 'suite files {} with paths {} and filter {}'.format(case['f'], case['paths'], case['k'] and case['k'][1])
        if ordered and got != seq:
            i = next((i for i, (a, b) in enumerate(zip(got, seq)) if a != b), min(len(got), len(seq)))
            return [Violation('sequence', '{}: tests differ at {} of {}/{}: ran {}, expected {}'.format(what, i, len(got), len(seq), got[i:i + 3], seq[i:i + 3]))]

        a = collections.Counter((engineb.unit_id(t), t['address'].partition(':')[2]) for t in (obs['tests'][i] for i in obs['ran']))
        b = collections.Counter((x[0], x[1].partition(':')[2]) for x in want * case['each'] * case['all'])
        if a != b:
            return [Violation('selection', '{}: ran too often {}, not often enough {}'.format(what, sorted((a - b).items())[:4], sorted((b - a).items())[:4]))]
        if obs['code'] != 0:
            return [Violation('exit', 'exit code {}'.format(obs['code']))]
        lines = [x for n in case['suites'].values() for x in n if 'text' not in x]
        stats.update(ran=len(got), nested=sum(x['nested'] for x in lines), filtered=sum(bool(x['filter']) for x in lines), repeated=sum(x['repeat'] not in (None, 1) for x in lines),
                     directories='suites' in case['f'], combined=bool(case['paths']), nested_repeated=sum(x['nested'] and x['repeat'] not in (None, 1) for x in lines))
        return []

    def counters(self, case, obs):
        return obs.get('stats', {})

    def shrink(self, case):
        import copy
        for name in case['suites']:
            for j in range(len(case['suites'][name])):
                c = copy.deepcopy(case)
                c['suites'][name].pop(j)
                yield c
        for k, v in (('k', None), ('paths', []), ('each', 1), ('all', 1), ('cwd', '')):
            if case[k] != v:
                yield dict(case, **{k: v})
