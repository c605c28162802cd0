import collections
import os
import string

from vp import engineb, tree
from vp.core import Violation
from vp.engineb import TreeCheck
from vp.tree import Ref

CHARS = set(string.ascii_letters + string.digits + '._,-=/:')
MATCHES_NOTHING = 'matches nothing'


def word_ok(w):
    return bool(w) and CHARS.issuperset(w) and w not in ('and', 'or', 'not') and not w.startswith('tag:')


def places(ref):
    """[(address, tags)] of the units of a tree"""
    out = []
    for f in ref.spec['files']:
        for u in ref.units_of(f['path']):
            tags = [tuple(t) for p in ref.needed_params(u).values() for v in p['values'] for t in v.get('tags', ())]
            out.append((u.id, tags + ref.static_tags(u), [n for p in ref.needed_params(u).values() for n in p['names']]))
    return out


def vocabulary(rng, units):
    """Words that occur in addresses and tags, and variations of them; mostly of one unit"""
    target = rng.choice(units) if units else ('', [], [])
    words, tagwords = [], []
    for _ in range(30):
        a, tags, params = target if not units or rng.random() < 0.6 else rng.choice(units)
        k = rng.random()
        if a and k < 0.55:
            i = rng.randrange(len(a))
            w = rng.choice([a[i:i + rng.randint(1, 5)], a[i:i + rng.randint(1, 12)], a, a.split(':')[1], a.split('/')[-1], a.split('.')[0], a.split(':')[0]])
        elif tags and k < 0.8:
            n, v = rng.choice(tags)
            w = rng.choice([n, n[:-1], n[1:], '{}={}'.format(n, v), '{}={}'.format(n, v), n + 'x', '{}='.format(n), '{}={}'.format(n, str(v)[:-1]), '{}={}1'.format(n, v),
                            '{}={}'.format(n[:-1], v)])
            tagwords += [x for x in (n, n, '{}={}'.format(n, v), n[:-1], '{}={}x'.format(n, v), n + '=') if word_ok(x)]
        elif params and k < 0.9:
            n = rng.choice(params)
            w = rng.choice([n, n + '=', n + '=' + n, n + '=1', n + '0', n + '=True', n + '=' + n + '1'])
        else:
            w = rng.choice(['zzz', 'notx', 'not-x', 'not.', 'order', 'android', 'tag', 'a,b', 'and_or', 'not_a', 'nota', 'oracle', 'andx', 'or_1', 'nothing', 'and.', 'or-'])
        if rng.random() < 0.05:
            w = w.upper()
        if word_ok(w):
            words.append(w)
            if rng.random() < 0.12:
                # names of tags are not those of addresses
                tagwords.append(w)
    return words or ['test'], tagwords or ['slow']


def random_expr(rng, words, tagwords, depth):
    k = rng.random()
    if depth <= 0 or k < 0.25:
        if rng.random() < 0.35:
            return ['tag', rng.choice(tagwords)]
        return ['word', rng.choice(words)]
    if k < 0.5:
        return ['not', random_expr(rng, words, tagwords, depth - 1)]
    return [rng.choice(['and', 'or'])] + [random_expr(rng, words, tagwords, depth - 1) for _ in range(rng.choice([2, 2, 3]))]


LEVEL = {'or': 0, 'and': 1, 'not': 2, 'word': 3, 'tag': 3}


def render(rng, e, level=0):
    """Text of an expression, with redundant parentheses and spacing"""
    def sp(need):
        return rng.choice([' ', ' ', ' ', '  ', '\t']) if need or rng.random() < 0.3 else ''
    kind = e[0]
    if kind == 'word':
        s = e[1]
    elif kind == 'tag':
        s = 'tag:' + rng.choice(['', '', ' ', '  ']) + e[1]
    elif kind == 'not':
        sub = render(rng, e[1], 2)
        s = 'not' + sp(not sub.startswith('(')) + sub
    else:
        subs = [render(rng, x, LEVEL[kind] + 1) for x in e[1:]]
        s = subs[0]
        for x in subs[1:]:
            s += sp(not s.endswith(')')) + kind + sp(not x.startswith('(')) + x
    if LEVEL[kind] < level or rng.random() < 0.08:
        s = '(' + sp(False) + s + sp(False) + ')'
    return s


def holds(e, address, tags):
    kind = e[0]
    if kind == 'not':
        return not holds(e[1], address, tags)
    if kind == 'and':
        return all(holds(x, address, tags) for x in e[1:])
    if kind == 'or':
        return any(holds(x, address, tags) for x in e[1:])
    w = e[1]
    if kind == 'word' and w in address:
        return True
    if '=' in w:
        name, value = w.split('=', 1)
        return any(n == name and v is not None and str(v) == value for n, v in tags)
    return any((w == n if kind == 'tag' else w in n) for n, _ in tags)


def same_test(a, b):
    return all(a[k] == b[k] for k in ('address', 'values', 'ids', 'labels', 'tags', 'path', 'factory', 'method', 'repeat_all'))


class CHECK(TreeCheck):
    prop = 'C06'
    technique = 'runtime monitoring: tests kept by real filtered loads and runs vs. an independent evaluator of the filter language over the unfiltered load'
    rule = 'generated filter expressions (any nesting, precedence, spacing) over generated trees with tags and parameters; kept tests compared with a reference evaluation'
    required = ('filters', 'kept', 'dropped', 'tag_words', 'negations', 'ran', 'none_left')
    profile = dict(p_tag=0.3, p_vtag=0.25, p_param=0.5, p_fxparam=0.25, p_class=0.4, max_total=40, max_unit=8, p_noise=0.2, p_extra=0, nasty=0.2, p_repeat=0.08, shared_tags=0.4, p_req=0.05, eq_tags=True)
    n_quick = 150

    def gen(self, rng, i, tier):
        t = self.gen_tree(rng)
        ref = Ref(t)
        units = places(ref)
        sets = []
        for _ in range(12 if tier == 'quick' else 25):
            words, tagwords = vocabulary(rng, units)
            exprs = [random_expr(rng, words, tagwords, rng.choice([0, 1, 2, 2, 3])) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            sets.append([[e, render(rng, e)] for e in exprs])
        return {'tree': t, 'filters': sets, 'how': rng.choice(['flag', 'flag', 'flag', 'rc']), 'repeat': rng.choice([1, 1, 1, 2]), 'paths': rng.choice([['.'], ['.'], ['.', '.']])}

    def run(self, case):
        root = os.path.realpath(os.getcwd())
        tree.write(case['tree'], root)
        base, err = engineb.load(case['paths'], root)
        loads = []
        if base is not None:
            for fs in case['filters'][1:]:
                tests, e = engineb.load(case['paths'], root, filters=[text for _, text in fs])
                loads.append([tests, e])
        texts = [text for _, text in case['filters'][0]]
        argv = list(case['paths'])
        if case['how'] == 'rc':
            with open('.slashrc', 'w', encoding='utf-8') as f:
                f.write('import slash\nslash.config.root.run.filter_strings = {!r}\n'.format(texts))
        else:
            for t in texts:
                argv += ['-k', t]
        if case['repeat'] > 1:
            argv += ['--repeat-all', str(case['repeat'])]
        obs = engineb.run(argv, root)
        obs.update(base=base, base_err=err, loads_=loads)
        return obs

    def judge(self, case, obs):
        ref = Ref(case['tree'])
        units = {u.id: u for f in case['tree']['files'] for u in ref.units_of(f['path'])}
        if obs['base'] is None:
            return [Violation('base', 'loading without filters failed: {}'.format(obs['base_err']))]
        stats = obs['stats'] = collections.Counter()
        tags = []
        for t in obs['base']:
            u = units.get(engineb.unit_id(t))
            if u is None:
                return [Violation('base', 'unknown test {}'.format(t['address']))]
            idx, err = engineb.indices_of(ref, u, t)
            if err:
                return []
            tags.append(ref.tags(u, idx))
        for fs, (tests, err) in zip(case['filters'][1:], obs['loads_']):
            exprs, texts = zip(*fs)
            want = [t for t, tg in zip(obs['base'], tags) if all(holds(e, t['address'], tg) for e in exprs)]
            if err is not None:
                return [Violation('load', 'filters {}: {}'.format(list(texts), err))]
            v = self.compare(texts, want, tests)
            if v:
                return [v]
            stats.update(filters=1, kept=len(want), dropped=len(tags) - len(want), none_left=not want,
                         tag_words=repr(exprs).count("'tag'"), negations=repr(exprs).count("'not'"))
        exprs, texts = zip(*case['filters'][0])
        want = [t for t, tg in zip(obs['base'], tags) if all(holds(e, t['address'], tg) for e in exprs)]
        if obs['escaped']:
            return [Violation('escaped', obs['escaped'])]
        if not want:
            if obs['ran'] or obs['started'] or obs['code'] == 0 or obs.get('results'):
                return [Violation('run-none', 'filters {} leave no test, but exit code {}, ran {}'.format(list(texts), obs['code'], obs['ran']))]
            return []
        if not obs['loads']:
            return [Violation('run-load', 'filters {}: {}'.format(list(texts), obs['console'][-800:]))]
        got = obs['tests']
        # sort keys are untouched: executed order is the order of the list
        n = len(want)
        if len(got) != n * case['repeat']:
            return [Violation('run', 'filters {}: {} tests in the session, expected {}'.format(list(texts), len(got), n * case['repeat']))]
        for k in range(case['repeat']):
            part = [dict(t, repeat_all=0) for t in got[k * n:(k + 1) * n]]
            v = self.compare(texts, want, part)
            if v:
                return [v]
        if obs['results'] != len(got):
            return [Violation('results', 'filters {}: {} results for {} tests kept'.format(list(texts), obs['results'], len(got)))]
        if [t['index'] for t in got] != list(range(len(got))):
            return [Violation('order', 'filters {}: indices {}'.format(list(texts), [t['index'] for t in got]))]
        avoided = {i for i, _ in obs['avoided']}
        if obs['ran'] != [i for i in range(len(got)) if i not in avoided]:
            return [Violation('ran', 'filters {}: ran {} of {}'.format(list(texts), obs['ran'], len(got)))]
        stats['ran'] += len(obs['ran'])
        return []

    @staticmethod
    def compare(texts, want, got):
        a, b = [t['address'] for t in got], [t['address'] for t in want]
        if a != b:
            extra = list((collections.Counter(a) - collections.Counter(b)).elements())
            missing = list((collections.Counter(b) - collections.Counter(a)).elements())
            return Violation('kept', 'filters {}: kept but false {}, true but not kept {}, {}'.format(list(texts), extra[:4], missing[:4], '' if extra or missing else 'order differs'))
        for x, y in zip(got, want):
            if not same_test(x, y):
                return Violation('contents', 'filters {}: {} differs from the unfiltered one: {} vs {}'.format(list(texts), x['address'], x, y))
        return None

    def counters(self, case, obs):
        return obs.get('stats', {})
