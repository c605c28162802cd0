"""Generator of project trees for engine B"""
import copy
import os

from vp.tree import Ref

PNAMES = ['x', 'y', 'size', 'mode', 'val', 'flag', 'param', 'color']
POOL = ["None", "''", "'a b'", "-1", "0", "1.5", "(1, 2)", "[1, 'x']", "{'k': 1}", "'x/y'", "'a:b'", "'p(q'", "b'by'", "'d\\u00e9j\\u00e0'", "10**20", "'a,b=c'",
        "True", "frozenset()", "'UPPER'", "'under_score'", "'-dash-'", "'.'", "float('inf')", "'x' * 40", "'1'", "1"]
DEFAULTS = dict(dirs=3, files=4, items=3, p_class=0.4, p_param=0.4, p_fxparam=0.35, p_dep=0.5, p_autouse=0.1, p_extra=0.12, p_use=0.2, p_label=0.2, p_vtag=0.0, p_tag=0.0,
                p_req=0.0, p_excl=0.0, p_repeat=0.0, p_multi=0.15, p_gen=0.08, p_override=0.5, p_base=0.5, p_abstract=0.3, p_ba=0.35, p_noise=0.3, conf=2, filefx=2,
                max_unit=12, max_total=90, names=6, nasty=0.3, dup_values=0.05, scopes=('test', 'test', 'module', 'session'))


class Gen(object):

    def __init__(self, rng, **profile):
        self.r = rng
        self.p = dict(DEFAULTS, **profile)
        self.np = self.nf = self.nt = 0
        self.ntag = 0

    def chance(self, name):
        return self.r.random() < self.p[name]

    # --- pieces
    def param(self, used, allow_multi=True, form=None):
        r = self.r
        names = [n for n in PNAMES if n not in used]
        if not names:
            return None
        self.np += 1
        key = 'P{}'.format(self.np)
        n = 2 if allow_multi and self.chance('p_multi') and len(names) > 1 else 1
        names = r.sample(names, n)
        form = form or r.choice(['parametrize', 'parametrize', 'parametrize', 'toggle', 'iterate'])
        if n > 1:
            form = 'parametrize'
        values = []
        if form == 'toggle':
            values = [{'src': 'True', 'tags': []}, {'src': 'False', 'tags': []}]
        else:
            labels = r.sample(['first', 'second', 'low', 'high', 'A_1', 'zz', 'x', 'param0', 'only'], 4)
            for i in range(r.choice([1, 2, 2, 3, 3])):
                v = {'src': self.value(key, i, n), 'tags': []}
                if values and r.random() < self.p['dup_values']:
                    v['src'] = values[-1]['src']
                if self.chance('p_label'):
                    v['label'] = labels[i]
                    v['lform'] = r.choice(['fn', 'floordiv'])
                if self.chance('p_vtag'):
                    v['tags'] = [self.tag()]
                    v['lform'] = 'fn'
                values.append(v)
        used.update(names)
        return {'key': key, 'names': names, 'form': form, 'values': values}

    def value(self, key, i, n):
        r = self.r
        if n > 1:
            return '({})'.format(', '.join(self.value(key, i, 1) for _ in range(n)))
        if r.random() < self.p['nasty']:
            return r.choice(POOL)
        return r.choice([repr('{}v{}'.format(key.lower(), i)), repr(int(key[1:]) * 100 + i), repr('{} {}'.format(key, i))])

    def params(self, used, n_max, **kw):
        out = []
        for _ in range(n_max):
            p = self.param(used, **kw)
            if p:
                out.append(p)
        return out

    def tag(self):
        self.ntag += 1
        if self.p.get('shared_tags') and self.r.random() < self.p['shared_tags']:
            # the same names in several places, always with values; conflicts arise when the values differ
            i = self.r.randrange(self.p.get('tag_names', 6))
            return ['s{:02}'.format(i), i if self.r.random() > self.p.get('p_conflict', 0) else 'other']
        name = self.r.choice(['slow{}'.format(self.ntag), 'n{:02}'.format(self.ntag)])
        return [name, self.r.choice([None, None, self.ntag, 'v{}'.format(self.ntag), '', True] + ['k=v{}'.format(self.ntag), '='] * bool(self.p.get('eq_tags')))]

    def decorations(self, x, kind):
        """Tags, requirements"""
        if self.chance('p_tag'):
            x['tags'] = [self.tag() for _ in range(self.r.choice([1, 1, 2]))]
        if self.chance('p_req'):
            x['reqs'] = [self.req(kind) for _ in range(self.r.choice([1, 1, 2]))]

    def req(self, kind):
        self.nreq = getattr(self, 'nreq', 0) + 1
        msg = self.r.choice([None, 'reason{}'.format(self.nreq), 'reason{}'.format(self.nreq)])
        k = self.r.choice(['bool', 'func', 'tuple', 'obj', 'bool', 'skip'] if kind in ('func', 'method', 'class') else ['bool', 'func', 'tuple', 'obj'])
        if k in ('tuple', 'obj'):
            msg = 'reason{}'.format(self.nreq)
        return [k, k != 'skip' and self.r.random() < self.p.get('req_met', 0.7), msg]

    def deps(self, names, n_max, used):
        """[(arg, fixture name)]"""
        r = self.r
        out = []
        names = list(names)
        r.shuffle(names)
        for name in names[:r.randint(0, n_max)]:
            arg = name
            if self.chance('p_use'):
                arg = 'arg_{}'.format(name)
            if arg in used:
                continue
            used.add(arg)
            out.append([arg, name])
        return out

    # --- structure
    def tree(self):
        r = self.r
        dirs = ['']
        for i in range(r.randint(0, self.p['dirs'])):
            parent = r.choice(dirs)
            name = r.choice(['d{}'.format(i), 'test_dir{}'.format(i), 'Sub{}'.format(i), 'a.b{}'.format(i), 'with-dash{}'.format(i)])
            dirs.append(os.path.join(parent, name))
        spec = {'dirs': {d: [] for d in dirs}, 'files': []}
        names = ['fx{:02}'.format(i) for i in range(self.p['names'])] + (['size', 'val'] if r.random() < self.p.get('p_shadow', 0.3) else [])
        spec['confdirs'] = [d for d in dirs if r.random() < 0.15]
        for _ in range(r.randint(1, self.p['files'])):
            d = r.choice(dirs)
            path = os.path.join(d, r.choice(['test_', 'tests', 'Check_', '_', 'a_', 'z_']) + '{:02}'.format(r.randrange(100)) + '.py')
            if path not in [f['path'] for f in spec['files']]:
                spec['files'].append({'path': path, 'fixtures': [], 'items': []})
        self.spec = spec
        # names first, so that resolution is known before requirements are chosen
        for d in dirs:
            self.place_fixtures(spec['dirs'][d], names, r.randint(0, self.p['conf']))
        for f in spec['files']:
            self.place_fixtures(f['fixtures'], names, r.randint(0, self.p['filefx']))
        self.ref = Ref(spec)
        order = {}
        for d in sorted(dirs, key=lambda d: d.count('/') + bool(d)):
            for fx in spec['dirs'][d]:
                self.fill_fixture(fx, ('dir', d), order)
        for f in spec['files']:
            for fx in f['fixtures']:
                self.fill_fixture(fx, ('file', f['path']), order)
        for f in spec['files']:
            self.fill_file(f)
        self.ref = Ref(spec)
        self.trim()
        self.exclusions()
        if self.chance('p_noise'):
            self.noise(dirs)
        return spec

    def place_fixtures(self, lst, names, n):
        for name in self.r.sample(names, min(n, len(names))):
            self.nf += 1
            autouse = self.r.random() < self.p['p_autouse']
            if autouse:
                name = 'au{:02}'.format(self.nf)
            lst.append({'key': 'F{}'.format(self.nf), 'name': name, 'autouse': autouse, 'named': self.r.random() < 0.2, 'scope': 'test', 'kind': 'plain', 'params': [], 'deps': []})

    def visible(self, site):
        out = {}
        for s in reversed(Ref.chain_of(site)):
            for fx in self.ref.fixtures_at(s):
                out[fx['name']] = fx
        return out

    def fill_fixture(self, fx, site, order):
        r = self.r
        fx['scope'] = r.choice(self.p['scopes'])
        fx['kind'] = r.choice(['plain', 'this', 'yield'])
        if self.r.random() < self.p['p_gen'] and not fx['autouse']:
            fx['kind'] = 'gen'
            p = self.param(set(), allow_multi=False, form='parametrize')
            for v in p['values']:
                v.pop('label', None)
                v['tags'] = []
            p['names'] = ['param']
            fx['params'] = [p]
        else:
            used = set()
            ranks = {'test': 0, 'module': 1, 'session': 2}
            ok = [n for n, x in self.visible(site).items() if x['key'] in order and n != fx['name'] and ranks[x['scope']] >= ranks[fx['scope']]]
            if self.chance('p_dep'):
                fx['deps'] = self.deps(ok, 2, used)
            if self.chance('p_fxparam'):
                fx['params'] = self.params(used, 1 if r.random() < 0.8 else 2)
            fx['above'] = r.random() < 0.25
            fx['dbelow'] = r.random() < 0.4
            fx['rot'] = r.randrange(4)
            self.decorations(fx, 'fixture')
            if fx['autouse']:
                fx.pop('tags', None)
        order[fx['key']] = len(order)

    def func(self, name, names, kind):
        r = self.r
        self.nt += 1
        used = set()
        x = {'key': 'T{}'.format(self.nt), 'name': name, 'params': [], 'deps': [], 'rot': r.randrange(4), 'usedot': r.random() < 0.3,
             'dbelow': r.random() < 0.4}
        if self.chance('p_dep'):
            x['deps'] = self.deps(names, 2, used)
        if self.chance('p_param'):
            x['params'] = self.params(used, r.choice([1, 1, 2]))
        if kind in ('func', 'method') and names and self.chance('p_extra'):
            x['extra'] = [r.sample(names, r.randint(1, min(2, len(names))))]
            if r.random() < 0.3:
                x['extra'].append([r.choice(names)])
            args = {a for a, _ in x['deps']}
            x['extra'] = [[n for n in g if n not in args] for g in x['extra']]
            x['extra'] = [g for g in x['extra'] if g]
        if kind in ('func', 'method'):
            self.decorations(x, kind)
            if self.chance('p_repeat'):
                x['repeat'] = r.choice([1, 2, 3])
        if kind == 'func' and self.p.get('p_nofix') and not (x['deps'] or x['params'] or x.get('extra')) and self.chance('p_nofix'):
            x['nofix'] = True
        return x

    def fill_file(self, f):
        r = self.r
        names = sorted(n for n, x in self.visible(('file', f['path'])).items() if not x['autouse'])
        used_names = set()
        for _ in range(r.randint(0 if self.p.get('empty_files') else 1, self.p['items'])):
            if self.chance('p_class'):
                c = self.klass(f, names, used_names)
                f['items'].append(c)
            else:
                name = r.choice(['test_', 'test_', 'test_Z', 'helper_']) + r.choice(['a', 'b', 'cd', 'filter', 'x1', 'and_or']) + str(len(used_names))
                used_names.add(name)
                f['items'].append(dict(self.func(name, names, 'func'), type='func'))

    def klass(self, f, names, used_names):
        r = self.r
        name = r.choice(['Test', 'Case', '_Base', 'my', 'Z']) + str(len(used_names))
        used_names.add(name)
        bases = []
        prev = [c for c in f['items'] if c['type'] == 'class']
        if prev and self.chance('p_base'):
            bases = [r.choice(prev)['name']]
            if len(prev) > 1 and r.random() < self.p.get('p_two', 0.3):
                other = r.choice(prev)
                cand = [bases[0], other['name']]
                r.shuffle(cand)
                if self.valid_bases(f, cand):
                    bases = cand
        c = {'type': 'class', 'key': 'C' + name, 'name': name, 'bases': bases, 'abstract': self.chance('p_abstract'), 'methods': []}
        self.decorations(c, 'class')
        if self.r.random() < self.p.get('p_skip_all', 0):
            c['skip_all'] = 'skip_all {}'.format(name)
        chain = self.ref.mro({'items': f['items'] + [c]}, c)[1:] if bases else []
        for which in ('before', 'after'):
            if self.chance('p_ba'):
                inherited = [k[which] for k in chain if k.get(which)]
                if not inherited:
                    used = {n for other in ('before', 'after') if c.get(other) for n in self.argnames(c[other])}
                    b = self.func(which, names, which)
                    c[which] = b
                elif not any(b['deps'] for b in inherited) and len(inherited) == 1:
                    # overrides and calls it: its parameters are supplied automatically
                    b = self.func(which, names, which)
                    used = {n for x in inherited for n in self.argnames(x)}
                    if not used & set(self.argnames(b)):
                        b['super'] = True
                        c[which] = b
        for i in range(r.randint(0, 3)):
            mname = r.choice(['test', 'test_', 'testx_', 'helper_', 'test_m']) + r.choice(['', 'a', 'b', 'c'])
            if mname in [m['name'] for m in c['methods']]:
                continue
            c['methods'].append(self.func(mname, names, 'method'))
        return c

    @staticmethod
    def argnames(x):
        return [a for a, _ in x['deps']] + [n for p in x['params'] for n in p['names']]

    def valid_bases(self, f, bases):
        if bases[0] == bases[1]:
            return False
        try:
            c = {'name': '?', 'bases': bases, 'type': 'class'}
            chain = self.ref.mro({'items': f['items'] + [c]}, c)[1:]
        except TypeError:
            return False
        # at most one definition of before / after, so that which one is called does not depend on super
        return all(sum(1 for k in chain if k.get(w)) <= 1 for w in ('before', 'after'))

    def trim(self):
        """Bounds the number of tests by dropping values"""
        for _ in range(40):
            ref = self.ref
            total = big = 0
            victim = None
            for f in self.spec['files']:
                for u in ref.units_of(f['path']):
                    n = ref.count(u)
                    total += n
                    if n > big:
                        big, victim = n, u
            if big <= self.p['max_unit'] and total <= self.p['max_total']:
                return
            p = max(ref.needed_params(victim).values(), key=lambda p: len(p['values']), default=None)
            if p is None or len(p['values']) <= 1:
                return
            if p['form'] == 'toggle':
                p['form'] = 'parametrize'
            p['values'].pop()

    def exclusions(self):
        r = self.r
        if not self.p['p_excl']:
            return
        ref = self.ref
        targets = []
        for f in self.spec['files']:
            site = ('file', f['path'])
            for it in f['items']:
                for x in ([it] if it['type'] == 'func' else it['methods']):
                    targets.append((x, site, None))
        for key, fx in ref.fx.items():
            if fx['kind'] != 'gen':
                targets.append((fx, ref.site[key], fx))
        for x, site, _ in targets:
            if not self.chance('p_excl'):
                continue
            paths = [(n, p, i) for p in x['params'] for i, n in enumerate(p['names'])]

            def walk(prefix, fx):
                for p in fx['params']:
                    for i, n in enumerate(p['names'] if fx['kind'] != 'gen' else ['param']):
                        paths.append(('{}.{}'.format(prefix, n), p, i))
                for arg, sub in ref.needs(fx):
                    if arg == sub['name']:
                        walk('{}.{}'.format(prefix, arg), sub)
            for arg, name in x['deps']:
                if arg == name:
                    walk(arg, ref.resolve(name, site))
            if not paths:
                continue
            x['excl'] = []
            for _ in range(r.choice([1, 1, 2])):
                chosen = r.sample(paths, min(len(paths), r.choice([1, 1, 2])))
                single = len(chosen) == 1 and r.random() < 0.7
                values = []
                for _ in range(r.choice([1, 1, 2])):
                    vs = []
                    for n, p, i in chosen:
                        src = r.choice(p['values'])['src']
                        vs.append('({})[{}]'.format(src, i) if len(p['names']) > 1 else '({})'.format(src))
                    values.append(vs)
                x['excl'].append({'names': [n for n, _, _ in chosen], 'single': single, 'values': values})

    def noise(self, dirs):
        r = self.r
        other = self.spec['other'] = {}
        for d in dirs:
            if r.random() < 0.4:
                other[os.path.join(d, r.choice(['README.txt', 'notes.pyx', 'test_data.json', 'x.py.bak', 'suite']))] = 'import nothing_like_this\n'
            if r.random() < 0.25:
                other[os.path.join(d, '.hidden', 'test_hidden.py')] = 'def test_hidden():\n    assert False\n'
            if r.random() < 0.25:
                other[os.path.join(d, r.choice(['helpers.py', '__init__.py', 'zz_lib.py']))] = 'TEST = 1\n\ndef helper():\n    pass\n\nclass Thing(object):\n    def test_me(self):\n        pass\n'
        for f in self.spec['files']:
            f['noise'] = r.sample(['from slash import Test', 'import os as test_os', 'test_value = 5', 'class Plain(object):\n    def test_x(self):\n        raise Exception(1)',
                                   'test_list = [1]', 'def not_a_test():\n    pass', 'Test2 = slash.Test if False else None'], r.randint(0, 3))
            for c in f['items']:
                if c['type'] == 'class' and r.random() < 0.3:
                    c['noise'] = ['def helper(self):', '    raise Exception("not a test")']


def gen_tree(rng, **profile):
    return Gen(rng, **profile).tree()


def shrink_tree(case, key='tree'):
    """Smaller variants of a case whose tree is at case[key]"""
    t = case[key]

    def variant(fn):
        c = copy.deepcopy(case)
        fn(c[key])
        return c
    for i in range(len(t['files'])):
        yield variant(lambda s, i=i: s['files'].pop(i))
    for i, f in enumerate(t['files']):
        for j in range(len(f['items'])):
            yield variant(lambda s, i=i, j=j: s['files'][i]['items'].pop(j))
        for j in range(len(f['fixtures'])):
            yield variant(lambda s, i=i, j=j: s['files'][i]['fixtures'].pop(j))
        for j, it in enumerate(f['items']):
            if it['type'] == 'class':
                for k in range(len(it['methods'])):
                    yield variant(lambda s, i=i, j=j, k=k: s['files'][i]['items'][j]['methods'].pop(k))
                for w in ('before', 'after'):
                    if it.get(w):
                        yield variant(lambda s, i=i, j=j, w=w: s['files'][i]['items'][j].pop(w))
    for d, fxs in t['dirs'].items():
        for j in range(len(fxs)):
            yield variant(lambda s, d=d, j=j: s['dirs'][d].pop(j))

    def funcs(s):
        for fxs in s['dirs'].values():
            for fx in fxs:
                yield fx
        for f in s['files']:
            for fx in f['fixtures']:
                yield fx
            for it in f['items']:
                if it['type'] == 'func':
                    yield it
                else:
                    yield it
                    for x in [it.get('before'), it.get('after')] + it['methods']:
                        if x:
                            yield x
    n = len(list(funcs(t)))
    for i in range(n):
        x = list(funcs(t))[i]
        for field in ('deps', 'params', 'extra', 'tags', 'reqs', 'excl', 'bases'):
            for j in range(len(x.get(field) or ())):
                yield variant(lambda s, i=i, field=field, j=j: list(funcs(s))[i][field].pop(j))
        for j, p in enumerate(x.get('params') or ()):
            if len(p['values']) > 1 and p['form'] != 'toggle':
                yield variant(lambda s, i=i, j=j: list(funcs(s))[i]['params'][j]['values'].pop())
