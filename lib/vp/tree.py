"""Engine B: project trees (directories, slashconf files, test files, classes, fixtures, parameters, tags, requirements, exclusions) as JSON
specs: writing them as source, and the reference that says which tests they hold and what each of them is.

Spec: {dirs: {dir: [FX]}, files: [{path, fixtures: [FX], items: [ITEM], noise: [str]}]}
FX:   {key, name, named, scope, autouse, kind: plain|this|yield|gen, above, params: [P], deps: [[arg, name]], tags, reqs, excl}
ITEM: FUNC | CLASS
FUNC: {type: func, key, name, params, deps, extra, tags, reqs, excl, repeat}
CLASS: {type: class, key, name, bases, abstract, tags, reqs, before: BA|None, after: BA|None, methods: [FUNC]}
P:    {key, names, form: parametrize|toggle|iterate, values: [{src, label, lform, tags}]}
"""
import os

HEADER = ['import slash', 'from vp import vpmon', '']


# --- writing -----------------------------------------------------------------------------------------------------
def value_source(v):
    tags = ', '.join(repr((n, x)) if x is not None else repr(n) for n, x in v.get('tags', ()))
    if v.get('label') is not None:
        if v['tags'] or v['lform'] == 'fn':
            return 'slash.param({!r}, {}{})'.format(v['label'], v['src'], ', tags=[{}]'.format(tags) if tags else '')
        return '({}) // slash.param({!r})'.format(v['src'], v['label'])
    if v.get('tags'):
        n, x = v['tags'][0]
        return '({}) // slash.tag({!r}{})'.format(v['src'], n, '' if x is None else ', {!r}'.format(x))
    return v['src']


def param_lines(params, indent):
    out = []
    for p in params:
        values = '[{}]'.format(', '.join(value_source(v) for v in p['values']))
        if p['form'] == 'toggle':
            out.append('{}@slash.parameters.toggle({!r})'.format(indent, p['names'][0]))
        elif p['form'] == 'iterate':
            out.append('{}@slash.parameters.iterate({}={})'.format(indent, p['names'][0], values))
        else:
            name = repr(p['names'][0]) if len(p['names']) == 1 else repr(tuple(p['names']))
            out.append('{}@slash.parametrize({}, {})'.format(indent, name, values))
    return out


def deco_lines(x, indent):
    out = []
    for n, v in x.get('tags', ()):
        out.append('{}@slash.tag({!r}{})'.format(indent, n, '' if v is None else ', {!r}'.format(v)))
    for r in x.get('reqs', ()):
        out.append(indent + req_source(r))
    for e in x.get('excl', ()):
        names = repr(e['names'][0]) if e.get('single') else repr(tuple(e['names']))
        values = '[{}]'.format(', '.join(vs[0] if e.get('single') else '({},)'.format(', '.join(vs)) for vs in e['values']))
        out.append('{}@slash.exclude({}, {})'.format(indent, names, values))
    if x.get('repeat'):
        out.append('{}@slash.repeat({})'.format(indent, x['repeat']))
    return out


def req_source(r):
    kind, met, msg = r
    m = '' if msg is None else ', {!r}'.format(msg)
    if kind == 'bool':
        return '@slash.requires({}{})'.format(met, m)
    if kind == 'func':
        return '@slash.requires(lambda: {}{})'.format(met, m)
    if kind == 'tuple':
        return '@slash.requires(lambda: ({}, {!r}))'.format(met, msg)
    if kind == 'obj':
        return '@slash.requires(vpmon.Req({}, {!r}))'.format(met, msg)
    if kind == 'skip':
        return '@slash.skipped' if msg is None else '@slash.skipped({!r})'.format(msg)
    raise ValueError(kind)


def args_of(x, this=False, self_arg=False):
    names = []
    for arg, fix in x['deps']:
        names.append(arg if arg == fix else '{}: slash.use({!r})'.format(arg, fix) if not x.get('usedot') else '{}: slash.use.{}'.format(arg, fix))
    for p in x['params']:
        names += p['names']
    if x.get('rot'):
        k = x['rot'] % max(1, len(names))
        names = names[k:] + names[:k]
    if this:
        names.insert(x.get('rot', 0) % (len(names) + 1), 'this')
    return ', '.join((['self'] if self_arg else []) + names)


def vals_of(x):
    return 'dict({})'.format(', '.join('{0}={0}'.format(a) for a, _ in x['deps']))


def pvals_of(x):
    return '{{{}}}'.format(', '.join('{!r}: {}'.format('{}/{}'.format(p['key'], i), n) for p in x['params'] for i, n in enumerate(p['names'])))


def fixture_source(fx):
    kw = []
    if fx['scope'] != 'test':
        kw.append('scope={!r}'.format(fx['scope']))
    if fx.get('autouse'):
        kw.append('autouse=True')
    fname = fx['name']
    if fx.get('named'):
        kw.append('name={!r}'.format(fx['name']))
        fname = 'impl_' + fx['key']
    if fx['kind'] == 'gen':
        out = ['@slash.generator_fixture({})'.format(', '.join(kw)) if kw else '@slash.generator_fixture', 'def {}():'.format(fname)]
        return out + ['    yield {}'.format(v['src']) for v in fx['params'][0]['values']] + ['']
    deco = '@slash.fixture({})'.format(', '.join(kw)) if kw else '@slash.fixture'
    plines = [param_lines(fx['params'], ''), deco_lines(fx, '')]
    plines = plines[1] + plines[0] if fx.get('dbelow') else plines[0] + plines[1]
    out = plines + [deco] if fx.get('above') else [deco] + plines
    this = fx['kind'] == 'this'
    out.append('def {}({}):'.format(fname, args_of(fx, this)))
    call = 'vpmon.fx({!r}, {!r}, {}, {}, {})'.format(fx['key'], fx['name'], vals_of(fx), pvals_of(fx), 'this' if this else None)
    if fx['kind'] == 'yield':
        out += ['    fv = ' + call, '    yield fv', '    vpmon.fxdown(fv)']
    else:
        out += ['    return ' + call]
    return out + ['']


def func_source(x, kind, indent='', self_arg=False, extra_body=()):
    out = [deco_lines(x, indent), param_lines(x['params'], indent)]
    out = out[1] + out[0] if x.get('dbelow') else out[0] + out[1]
    if x.get('nofix'):
        out.append(indent + '@slash.nofixtures')
    if x.get('extra'):
        for names in x['extra']:
            out.append('{}@slash.use_fixtures({})'.format(indent, 'SHARED' if x.get('shared') and names is x['extra'][-1] else repr(names)))
    out.append('{}def {}({}):'.format(indent, x['name'], args_of(x, self_arg=self_arg)))
    for l in extra_body:
        out.append('{}    {}'.format(indent, l))
    out.append('{}    vpmon.place({!r}, {!r}, {}, {})'.format(indent, kind, x['key'], vals_of(x), pvals_of(x)))
    return out + ([] if self_arg else [''])


def class_source(c):
    out = deco_lines(c, '')
    if c.get('abstract'):
        out.append('@slash.abstract_test_class')
    out.append('class {}({}):'.format(c['name'], ', '.join(c['bases']) or 'slash.Test'))
    n = len(out)
    for which in ('before', 'after'):
        if c.get(which):
            b = dict(c[which], name=which)
            out += func_source(b, which, '    ', True, ['super().{}()'.format(which)] if b.get('super') else ())
    for m in c['methods']:
        out += func_source(m, 'test', '    ', True)
    for l in c.get('noise', ()):
        out.append('    ' + l)
    if len(out) == n:
        out.append('    pass')
    if c.get('skip_all'):
        out += ['', '{}.skip_all({!r})'.format(c['name'], c['skip_all'])]
    return out + ['']


def file_source(f):
    lines = HEADER[:] + list(f.get('noise', ()))
    if f.get('shared'):
        lines.append('SHARED = {!r}'.format(f['shared']))
    for fx in f['fixtures']:
        lines += fixture_source(fx)
    for it in f['items']:
        lines += class_source(it) if it['type'] == 'class' else func_source(it, 'test')
    return '\n'.join(lines + list(f.get('tail', ()))) + '\n'


def write(spec, root):
    for d, fixtures in spec['dirs'].items():
        os.makedirs(os.path.join(root, d), exist_ok=True)
        if fixtures:
            split = [fixtures[0::2], fixtures[1::2]] if d in spec.get('confdirs', ()) else [fixtures]
            for i, part in enumerate(split):
                path = os.path.join(root, d, 'slashconf', 'part{}.py'.format(i)) if len(split) > 1 else os.path.join(root, d, 'slashconf.py')
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'w', encoding='utf-8') as f:
                    lines = HEADER[:]
                    for fx in part:
                        lines += fixture_source(fx)
                    f.write('\n'.join(lines) + '\n')
    for f in spec['files']:
        os.makedirs(os.path.dirname(os.path.join(root, f['path'])), exist_ok=True)
        with open(os.path.join(root, f['path']), 'w', encoding='utf-8') as fh:
            fh.write(file_source(f))
    for path, text in spec.get('other', {}).items():
        os.makedirs(os.path.dirname(os.path.join(root, path)) or '.', exist_ok=True)
        with open(os.path.join(root, path), 'w', encoding='utf-8') as fh:
            fh.write(text)


# --- reference -----------------------------------------------------------------------------------------------------
class Unit(object):

    """One test function, or one method of one concrete class"""

    def __init__(self, path, factory, method, spec, cls, chain):
        self.path, self.factory, self.method, self.spec, self.cls, self.chain = path, factory, method, spec, cls, chain
        self.addr = '{}.{}'.format(factory, method) if method else factory
        self.id = '{}:{}'.format(path, self.addr)


class Ref(object):

    def __init__(self, spec):
        self.spec = spec
        self.files = {f['path']: f for f in spec['files']}
        self.params = {}
        self.fx = {}
        self.site = {}
        for d, fixtures in spec['dirs'].items():
            for fx in fixtures:
                self._add_fx(fx, ('dir', d))
        for f in spec['files']:
            for fx in f['fixtures']:
                self._add_fx(fx, ('file', f['path']))
            for it in f['items']:
                parts = [it] if it['type'] == 'func' else [b for b in (it.get('before'), it.get('after')) if b] + it['methods']
                for part in parts:
                    for p in part['params']:
                        self.params[p['key']] = p
        self._closure = {}

    def _add_fx(self, fx, site):
        self.fx[fx['key']] = fx
        self.site[fx['key']] = site
        for p in fx['params']:
            self.params[p['key']] = p

    # --- names
    @staticmethod
    def chain_of(site):
        """Places where a name is looked up, nearest first"""
        kind, where = site
        out = []
        d = os.path.dirname(where) if kind == 'file' else where
        if kind == 'file':
            out.append(('file', where))
        while True:
            out.append(('dir', d))
            if not d:
                return out
            d = os.path.dirname(d)

    def fixtures_at(self, site):
        kind, where = site
        if kind == 'file':
            return self.files[where]['fixtures']
        return self.spec['dirs'].get(where, ())

    def resolve(self, name, site):
        for s in self.chain_of(site):
            for fx in self.fixtures_at(s):
                if fx['name'] == name:
                    return fx
        return None

    def autouse(self, path):
        return [fx for s in self.chain_of(('file', path)) for fx in self.fixtures_at(s) if fx.get('autouse')]

    def needs(self, fx):
        """(arg, fixture) pairs a fixture requires"""
        return [(a, self.resolve(n, self.site[fx['key']])) for a, n in fx['deps']]

    def closure(self, fx):
        """The fixture and everything it requires, by key"""
        got = self._closure.get(fx['key'])
        if got is None:
            got = {fx['key']: fx}
            for _, sub in self.needs(fx):
                got.update(self.closure(sub))
            self._closure[fx['key']] = got
        return got

    # --- tests
    def classes(self, f):
        return {c['name']: c for c in f['items'] if c['type'] == 'class'}

    def mro(self, f, c):
        """Method resolution order, by letting Python compute it"""
        classes = self.classes(f)
        made = {}

        def make(name):
            if name not in made:
                made[name] = type(name, tuple(make(b) for b in classes[name]['bases']) or (object,), {})
            return made[name]
        return [classes[k.__name__] for k in make(c['name']).__mro__ if k is not object]

    def units_of(self, path):
        f = self.files[path]
        out = []
        for it in sorted(f['items'], key=lambda x: x['name']):
            if it['type'] == 'func':
                if it['name'].startswith('test_'):
                    out.append(Unit(path, it['name'], '', it, None, []))
                continue
            if it.get('abstract'):
                continue
            mro = self.mro(f, it)
            methods = {}
            for c in reversed(mro):
                for m in c['methods']:
                    if m['name'].startswith('test'):
                        methods[m['name']] = m
            for name in sorted(methods):
                out.append(Unit(path, it['name'], name, methods[name], it, mro))
        return out

    def parts(self, unit):
        """[(role, function spec, called directly)] of a unit: the test, and before/after of the whole hierarchy"""
        out = [('test', unit.spec, True)]
        for which in ('before', 'after'):
            first = True
            for c in unit.chain:
                if c.get(which):
                    out.append((which, c[which], first))
                    first = False
        return out

    def roots(self, unit):
        """[(binding prefix, fixture)] a unit starts from"""
        site = ('file', unit.path)
        out = []
        for role, x, _ in self.parts(unit):
            pre = '' if role == 'test' else role + ':'
            for arg, name in x['deps']:
                out.append((pre + arg, self.resolve(name, site)))
            for names in x.get('extra', ()):
                for name in names:
                    out.append((name, self.resolve(name, site)))
        for fx in self.autouse(unit.path):
            out.append(('::' + fx['name'], fx))
        return out

    def used_fixtures(self, unit, autouse=True):
        got = {}
        for prefix, fx in self.roots(unit):
            if autouse or not prefix.startswith('::'):
                got.update(self.closure(fx))
        return got

    def own_params(self, unit):
        return [p for _, x, _ in self.parts(unit) for p in x['params']]

    def needed_params(self, unit):
        keys = {p['key']: p for p in self.own_params(unit)}
        for fx in self.used_fixtures(unit).values():
            keys.update((p['key'], p) for p in fx['params'])
        return keys

    def count(self, unit):
        n = 1
        for p in self.needed_params(unit).values():
            n *= len(p['values'])
        return n

    def bindings(self, unit):
        """Every path by which a parameter of the unit can be named: {name: (param key, index of the name in it)}"""
        out = {}

        def walk(prefix, fx, depth=0):
            for p in fx['params']:
                for i, n in enumerate(p['names'] if fx['kind'] != 'gen' else ['param']):
                    out.setdefault('{}.{}'.format(prefix, n), set()).add((p['key'], i))
            for arg, sub in self.needs(fx):
                walk('{}.{}'.format(prefix, arg), sub, depth + 1)
        for role, x, _ in self.parts(unit):
            pre = '' if role == 'test' else role + ':'
            for p in x['params']:
                for i, n in enumerate(p['names']):
                    out.setdefault(pre + n, set()).add((p['key'], i))
        for prefix, fx in self.roots(unit):
            walk(prefix, fx)
        return out

    def value_reprs(self, p, index):
        """reprs of what a consumer receives for each name of the parameter"""
        v = p['values'][index]
        value = eval(v['src'])  # pylint: disable=eval-used
        return [repr(value)] if len(p['names']) == 1 else [repr(x) for x in value]

    def static_tags(self, unit):
        tags = [tuple(t) for t in unit.spec.get('tags', ())]
        for c in unit.chain:
            tags += [tuple(t) for t in c.get('tags', ())]
        for prefix, fx in self.roots(unit):
            if prefix.startswith('::'):
                continue
            for sub in self.closure(fx).values():
                tags += [tuple(t) for t in sub.get('tags', ())]
        return tags

    def tags(self, unit, indices):
        """Tags of one test, given {param key: value index}"""
        tags = self.static_tags(unit)
        for k, i in indices.items():
            tags += [tuple(t) for t in self.params[k]['values'][i].get('tags', ())]
        return tags

    def select(self, path_arg, root):
        """Units an argument (path or address, relative to root or absolute) selects, or None if it is an error"""
        path, _, addr = path_arg.partition(':')
        rel = os.path.relpath(os.path.join(root, path), root)
        rel = '' if rel == '.' else rel
        if rel in self.files:
            paths = [rel]
        elif os.path.isfile(os.path.join(root, rel)):
            paths = []
        elif os.path.isdir(os.path.join(root, rel)):
            paths = self.walk(rel)
        else:
            return None
        units = [u for p in paths for u in self.units_of(p)]
        if addr:
            units = [u for u in units if addr in (u.factory, u.addr)]
            return units or None
        return units

    def walk(self, d):
        """Test files below a directory: its own ones by name, then those of its subdirectories by name"""
        prefix = d + '/' if d else ''
        below = [p[len(prefix):] for p in self.files if p.startswith(prefix)]
        out = sorted(p for p in below if '/' not in p)
        subs = sorted({p.split('/')[0] for p in below if '/' in p})
        res = [prefix + p for p in out]
        for s in subs:
            if not s.startswith('.'):
                res += self.walk(prefix + s)
        return res
