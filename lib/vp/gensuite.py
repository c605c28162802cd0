"""Random suite generator for engine A. Profiles weight what the suites stress."""

DEFAULT = dict(
    files=(1, 3), tests=(1, 4), classes=0.35, methods=(1, 3), file_fx=(0, 4), conf_fx=(0, 3), wide=0.5, autouse=0.2, fx_params=0.35,
    test_params=0.3, deps=0.55, max_runs=40, p_action=0.35, p_fx_action=0.2, p_td_action=0.15, p_cleanup_action=0.25, p_cleanup=0.4,
    p_hook=0.25, p_interrupt=0.0, p_exit=0.0, p_fatal=0.04, p_stop=0.15, p_cb=0.3, renamed=0.15, extra=0.12, p_inherit=0.3, p_skip=0.12,
    p_hook_session=0.0, p_sig=0.5, p_nested=0.3, p_override=0.25, p_avoid=0.06, p_late=0.0, hook_names=None,
)

TEST_HOOKS = ['test_start', 'test_end', 'before_test_cleanups', 'test_success', 'test_error', 'test_failure', 'test_skip', 'test_avoided']


class Gen:

    def __init__(self, rng, **profile):
        self.r = rng
        self.p = dict(DEFAULT, **profile)
        self.n = 0
        self.actions = {}
        self.cleanups = 0
        self.cb_used = set()

    def chance(self, name):
        return self.r.random() < self.p[name]

    def fresh(self, prefix):
        self.n += 1
        return '{}{:03}'.format(prefix, self.n)

    # --- actions ---------------------------------------------------------------------------------------------
    def raise_kind(self, place):
        r, p = self.r, self.p
        x = r.random()
        if x < p['p_interrupt'] and place != 'noint':
            return r.choice(['kbd', 'term', 'sig', 'sig'])
        if x < p['p_interrupt'] + p['p_exit'] and place in ('test', 'before', 'after', 'cleanup', 'fixture'):
            return 'exit'
        # a skip while tearing down a wide fixture derails the whole run (see the known findings of C04): not generated
        if r.random() < p['p_skip'] and place != 'wide-td':
            return 'skip'
        if r.random() < p['p_fatal']:
            return r.choice(['fatal', 'fatalfail'])
        return r.choice(['error', 'custom', 'runtime', 'fail', 'testfailed', 'error', 'fail'])

    def problem(self, place, ordinary=False):
        """One action that makes something go wrong"""
        r = self.r
        ident = self.fresh('x')
        kind = self.raise_kind(place)
        if ordinary and kind in ('kbd', 'term', 'sig', 'exit', 'skip'):
            kind = 'error'
        if kind == 'sig':
            return ['sig', r.choice(['SIGINT', 'SIGTERM']), ident]
        if kind == 'exit':
            return ['raise', 'exit', '{}:{}'.format(ident, r.choice([0, 2, 3]))]
        return ['raise', kind, ident]

    def add_something(self):
        r = self.r
        ops = ['add_error', 'add_failure', 'add_error_exc', 'add_error', 'add_failure']
        if self.p['p_skip'] and r.random() < self.p['p_skip']:
            ops = ['add_skip']
        if r.random() < self.p['p_fatal']:
            ops = ['add_error_fatal']
        return [r.choice(ops), self.fresh('a')]

    def cleanup_action(self, place, depth=0, scope_ok=True):
        r = self.r
        key = self.fresh('c')
        opts = {}
        x = r.random()
        if x < 0.2:
            opts['critical'] = True
            if r.random() < 0.5:
                opts['via'] = 'critical'
        elif x < 0.35:
            opts['success_only'] = True
        if scope_ok and r.random() < 0.35:
            opts['scope'] = r.choice(['test', 'module', 'session', 'module', 'session'] if place != 'wide' else ['module', 'session'])
        if r.random() < 0.1:
            opts['noargs'] = True
        acts = []
        if depth < 2 and r.random() < 0.2:
            acts.append(self.cleanup_action('wide', depth + 1, scope_ok=False))
        if r.random() < self.p['p_cleanup_action']:
            if r.random() < 0.3:
                acts.append(self.add_something())
            acts.append(self.problem('cleanup'))
        if acts:
            self.actions[key] = acts
        return ['cleanup', key, opts]

    def place_actions(self, place, prob):
        """Actions for a place: a list, each possibly conditional on the execution number"""
        r = self.r
        acts = []
        if self.chance('p_late'):
            # a problem that shows only after the test ended
            k = self.fresh('c')
            self.actions[k] = [['raise', r.choice(['error', 'fail', 'error', 'fatal']), self.fresh('x')]]
            acts.append(['cleanup', k, {'scope': r.choice(['module', 'module', 'session'])}])
        if self.chance('p_cleanup'):
            for _ in range(r.randint(1, 3)):
                acts.append(self.cleanup_action('wide' if place == 'wide' else 'test'))
        if r.random() < prob:
            body = []
            if r.random() < 0.35:
                body.append(self.add_something())
            if r.random() < self.p['p_nested']:
                inner = [self.problem(place, ordinary=r.random() < 0.7)]
                op = r.choice(['try', 'handle', 'handle', 'swallow'])
                if op == 'try':
                    body.append(['try', inner])
                elif op == 'handle':
                    body.append(['handle', r.random() < 0.5, inner])
                else:
                    body.append(['swallow', [self.problem(place, ordinary=True)]])
                body.append(['ev', self.fresh('m')])
            if r.random() < 0.75:
                p = self.problem(place)
                if r.random() < 0.2:
                    p = ['try', [['handle', False, [p]]]]
                body.append(p)
            if r.random() < 0.4:
                body = [['nth', sorted(r.sample(range(1, 5), r.randint(1, 2))), body]]
            pos = r.randint(0, len(acts))
            acts[pos:pos] = body
        return acts

    # --- structure -------------------------------------------------------------------------------------------
    def gen_fixture(self, visible, conf, taken):
        r = self.r
        key = self.fresh('F')
        scope = r.choice(['module', 'session', 'session' if conf else 'module']) if self.chance('wide') else 'test'
        name = self.fresh('fx')
        autouse = self.chance('autouse')
        if not conf and not autouse and self.chance('p_override') and taken:
            name = r.choice(taken)
            taken.remove(name)
        order = {'test': 0, 'module': 1, 'session': 2}
        cands = [f for f in visible if order[f['scope']] >= order[scope] and f['name'] != name]
        deps = []
        for f in r.sample(cands, min(len(cands), r.choice([0, 1, 1, 2]))):
            arg = f['name'] if not self.chance('renamed') else self.fresh('ren')
            deps.append([arg, f['name']])
        fx = {'key': key, 'name': name, 'scope': scope, 'kind': r.choice(['this', 'this', 'yield', 'plain']), 'autouse': autouse,
              'params': [], 'deps': deps, 'named': r.random() < 0.15}
        if self.chance('fx_params'):
            fx['params'] = [[self.fresh('p'), r.choice([2, 2, 3])]]
        place = 'test' if scope == 'test' else 'wide'
        acts = self.place_actions('fixture' if scope == 'test' else 'wide', self.p['p_fx_action'])
        if fx['kind'] == 'this' and self.chance('p_cb'):
            for _ in range(r.randint(1, 2)):
                op = r.choice(['fcleanup', 'fcleanup', 'tstart', 'tend'])
                if op in self.cb_used:
                    op = 'fcleanup'
                k = self.fresh('k')
                if op != 'fcleanup':
                    self.cb_used.add(op)
                    if r.random() < 0.3:
                        self.actions[k] = [['nth', [r.randint(1, 3)], [self.problem('noint')]]]
                elif self.chance('p_td_action'):
                    self.actions[k] = [self.problem('fixture' if scope == 'test' else 'wide-td')]
                acts.insert(r.randint(0, len(acts)), [op, k])
        if acts:
            self.actions[key] = acts
        if fx['kind'] != 'plain' and self.chance('p_td_action'):
            td = []
            if r.random() < 0.4:
                td.append(self.cleanup_action('wide', scope_ok=False))
            if r.random() < 0.8:
                td.append(self.problem('noexit' if scope == 'test' else 'wide-td'))
            self.actions[key + '/td'] = [['nth', sorted(r.sample(range(1, 4), 2)), td]] if r.random() < 0.4 else td
        return fx

    def callable_spec(self, visible, which):
        r = self.r
        deps, params = [], []
        if visible and self.chance('deps'):
            for f in r.sample(visible, min(len(visible), r.choice([1, 1, 2, 3]))):
                arg = f['name'] if not self.chance('renamed') else self.fresh('ren')
                deps.append([arg, f['name']])
        if self.chance('test_params'):
            params = [[self.fresh('q'), r.choice([1, 2, 2, 3])] for _ in range(r.choice([1, 1, 2]))]
        out = {'params': params, 'deps': deps}
        if which in ('test', 'method') and self.chance('p_avoid'):
            out['avoid'] = self.fresh(r.choice(['skip', 'req'])) + '@0'
        if which == 'test':
            rest = [f for f in visible if f['name'] not in [d[1] for d in deps]]
            if rest and self.chance('extra'):
                out['extra'] = [r.choice(rest)['name']]
        return out

    def gen_test(self, visible, prev_classes):
        r = self.r
        if self.chance('classes'):
            key = self.fresh('C')
            base = None
            if prev_classes and self.chance('p_inherit'):
                base = r.choice(prev_classes)
            t = {'type': 'class', 'key': key, 'name': 'Test' + key, 'methods': [], 'base': base}
            for which in ('before', 'after'):
                t[which] = None
                # parametrized before methods overridden in derived classes still multiply the tests: avoid that overlap
                if r.random() < 0.45 and base is None:
                    t[which] = self.callable_spec(visible, which)
                    acts = self.place_actions(which, self.p['p_action'] * 0.6)
                    if acts:
                        self.actions['{}.{}'.format(key, which)] = acts
            for _ in range(r.randint(*self.p['methods'])):
                mk = self.fresh('T')
                m = dict(self.callable_spec(visible, 'method'), key=mk, name='test_' + mk)
                acts = self.place_actions('test', self.p['p_action'])
                if acts:
                    self.actions[mk] = acts
                t['methods'].append(m)
            return t
        key = self.fresh('T')
        t = dict(self.callable_spec(visible, 'test'), type='func', key=key, name='test_' + key)
        acts = self.place_actions('test', self.p['p_action'])
        if acts:
            self.actions[key] = acts
        return t

    def suite(self):
        r, p = self.r, self.p
        conf = []
        for _ in range(r.randint(*p['conf_fx'])):
            conf.append(self.gen_fixture(conf, True, []))
        files = []
        for i in range(r.randint(*p['files'])):
            taken = [f['name'] for f in conf if not f['autouse']]
            fxs = []
            for _ in range(r.randint(*p['file_fx'])):
                own = {f['name'] for f in fxs}
                vis = fxs + [f for f in conf if f['name'] not in own]
                fx = self.gen_fixture(vis, False, taken)
                # an override must not be narrower than what depends on the name it overrides: those keep the original
                fxs.append(fx)
            own = {f['name'] for f in fxs}
            visible = fxs + [f for f in conf if f['name'] not in own]
            tests = []
            classes = []
            for _ in range(r.randint(*p['tests'])):
                t = self.gen_test(visible, classes)
                if t['type'] == 'class':
                    classes.append(t['name'])
                tests.append(t)
            # a later override changes what earlier fixtures of the module resolve to; drop clashes
            files.append({'name': 'test_{}{}.py'.format(chr(97 + i), self.fresh('f')), 'fixtures': fxs, 'tests': tests})
        hooks = {}
        if self.chance('p_hook'):
            for name in (self.p['hook_names'] or r.sample(TEST_HOOKS, r.choice([1, 1, 2]))):
                acts = []
                if r.random() < 0.3 and (name not in ('test_end',) or self.p.get('p_session_cleanups')):
                    acts.append(self.cleanup_action('wide', scope_ok=False))
                kind = r.random()
                if kind < 0.7:
                    acts.append(self.problem('hook'))
                else:
                    acts.append(self.add_something())
                hooks[name] = [[['nth', sorted(r.sample(range(1, 6 if name != 'test_avoided' else 3), 2)), acts]]]
        if self.chance('p_hook_session'):
            name = r.choice(['before_session_start', 'session_start', 'after_session_start', 'before_session_cleanup', 'session_end', 'after_session_end'])
            hooks[name] = [[self.problem('hook')]]
        if self.p.get('p_session_cleanups') and self.chance('p_session_cleanups'):
            for name in r.sample(['tests_loaded', 'before_session_start', 'session_start', 'after_session_start', 'before_session_cleanup'], r.choice([1, 2])):
                hooks.setdefault(name, []).insert(0, [self.cleanup_action('wide', scope_ok=False) for _ in range(r.randint(1, 3))])
        argv = ['-x'] if self.chance('p_stop') else []
        return {'conf': conf, 'files': files, 'actions': self.actions, 'hooks': hooks, 'argv': argv}


def clash(spec):
    """A fixture of a file overriding a conf name must be defined before those of the file that use the name, and its scope must be
    wide enough for them. Rejects others, and suites with too many runs."""
    order = {'test': 0, 'module': 1, 'session': 2}
    for fl in spec['files']:
        seen = {}
        for f in fl['fixtures']:
            seen[f['name']] = f
        for f in fl['fixtures']:
            for _, name in f['deps']:
                if name in seen and (order[seen[name]['scope']] < order[f['scope']] or
                                     fl['fixtures'].index(seen[name]) > fl['fixtures'].index(f)):
                    return True
    return False


def estimate(spec):
    from vp.model import Model
    m = Model(spec, [])
    total = 0
    for fl in spec['files']:
        for t in fl['tests']:
            names = [''] if t['type'] == 'func' else sorted(m.class_parts(fl, t)['methods'])
            for name in names:
                prod = 1
                for n in m.all_params({'file': fl['name'], 'factory': t['name'], 'method': name}).values():
                    prod *= n
                total += prod
    return total


def gen_suite(rng, **profile):
    while True:
        g = Gen(rng, **profile)
        spec = g.suite()
        if clash(spec):
            continue
        if not 1 <= estimate(spec) <= g.p['max_runs']:
            continue
        return spec


def shrink_suite(spec):
    """Smaller variants of a spec"""
    import copy
    for i in range(len(spec['files'])):
        if len(spec['files']) > 1:
            c = copy.deepcopy(spec)
            del c['files'][i]
            yield c
    for i, fl in enumerate(spec['files']):
        for j, t in enumerate(fl['tests']):
            if len(fl['tests']) > 1 and not any(x.get('base') == t['name'] for x in fl['tests']):
                c = copy.deepcopy(spec)
                del c['files'][i]['tests'][j]
                yield c
            for k in range(len(t.get('methods', ()))):
                if len(t['methods']) > 1:
                    c = copy.deepcopy(spec)
                    del c['files'][i]['tests'][j]['methods'][k]
                    yield c
            for which in ('before', 'after'):
                if t.get(which):
                    c = copy.deepcopy(spec)
                    c['files'][i]['tests'][j][which] = None
                    yield c

    def callables(s):
        for fl in s['files']:
            for t in fl['tests']:
                if t['type'] == 'func':
                    yield t
                else:
                    for m in t['methods']:
                        yield m
                    for w in ('before', 'after'):
                        if t.get(w):
                            yield t[w]

    def fixtures(s):
        for f in s['conf']:
            yield f
        for fl in s['files']:
            for f in fl['fixtures']:
                yield f
    n = len(list(callables(spec))) + len(list(fixtures(spec)))
    for i in range(n):
        for field in ('params', 'deps', 'extra'):
            things = list(callables(spec)) + list(fixtures(spec))
            if things[i].get(field):
                for k in range(len(things[i][field])):
                    c = copy.deepcopy(spec)
                    del (list(callables(c)) + list(fixtures(c)))[i][field][k]
                    yield c
    used = {d[1] for x in list(callables(spec)) + list(fixtures(spec)) for d in x['deps']} | {e for x in callables(spec) for e in x.get('extra', ())}
    for i, f in enumerate(spec['conf']):
        if f['name'] not in used:
            c = copy.deepcopy(spec)
            del c['conf'][i]
            yield c
    for j, fl in enumerate(spec['files']):
        for i, f in enumerate(fl['fixtures']):
            if f['name'] not in used:
                c = copy.deepcopy(spec)
                del c['files'][j]['fixtures'][i]
                yield c
            elif f['autouse']:
                c = copy.deepcopy(spec)
                c['files'][j]['fixtures'][i]['autouse'] = False
                yield c
    for k in list(spec['hooks']):
        c = copy.deepcopy(spec)
        del c['hooks'][k]
        yield c
    for k in list(spec['actions']):
        c = copy.deepcopy(spec)
        del c['actions'][k]
        yield c
        for i, a in enumerate(spec['actions'][k]):
            c = copy.deepcopy(spec)
            del c['actions'][k][i]
            yield c
            if a[0] == 'nth':
                c = copy.deepcopy(spec)
                c['actions'][k][i:i + 1] = a[2]
                yield c
    if spec['argv']:
        yield dict(spec, argv=[])
    for i in range(n):
        things = list(callables(spec))
        if i < len(things) and things[i].get('avoid'):
            c = copy.deepcopy(spec)
            del list(callables(c))[i]['avoid']
            yield c
