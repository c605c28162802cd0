"""Reference interpreter: predicts, from the suite specification and the list of loaded tests, the exact sequence of events,
the results, totals and exit code the documented semantics of slash call for. Shares no code with slash."""

FAIL = ('fail', 'testfailed', 'fatalfail')
INTERRUPT = ('kbd', 'term', 'sigSIGINT', 'sigSIGTERM')


class MExc(BaseException):

    def __init__(self, kind, ident):
        super().__init__(kind, ident)
        self.kind, self.ident = kind, ident
        self.handled = self.added = False

    @property
    def interrupt(self):
        return self.kind in INTERRUPT

    @property
    def skip(self):
        return self.kind == 'skip'

    @property
    def ordinary(self):
        """Derived from Exception"""
        return not self.interrupt and self.kind != 'exit'


class Res:

    def __init__(self, idx):
        self.idx = idx
        self.errors, self.failures, self.skips = [], [], []
        self.started = self.finished = self.interrupted = self.fatal = False

    def is_success(self, allow_skips=False):
        if self.errors or self.failures or self.interrupted:
            return False
        if self.skips:
            return allow_skips
        return self.started


class Active:

    def __init__(self, fx, fv, deps):
        self.fx, self.fv, self.deps = fx, fv, deps
        self.cleanups = []
        self.tstart, self.tend = [], []
        self.start_called = False


class Cleanup:

    def __init__(self, key, serial, opts, res):
        self.key, self.serial, self.opts, self.res = key, serial, opts, res


SCOPES = ['test', 'module', 'session']


class Model:

    def __init__(self, spec, tests, quirks=()):
        self.spec = spec
        self.quirks = quirks
        self.tests = tests          # observed: [{file, factory, method, values}]
        self.events = []
        self.counts, self.serials = {}, {}
        self.results = {}           # index -> Res
        self.result_order = []
        self.glob = Res('G')
        self.actions = spec.get('actions', {})
        self.hooks = spec.get('hooks', {}) or {}
        # context
        self.test = self.res = self.fixture = self.phase = None
        self.in_session = False
        self.stack = []             # [(name, [Cleanup])]
        self.pending = []
        self.scopes = []            # scope manager stack
        self.default_scope = None
        self.implicit_ok = True
        self.active = {s: {} for s in SCOPES}
        self.scope_order = []
        self.last_module = None
        self.params = {}            # (owner key, param) -> value of the current variation
        self.indices = iter(range(10 ** 6))
        self.index_of = {}
        self.exit_code = 0
        self.complete = False
        self.stop_on_error = '-x' in spec.get('argv', ())
        self._index_spec()

    # --- specification lookups -----------------------------------------------------------------------------------
    def _index_spec(self):
        self.conf = {f['name']: f for f in self.spec.get('conf') or []}
        self.files = {f['name']: f for f in self.spec['files']}
        self.ns = {n: dict(self.conf, **{f['name']: f for f in fl['fixtures']}) for n, fl in self.files.items()}
        self.owner_ns = {}
        for f in self.conf.values():
            self.owner_ns[f['key']] = self.conf
        for n, fl in self.files.items():
            for f in fl['fixtures']:
                self.owner_ns[f['key']] = self.ns[n]

    def resolve_dep(self, fx, name):
        """The fixture a dependency name of a fixture refers to (an overriding fixture sees the one it overrides)"""
        found = self.owner_ns[fx['key']].get(name)
        if found is fx:
            return self.conf[name]
        return found

    def spec_of(self, t):
        fl = self.files[t['file']]
        for s in fl['tests']:
            if s['name'] == t['factory']:
                return fl, s
        raise KeyError(t)

    def class_parts(self, fl, cls):
        """before, after and methods of a class including inherited ones"""
        chain = [cls]
        while chain[-1].get('base'):
            chain.append(next(s for s in fl['tests'] if s['name'] == chain[-1]['base']))
        parts = {'before': None, 'after': None, 'methods': {}}
        for c in chain:
            for which in ('before', 'after'):
                if parts[which] is None and c.get(which):
                    parts[which] = dict(c[which], key=c['key'] + '.' + which)
            for m in c['methods']:
                parts['methods'].setdefault(m['name'], m)
        return parts

    def roots(self, t):
        """[(binding prefix, kind, object)] of everything a test depends on"""
        fl, s = self.spec_of(t)
        ns = self.ns[t['file']]
        out = []
        if s['type'] == 'func':
            funcs = [('', s)]
        else:
            parts = self.class_parts(fl, s)
            funcs = [(w + ':', parts[w]) for w in ('before', 'after') if parts[w]] + [('', parts['methods'][t['method']])]
        for prefix, f in funcs:
            for p, n in f['params']:
                out.append((prefix + p, (f['key'], p, n)))
            for arg, name in f['deps']:
                out.append((prefix + arg, ns[name]))
            for name in f.get('extra', ()):
                out.append((name, ns[name]))
        for fx in self.autouse(t['file']):
            out.append(('::' + fx['name'], fx))
        return out

    def autouse(self, filename):
        return ([f for f in self.files[filename]['fixtures'] if f.get('autouse')] +
                [f for f in self.spec.get('conf') or [] if f.get('autouse')])

    def bind(self, t):
        """Maps every parameter the test depends on to the value reported by the variation of the test"""
        paths = {}

        def walk(prefix, obj):
            if isinstance(obj, tuple):
                paths[prefix] = (obj[0], obj[1])
                return
            for p, _ in obj['params']:
                paths[prefix + '.' + p] = (obj['key'], p)
            for arg, name in obj['deps']:
                walk(prefix + '.' + arg, self.resolve_dep(obj, name))
        for prefix, obj in self.roots(t):
            walk(prefix, obj)
        out = {}
        for name, value in t['values'].items():
            if name in paths:
                out[paths[name]] = value
        return out

    def all_params(self, t):
        """{(owner, param): number of values} of everything a test depends on"""
        out = {}

        def walk(obj):
            if isinstance(obj, tuple):
                out[obj[0], obj[1]] = obj[2]
                return
            for p, n in obj['params']:
                out[obj['key'], p] = n
            for _, name in obj['deps']:
                walk(self.resolve_dep(obj, name))
        for _, obj in self.roots(t):
            walk(obj)
        return out

    def fx_params(self, fx):
        out = {(fx['key'], p) for p, _ in fx['params']}
        for _, name in fx['deps']:
            out |= self.fx_params(self.resolve_dep(fx, name))
        return out

    # --- events ---------------------------------------------------------------------------------------------------
    def snapshot(self):
        t = self.test
        d = {'T': t, 'TID': t, 'R': self.res.idx if self.res is not None else None, 'FX': self.fixture, 'PH': self.phase,
             'SC': self.scopes[-1] if self.scopes else None, 'S': self.in_session}
        if t is not None:
            o = self.tests[t]
            d['CM'] = (None, o['factory']) if not o['method'] else (o['factory'], o['method'])
            d['IDX'] = self.index_of[t]
        return d

    def ev(self, k, **kw):
        kw['k'] = k
        kw['c'] = self.snapshot()
        self.events.append(kw)

    def count(self, key):
        self.counts[key] = self.counts.get(key, 0) + 1
        return self.counts[key]

    def serial(self, name):
        self.serials[name] = self.serials.get(name, 0) + 1
        return self.serials[name]

    def fire(self, name, **extra):
        self.ev('hook', key=name, **extra)
        if name in self.hooks:
            first = None
            for j, actions in enumerate(self.hooks[name]):
                key = 'hook:{}:{}'.format(name, j)
                n = self.count(key)
                try:
                    self.do(actions, key, n, {})
                except MExc as e:
                    if not e.ordinary:
                        raise
                    first = first or e
            self.ev('hook2', key=name, **extra)
            if first is not None:
                raise first

    # --- recording and handling -----------------------------------------------------------------------------------
    def add_entry(self, res, failure, ident, fatal=False):
        (res.failures if failure else res.errors).append(ident)
        if fatal:
            res.fatal = True
        self.fire('error_added', msg=ident, fail=failure, res=res.idx)

    def record(self, res, exc):
        if exc.added:
            return
        exc.added = True
        fatal = exc.kind.startswith('fatal')
        if exc.kind in FAIL:
            self.add_entry(res, True, exc.ident, fatal)
        elif exc.skip:
            res.skips.append(exc.ident)
        elif exc.interrupt:
            self.fire('interruption_added', res=res.idx)
            was = res.interrupted
            if res is not self.glob:
                res.interrupted = True
                if not was:
                    self.handling(lambda: self.fire('test_interrupt'))
            self.glob.interrupted = True
        else:
            self.add_entry(res, False, exc.ident, fatal)

    def current(self):
        return self.results[self.test] if self.test is not None else self.glob

    def handle(self, exc):
        if not exc.handled:
            exc.handled = True
            self.record(self.current(), exc)

    def handling(self, func, swallow=True):
        """Runs func in a handling context; returns False if an exception was swallowed"""
        try:
            func()
            return True
        except MExc as e:
            self.handle(e)
            if e.skip or e.interrupt or not swallow or not e.ordinary:
                raise
            return False

    # --- actions --------------------------------------------------------------------------------------------------
    def do(self, actions, key, n, env):
        for a in actions:
            op = a[0]
            if op == 'nth':
                if n in a[1]:
                    self.do(a[2], key, n, env)
            elif op == 'ev':
                self.ev('mark', key=a[1])
            elif op == 'raise':
                ident = '{}@{}'.format(a[2], n)
                self.ev('raise', key=ident, what=a[1])
                raise MExc(a[1], ident if a[1] != 'exit' else 'exit:' + a[2].split(':')[1])
            elif op == 'sig':
                self.ev('raise', key='{}@{}'.format(a[2], n), what='sig' + a[1])
                e = MExc('sig' + a[1], '')
                if a[1] == 'SIGTERM':
                    self.handle(e)
                raise e
            elif op in ('add_error', 'add_error_exc'):
                self.add_entry(self.current_res(), False, '{}@{}'.format(a[1], n))
            elif op == 'add_failure':
                self.add_entry(self.current_res(), True, '{}@{}'.format(a[1], n))
            elif op == 'add_error_fatal':
                self.add_entry(self.current_res(), False, '{}@{}'.format(a[1], n), True)
            elif op == 'add_skip':
                self.res.skips.append('{}@{}'.format(a[1], n))
            elif op == 'cleanup':
                self.add_cleanup(a[1], a[2])
            elif op == 'fcleanup':
                act = env['active']
                s = self.serial('fcleanup')
                self.ev('freg', key=a[1], serial=s, fv=act.fv)
                act.cleanups.append(('fcleanup', a[1], s))
            elif op in ('tstart', 'tend'):
                act = env['active']
                (act.tstart if op == 'tstart' else act.tend).append(a[1])
            elif op == 'try':
                try:
                    self.do(a[1], key, n, env)
                except MExc as e:
                    if not e.ordinary:
                        raise
                    self.ev('caught', key=e.ident)
            elif op == 'swallow':
                try:
                    self.do(a[1], key, n, env)
                except MExc:
                    pass
            elif op == 'handle':
                self.handling(lambda: self.do(a[2], key, n, env), swallow=a[1])
            elif op in ('detail', 'fact', 'append', 'gset'):
                pass
            else:
                raise NotImplementedError(op)

    def current_res(self):
        return self.res

    # --- cleanups -------------------------------------------------------------------------------------------------
    def add_cleanup(self, key, opts):
        s = self.serial('cleanup')
        self.ev('reg', key=key, serial=s)
        c = Cleanup(key, s, opts, self.res)
        name = opts.get('scope') or self.default_scope
        if name is None:
            if not self.implicit_ok:
                raise MExc('error', 'IMPLICIT')
            target = self.stack[-1][1] if self.stack else self.pending
        else:
            target = next((cl for nm, cl in reversed(self.stack) if nm == name), None)
            if target is None:
                raise MExc('error', 'NOSCOPE')
        target.append(c)

    def push_scope(self, name):
        self.stack.append((name, self.pending))
        self.pending = []

    def pop_cleanups(self, name):
        failed = not (self.overall(True) if self.res is self.glob else self.res.is_success(True))
        interrupted = self.res.interrupted
        assert self.stack[-1][0] == name
        escaped = None
        if name == 'test':
            try:
                self.handling(lambda: self.fire('before_test_cleanups'), swallow=False)
            except MExc as e:
                escaped = e
                interrupted = interrupted or e.interrupt
        cleanups = self.stack[-1][1]
        while cleanups:
            c = cleanups.pop()
            if interrupted and not c.opts.get('critical'):
                continue
            if (failed or interrupted) and c.opts.get('success_only'):
                continue
            prev, self.phase = self.phase, name
            try:
                self.handling(lambda: self.call_cleanup(c))
            except MExc as e:
                if not e.skip:
                    if escaped is None or escaped.ordinary:
                        escaped = e
                    interrupted = interrupted or e.interrupt
            finally:
                self.phase = prev
        self.stack.pop()
        if escaped is not None:
            raise escaped

    def call_cleanup(self, c):
        n = self.count(c.key)
        args = {} if c.opts.get('noargs') else {'args': [c.serial], 'kwargs': {'tag': c.key}}
        self.ev('cleanup', key=c.key, serial=c.serial, args=args.get('args', []), kwargs=args.get('kwargs', {}), n=n)
        try:
            self.do(self.actions.get(c.key, ()), c.key, n, {})
        except MExc as e:
            if e.ordinary:
                self.record(c.res, e)
            raise

    # --- fixtures -------------------------------------------------------------------------------------------------
    def dep_indices(self, fx):
        return {p: self.params[p] for p in self.fx_params(fx)}

    def depends(self, fx, on):
        return any(self.resolve_dep(fx, n)['key'] == on['key'] or self.depends(self.resolve_dep(fx, n), on) for _, n in fx['deps'])

    def value_of(self, fx):
        if fx['scope'] not in self.scope_order:
            self.scope_order.append(fx['scope'])
        act = self.active[fx['scope']].get(fx['key'])
        if act is not None:
            if act.deps == self.dep_indices(fx):
                return act.fv
            if 'recompute-order' not in self.quirks:
                for s in SCOPES:
                    for other in reversed(list(self.active[s].values())):
                        if self.depends(other.fx, fx):
                            self.teardown(other)
            self.teardown(act)
        vals = {}
        for arg, name in fx['deps']:
            vals[arg] = self.value_of(self.resolve_dep(fx, name))
        for p, _ in fx['params']:
            vals[p] = repr(self.params[fx['key'], p])
        n = self.count(fx['key'])
        fv = '{}#{}'.format(fx['name'], self.serial('fixture'))
        act = Active(fx, fv, self.dep_indices(fx))
        self.active[fx['scope']][fx['key']] = act
        prev, self.fixture = self.fixture, fx['name']
        prev_scope, self.default_scope = self.default_scope, fx['scope']
        try:
            self.ev('fsetup', key=fx['key'], fv=fv, n=n, v=dict(sorted(vals.items())))
            if fx['kind'] == 'this':
                act.cleanups.append(('fteardown', fx['key'], None))
            self.do(self.actions.get(fx['key'], ()), fx['key'], n, {'active': act})
            if fx['kind'] == 'yield':
                act.cleanups.append(('fteardown', fx['key'], None))
        except MExc:
            self.fixture, self.default_scope = prev, prev_scope
            self.teardown(act)
            raise
        finally:
            self.fixture, self.default_scope = prev, prev_scope
        return fv

    def teardown(self, act):
        if self.active[act.fx['scope']].pop(act.fx['key'], None) is None:
            return
        while act.cleanups:
            kind, key, s = act.cleanups.pop()
            if 'fixture-cleanup-failure' in self.quirks:
                self.fixture_cleanup(act, kind, key, s)
                continue
            try:
                self.handling(lambda: self.fixture_cleanup(act, kind, key, s))
            except MExc as e:
                if not e.skip:
                    raise

    def fixture_cleanup(self, act, kind, key, s):
        if kind == 'fteardown':
            key += '/td'
            n = self.count(key)
            self.ev('fteardown', key=act.fx['key'], fv=act.fv, n=n)
        else:
            n = self.count(key)
            self.ev('fcleanup', key=key, serial=s, fv=act.fv, n=n)
        self.do(self.actions.get(key, ()), key, n, {})

    def pop_fixtures(self, scope):
        if self.res is not None and self.res.interrupted:
            return
        for s in self.scope_order:
            if SCOPES.index(s) > SCOPES.index(scope):
                continue
            for act in reversed(list(self.active[s].values())):
                self.handling(lambda: self.teardown(act))

    def call_with_fixtures(self, f, kind, ns, trigger_start=False, trigger_end=False):
        vals = {}
        for arg, name in f['deps']:
            vals[arg] = self.value_of(ns[name])
        for name in f.get('extra', ()):
            self.value_of(ns[name])
        for p, _ in f['params']:
            vals[p] = repr(self.params[f['key'], p])
        try:
            if trigger_start:
                for act in [a for s in SCOPES for a in self.active[s].values()]:
                    if act.start_called:
                        continue
                    act.start_called = True
                    self.handling(lambda: [self.callback(act, 'ftest_start', k) for k in act.tstart], swallow=False)
            n = self.count(f['key'])
            self.ev(kind, key=f['key'], n=n, v=dict(sorted(vals.items())))
            self.do(self.actions.get(f['key'], ()), f['key'], n, {})
        finally:
            if trigger_end:
                for act in [a for s in SCOPES for a in self.active[s].values()]:
                    act.start_called = False
                    self.handling(lambda: self.handling(lambda: [self.callback(act, 'ftest_end', k) for k in act.tend], swallow=False))

    def callback(self, act, kind, key):
        n = self.count(key)
        self.ev(kind, key=key, fv=act.fv, n=n)
        self.do(self.actions.get(key, ()), key, n, {})

    # --- running --------------------------------------------------------------------------------------------------
    def run_body(self, t):
        o = self.tests[t]
        fl, s = self.spec_of(o)
        ns = self.ns[o['file']]
        self.params = self.bind(o)
        for fx in self.autouse(o['file']):
            self.value_of(fx)
        if s['type'] == 'func':
            self.call_with_fixtures(s, 'test', ns, True, True)
            return
        parts = self.class_parts(fl, s)
        empty = {'deps': [], 'params': []}
        if parts['before']:
            self.call_with_fixtures(parts['before'], 'before', ns)
        try:
            self.handling(lambda: self.call_with_fixtures(parts['methods'][o['method']], 'test', ns, True), swallow=False)
        finally:
            if parts['after']:
                self.handling(lambda: self.call_with_fixtures(parts['after'], 'after', ns, False, True), swallow=False)
            else:
                self.handling(lambda: self.silent_after(), swallow=False)

    def silent_after(self):
        for act in [a for s in SCOPES for a in self.active[s].values()]:
            act.start_called = False
            self.handling(lambda: self.handling(lambda: [self.callback(act, 'ftest_end', k) for k in act.tend], swallow=False))

    def open_scope(self, name):
        self.scopes.append(name)
        self.push_scope(name)

    def close_scope(self, name):
        assert self.scopes.pop() == name
        first = None
        for f in (self.pop_cleanups, self.pop_fixtures):
            try:
                f(name)
            except MExc as e:
                first = first or e
        if first is not None:
            raise first

    def session_cleanup(self):
        if not self.scopes:
            return
        try:
            self.handling(lambda: self.fire('before_session_cleanup'))
        finally:
            self.handling(self.flush)

    def flush(self):
        first = None
        for s in self.scopes[::-1]:
            try:
                self.close_scope(s)
            except MExc as e:
                first = first or e
        if first is not None:
            raise first

    def begin_test(self, t):
        module = self.tests[t]['file']
        if self.last_module is None:
            self.open_scope('session')
        if self.last_module != module:
            if self.last_module is not None:
                self.close_scope('module')
            self.open_scope('module')
        self.last_module = module
        self.open_scope('test')

    def outcome(self, r):
        if r.failures and not r.errors:
            return 'test_failure', {}
        if r.skips:
            return 'test_skip', {'reason': r.skips[0]}
        if r.is_success():
            return 'test_success', {}
        return 'test_error', {}

    def run_single(self, t, last):
        self.test = t
        r = self.results[t] = Res(t)
        self.result_order.append(t)
        prev_res, self.res = self.res, r
        try:
            avoid = self.avoided(t)
            if avoid:
                self.handling(lambda: self.avoid(r, avoid))
            else:
                self.handling(lambda: self.run_started(t, r, prev_res, last))
        finally:
            self.res = prev_res
            self.test = None

    def avoided(self, t):
        o = self.tests[t]
        fl, s = self.spec_of(o)
        f = s if s['type'] == 'func' else self.class_parts(fl, s)['methods'][o['method']]
        reason = f.get('avoid')
        return reason and (reason if reason.startswith('skip') else 'Unmet requirement: ' + reason)

    def avoid(self, r, reason):
        r.skips.append(reason[reason.rfind(' ') + 1:])
        self.fire('test_avoided', reason=reason)

    def run_started(self, t, r, prev_res, last):
        r.started = True
        state = {'started': False}

        def end():
            if state['started']:
                state['started'] = False
                try:
                    prev, self.implicit_ok = self.implicit_ok, False
                    try:
                        self.fire('test_end')
                        r.finished = True
                    finally:
                        self.implicit_ok = prev
                finally:
                    self.res = prev_res

        def inner():
            self.begin_test(t)
            try:
                state['started'] = True
                self.fire('test_start')
                self.handling(lambda: self.run_body(t))
            finally:
                self.close_scope('test')
        try:
            try:
                try:
                    self.handling(inner)
                except MExc as e:
                    if not e.skip:
                        raise

                def summary():
                    name, extra = self.outcome(r)
                    self.fire(name, **extra)
                self.handling(summary, swallow=False)
                if last:
                    end()
                    self.handling(self.session_cleanup)
            except MExc as e:
                if not e.skip:
                    raise
        finally:
            end()

    def run_tests(self):
        order = list(range(len(self.tests)))
        i = 0
        stopped = False
        try:
            while i < len(order):
                t = order[i]
                i += 1
                self.index_of[t] = next(self.indices)
                self.run_single(t, i == len(order))
                if self.results[t].fatal:
                    stopped = True
                    break
                if self.stop_on_error and not self.overall(True):
                    stopped = True
                    break
            self.complete = not stopped
        except BaseException:
            self.complete = False
            raise
        finally:
            self.session_cleanup()
        for t in order[i:]:
            self.results[t] = Res(t)
            self.result_order.append(t)
        self.complete = not stopped

    def overall(self, allow_skips):
        return self.glob.is_success(allow_skips) and all(r.is_success(allow_skips) for r in self.results.values())

    def run(self):
        """Predicts the whole run"""
        self.in_session = True
        self.res = self.glob
        self.glob.started = True
        try:
            self.handling(lambda: self.fire('tests_loaded', num=len(self.tests)), swallow=False)
            self.handling(self.run_session, swallow=False)
        except MExc as e:
            self.exit_code = 1
            if e.kind == 'exit':
                self.exit_code = int(e.ident.split(':')[1])
            if self.exit_code == 0 and not self.overall(True):
                self.exit_code = 1
            self.escaped = e
        else:
            self.exit_code = 0 if self.overall(True) else 1
            self.escaped = None
        return self

    def run_session(self):
        self.push_scope('session-global')
        started = False

        def start():
            nonlocal started
            self.fire('before_session_start')
            self.fire('session_start')
            started = True
            self.fire('after_session_start')
        try:
            try:
                self.handling(start, swallow=False)
                self.run_tests()
            except MExc as e:
                if e.interrupt:
                    self.fire('session_interrupt')
                raise
        finally:
            steps = [lambda: self.pop_cleanups('session-global')]
            if started:
                steps += [lambda: self.fire('session_end'), lambda: self.fire('after_session_end')]
            first = None
            for step in steps:
                try:
                    self.handling(step, swallow=False)
                except MExc as e:
                    first = first or e
            if first is not None:
                raise first
