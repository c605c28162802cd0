import ast
import collections
import json
import os
import sys

from vp import plugkit, suite
from vp.core import REPO, VERIF, Check, Violation

SLASH = ['test_start', 'test_end', 'error_added', 'before_test_cleanups', 'test_success', 'tests_loaded', 'entering_debugger']
CUSTOM = ['vpx.one', 'vpx.two', 'vpy.sub.three', 'vpz']
RUN_HOOKS = ['session_start', 'session_end', 'test_start', 'test_end', 'test_success']
MODES = ['enabled', 'parent-only', 'child-only', 'disabled']


def gen_plugins(rng, n, hooks=SLASH, custom=CUSTOM, p_dep=0.5, p_fail=0.15, p_unknown=0.1, p_base=0.2, p_same=0.15, p_session=0.3, dag=False):
    keys = ['k{}'.format(i) for i in range(rng.choice([2, 3, 5]))]
    rank = {}
    out = []

    def deps(level):
        d = {'needs': [], 'provides': []}
        if rng.random() < p_dep:
            for which in d:
                if rng.random() < 0.5:
                    ks = [rng.choice(keys) for _ in range(rng.choice([1, 1, 2]))]
                    if dag:     # a plugin provides keys of its rank and needs keys of lower ranks only
                        ks = ['r{}'.format(level)] if which == 'provides' else ['r{}'.format(rng.randrange(level))] if level else []
                    elif rng.random() < 0.75:       # mostly one direction, so that most activations succeed
                        ks = ['k0' if which == 'provides' else 'k1'] if level % 2 == 0 else ['k1' if which == 'provides' else 'k2']
                    d[which] = sorted(set(ks))
        return d

    for i in range(n):
        pid = 'p{}'.format(i)
        level = rank[pid] = i
        methods = {}
        for name in rng.sample(hooks, rng.choice([0, 1, 2, 3])):
            methods[name] = dict(on=None, **deps(level))
        for name in ('session_start', 'session_end'):
            if rng.random() < p_session:
                methods[name] = dict(on=None, **deps(level))
        for j in range(rng.choice([0, 0, 1, 2]) if custom else 0):
            on = rng.sample(custom + ['slash.' + h for h in hooks if h not in methods], rng.choice([1, 1, 2]))
            methods['handler{}'.format(j)] = dict(on=on, **deps(level))
        if rng.random() < 0.1:
            methods['helper'] = dict(on=[None])
        if rng.random() < 0.1:
            methods['other_nonexistent'] = {'on': None, 'if': False}
        if rng.random() < 0.08 and methods:
            m = methods[rng.choice(list(methods))]
            if m['on'] != [None]:
                m['if'] = rng.random() < 0.5
        if rng.random() < p_unknown:
            methods['no_such_hook'] = {'on': None}
        base = rng.choice([s['id'] for s in out]) if out and rng.random() < p_base and not dag else None
        fail = {}
        for which in ('activate', 'deactivate'):
            if rng.random() < p_fail:
                fail[which] = {str(k): rng.choice(['runtime', 'incompatible', 'key']) for k in range(3) if rng.random() < 0.5}
        name = 'plug{}'.format(i)
        if rng.random() < 0.2:
            name = rng.choice(['my plug {}', 'With CAPS {}', 'x{}y z']).format(i)
        if out and rng.random() < p_same:
            name = rng.choice(out)['name']
        cl = deps(level) if rng.random() < 0.35 else {'needs': [], 'provides': []}
        out.append(dict(id=pid, name=name, base=base, methods=methods, fail=fail, attr=rng.random() < 0.2,
                        config={'opt': i, 'only{}'.format(i): [i]} if rng.random() < 0.4 else None, **cl))
    return out


def gen_ops(rng, plugins, n, depth=0):
    ops = []
    ids = [p['id'] for p in plugins]
    for _ in range(n):
        pid = rng.choice(ids)
        r = rng.random()
        if r < 0.27:
            ops.append(['install', pid, rng.choice(['', '', 'activate', 'later'])])
        elif r < 0.50:
            ops.append(['activate', pid, rng.choice(['obj', 'name', 'cmd', 'type'])])
        elif r < 0.66:
            ops.append(['deactivate', pid, rng.choice(['obj', 'name', 'cmd', 'type'])])
        elif r < 0.76:
            ops.append(['uninstall', pid, rng.choice(['obj', 'name', 'type'])])
        elif r < 0.83:
            ops.append(['later', pid, rng.choice(['obj', 'name', 'cmd'])])
        elif r < 0.87:
            ops.append(['not_later', pid, rng.choice(['obj', 'name', 'cmd'])])
        elif r < 0.93:
            ops.append(['pending'])
        elif r < 0.96:
            ops.append(['bad', rng.choice(['type', 'name', 'class', 'unknown'])])
        elif depth == 0:
            ops.append(['restoring', gen_ops(rng, plugins, rng.choice([1, 3, 6]), 1)])
    return ops


class Stop(Exception):
    pass


class History(object):

    """Executes operations on the real plugin manager next to the reference"""

    def __init__(self, specs):
        import gossip
        from slash import plugins
        self.plugins = plugins
        self.gossip = gossip
        self.m = plugins.manager
        self.hook_names = {h.full_name for h in gossip.get_group('slash').get_hooks()}
        self.ref = plugkit.Ref(specs, self.hook_names)
        self.specs = {s['id']: s for s in specs}
        self.classes = plugkit.make(specs)
        self.objs = {pid: cls() for pid, cls in self.classes.items()}
        self.ours = {s['name'] for s in specs}
        self.installed, self.active = {}, set()      # name -> id; ids
        self.later, self.not_later = set(), set()
        self.toggle = {}                             # id -> True: session_start was seen / None: unknown
        self.calls = {'activate': collections.Counter(), 'deactivate': collections.Counter()}
        self.viol = []
        self.c = collections.Counter()
        self.sigs = set()
        self.baseline = self.registrations()

    def registrations(self):
        return collections.Counter(h.full_name for h in self.gossip.get_global_group().iter_hooks(recursive=True) for _ in h.get_registrations(include_empty=True))

    def bad(self, mech, msg, *args):
        self.viol.append((mech, msg.format(*args)))
        raise Stop()

    def arg(self, pid, how):
        name = self.specs[pid]['name']
        if how == 'type' and sum(1 for n, p in self.installed.items() if self.classes[p] is self.classes[pid]) <= 1:
            return self.classes[pid]
        return {'obj': self.objs[pid], 'name': name, 'cmd': name.replace(' ', '-')}.get(how, self.objs[pid])

    def target(self, pid, how):
        """The id an operation addresses, None when it is unknown"""
        name = self.specs[pid]['name']
        if how in ('name', 'cmd'):
            return self.installed.get(name)
        return pid if self.installed.get(name) == pid else None

    def attempt(self, func, *args, **kwargs):
        try:
            func(*args, **kwargs)
            return None
        except Exception as e:  # pylint: disable=broad-except
            return e

    def fails(self, which, pid):
        n = self.calls[which][pid]
        self.calls[which][pid] += 1
        return self.specs[pid].get('fail', {}).get(which, {}).get(str(n))

    def want(self, err, kinds, what, *args):
        names = {'unknown': self.plugins.UnknownPlugin, 'incompatible': self.plugins.IncompatiblePlugin, 'runtime': RuntimeError, 'key': KeyError,
                 'name': self.plugins.IllegalPluginName, 'any': Exception}
        if kinds is None:
            if err is not None:
                self.bad('unexpected-error', '{}: raised {!r}', what.format(*args), err)
        elif err is None:
            self.bad('no-error', '{}: expected an error ({})', what.format(*args), kinds)
        elif not isinstance(err, names[kinds]):
            self.bad('wrong-error', '{}: expected {}, got {!r}', what.format(*args), kinds, err)
        else:
            self.c['errors_' + kinds] += 1

    def activation(self, pid):
        """What activating an installed plugin gives: the kind of error or None; updates the state"""
        if pid in self.active:
            self.c['already_active'] += 1
            return None
        kind = self.fails('activate', pid)
        if kind is None and self.ref.incompatible(pid):
            kind = 'incompatible'
        if kind is None and self.ref.contradictory(self.active | {pid}):
            kind = 'any'
            self.c['contradictions'] += 1
        if kind is None:
            self.active.add(pid)
            self.c['activated'] += 1
        return kind

    def deactivation(self, pid):
        if pid not in self.active:
            return None
        self.active.discard(pid)
        if self.toggle.get(pid, False) is not False:
            self.toggle[pid] = None
        self.c['deactivated'] += 1
        return self.fails('deactivate', pid)

    def do(self, op):
        kind = op[0]
        self.c['ops'] += 1
        if kind == 'install':
            pid, how = op[1:]
            name = self.specs[pid]['name']
            old = self.installed.get(name)
            want = None
            if old is not None and old != pid:
                self.c['replaced'] += 1
                want = self.deactivation(old)
            if want is None:
                self.installed[name] = pid
                if how == 'activate':
                    want = self.activation(pid)
                elif how == 'later':
                    self.later.add(name)
            err = self.attempt(self.m.install, self.objs[pid], activate=how == 'activate', activate_later=how == 'later')
            self.want(err, want, 'install {} {}', pid, how)
            if want is not None and self.installed.get(name) == pid:
                if isinstance(err, self.plugins.IncompatiblePlugin):
                    # rejected
                    del self.installed[name]
                    self.later.discard(name)
                    self.not_later.discard(name)
                elif name not in self.m.get_installed_plugins():
                    del self.installed[name]
                    self.later.discard(name)
                    self.not_later.discard(name)
        elif kind in ('activate', 'deactivate', 'uninstall', 'later', 'not_later'):
            pid, how = op[1:]
            tgt = self.target(pid, how)
            func = {'activate': self.m.activate, 'deactivate': self.m.deactivate, 'uninstall': self.m.uninstall,
                    'later': self.m.activate_later, 'not_later': self.m.deactivate_later}[kind]
            arg = self.arg(pid, how)
            if tgt is None:
                want = 'unknown'
            elif kind == 'activate':
                want = self.activation(tgt)
            elif kind == 'deactivate':
                want = self.deactivation(tgt)
            elif kind == 'uninstall':
                want = self.deactivation(tgt)
                if want in (None, 'incompatible'):
                    want = None
                    name = self.specs[tgt]['name']
                    del self.installed[name]
                    self.later.discard(name)
                    self.not_later.discard(name)
            else:
                want = None
                (self.later if kind == 'later' else self.not_later).add(self.specs[tgt]['name'])
            self.want(self.attempt(func, arg), want, '{} {} ({})', kind, pid, how)
        elif kind == 'pending':
            todo = self.later - self.not_later
            risky = [n for n in todo if self.installed[n] not in self.active and (self.specs[self.installed[n]].get('fail', {}).get('activate') or self.ref.incompatible(self.installed[n]))]
            off = [n for n in self.not_later if self.installed[n] in self.active]
            risky += [n for n in off if self.specs[self.installed[n]].get('fail', {}).get('deactivate')]
            if self.ref.contradictory(self.active | {self.installed[n] for n in todo}):
                risky.append('!')
            err = self.attempt(self.m.activate_pending_plugins)
            if risky:
                # how far it came is not specified; what is active has to be consistent
                self.c['pending_failures'] += 1
                act = self.m.get_active_plugins()
                for n, pid in self.installed.items():
                    if n in act:
                        self.active.add(pid)
                    else:
                        self.active.discard(pid)
                if not err and (self.active & {self.installed[n] for n in todo}) != {self.installed[n] for n in todo}:
                    self.bad('pending', 'activate_pending_plugins did not report an error, and did not activate all of {}', sorted(todo))
                self.check(future=False)
                raise Stop()
            self.want(err, None, 'activate_pending_plugins')
            for n in todo:
                self.activation(self.installed[n])
            for n in off:
                self.deactivation(self.installed[n])
            self.c['pending_activated'] += len(todo)
            self.later.clear()
            self.not_later.clear()
        elif kind == 'bad':
            if op[1] == 'type':
                self.want(self.attempt(self.m.install, object()), 'incompatible', 'install of an object')
            elif op[1] == 'class':
                self.want(self.attempt(self.m.install, next(iter(self.classes.values()))), 'incompatible', 'install of a class')
            elif op[1] == 'name':
                for name in ('with/slash', 'dot.dot', 'a\tb', u'\u05d0', 'semi;colon', '$x', 'new\nline', 'end\n'):
                    cls = type('Bad', (self.plugins.PluginInterface,), {'get_name': lambda self, name=name: name, 'get_default_config': lambda self: {'x': 1}})
                    self.want(self.attempt(self.m.install, cls(), activate=True), 'name', 'install of a plugin named {!r}', name)
            else:
                for func in (self.m.activate, self.m.deactivate, self.m.uninstall, self.m.activate_later, self.m.deactivate_later):
                    self.want(self.attempt(func, 'no such plugin'), 'unknown', '{} of an unknown plugin', func.__name__)
        elif kind == 'restoring':
            before = dict(self.installed), set(self.active)
            if any(self.specs[p].get('fail') for p in self.specs) or self.ref.contradictory(set(self.specs)):
                return      # restoring itself may fail
            if self.later or self.not_later:
                return      # what is pending is not part of the state restored
            with self.m.restoring_state_context():
                for sub in op[1]:
                    if 'later' not in sub and sub[0] not in ('not_later', 'pending'):
                        self.do(sub)
                        self.check()
            changed = set(self.active) ^ before[1]
            for pid in changed | {p for n, p in self.installed.items() if before[0].get(n) != p}:
                self.toggle[pid] = None
            self.installed, self.active = before
            self.c['restored'] += 1

    def check(self, future=True):
        inst = {n: p for n, p in self.m.get_installed_plugins().items() if n in self.ours}
        if inst != {n: self.objs[p] for n, p in self.installed.items()}:
            self.bad('installed', 'installed: {}, expected {}', sorted(inst), sorted(self.installed))
        act = {n: p for n, p in self.m.get_active_plugins().items() if n in self.ours}
        want = {self.specs[p]['name']: self.objs[p] for p in self.active}
        if act != want:
            self.bad('active', 'active: {}, expected {}', sorted(act), sorted(want))
        try:
            fut = {n for n in self.m.get_future_active_plugins() if n in self.ours}
        except LookupError as e:
            self.bad('future', 'get_future_active_plugins() raised {!r}', e)
            return
        wantf = (set(want) | self.later) - self.not_later
        if future and fut != wantf:
            self.bad('future', 'future active plugins: {}, expected {}', sorted(fut), sorted(wantf))
        import slash
        cfg = slash.config['plugin_config']
        for pid, s in self.specs.items():
            key = s['name'].replace(' ', '_')
            if self.installed.get(s['name']) == pid and s.get('config'):
                if key not in cfg or cfg[key]['opt'] != s['config']['opt']:
                    self.bad('config', 'configuration of {} is missing or wrong', s['name'])
                if self.objs[pid].current_config.opt != s['config']['opt']:
                    self.bad('config', 'current_config of {}', s['name'])
            elif s['name'] not in self.installed and key in cfg:
                self.bad('config', 'configuration of {}, which is not installed, is still there', s['name'])
        self.triggers()

    def triggers(self):
        names = ['slash.' + h for h in SLASH] + CUSTOM
        for hook in names:
            self.trigger(hook)

    def fire(self, hook):
        del plugkit.EV[:]
        obj = None
        try:
            obj = self.gossip.get_hook(hook)
        except Exception:  # pylint: disable=broad-except
            return [], None
        err = self.attempt(obj.trigger, {a: None for a in obj.get_argument_names()})
        return [e[1:] for e in plugkit.EV if e[0] == 'call'], err

    def trigger(self, hook):
        calls, err = self.fire(hook)
        self.c['triggers'] += 1
        unmet = self.ref.unmet(self.active, hook)
        if unmet:
            self.c['unmet'] += 1
            if err is None or calls:
                self.bad('unmet', '{}: needs of {} are not provided; called {}, raised {!r}', hook, sorted(unmet), calls, err)
            return
        if err is not None:
            self.bad('trigger-error', '{}: raised {!r}', hook, err)
        want = collections.Counter((r[0], r[1]) for r in self.ref.on_hook(self.active, hook))
        got = collections.Counter(calls)
        if got != want:
            self.bad('callbacks', '{}: called {}, expected {} (active: {})', hook, dict(got), dict(want), sorted(self.active))
        self.order(hook, calls)
        self.c['callbacks'] += len(calls)

    def order(self, hook, calls):
        mis = self.ref.misordered(self.active, hook, calls)
        if mis:
            self.bad('order', '{}: {} was called before {}, which provides what it needs (calls: {})', hook, mis[0], mis[1], calls)
        if len(calls) > 1:
            self.sigs.add((hook, tuple(calls)))
            if any(r[2] for r in self.ref.on_hook(self.active, hook)):
                self.c['ordered'] += 1

    def session(self, end):
        """A session begins or ends"""
        hook = 'slash.session_end' if end else 'slash.session_start'
        if self.ref.unmet(self.active, 'slash.session_start') or self.ref.unmet(self.active, 'slash.session_end'):
            return
        calls, err = self.fire(hook)
        if err is not None:
            self.bad('trigger-error', '{}: raised {!r}', hook, err)
        for pid in sorted(self.active):
            names = {h for h, _, _, _ in self.ref.callbacks(pid)}
            state = self.toggle.get(pid, False)
            n = calls.count((pid, hook[6:]))
            if state is None:
                if n > 1:
                    self.bad('callbacks', '{}: {} called {} times', hook, pid, n)
                continue
            want = int(hook in names and state == end)
            if n != want:
                self.bad('session-hooks', '{} of {} was called {} times, expected {}', hook, pid, n, want)
            if {'slash.session_end', 'slash.session_start'} & names:
                self.toggle[pid] = not end
            self.c['session_hooks'] += n
        stray = [c for c in calls if c[0] not in self.active]
        if stray:
            self.bad('callbacks', '{}: called {} which are not active', hook, stray)
        self.order(hook, calls)

    def run(self, ops, rng_bits):
        try:
            open_session = False
            self.check()
            for i, op in enumerate(ops):
                self.do(op)
                self.check()
                if rng_bits[i % len(rng_bits)]:
                    self.session(open_session)
                    open_session = not open_session
            # after uninstalling everything nothing is left
            for n, pid in list(self.installed.items()):
                for _ in range(5):
                    if self.attempt(self.m.uninstall, self.objs[pid]) is None:
                        break
                else:
                    self.bad('uninstall', '{} cannot be uninstalled', pid)
            left = self.registrations()
            if left != self.baseline:
                self.bad('leftovers', 'after uninstalling all plugins: registrations left on {}', dict(left - self.baseline))
            self.c['complete'] += 1
        except Stop:
            pass
        return {'viol': self.viol, 'c': dict(self.c), 'sigs': sorted(self.sigs)[:50]}


RC = '''
import os, sys, json
sys.path.insert(0, {lib!r})
import slash
from vp import plugkit
SPECS = json.loads({specs!r})
classes = plugkit.make(SPECS)
objs = {{k: c() for k, c in classes.items()}}
for pid, how in {installs!r}:
    if how == 'file':
        continue
    slash.plugins.manager.install(objs[pid], activate=how == 'activate', activate_later=how == 'later')
if {search!r}:
    slash.config.root.plugins.search_paths = [{search!r}]

@slash.hooks.tests_loaded.register
def vp_active(**_):
    plugkit.log('active', sorted(p.vp_id for p in slash.plugins.manager.get_active_plugins().values() if hasattr(p, 'vp_id')))
'''

PLUGFILE = '''
import json, slash
from vp import plugkit
def install_plugins():
    classes = plugkit.make(json.loads({specs!r}))
    slash.plugins.manager.install(classes[{pid!r}]())
'''

TESTS = '''
import slash
from vp import plugkit
@slash.parametrize('x', {values!r})
def test_it(x):
    plugkit.log('test', x)
'''


class CHECK(Check):
    prop = 'C16'
    technique = 'runtime monitoring: callback events and manager queries of the real plugin manager under random operation histories and real (also parallel) runs, against a reference of what is active'
    rule = 'random histories of install/activate/deactivate/uninstall/pending operations over generated plugins (failing, incompatible, dependent, same-named); all hooks triggered after each operation; real runs with --with/--without, search paths and parallel modes'
    required = ('histories', 'ops', 'triggers', 'callbacks', 'ordered', 'unmet', 'contradictions', 'replaced', 'already_active', 'errors_unknown', 'errors_incompatible', 'errors_runtime',
                'errors_name', 'session_hooks', 'pending_activated', 'restored', 'complete', 'runs', 'run_callbacks', 'rejected_runs', 'parallel_runs')
    assumptions = ['plugin names that differ only in dashes/spaces/underscores are not generated together', 'default parallel mode (not declared) is not checked: documentation and code differ']
    n_quick = 330
    n_thorough = 6000
    case_timeout = 120

    def gen(self, rng, i, tier):
        r = i % 33
        if r == 0:
            n = rng.choice([2, 4, 5])
            ps = gen_plugins(rng, n, hooks=RUN_HOOKS[2:], custom=[], p_fail=0, p_unknown=0, p_same=0, dag=True, p_dep=0)
            for p in ps:
                p['mode'] = rng.choice(MODES)
            return {'kind': 'parallel', 'plugins': ps, 'how': {p['id']: rng.choice(['later', 'later', 'with']) for p in ps}, 'workers': rng.choice([1, 2]), 'tests': 3}
        if r % 4 == 1:
            n = rng.choice([1, 2, 4, 6])
            ps = gen_plugins(rng, n, hooks=RUN_HOOKS[2:], custom=[], p_fail=0, p_unknown=0.03, p_same=0, dag=rng.random() < 0.85, p_base=0, p_dep=0.6, p_session=0.5)
            order = [p['id'] for p in ps]
            rng.shuffle(order)
            how = {p: rng.choice(['none', 'activate', 'later', 'file']) for p in order}
            return {'kind': 'run', 'plugins': ps, 'order': order, 'how': how, 'with': [p for p in order if rng.random() < (0.4 if how[p] in ('later', 'activate') else 0.7)],
                    'without': [p for p in order if rng.random() < 0.15], 'unknown': rng.random() < 0.08, 'tests': rng.choice([1, 2]), 'pos': rng.random() < 0.5}
        ps = gen_plugins(rng, rng.choice([2, 3, 4, 5, 7]), p_fail=rng.choice([0, 0.15, 0.4]), p_dep=rng.choice([0, 0.4, 0.7]), p_unknown=rng.choice([0, 0.1]), p_same=rng.choice([0, 0.2]))
        first = []
        if rng.random() < 0.5:
            # an order of activations which has nothing to do with the dependencies
            if rng.random() < 0.7:
                for level, p in enumerate(ps):
                    p['base'] = None
                    p['provides'] = ['r{}'.format(level)]
                    for m in list(p['methods'].values()) + [p]:
                        m['needs'] = ['r{}'.format(rng.randrange(level))] if level and rng.random() < 0.6 else []
                        if m is not p:
                            m['provides'] = []
                    for h in rng.sample(SLASH, 3):
                        p['methods'].setdefault(h, {'on': None, 'needs': ['r{}'.format(rng.randrange(level))] if level and rng.random() < 0.6 else []})
            order = [p['id'] for p in ps]
            rng.shuffle(order)
            first = [['install', p, rng.choice(['', 'activate', 'later'])] for p in order]
            rng.shuffle(order)
            first += [['pending']] + [['activate', p, 'obj'] for p in order]
        return {'kind': 'history', 'plugins': ps, 'ops': first + gen_ops(rng, ps, rng.choice([6, 12, 25, 40])), 'sessions': [rng.random() < 0.3 for _ in range(7)]}

    def run(self, case):
        if case['kind'] == 'history':
            return History(case['plugins']).run(case['ops'], case['sessions'])
        root = os.getcwd()
        lib = os.path.join(VERIF, 'lib')
        specs = json.dumps(case['plugins'])
        by_id = {p['id']: p for p in case['plugins']}
        search = None
        order = case.get('order') or [p['id'] for p in case['plugins']]
        files = [p for p in order if case['how'][p] == 'file']
        if files:
            search = os.path.join(root, 'plugdir')
            for p in files:
                d = os.path.join(search, 'sub') if p[-1] in '13' else search
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, 'plugfile_{}.py'.format(p)), 'w') as f:
                    f.write(PLUGFILE.format(specs=specs, pid=p))
        with open('.slashrc', 'w') as f:
            f.write(RC.format(lib=lib, specs=specs, installs=[(p, case['how'][p]) for p in order], search=search))
        os.mkdir('tests')
        with open('tests/test_it.py', 'w') as f:
            f.write(TESTS.format(values=list(range(case['tests']))))
        os.environ['VP_EVFILE'] = os.path.join(root, 'events')
        os.environ['PYTHONPATH'] = os.pathsep.join([REPO, lib])
        cmd = lambda p: by_id[p]['name'].replace(' ', '-')
        argv = ['--with-' + cmd(p) for p in case.get('with', [p for p in order if case['how'][p] == 'with'])] + ['--without-' + cmd(p) for p in case.get('without', ())]
        if case.get('unknown'):
            argv.append('--with-no-such-plugin')
        argv = argv + ['tests'] if case.get('pos') else ['tests'] + argv
        if case['kind'] == 'parallel':
            argv += ['--parallel', str(case['workers'])]
            sys.argv = ['slash', 'run'] + argv
            app, console, escaped = None, None, None
            import subprocess
            p = subprocess.run([sys.executable, '-m', 'slash.frontend.main', 'run'] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            code, console = p.returncode, p.stdout.decode('utf-8', 'replace')
        else:
            app, console, escaped = suite.run_app(argv, cwd=root)
            code = app.exit_code if app is not None else 1
        events = []
        if os.path.exists('events'):
            with open('events') as f:
                events = [ast.literal_eval(line) for line in f]
        return {'events': events, 'code': code, 'console': console[-3000:], 'escaped': repr(escaped) if escaped else None}

    def judge(self, case, obs):
        if case['kind'] == 'history':
            return [Violation(m, t) for m, t in obs['viol']]
        return list(self.judge_run(case, obs)) if case['kind'] == 'run' else list(self.judge_parallel(case, obs))

    def expected(self, case):
        """(active ids, whether the run is rejected)"""
        import gossip
        ref = plugkit.Ref(case['plugins'], {h.full_name for h in gossip.get_group('slash').get_hooks()})
        early = {p for p, how in case['how'].items() if how == 'activate'}
        wanted = early | {p for p, how in case['how'].items() if how == 'later'} | set(case['with'])
        later = wanted - early - set(case['without'])
        active = wanted - set(case['without'])
        bad = bool(case['unknown']) or any(ref.incompatible(p) for p in early | later) or ref.contradictory(early | later)
        if not bad and any(ref.unmet(active, 'slash.' + h) for h in ('session_start',)):
            bad = True
        return ref, active, bad

    def judge_run(self, case, obs):
        ref, active, bad = self.expected(case)
        tests = [e for e in obs['events'] if e[1] == 'test']
        if bad:
            if not obs['code'] or tests:
                yield Violation('not-rejected', 'the plugins requested contradict each other or are unknown or incompatible, yet exit code {} and {} tests ran'.format(obs['code'], len(tests)))
            return
        if any(ref.unmet(active, 'slash.' + h) for h in RUN_HOOKS):
            return
        if obs['code'] or len(tests) != case['tests']:
            yield Violation('run', 'exit code {}, {} tests ran: {}'.format(obs['code'], len(tests), obs['console'][-600:]))
            return
        seen = [e[2] for e in obs['events'] if e[1] == 'active']
        if seen != [sorted(active)]:
            yield Violation('active', 'active in the run: {}, requested: {}'.format(seen, sorted(active)))
            return
        got = collections.Counter(e[2:] for e in obs['events'] if e[1] == 'call')
        want = collections.Counter()
        for h in RUN_HOOKS:
            for r in ref.on_hook(active, 'slash.' + h):
                want[r[0], r[1]] += 1 if h.startswith('session') else case['tests']
        if got != want:
            yield Violation('callbacks', 'called {}, expected {}'.format(dict(got), dict(want)))
            return
        calls = [e[2:] for e in obs['events'] if e[1] == 'call']
        for h in RUN_HOOKS:
            mine = [c for c in calls if c[1] == h]
            n = len(ref.on_hook(active, 'slash.' + h))
            for k in range(0, len(mine), n or 1):
                mis = ref.misordered(active, 'slash.' + h, mine[k:k + n])
                if mis:
                    yield Violation('order', '{}: {} before {}'.format(h, mis[0], mis[1]))
                    return

    def judge_parallel(self, case, obs):
        if obs['code']:
            yield Violation('run', 'parallel run failed ({}): {}'.format(obs['code'], obs['console'][-800:]))
            return
        want = {'parent': sorted(p['id'] for p in case['plugins'] if p['mode'] in ('enabled', 'parent-only')),
                'child': sorted(p['id'] for p in case['plugins'] if p['mode'] in ('enabled', 'child-only'))}
        roles = collections.defaultdict(list)
        for e in obs['events']:
            roles[e[0]].append(e)
        if len(roles) != case['workers'] + 1:
            return      # which workers took part: another property
        for role, evs in roles.items():
            which = 'parent' if role is None else 'child'
            seen = {tuple(e[2]) for e in evs if e[1] == 'active'}
            if seen and seen != {tuple(want[which])}:
                yield Violation('parallel-mode', 'active in the {} ({}): {}, declared {}'.format(which, role, sorted(seen), want[which]))
                return
            stray = [e for e in evs if e[1] == 'call' and e[2] not in want[which]]
            if stray:
                yield Violation('parallel-mode', 'callback {} in the {} ({})'.format(stray[0], which, role))
                return
            for p in want[which]:
                for hook in ('session_start', 'session_end'):
                    spec = next(q for q in case['plugins'] if q['id'] == p)
                    n = sum(1 for e in evs if e[1:] == ('call', p, hook))
                    if hook in spec['methods'] and spec['methods'][hook].get('if') is not False and n != 1:
                        yield Violation('parallel-callbacks', '{} of {} called {} times in the {} ({})'.format(hook, p, n, which, role))
                        return

    def counters(self, case, obs):
        if case['kind'] == 'history':
            return dict(obs['c'], histories=1)
        calls = sum(1 for e in obs['events'] if e[1] == 'call')
        if case['kind'] == 'parallel':
            return {'parallel_runs': 1, 'parallel_callbacks': calls}
        return {'runs': 1, 'run_callbacks': calls, 'rejected_runs': int(self.expected(case)[2])}

    def signature(self, case, obs):
        if case['kind'] == 'history':
            return repr((sorted(obs['c'].items()), obs['sigs']))
        return repr(obs['events'])

    def shrink(self, case):
        if case['kind'] == 'history':
            ops = case['ops']
            for size in (8, 4, 2, 1):
                for i in range(0, len(ops), size):
                    yield dict(case, ops=ops[:i] + ops[i + size:])
            for i, p in enumerate(case['plugins']):
                for m in list(p['methods']):
                    q = dict(p, methods={k: v for k, v in p['methods'].items() if k != m})
                    yield dict(case, plugins=case['plugins'][:i] + [q] + case['plugins'][i + 1:])
                for key, val in (('fail', {}), ('needs', []), ('provides', []), ('config', None), ('base', None)):
                    if p.get(key):
                        yield dict(case, plugins=case['plugins'][:i] + [dict(p, **{key: val})] + case['plugins'][i + 1:])
