"""Runtime monitor: imported by generated test code as `vpmon`.

Records an event log at the client boundary (test code, fixtures, cleanups, public hooks), each entry with a snapshot of
the public context, and performs the actions the suite specification assigns to each place."""
import os
import signal
import sys

import gossip
import slash
from slash import exception_handling
from slash.ctx import context
from slash.exceptions import SkipTest, TestFailed, TerminatedException  # noqa

EV = []          # event log: list of dicts
ACTIONS = {}     # place key -> list of actions
COUNTS = {}      # place key -> number of executions so far
SERIAL = {}      # named counters
STATE = {}
LOADED = []      # lists of tests given to tests_loaded
EVFILE = None    # when set, events are also appended to this file (for runs that may be killed)

HOOKS = [
    'session_start', 'session_end', 'session_interrupt', 'before_session_start', 'after_session_start',
    'before_session_cleanup', 'after_session_end', 'app_quit', 'configure', 'test_interrupt', 'test_avoided',
    'test_start', 'test_end', 'before_test_cleanups', 'test_success', 'test_error', 'test_failure', 'test_skip',
    'error_added', 'interruption_added', 'result_summary', 'tests_loaded',
]


class CustomError(Exception):
    pass


class FV(object):

    """A fixture value with an identity"""

    def __init__(self, name, serial):
        self.name, self.serial = name, serial

    def __repr__(self):
        return '{}#{}'.format(self.name, self.serial)


def next_serial(name):
    SERIAL[name] = SERIAL.get(name, 0) + 1
    return SERIAL[name]


def snapshot():
    d = {}
    test = context.test
    d['T'] = None if test is None else id(test)
    d['TID'] = context.test_id
    result = context.result
    if result is None:
        d['R'] = None
    elif result.is_global_result():
        d['R'] = 'G'
    else:
        d['R'] = id(result.test_metadata)
    d['FX'] = None if context.fixture is None else context.fixture.name
    d['PH'] = slash.get_current_cleanup_phase()
    d['SC'] = slash.get_current_scope()
    if test is not None:
        d['CM'] = (context.test_classname, context.test_methodname)
        d['IDX'] = test.__slash__.test_index0
    d['S'] = context.session is not None
    return d


def ev(kind, **kw):
    e = dict(kw, k=kind)
    e['c'] = snapshot()
    EV.append(e)
    return e


def r(value):
    """Stable rendering of argument values"""
    if isinstance(value, dict):
        return {k: r(v) for k, v in sorted(value.items())}
    return repr(value)


def here(kind, key, values=None, env=None):
    """Called at a place of the generated suite: records the event and performs the actions of the place"""
    n = COUNTS[key] = COUNTS.get(key, 0) + 1
    ev(kind, key=key, n=n, v=r(values or {}))
    do(ACTIONS.get(key, ()), key, n, values or {}, env or {})


def make_exc(kind, ident):
    if kind == 'error':
        return ValueError(ident)
    if kind == 'custom':
        return CustomError(ident)
    if kind == 'runtime':
        return RuntimeError(ident)
    if kind == 'fail':
        return AssertionError(ident)
    if kind == 'testfailed':
        return TestFailed(ident)
    if kind == 'skip':
        return SkipTest(ident)
    if kind == 'kbd':
        return KeyboardInterrupt(ident)
    if kind == 'term':
        return TerminatedException(ident)
    if kind == 'fatal':
        return exception_handling.mark_exception_fatal(ValueError(ident))
    if kind == 'fatalfail':
        return exception_handling.mark_exception_fatal(AssertionError(ident))
    if kind == 'exit':
        return SystemExit(int(ident.split(':')[1]))
    raise ValueError(kind)


def do(actions, key, n, values, env):
    for a in actions:
        op = a[0]
        if op == 'nth':
            if n in a[1]:
                do(a[2], key, n, values, env)
        elif op == 'ev':
            ev('mark', key=a[1])
        elif op == 'raise':
            ident = '{}@{}'.format(a[2], n)
            ev('raise', key=ident, what=a[1])
            raise make_exc(a[1], ident if a[1] != 'exit' else a[2])
        elif op == 'sig':
            ev('raise', key='{}@{}'.format(a[2], n), what='sig' + a[1])
            os.kill(os.getpid(), getattr(signal, a[1]))
            for _ in range(1000):
                pass
        elif op == 'add_error':
            slash.add_error('{}@{}'.format(a[1], n))
        elif op == 'add_failure':
            slash.add_failure('{}@{}'.format(a[1], n))
        elif op == 'add_error_fatal':
            slash.add_error('{}@{}'.format(a[1], n)).mark_fatal()
        elif op == 'add_error_exc':
            try:
                raise ValueError('{}@{}'.format(a[1], n))
            except ValueError:
                slash.add_error()
        elif op == 'add_skip':
            context.result.add_skip('{}@{}'.format(a[1], n))
        elif op == 'cleanup':
            add_cleanup(a[1], a[2], n)
        elif op == 'fcleanup':
            _add_fcleanup(env['this'], a[1], env['fv'])
        elif op == 'tstart':
            _add_tcb(env['this'], 'test_start', a[1], env['fv'])
        elif op == 'tend':
            _add_tcb(env['this'], 'test_end', a[1], env['fv'])
        elif op == 'try':
            try:
                do(a[1], key, n, values, env)
            except Exception as e:  # pylint: disable=broad-except
                ev('caught', key=str(e))
        elif op == 'swallow':
            with exception_handling.get_exception_swallowing_context():
                do(a[1], key, n, values, env)
        elif op == 'handle':
            with exception_handling.handling_exceptions(swallow=a[1]):
                do(a[2], key, n, values, env)
        elif op == 'detail':
            slash.set_test_detail(a[1], a[2])
        elif op == 'fact':
            context.result.facts.set(a[1], a[2])
        elif op == 'append':
            context.result.details.append(a[1], a[2])
        elif op == 'gset':
            setattr(slash.g, a[1], a[2])
        elif op == 'call':
            STATE['calls'][a[1]](key, n, values, env, *a[2:])
        else:
            raise NotImplementedError(op)


def add_cleanup(key, opts, n):
    serial = next_serial('cleanup')
    kw = {}
    for o in ('critical', 'success_only'):
        if opts.get(o):
            kw[o] = True
    if opts.get('scope'):
        kw['scope'] = opts['scope']
    via = opts.get('via')

    def cleanup(*args, **kwargs):
        c = COUNTS[key] = COUNTS.get(key, 0) + 1
        ev('cleanup', key=key, serial=serial, args=list(args), kwargs=dict(kwargs), n=c)
        do(ACTIONS.get(key, ()), key, c, {}, {})
    call = {'args': [serial], 'kwargs': {'tag': key}} if not opts.get('noargs') else {}
    ev('reg', key=key, serial=serial)
    if via == 'critical' and kw.pop('critical', None):
        slash.add_critical_cleanup(cleanup, **dict(kw, **call))
    else:
        slash.add_cleanup(cleanup, **dict(kw, **call))
    # what the caller does to its containers afterwards is its own business
    for c in call.values():
        if isinstance(c, dict):
            c['tag'] = c['late'] = 'changed later'
        else:
            c.append('added later')


def _add_fcleanup(this, key, fv):
    serial = next_serial('fcleanup')

    def cleanup():
        n = COUNTS[key] = COUNTS.get(key, 0) + 1
        ev('fcleanup', key=key, serial=serial, fv=repr(fv), n=n)
        do(ACTIONS.get(key, ()), key, n, {}, {})
    ev('freg', key=key, serial=serial, fv=repr(fv))
    this.add_cleanup(cleanup)


def _add_tcb(this, which, key, fv):
    def callback():
        n = COUNTS[key] = COUNTS.get(key, 0) + 1
        ev('f' + which, key=key, fv=repr(fv), n=n)
        do(ACTIONS.get(key, ()), key, n, {}, {})
    getattr(this, which)(callback)


def fixture_setup(key, name, values, this=None):
    """Body of a plain fixture. Every fixture gets one implicit teardown event through this.add_cleanup."""
    n = COUNTS[key] = COUNTS.get(key, 0) + 1
    fv = FV(name, next_serial('fixture'))
    ev('fsetup', key=key, fv=repr(fv), n=n, v=r(values))
    if this is not None:
        def teardown():
            m = COUNTS[key + '/td'] = COUNTS.get(key + '/td', 0) + 1
            ev('fteardown', key=key, fv=repr(fv), n=m)
            do(ACTIONS.get(key + '/td', ()), key + '/td', m, {}, {})
        this.add_cleanup(teardown)
    do(ACTIONS.get(key, ()), key, n, values, {'this': this, 'fv': fv})
    return fv


def fixture_yield_teardown(key, fv):
    m = COUNTS[key + '/td'] = COUNTS.get(key + '/td', 0) + 1
    ev('fteardown', key=key, fv=repr(fv), n=m)
    do(ACTIONS.get(key + '/td', ()), key + '/td', m, {}, {})


def register_hooks(hook_actions=None, token='vpmon', names=HOOKS):
    """Monitor callbacks on every public hook, with optional misbehaving callbacks between them"""
    hook_actions = hook_actions or {}

    def monitor(name, tag):
        def callback(**kw):
            extra = {}
            if name == 'tests_loaded':
                if tag == 'first':
                    LOADED.append(kw['tests'])
                extra['num'] = len(kw['tests'])
            elif name == 'error_added':
                res = kw['result']
                extra['msg'] = kw['error'].message
                extra['fail'] = kw['error'].is_failure()
                extra['res'] = 'G' if res.is_global_result() else id(res.test_metadata)
            elif name == 'interruption_added':
                res = kw['result']
                extra['res'] = 'G' if res.is_global_result() else id(res.test_metadata)
            elif 'reason' in kw:
                extra['reason'] = str(kw['reason'])
            ev('hook' if tag == 'first' else 'hook2', key=name, **extra)
        args = {'test_avoided': ('reason',), 'test_skip': ('reason',), 'error_added': ('error', 'result'),
                'interruption_added': ('result', 'exception'), 'tests_loaded': ('tests',)}.get(name, ())
        # gossip hooks with declared arguments pass keywords; a **kw callback takes any
        return callback

    for name in names:
        gossip.register(monitor(name, 'first'), 'slash.' + name, token=token, reentrant=True)
        if name in hook_actions:
            for j, actions in enumerate(hook_actions[name]):
                key = 'hook:{}:{}'.format(name, j)
                ACTIONS[key] = actions

                def misbehave(key=key, **kw):
                    n = COUNTS[key] = COUNTS.get(key, 0) + 1
                    do(ACTIONS[key], key, n, {}, {})
                gossip.register(misbehave, 'slash.' + name, token=token, reentrant=True)
            gossip.register(monitor(name, 'second'), 'slash.' + name, token=token, reentrant=True)


# --- engine B -------------------------------------------------------------------------------------------------------
TEV = []        # events of generated project trees
PLAN = None     # when set, called as PLAN(kind, key) at every place of a generated tree


class TFV(object):

    """Value of a generated fixture: knows which fixture made it and from which parameter values"""

    def __init__(self, key, name, serial, assign):
        self.key, self.name, self.serial, self.assign = key, name, serial, assign

    def __repr__(self):
        return '<{} {}#{}>'.format(self.name, self.key, self.serial)


class Req(slash.core.requirements.Requirement):

    def __init__(self, met, msg):
        super().__init__(None)
        self.met, self.msg = met, msg

    def is_met(self):
        return self.met, self.msg


def _describe(deps, params):
    """({arg: value description}, merged {param/index: repr})"""
    assign = {k: repr(v) for k, v in params.items()}
    args = {}
    for arg, v in deps.items():
        if isinstance(v, TFV):
            args[arg] = {'F': v.key, 'n': v.serial}
            for k, x in v.assign.items():
                if assign.setdefault(k, x) != x:
                    assign[k] = 'CONFLICT {} / {}'.format(assign[k], x)
        else:
            args[arg] = {'V': repr(v)}
    return args, assign


def fx(key, name, deps, params, this):
    args, assign = _describe(deps, params)
    fv = TFV(key, name, next_serial('fx'), assign)
    TEV.append({'k': 'fx', 'key': key, 'n': fv.serial, 'args': args, 'assign': assign, 'own': {k: repr(v) for k, v in params.items()},
                'T': None if context.test is None else id(context.test)})
    for v in deps.values():
        if isinstance(v, TFV):
            for k, x in v.assign.items():
                assign[k] = x if assign.get(k, x) == x else assign[k]
    if this is not None:
        this.add_cleanup(lambda: fxdown(fv))
    if PLAN is not None:
        PLAN('fx', key)
    return fv


def fxdown(fv):
    TEV.append({'k': 'down', 'key': fv.key, 'n': fv.serial})


def place(kind, key, deps, params):
    args, assign = _describe(deps, params)
    TEV.append({'k': kind, 'key': key, 'args': args, 'assign': assign, 'own': {k: repr(v) for k, v in params.items()},
                'T': id(context.test)})
    if PLAN is not None:
        PLAN(kind, key)
    for a in ACTIONS.get(key, ()):
        do([a], key, 1, {}, {})
