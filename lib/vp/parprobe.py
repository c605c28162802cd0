"""Monitors of parallel runs: loaded from the user customization file of the parent, of every worker and of the sequential reference run.

The plan (VP_PLAN, JSON) decides what happens to a test from its address and parameters only, so that a test behaves the same wherever it runs.
Every process appends to the event file (VP_EVFILE): one JSON object per line, with a monotonic time stamp, including the call and return of
every XML-RPC request it sends. Delays and faults are injected at the same points."""
import hashlib
import json
import os
import random
import signal
import sys
import threading
import time

PLAN = {}
ROLE = None          # 'seq', 'parent' or the id of a worker
_fd = None


class State(object):
    fired = frozenset()
    count = 0        # tests started (parent: handed out) in this process
    rpcs = {}
    done = set()


def ev(kind, **kw):
    kw.update(k=kind, t=time.monotonic(), w=ROLE, pid=os.getpid())
    os.write(_fd, (json.dumps(kw, default=repr) + '\n').encode('utf-8', 'replace'))


def ident(test):
    """What identifies a test in all processes (its repetitions excepted)"""
    md = test.__slash__
    return [os.path.basename(md.file_path), os.path.basename(os.path.dirname(md.file_path)), md.address_in_file,
            sorted([k, v] for k, v in md.variation.id.items())]


def seeded(what):
    h = hashlib.sha256(repr((PLAN['seed'], what)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Custom(Exception):

    def __init__(self, a, b):
        super().__init__(a, b)
        self.extra = b


class Unpicklable(object):

    def __init__(self, name):
        self.name = name
        self.fn = lambda: 0

    def __repr__(self):
        return '<unpicklable {}>'.format(self.name)


class LocalWarning(UserWarning):
    pass


TEXTS = ['plain', 'two\nlines', '', 'ünïcode', '<&"\'>', 'tab\there', '{} {0} %s', 'x' * 300, 'null\x00byte', 'bell\x07', 'sur\udc80rogate', '\x1b[31mred', 'cr\rlf']
RAISING = ['fail', 'error', 'custom', 'assert', 'nested', 'deep', 'skip', 'undo']
ADDING = ['adderr', 'addfail', 'addskip', 'errobj', 'badskip', 'warn', 'warn', 'tw', 'logwarn', 'detail', 'detail', 'append', 'fact', 'data', 'baddata', 'baddetail', 'gadd']
PLACES = ['test', 'test', 'test', 'test', 'before', 'after', 'fx', 'cleanup', 'start', 'end']


def planned(test):
    """[(place, action, number)] of a test"""
    r = seeded(['plan', ident(test)])
    out = []
    if r.random() < PLAN.get('p_act', 0.5):
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            place = r.choice(PLACES)
            kinds = [k for k in ADDING if k != 'gadd']
            if place in ('test', 'before', 'fx'):
                kinds = kinds + RAISING * 2
            elif place in ('after', 'cleanup'):
                kinds = kinds + [k for k in RAISING if k != 'skip'] * 2
            if place != 'start' and place != 'end' and r.random() < PLAN.get('fatal', 0):
                kinds = ['fatal', 'fatalfail', 'fatalfail']
            kind = r.choice(PLAN.get('actions') or kinds)
            out.append((place, kind, r.randrange(10 ** 6)))
    if PLAN.get('late') and r.random() < PLAN['late']:
        out.insert(0, (r.choice(['test', 'test', 'before', 'start']), r.choice(['latemod', 'latesess']), r.randrange(10 ** 6)))
    return out


def act(kind, n):
    import warnings
    import slash
    from slash.ctx import context
    text = TEXTS[n % len(TEXTS)]
    if kind == 'fail':
        raise slash.exceptions.TestFailed('planned {}'.format(n))
    if kind == 'error':
        raise ValueError('planned {} {}'.format(n, text))
    if kind == 'assert':
        a, b = n, n + 1
        assert a == b
    if kind == 'custom':
        raise Custom(text, Unpicklable(n))
    if kind in ('fatal', 'fatalfail'):
        e = (ValueError if kind == 'fatal' else [slash.exceptions.TestFailed, AssertionError][n % 2])('fatal planned {}'.format(n))
        raise e if PLAN.get('unfatal') else slash.exception_handling.mark_exception_fatal(e)
    if kind == 'skip':
        slash.skip_test('planned {} {}'.format(n, text))
    elif kind == 'addskip':
        context.result.add_skip('planned {}'.format(n))
    elif kind == 'badskip':
        context.result.add_skip(Unpicklable(n))
    elif kind == 'adderr':
        slash.add_error('planned {} {}'.format(n, text))
    elif kind == 'addfail':
        slash.add_failure('planned {} {}'.format(n, text))
    elif kind == 'errobj':
        slash.add_error(Unpicklable(n))
    elif kind == 'warn':
        warnings.warn('w:{} {}'.format(n, text), [UserWarning, DeprecationWarning, RuntimeWarning, LocalWarning][n % 4])
    elif kind == 'tw':
        def emit(k):
            for j in range(6):
                warnings.warn('w:{} {} {}'.format(n, k, j), RuntimeWarning)
        threads = [threading.Thread(target=emit, args=(k,)) for k in range(4)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    elif kind in ('latemod', 'latesess'):
        def late():
            raise ValueError('late {} {}'.format(n, text))
        slash.add_cleanup(late, scope='module' if kind == 'latemod' else 'session')
    elif kind == 'logwarn':
        slash.logger.warning('w:{}', n)
    elif kind == 'detail':
        context.result.details.set('d{}'.format(n % 4), [n, text, None, {'a': [n]}, (1, n)][n % 5])
    elif kind == 'append':
        context.result.details.append('l{}'.format(n % 3), n)
    elif kind == 'fact':
        context.result.facts.set('f{}'.format(n % 4), [n, text, True][n % 3])
    elif kind == 'data':
        context.result.data['k{}'.format(n % 4)] = {'n': n, 't': text}
    elif kind == 'baddata':
        context.result.data['bad'] = Unpicklable(n)
    elif kind == 'baddetail':
        context.result.details.set('bad', Unpicklable(n))
    elif kind == 'nested':
        try:
            raise KeyError(n)
        except KeyError:
            raise RuntimeError('planned nested {}'.format(n))
    elif kind == 'undo':
        with slash.exception_handling.handling_exceptions(swallow=True):
            raise OSError(5, 'planned {}'.format(n))
    elif kind == 'deep':
        def rec(k):
            if k == 0:
                raise IndexError('planned {}'.format(n))
            rec(k - 1)
        rec(n % 30)


def perform(where):
    from slash.ctx import context
    test = context.test
    if test is None:
        return
    for i, (place, kind, n) in enumerate(planned(test)):
        if place == where and i not in State.fired:
            State.fired.add(i)
            act(kind, n)


def delay(what, n=None):
    d = PLAN.get('delays', {}).get(what) or PLAN.get('delays', {}).get('any')
    if d:
        r = seeded(['delay', what, ROLE, State.count if n is None else n])
        if r.random() < d[0]:
            time.sleep(r.random() * d[1])


def fault(point, nth=None, worker=None):
    """Performs the faults planned for this process at this point"""
    for i, f in enumerate(PLAN.get('faults', ())):
        if f['role'] != ROLE or f['point'] != point or i in State.done or (f.get('nth') is not None and nth is not None and f['nth'] != nth):
            continue
        State.done.add(i)
        strike(f, point, worker)


def strike(f, point, worker=None):
    what = f['what']
    ev('fault', what=what, point=point, nth=f.get('nth'))
    if what == 'kill':
        os.kill(os.getpid(), signal.SIGKILL)
        time.sleep(60)
    elif what == 'stop':
        os.kill(os.getpid(), signal.SIGSTOP)
    elif what == 'exit':
        os._exit(f.get('code', 0))
    elif what == 'term':
        os.kill(os.getpid(), signal.SIGTERM)
        for _ in range(100):
            time.sleep(0.01)
    elif what == 'raise':
        raise RuntimeError('injected at {}'.format(point))
    elif what == 'kbd':
        raise KeyboardInterrupt()
    elif what == 'sysexit':
        sys.exit(f.get('code', 3))
    elif what in ('parent-int', 'parent-term'):
        # the run is interrupted: by a signal which only the parent gets
        target = parent_pid()
        ev('interrupt', target=target)
        if target is not None:
            os.kill(target, signal.SIGINT if what == 'parent-int' else signal.SIGTERM)
    elif what in ('worker-kill', 'worker-stop'):
        # a worker is struck from outside
        target = f.get('worker') or worker
        pid = None
        for line in open(os.environ['VP_EVFILE'], encoding='utf-8'):
            e = json.loads(line)
            if e['w'] == target and e['k'] == 'boot':
                pid = e['pid']
        ev('strike', worker=target, target=pid)
        if pid is not None:
            os.kill(pid, signal.SIGKILL if what == 'worker-kill' else signal.SIGSTOP)


def parent_pid():
    for line in open(os.environ['VP_EVFILE'], encoding='utf-8'):
        e = json.loads(line)
        if e['w'] == 'parent' and e['k'] == 'boot':
            return e['pid']
    return None


def _log_rpc():
    """Records (and delays, and makes fail) every request a worker sends to the parent"""
    import xmlrpc.client as client
    original = client.Transport.request
    lock = threading.Lock()

    def request(self, host, handler, request_body, verbose=False):
        params, method = client.loads(request_body)
        if method == 'keep_alive':
            fault('rpc:keep_alive')
            ev('alive')
            return original(self, host, handler, request_body, verbose)
        with lock:
            n = State.rpcs[method] = State.rpcs.get(method, 0) + 1
        brief = [p for p in params if isinstance(p, (int, str))][:2]
        ev('call', m=method, n=n, a=brief)
        delay('call', [method, n])
        fault('call:' + method, n)
        out = original(self, host, handler, request_body, verbose)
        ret = out[0] if isinstance(out, tuple) and out else out
        ev('return', m=method, n=n, r=ret[1] if isinstance(ret, list) and len(ret) == 2 else ret)
        delay('return', [method, n])
        fault('return:' + method, n)
        return out
    client.Transport.request = request


def install():
    """Called from the customization file"""
    global PLAN, ROLE, _fd
    path = os.environ.get('VP_PLAN')
    if not path:
        return
    with open(path, encoding='utf-8') as f:
        PLAN = json.load(f)
    argv = sys.argv
    ROLE = argv[argv.index('--parallel-worker-id') + 1] if '--parallel-worker-id' in argv else os.environ['VP_ROLE']
    child = ROLE not in ('seq', 'parent')
    _fd = os.open(os.environ['VP_EVFILE'], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    ev('boot')
    delay('boot')
    fault('boot')
    import gossip
    from slash.ctx import context
    from vp import vpmon

    if child:
        _log_rpc()
    elif ROLE == 'parent':
        def audit(name, args):
            if name in ('os.kill', 'os.killpg') and args[1] and args[0] != os.getpid():
                ev('kill', target=args[0], sig=int(args[1]))
        sys.addaudithook(audit)
    fx_keys = set(PLAN.get('fx_keys', ()))
    late_fx = set(PLAN.get('late_fx', ()))

    def plan(kind, key):
        if context.test is None:
            return
        if kind == 'test':
            ev('body', i=context.test.__slash__.test_index0, id=ident(context.test))
            fault('body', State.count)
            delay('body')
        if kind != 'fx':
            perform(kind)
        elif key in fx_keys:
            perform('fx')
        elif key in late_fx:
            raise ValueError('late fixture')
    vpmon.PLAN = plan

    def reg(name):
        def deco(fn):
            gossip.register(fn, 'slash.' + name, token='parprobe')
            return fn
        return deco

    if child or ROLE == 'seq':
        @reg('test_start')
        def _start():
            import slash
            State.count += 1
            State.fired = set()
            test = context.test
            ev('start', i=test.__slash__.test_index0, id=ident(test))
            fault('start', State.count)
            for i, (place, kind, x) in enumerate(planned(test)):
                if place == 'cleanup':
                    State.fired.add(i)
                    slash.add_cleanup(lambda kind=kind, x=x: act(kind, x))
            delay('start')
            perform('start')

        @reg('test_interrupt')
        def _interrupt():
            ev('test_interrupt', i=context.test.__slash__.test_index0)

        @reg('before_test_cleanups')
        def _cleanups():
            fault('cleanups', State.count)
            delay('cleanups')

        @reg('test_end')
        def _end():
            test = context.test
            ev('end', i=test.__slash__.test_index0, id=ident(test))
            fault('end', State.count)
            delay('end')
            perform('end')

    def simple(name):
        @reg(name)
        def handler():
            ev(name)
            fault(name)
            delay(name)
    for name in ('configure', 'before_session_start', 'session_start', 'after_session_start', 'before_session_cleanup', 'session_end', 'after_session_end',
                 'app_quit', 'session_interrupt'):
        simple(name)

    @reg('tests_loaded')
    def _loaded(tests):
        how = PLAN.get('sort')
        if how:
            for n, t in enumerate(tests):
                r = seeded(['sort', ident(t)])
                t.__slash__.set_sort_key((r.randrange(3), n) if how == 'some' else (-n,))
        if ROLE == 'parent':
            manager = context.session.parallel_manager
            for what in ('force', 'exclude'):
                for wid, idx in PLAN.get(what, ()):
                    if idx < len(tests):
                        worker = manager.workers[wid]
                        getattr(worker, what + '_test')(tests[idx])
        ev('loaded', n=len(tests))
        fault('loaded')
        delay('loaded')

    @reg('test_distributed')
    def _distributed(test_logical_id, worker_session_id):
        State.count += 1
        ev('distributed', to=worker_session_id, id=test_logical_id)
        delay('distributed')
        fault('distributed', State.count, worker_session_id.rsplit('_', 1)[1])

    @reg('worker_connected')
    def _connected(session_id):
        State.rpcs['connected'] = n = State.rpcs.get('connected', 0) + 1
        ev('connected', sid=session_id)
        fault('connected', n, session_id.rsplit('_', 1)[1])
        delay('connected', n)

    @reg('before_worker_start')
    def _before_worker(worker_config):
        ev('before_worker', to=worker_config.get_worker_id())
        fault('before_worker', int(worker_config.get_worker_id()))
