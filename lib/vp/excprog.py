"""Programs of nested exception contexts: an interpreter executing them with the real contexts of slash, and a reference for the events expected.

A program is a block: a list of statements (lists, so that they are JSON):
['raise', exc] ['again'] ['call', block] ['add', text]
['with', n, kind, args, block]      kind: handling | swallowing | raises | allowing
['stack', n, [[kind, args] ...], block, exc or None]   the contexts in an ExitStack; exc is raised by a callback leaving first
['gen', n, args, block]             handling_exceptions inside a generator based context manager
['made', n, args, block]            handling_exceptions created by another function
['thread', n, block] ['marking', n, block]
['try', n, types, block, [how, exc or None]]   how: drop | reraise | from | copy | wrap
exc: [type name, mark or None, number]"""
import copy

FAILURES = ('AssertionError', 'TestFailed', 'NotCaught')
SKIPS = ('SkipTest', 'MySkip')
INTERRUPTS = ('KeyboardInterrupt', 'TerminatedException')
#: name -> bases, most derived first (as far as contexts name them)
BASES = {
    'ValueError': ['Exception'], 'KeyError': ['LookupError', 'Exception'], 'LookupError': ['Exception'], 'OSError': ['Exception'], 'StopIteration': ['Exception'],
    'AssertionError': ['Exception'], 'TestFailed': ['AssertionError', 'Exception'], 'NotCaught': ['TestFailed', 'AssertionError', 'Exception'], 'Exception': [],
    'SkipTest': ['Exception'], 'MySkip': ['Exception'], 'KeyboardInterrupt': [], 'TerminatedException': [], 'SystemExit': [], 'GeneratorExit': [],
    'MyBase': [], 'E1': ['Exception'], 'E2': ['E1', 'Exception'],
    'Forwarding': ['Exception'], 'KeyGetattr': ['Exception'], 'NoSetattr': ['Exception'], 'FwdSetattr': ['Exception'], 'AlwaysEqual': ['Exception'], 'BadEqual': ['Exception'], 'Falsy': ['Exception'],
    'BadRepr': ['Exception'], 'BadStr': ['ValueError', 'Exception'],
    'NsBase': ['Exception'], 'NsDerived': ['NsBase', 'Exception'], 'PlainBase': ['Exception'], 'PlainNs': ['PlainBase', 'Exception'], 'FatalCls': ['Exception'],
}
CATCHABLE = ['Exception', 'ValueError', 'LookupError', 'KeyError', 'OSError', 'AssertionError', 'TestFailed', 'SkipTest', 'MySkip', 'E1', 'E2', 'NsBase', 'NsDerived', 'PlainBase', 'PlainNs', 'BaseException', 'MyBase',
             'KeyboardInterrupt', 'SystemExit', 'Forwarding', 'KeyGetattr', 'BadEqual', 'GeneratorExit', 'StopIteration']
NOCOPY = ('NotCaught', 'NoSetattr', 'ExpectedExceptionNotCaught')
CLASS_NOSWALLOW = ('NsBase', 'NsDerived', 'PlainNs')


#: attributes contextlib sets
STANDARD = ('__context__', '__cause__', '__traceback__', '__suppress_context__', '__notes__')


def isa(name, types):
    return any(t == 'BaseException' or t == name or t in BASES[name] for t in types)


def exception_classes():
    import slash
    from slash.exception_handling import mark_exception_fatal, noswallow
    from slash.exceptions import TerminatedException, TestFailed
    ns = {}

    def define(name, bases=(Exception,), **kw):
        ns[name] = type(name, bases, kw)
        return ns[name]

    def forward(self, name):
        return getattr(self.__dict__['inner'] if 'inner' in self.__dict__ else ValueError('inner'), name)

    def forward_set(self, name, value):
        if name in STANDARD:
            return Exception.__setattr__(self, name, value)
        setattr(self.__dict__.setdefault('inner', ValueError('inner')), name, value)

    def fail(self, *_):
        raise KeyError('hostile')

    def fail_set(self, name, value):
        if name in STANDARD:
            return Exception.__setattr__(self, name, value)
        raise KeyError('hostile')

    for t in (ValueError, KeyError, LookupError, OSError, StopIteration, AssertionError, KeyboardInterrupt, SystemExit, GeneratorExit, Exception, BaseException):
        ns[t.__name__] = t
    ns.update(TestFailed=TestFailed, SkipTest=slash.exceptions.SkipTest, TerminatedException=TerminatedException)
    define('MySkip')
    define('MyBase', (BaseException,))
    define('E2', (define('E1'),))
    define('Forwarding', __getattr__=forward)
    define('FwdSetattr', __getattr__=forward, __setattr__=forward_set)
    define('KeyGetattr', __getattr__=fail)
    define('NoSetattr', __setattr__=fail_set)
    define('AlwaysEqual', __eq__=lambda self, other: True, __hash__=None)
    define('BadEqual', __eq__=fail, __hash__=fail)
    define('Falsy', __bool__=lambda self: False)
    define('BadRepr', __repr__=fail)
    define('BadStr', (ValueError,), __str__=fail)
    noswallow(define('NsBase'))
    define('NsDerived', (ns['NsBase'],))
    noswallow(define('PlainNs', (define('PlainBase'),)))
    mark_exception_fatal(define('FatalCls'))
    return ns


class Interpreter(object):

    """Runs a program with the contexts of slash, appending what happens to `ev`"""

    def __init__(self, ev, classes=None):
        self.ev, self.cls = ev, classes or exception_classes()
        self.names, self.last, self.kept, self.tuples = {}, None, [], {}

    def name(self, e):
        if e is None:
            return None
        if id(e) in self.names:
            return self.names[id(e)]
        return type(e).__name__

    def make(self, exc, inner=None):
        from slash.exception_handling import disable_exception_swallowing, inhibit_unhandled_exception_traceback, mark_exception_fatal, noswallow
        tname, mark, num = exc
        e = self.cls[tname]('x@{}'.format(num))
        if tname in ('Forwarding', 'FwdSetattr') and inner is not None:
            e.__dict__['inner'] = inner
        self.label(e, 'x@{}'.format(num))
        if mark:
            returned = {'noswallow': noswallow, 'fatal': mark_exception_fatal, 'disable': disable_exception_swallowing, 'inhibit': inhibit_unhandled_exception_traceback}[mark](e)
            assert returned is e
        return e

    def label(self, e, name):
        self.names[id(e)] = name
        self.kept.append(e)

    def types(self, names):
        # the same object every time, as with a constant
        return self.tuples.setdefault(tuple(names), tuple(self.cls[n] for n in names))

    def context(self, kind, args):
        import slash
        from slash import exception_handling
        if kind == 'handling':
            kw = {}
            seq = list if args.get('list') else tuple
            if args.get('swallow'):
                kw['swallow'] = True
            if args.get('swallow_types') is not None:
                kw['swallow_types'] = seq(self.types(args['swallow_types']))
            if args.get('passthrough') is not None:
                kw['passthrough_types'] = seq(self.types(args['passthrough']))
            if args.get('context'):
                kw['context'] = args['context']
            if args.get('nofake'):
                kw['fake_traceback'] = False
            return exception_handling.handling_exceptions(**kw)
        if kind == 'swallowing':
            return exception_handling.get_exception_swallowing_context(*([] if args.get('default') else [False]))
        types = self.types(args['types'])
        if len(types) == 1 and not args.get('tuple'):
            types = types[0]
        return (slash.assert_raises if kind == 'raises' else slash.allowing_exceptions)(types, *([args['msg']] if args.get('msg') else []))

    def state(self, e):
        from slash.exception_handling import is_exception_fatal, is_exception_handled
        return None if e is None else (self.name(e), is_exception_handled(e), is_exception_fatal(e))

    def block(self, block):
        for st in block:
            self.statement(st)

    def statement(self, st):
        import contextlib
        import slash
        import threading
        from slash import exception_handling
        kind = st[0]
        if kind == 'raise':
            raise self.make(st[1])
        elif kind == 'again':
            if self.last is not None:
                raise self.last
        elif kind == 'call':
            self.block(st[1])
        elif kind == 'add':
            slash.add_error(st[1])
        elif kind == 'try':
            self.try_(st)
        elif kind == 'thread':
            got = []

            def target():
                try:
                    self.block(st[2])
                except BaseException as e:  # pylint: disable=broad-except
                    got.append(e)
            t = threading.Thread(target=target)
            t.start()
            t.join()
            self.ev.append(('thread', st[1], self.state(got[0] if got else None)))
            if got:
                self.kept.append(got[0])
        else:
            values = []
            self.ev.append(('enter', st[1]))
            try:
                if kind == 'with':
                    with self.context(st[2], st[3]) as value:
                        values.append(value)
                        self.block(st[4])
                elif kind == 'stack':
                    with contextlib.ExitStack() as stack:
                        for k, args in st[2]:
                            values.append(stack.enter_context(self.context(k, args)))
                        if st[4] is not None:
                            stack.callback(self.raise_, st[4])
                        self.block(st[3])
                elif kind == 'gen':
                    @contextlib.contextmanager
                    def generated():
                        with self.context('handling', st[2]) as value:
                            values.append(value)
                            yield
                    with generated():
                        self.block(st[3])
                elif kind == 'made':
                    with self.made(st[2]) as value:
                        values.append(value)
                        self.block(st[3])
                elif kind == 'marking':
                    @exception_handling.disable_exception_swallowing
                    def marking(block):
                        self.block(block)
                    marking(st[2])
                else:
                    raise RuntimeError(kind)
            except BaseException as e:
                self.ev.append(('left', st[1], self.state(e), [self.name(getattr(v, 'exception', None)) for v in values]))
                raise
            self.ev.append(('left', st[1], None, [self.name(getattr(v, 'exception', None)) for v in values]))

    def made(self, args):
        return self.context('handling', args)

    def raise_(self, exc):
        raise self.make(exc)

    def try_(self, st):
        how, exc = st[4]
        try:
            self.block(st[3])
        except self.types(st[2]) as e:
            self.ev.append(('except', st[1], self.state(e)))
            if how == 'reraise':
                raise
            if how == 'from':
                raise self.make(exc) from e
            if how == 'copy':
                if type(e).__name__ in NOCOPY:
                    raise
                c = copy.copy(e)
                self.label(c, 'x@{}'.format(exc[2]))
                raise c
            if how == 'wrap':
                raise self.make(exc, inner=e)
            self.last = e


class Abstract(object):

    def __init__(self, name, type_, mark=None):
        self.name, self.type, self.reason = name, type_, name
        self.noswallow = mark in ('noswallow', 'disable') or type_ in CLASS_NOSWALLOW
        self.fatal = mark == 'fatal' or type_ == 'FatalCls'
        self.handled = self.added = False

    def isa(self, types):
        return isa(self.type, types)


class _Raised(Exception):

    def __init__(self, exc):
        self.exc = exc


class Reference(object):

    def __init__(self, session=True, pdb=False):
        self.ev, self.ignored, self.session, self.pdb, self.last = [], [], session, pdb, None

    def make(self, exc):
        return Abstract('x@{}'.format(exc[2]), exc[0], exc[1])

    def state(self, e):
        return None if e is None else (e.name, e.handled, e.fatal)

    def handle(self, e):
        """What the innermost handling context does with an exception"""
        if e.handled:
            return
        e.handled = True
        if self.session and not e.added:
            e.added = True
            if e.type in FAILURES:
                self.ev.append(('added', 'failure', e.name))
            elif e.type in SKIPS:
                self.ev.append(('added', 'skip', e.reason))
            elif e.type in INTERRUPTS:
                self.ev.append(('added', 'interruption', e.name))
            elif e.type != 'GeneratorExit':
                self.ev.append(('added', 'error', e.name))
        self.ev.append(('before',))
        if self.pdb and e.type not in INTERRUPTS + ('SystemExit',) and not (self.session and e.type in SKIPS):
            self.ev.append(('debugger', e.name))
        self.ev.append(('after',))

    def block(self, block):
        for st in block:
            self.statement(st)

    def contexts(self, nid, ctxs, body):
        """Runs body within contexts, outermost first; returns what they yield"""
        values = [None] * len(ctxs)

        def nest(i):
            if i == len(ctxs):
                return body()
            kind, args = ctxs[i]
            if kind == 'swallowing':
                try:
                    nest(i + 1)
                except _Raised as r:
                    if r.exc.noswallow:
                        raise
            elif kind == 'handling':
                passthrough = list(args.get('passthrough') or ()) + list(self.ignored)
                swallow = list(args.get('swallow_types') or ()) + (['Exception'] if args.get('swallow') else [])
                try:
                    nest(i + 1)
                except _Raised as r:
                    e = r.exc
                    if e.isa(passthrough):
                        raise
                    self.handle(e)
                    values[i] = e.name
                    if e.type in (SKIPS if self.session else ('SkipTest',)) or e.type in INTERRUPTS + ('SystemExit',) or not e.isa(swallow):
                        raise
            else:
                prev, self.ignored = self.ignored, self.ignored + args['types']
                caught = False
                try:
                    nest(i + 1)
                except _Raised as r:
                    self.ignored = prev
                    if not r.exc.isa(args['types']):
                        raise
                    caught = True
                    values[i] = r.exc.name
                finally:
                    self.ignored = prev
                if not caught and kind == 'raises':
                    raise _Raised(Abstract('ExpectedExceptionNotCaught', 'NotCaught'))
        self.ev.append(('enter', nid))
        try:
            nest(0)
        except _Raised as r:
            self.ev.append(('left', nid, self.state(r.exc), values))
            raise
        self.ev.append(('left', nid, None, values))

    def statement(self, st):
        kind = st[0]
        if kind == 'raise':
            raise _Raised(self.make(st[1]))
        elif kind == 'again':
            if self.last is not None:
                raise _Raised(self.last)
        elif kind == 'call':
            self.block(st[1])
        elif kind == 'add':
            if self.session:
                self.ev.append(('added', 'error', st[1]))
        elif kind == 'thread':
            prev, self.ignored = self.ignored, []
            got = None
            try:
                self.block(st[2])
            except _Raised as r:
                got = r.exc
            finally:
                self.ignored = prev
            self.ev.append(('thread', st[1], self.state(got)))
        elif kind == 'try':
            how, exc = st[4]
            try:
                self.block(st[3])
            except _Raised as r:
                e = r.exc
                if not e.isa(st[2]):
                    raise
                self.ev.append(('except', st[1], self.state(e)))
                if how == 'reraise' or how == 'copy' and e.type in NOCOPY:
                    raise
                if how in ('from', 'wrap'):
                    raise _Raised(self.make(exc))
                if how == 'copy':
                    c = Abstract('x@{}'.format(exc[2]), e.type)
                    c.reason = e.reason
                    raise _Raised(c)
                self.last = e
        elif kind == 'with':
            self.contexts(st[1], [(st[2], st[3])], lambda: self.block(st[4]))
        elif kind == 'stack':
            def body():
                try:
                    self.block(st[3])
                except _Raised:
                    if st[4] is None:
                        raise
                if st[4] is not None:
                    raise _Raised(self.make(st[4]))
            self.contexts(st[1], st[2], body)
        elif kind in ('gen', 'made'):
            self.contexts(st[1], [('handling', st[2])], lambda: self.block(st[3]))
        elif kind == 'marking':
            self.ev.append(('enter', st[1]))
            try:
                self.block(st[2])
            except _Raised as r:
                r.exc.noswallow = True
                self.ev.append(('left', st[1], self.state(r.exc), []))
                raise
            self.ev.append(('left', st[1], None, []))


HOSTILE = ['Forwarding', 'KeyGetattr', 'NoSetattr', 'FwdSetattr', 'AlwaysEqual', 'BadEqual', 'Falsy', 'BadRepr', 'BadStr']


def gen_program(rng, copies=False):
    counter = [0]

    def num():
        counter[0] += 1
        return counter[0]

    def exc():
        r = rng.random()
        if r < 0.5:
            t = rng.choice(['ValueError', 'KeyError', 'LookupError', 'OSError', 'E1', 'E2', 'AssertionError', 'TestFailed'])
        elif r < 0.7:
            t = rng.choice(['SkipTest', 'MySkip', 'KeyboardInterrupt', 'TerminatedException', 'SystemExit', 'GeneratorExit', 'StopIteration', 'MyBase'])
        elif r < 0.85:
            t = rng.choice(HOSTILE)
        else:
            t = rng.choice(['NsBase', 'NsDerived', 'PlainBase', 'PlainNs', 'FatalCls'])
        mark = rng.choice(['noswallow', 'fatal', 'disable', 'inhibit']) if not copies and rng.random() < 0.2 else None
        return [t, mark, num()]

    def types(n=None):
        return rng.sample(CATCHABLE, n or rng.choice([1, 1, 2, 3]))

    def handling():
        a = {}
        if rng.random() < 0.3:
            a['swallow'] = True
        if rng.random() < 0.3:
            a['swallow_types'] = types()
        if rng.random() < 0.3:
            a['passthrough'] = types()
        if rng.random() < 0.2:
            a['context'] = rng.choice(['doing {0} things', 'some context'])
        if rng.random() < 0.15:
            a['nofake'] = True
        if rng.random() < 0.2:
            a['list'] = True
        return a

    def ctx():
        k = rng.choice(['handling', 'handling', 'handling', 'swallowing', 'raises', 'allowing'])
        if k == 'handling':
            return [k, handling()]
        if k == 'swallowing':
            return [k, {'default': rng.random() < 0.5}]
        return [k, {'types': types(), 'tuple': rng.random() < 0.3, 'msg': rng.choice([None, None, 'expected it'])}]

    def block(depth):
        out = []
        for _ in range(rng.choice([1, 1, 2]) if depth > 3 else rng.choice([1, 2, 2, 3])):
            out.append(statement(depth))
        return out

    def statement(depth):
        r = rng.random()
        if depth >= 7 or r < 0.22 and depth > 1:
            return ['raise', exc()] if rng.random() < 0.85 else rng.choice([['again'], ['add', 'explicit@{}'.format(num())]])
        if r < 0.25:
            # contexts of the same types within each other, and one of them left
            t = rng.choice(['ValueError', 'KeyError', 'E1', 'Exception'])
            raised = ['raise', [t if t != 'Exception' else 'OSError', None, num()]]
            kinds = [rng.choice(['raises', 'allowing']) for _ in range(2)]
            tup = rng.random() < 0.5
            inner = ['with', num(), kinds[1], {'types': [t], 'tuple': tup, 'msg': None}, [raised]]
            outer = [inner, ['with', num(), 'handling', handling(), [['raise', [raised[1][0], None, num()]]]]]
            return ['with', num(), kinds[0], {'types': [t], 'tuple': tup, 'msg': None}, outer if rng.random() < 0.8 else [['call', outer]]]
        if r < 0.6:
            k, a = ctx()
            return ['with', num(), k, a, block(depth + 1)]
        if r < 0.68:
            return ['stack', num(), [ctx() for _ in range(rng.choice([1, 2, 3]))], block(depth + 1), exc() if rng.random() < 0.5 else None]
        if r < 0.72:
            return ['gen', num(), handling(), block(depth + 1)]
        if r < 0.76:
            return ['made', num(), handling(), block(depth + 1)]
        if r < 0.8:
            return ['thread', num(), block(depth + 1)]
        if r < 0.84 and not copies:
            return ['marking', num(), block(depth + 1)]
        if r < 0.97:
            how = rng.choice(['drop', 'drop', 'drop', 'reraise', 'from', 'wrap'] + (['copy'] * 3 if copies else []))
            e = exc() if how in ('from', 'copy') else None
            if how == 'wrap':
                e = [rng.choice(['Forwarding', 'FwdSetattr']), None, num()]
            return ['try', num(), rng.choice([['BaseException'], ['Exception'], types()]), block(depth + 1), [how, e]]
        return ['call', block(depth + 1)]
    return block(0)


def smaller(block):
    """Programs with something left out"""
    for i, st in enumerate(block):
        yield block[:i] + block[i + 1:]
        for k, x in enumerate(st):
            if isinstance(x, list) and x and isinstance(x[0], list) and isinstance(x[0][0], str) and x[0][0] in ('raise', 'again', 'call', 'add', 'with', 'stack', 'gen', 'made', 'thread', 'marking', 'try'):
                if st[0] not in ('thread',):
                    yield block[:i] + x + block[i + 1:]
                for y in smaller(x):
                    yield block[:i] + [st[:k] + [y] + st[k + 1:]] + block[i + 1:]
