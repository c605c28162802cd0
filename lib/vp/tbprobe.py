"""Programs of exceptions, contexts and spliced tracebacks, and what is checked about the memory they live in.

A program is a list of statements (JSON):
['raise', n] ['h', opts, block] ['made', opts, block] ['stack', n, block] ['gen', how, block] ['try', how, block] ['rec', depth, block] ['closure', block] ['method', block]
['thread', block] ['loop', n, block] ['gc', n] ['walk', i] ['show', i] ['drop', i] ['dropall'] ['clear', i] ['rethrow', i] ['again', i] ['link', i, j] ['copy', i] ['error'] ['census']

Also a script: `tbprobe.py CASE.json OUT.json` runs a program outside a session (under valgrind)."""
import collections
import contextlib
import copy
import gc
import json
import sys
import threading
import traceback
import types

KINDS = (types.TracebackType, types.FrameType)
MAX_KEPT = 40


class E0(Exception):
    pass


class E1(E0):

    def __init__(self, *args):
        super().__init__(*args)
        self.me = self          # a cycle
        self.payload = bytearray(300)


EXCEPTIONS = [ValueError, KeyError, AssertionError, E0, E1, OSError, E1, ZeroDivisionError]


class Problem(Exception):
    pass


class Machine(object):

    def __init__(self):
        self.kept = []
        self.seen = self.raised = self.censuses = self.objects = self.walked = 0
        self.problems = []
        self.lock = threading.Lock()

    def problem(self, kind, text):
        if len(self.problems) < 5:
            self.problems.append((kind, text))

    # what the monitors get hold of

    def capture(self, exc_info):
        if exc_info is None or exc_info is True or exc_info[1] is None:
            return
        with self.lock:
            self.seen += 1
            self.kept.append((exc_info[1], exc_info[2]))
            if len(self.kept) > MAX_KEPT:
                del self.kept[0]
        self.structure(exc_info[2])

    def structure(self, tb):
        """A traceback is a finite chain of traceback objects which refer to frames"""
        n = 0
        while tb is not None:
            if type(tb) is not types.TracebackType or type(tb.tb_frame) is not types.FrameType:
                self.problem('foreign-object', 'a traceback leads to {} with {}'.format(type(tb), type(tb.tb_frame)))
                return
            lineno, code = tb.tb_lineno, tb.tb_frame.f_code
            if not (tb.tb_lasti >= -1 and tb.tb_lasti < max(2, len(code.co_code))):
                self.problem('offset', 'a traceback refers to instruction {} of {}, which has {}'.format(tb.tb_lasti, code.co_name, len(code.co_code)))
                return
            if lineno is not None and lineno < code.co_firstlineno - 1:
                self.problem('line', 'a traceback refers to line {} of {}, which starts at {}'.format(lineno, code.co_name, code.co_firstlineno))
                return
            n += 1
            if n > 20000:
                self.problem('endless', 'a traceback does not end')
                return
            tb = tb.tb_next
        self.walked += n

    def census(self):
        """Traceback and frame objects must have at least as many references as objects refer to them, and at least one"""
        objs = gc.get_objects()
        mine = {}
        for o in objs:
            if type(o) in KINDS:
                mine[id(o)] = o
        incoming = collections.Counter()
        for o in objs:
            if o is mine or o is objs:
                continue
            for r in gc.get_referents(o):
                if id(r) in mine:
                    incoming[id(r)] += 1
        o = r = None
        self.censuses += 1
        self.objects += len(mine)
        for key in list(mine):
            o = mine[key]
            count = sys.getrefcount(o) - 4      # objs, mine, o, the argument
            if count < incoming[key]:
                self.problem('refcount-low', 'a {} is referred to by {} objects but has {} references'.format(type(o).__name__, incoming[key], count))
            elif count <= 0 and not executing(o):
                self.problem('refcount-zero', 'a live {} has {} references'.format(type(o).__name__, count))

    # statements

    def block(self, stmts):
        for s in stmts:
            self.step(s)

    def context(self, opts):
        from slash.exception_handling import handling_exceptions
        kw = {}
        if opts & 1:
            kw['swallow'] = True
        if opts & 2:
            kw['context'] = 'ctx'
        if opts & 4:
            kw['swallow_types'] = (E0,)
        if opts & 8:
            kw['passthrough_types'] = (KeyError,)
        if opts & 16:
            kw['fake_traceback'] = False
        return handling_exceptions(**kw)

    def step(self, s):
        getattr(self, 'do_' + s[0])(*s[1:])

    def do_raise(self, n):
        self.raised += 1
        raise EXCEPTIONS[n % len(EXCEPTIONS)]('e{}'.format(n))

    def do_h(self, opts, block):
        with self.context(opts):
            self.block(block)

    def do_made(self, opts, block):
        def make(n):
            return make(n - 1) if n else self.context(opts)
        ctx = make(opts % 4)
        with ctx:
            self.block(block)
        if opts % 3 == 0:
            with ctx:       # contexts can be entered again
                self.block(block)

    def do_stack(self, n, block):
        with contextlib.ExitStack() as stack:
            for k in range(n):
                stack.enter_context(self.context(k * 7 % 32))
                if k % 2:
                    stack.callback(gc.collect, 0)
            self.block(block)

    def do_gen(self, how, block):
        def gen():
            with self.context(how):
                yield 1
                self.block(block)
                yield 2
        g = gen()
        next(g)
        if how % 4 == 0:
            next(g, None)
        elif how % 4 == 1:
            try:
                g.throw(E1('thrown'))
            except StopIteration:
                pass
        elif how % 4 == 2:
            g.close()

    def do_try(self, how, block):
        try:
            self.block(block)
        except (Exception, GeneratorExit) as e:  # pylint: disable=broad-except
            if how == 'reraise':
                raise
            if how == 'from':
                raise E0('from') from e
            if how == 'wrap':
                raise ValueError('wrap')
            if how == 'none':
                raise e.with_traceback(None)
            if how == 'cut':
                raise e.with_traceback(e.__traceback__.tb_next)
            if how == 'again':
                raise e
            if how == 'kept' and self.kept:
                raise e.with_traceback(self.kept[-1][1])
            if how == 'keep':
                with self.lock:
                    self.kept.append((e, e.__traceback__))

    def do_rec(self, depth, block):
        local = [depth]
        if depth:
            self.do_rec(depth - 1, block)
        else:
            self.block(block)
        del local

    def do_closure(self, block):
        big = bytearray(100)

        def inner():
            assert big is not None
            return self.block(block)
        return [inner() for _ in range(1)]

    def do_method(self, block):
        class C(object):
            def __del__(this):
                pass

            def go(this):
                self.block(block)
        C().go()

    def do_thread(self, block):
        def run():
            try:
                with self.context(1):
                    self.block(block)
            except (Exception, GeneratorExit):  # pylint: disable=broad-except
                pass
        ts = [threading.Thread(target=run) for _ in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def do_loop(self, n, block):
        for _ in range(n):
            try:
                self.block(block)
            except (Exception, GeneratorExit):  # pylint: disable=broad-except
                pass

    def do_gc(self, n):
        gc.collect(n % 3)

    def pick(self, i):
        with self.lock:
            return self.kept[i % len(self.kept)] if self.kept else (None, None)

    def do_walk(self, i):
        e, tb = self.pick(i)
        self.structure(tb)
        while e is not None and i < 1000:
            self.structure(e.__traceback__)
            e, i = e.__cause__ or e.__context__, i + 100

    def do_show(self, i):
        e, tb = self.pick(i)
        if e is not None:
            traceback.format_exception(type(e), e, tb)
            for frame, lineno in traceback.walk_tb(tb):
                frame.f_back, len(frame.f_locals), lineno  # pylint: disable=pointless-statement

    def do_drop(self, i):
        with self.lock:
            if self.kept:
                del self.kept[i % len(self.kept)]

    def do_dropall(self):
        with self.lock:
            self.kept.clear()

    def do_clear(self, i):
        _, tb = self.pick(i)
        if tb is not None:
            traceback.clear_frames(tb)

    def do_rethrow(self, i):
        e, tb = self.pick(i)
        if e is not None:
            raise e.with_traceback(tb)

    def do_again(self, i):
        e, _ = self.pick(i)
        if e is not None:
            raise e

    def do_link(self, i, j):
        (_, a), (_, b) = self.pick(i), self.pick(j)
        if a is None or b is None:
            return
        while a.tb_next is not None and j % 3:
            a = a.tb_next
            j -= 1
        try:
            a.tb_next = b
        except ValueError:
            pass        # a loop

    def do_copy(self, i):
        e, tb = self.pick(i)
        if e is not None:
            with self.lock:
                self.kept.append((copy.copy(e), tb))

    def do_error(self):
        import slash
        if slash.context.session is None:
            return
        try:
            raise E1('added')
        except E1:
            slash.add_error('text', exc_info=sys.exc_info())

    def do_census(self):
        self.census()

    def run(self, program, leave=False):
        try:
            self.block(program)
        except BaseException as e:  # pylint: disable=broad-except
            if not isinstance(e, tuple(EXCEPTIONS) + (GeneratorExit,)) or leave and isinstance(e, Exception):
                raise
        if leave:
            raise E1('leaving')


def executing(o):
    """Frames which are being executed belong to the interpreter"""
    f = sys._getframe()
    while f is not None:
        if f is o:
            return True
        f = f.f_back
    return False


def live():
    """(tracebacks, frames) alive, without those executing now"""
    n = [0, 0]
    for o in gc.get_objects():
        if type(o) is KINDS[0]:
            n[0] += 1
        elif type(o) is KINDS[1]:
            n[1] += 1
    return n


def log_capture(machine):
    import logbook

    class Capture(logbook.Handler):

        def emit(self, record):
            machine.capture(record.exc_info)
    return Capture(level=logbook.NOTSET, bubble=True)


def bare(case):
    """The program outside sessions, several rounds: what stays alive after each of them"""
    counts = []
    gc.collect()
    problems, totals = [], collections.Counter()
    for _ in range(case['rounds']):
        m = Machine()
        with log_capture(m).applicationbound():
            m.run(case['program'])
        if case.get('census', True):
            m.census()
        problems.extend(m.problems)
        totals.update(seen=m.seen, raised=m.raised, censuses=m.censuses, objects=m.objects, walked=m.walked)
        del m
        gc.collect()
        gc.collect()
        counts.append(live())
    return {'problems': problems, 'counts': counts, 'totals': dict(totals)}


def main():
    with open(sys.argv[1], encoding='utf-8') as f:
        case = json.load(f)
    sys.path[:0] = case['path']
    if case.get('threshold'):
        gc.set_threshold(*case['threshold'])
    out = bare(case)
    with open(sys.argv[2], 'w', encoding='utf-8') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
