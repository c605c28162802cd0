import collections
import io
import os
import pickle
import re
import sys

from vp import errprobe, suite
from vp.core import Check, Violation

HEAD = '''# -*- coding: utf-8 -*-
import contextlib, functools, sys
import slash
from slash.exception_handling import handling_exceptions, get_exception_swallowing_context, mark_exception_frame_correction, mark_exception_fatal
from vp import errprobe
{imports}
'''
HOSTILE = '''
class BadRepr(Exception):
    def __repr__(self): raise ValueError('repr fails')
class BadStr(Exception):
    def __str__(self): raise ValueError('str fails')
class BadBoth(BadStr, BadRepr):
    pass
class NotStr(Exception):
    def __str__(self): return 3
class KeyGetattr(Exception):
    def __getattr__(self, name): raise KeyError(name)
class Needy(Exception):
    def __init__(self, a, *, b):
        super(Needy, self).__init__()
        self.a, self.b = a, b
class BadAttrs(Exception):
    def __init__(self, *args):
        super(BadAttrs, self).__init__(*args)
        self.__dict__.update({3: 'three', ('t',): 1, 'fine': 1, 'lock': __import__('threading').Lock(), 'fn': lambda: 1, 'gen': (i for i in ()), 'rec': self, 'proxy': Proxy(), 'bad': Unprintable(), 'text': 'x' * 1000, 'num': Int(3), 'own': Local('own text'), 'one': 1, 'pi': 3.5, 'yes': True})
    @property
    def fine(self): raise ValueError('attribute fails')
    @fine.setter
    def fine(self, value): pass
class Growing(Exception):
    def __init__(self, *args):
        super(Growing, self).__init__(*args)
        for n in range(3):
            self.__dict__['attr%s' % n] = n
    @property
    def attr1(self):
        self.__dict__['more%s' % len(self.__dict__)] = 1
        return 2
class Slotted(Exception):
    __slots__ = ('a',)
class Meta(type):
    def __eq__(cls, other): return NotImplemented
    __hash__ = type.__hash__
class WithMeta(Exception, metaclass=Meta):
    pass
class BadEq(Exception):
    def __eq__(self, other): raise ValueError('eq fails')
    __hash__ = None
class Proxy(object):
    @property
    def __class__(self): raise RuntimeError('working outside of context')
    def __repr__(self): raise RuntimeError('working outside of context')
class Unprintable(object):
    def __repr__(self): raise ValueError('repr fails')
class Int(int):
    pass
def local_class():
    class Local(str):
        pass
    return Local
Local = local_class()
class OddDict(object):
    def __init__(self): self.__dict__[7] = 'seven'
class DictProperty(object):
    @property
    def __dict__(self): return 5
class Truthless(object):
    def __bool__(self): raise ValueError('ambiguous')
    __len__ = __eq__ = __bool__
    __hash__ = None
g_proxy = g_unprintable = g_odd = g_truthless = g_text = None
@slash.hooks.session_start.register
def arm():
    globals().update(g_proxy=Proxy(), g_unprintable=Unprintable(), g_odd=OddDict(), g_truthless=Truthless(), g_text='g' * 300)
'''
#: constructor expressions of exceptions
EXCS = {
    'plain': "ValueError('message {n}')", 'empty': 'ValueError()', 'multi': "RuntimeError('line one {n}\\n  line two\\nline three')", 'key': "KeyError('key {n}')", 'os': "OSError(2, 'no such', 'file {n}')",
    'braces': "ValueError('{{0}} %s {{x!r}} {n}')", 'percent': "ValueError('100% of %d {n}')", 'unicode': "ValueError('\\u05d0\\u2713\\U0001f600 {n}')", 'surrogate': "ValueError('bad \\udc80 name {n}')", 'control': "ValueError('ansi \\x1b[31m \\x00 bell \\x07 {n}')",
    'bytes': "ValueError(b'\\xff\\x00 {n}')", 'huge': "ValueError('h' * 100000)", 'group': "ExceptionGroup('group {n}', [ValueError(1), KeyError(2)])", 'note': "errprobe_note(ValueError('noted {n}'))", 'tuple': "ValueError(('a', 1), {{'b': 2}})",
    'syntax': "SyntaxError('bad syntax {n}', ('some file.py', 3, 1, '    def f(:', 3, 2))", 'syntax_odd': "SyntaxError('odd syntax {n}')", 'decode': "UnicodeDecodeError('utf-8', b'\\xff', 0, 1, 'reason {n}')", 'sysexit': None,
    'assertion': "AssertionError('asserted {n}')", 'failed': "slash.exceptions.TestFailed('failed {n}')", 'local': "type('Local{n}', (Exception,), {{}})('local {n}')", 'module': "type('NoModule', (Exception,), {{'__module__': None}})('m {n}')", 'internal': "slash.exceptions.SlashException('s {n}')",
    'fatal': "mark_exception_fatal(ValueError('fatal {n}'))", 'needy': 'Needy({n}, b=2)', 'chain': "errprobe_chain(ValueError('outer {n}'))", 'sub': "type('Sub{n}', (AssertionError,), {{}})('sub {n}')", 'recursive': "errprobe_loop(ValueError('loop {n}'))",
    'markup': "ValueError('<b> & ]]> {n}')", 'spaces': "ValueError('  indented {n}\\n')", 'newline': "ValueError('\\n')", 'none': 'ValueError(None)', 'nested': "ValueError([[[ValueError('in {n}')]]])",
}
for _n in ('BadRepr', 'BadStr', 'BadBoth', 'NotStr', 'KeyGetattr', 'BadAttrs', 'Growing', 'Slotted', 'WithMeta', 'BadEq'):
    EXCS[_n] = _n + "('hostile {{n}}')".replace('{{n}}', '{n}')
del EXCS['sysexit']
LOCALS = ['None', '1', "'text'", "'x' * 500", '[1, [2, {}]]', 'Proxy()', 'Unprintable()', 'OddDict()', 'DictProperty()', 'Truthless()', 'lambda: 1', 'type(3)', "open(__file__).__class__", 'BadRepr()', "'\\udc80'", "b'\\x00'", '{1: 2}', "'multi\\nline'", 'object', 'sys']
LINKS = ['func', 'method', 'lambda', 'gen', 'genexp', 'comp', 'deco', 'rec', 'closure', 'other', 'map', 'partial', 'property', 'getattr', 'multiline', 'finally', 'reraise', 'cm', 'nested_try', 'classbody', 'sort', 'async', 'default']
HANDLING = ['handling', 'handling_ctx', 'handling_made', 'handling_cm', 'handling_stack', 'handling_nofake', 'raises_other', 'handling_nested']


def link(kind, n, nxt, rng):
    """Lines of module level code of link n, which leads to expression nxt; entered by fN()"""
    v = ['    v{}_{} = {}'.format(n, j, rng.choice(LOCALS)) for j in range(rng.choice([0, 1, 2]))]
    f = 'def f{}():'.format(n)
    call = '    return ' + nxt
    use = '    g_{0}, g_{1}'.format(*rng.sample(['proxy', 'unprintable', 'odd', 'truthless', 'text'], 2)) if rng.random() < 0.3 else '    pass'
    if kind in ('func', 'other'):
        return [f] + v + [use, call]
    if kind == 'method':
        return ['class C{}_vp(object):'.format(n), '    def __init__(self):', '        self.number, self.text, self.odd, self.bad, self.proxy = {}, {!r}, OddDict(), Unprintable(), Proxy()'.format(n, 'attr' * rng.choice([1, 40])), '    def m{}(self, arg=3):'.format(n)] + ['    ' + x for x in v + [call]] + [f, '    return C{0}_vp().m{0}()'.format(n)]
    if kind == 'lambda':
        return ['f{} = lambda: {}'.format(n, nxt)]
    if kind == 'gen':
        return ['def gen{}():'.format(n)] + v + ['    yield 1', '    yield ' + nxt, f, '    for item in gen{}():'.format(n), '        pass']
    if kind == 'genexp':
        return [f] + v + ['    return list({} for i{} in range(1))'.format(nxt, n)]
    if kind == 'comp':
        return [f] + v + ['    return [{} for i{} in range(1)]'.format(nxt, n)]
    if kind == 'deco':
        return ['def deco{}(func):'.format(n), '    @functools.wraps(func)', '    def wrapper{}(*args, **kwargs):'.format(n), '        return func(*args, **kwargs)', '    return wrapper{}'.format(n), '@deco{}'.format(n), f] + v + [call]
    if kind == 'rec':
        return ['def f{0}(depth={1}):'.format(n, rng.choice([1, 3, 40])), '    if depth:', '        return f{}(depth - 1)'.format(n), call]
    if kind == 'closure':
        return [f] + v + ['    def inner{}():'.format(n), '        return ' + nxt, '    return inner{}()'.format(n)]
    if kind == 'map':
        return [f, '    return list(map(lambda x{}: {}, [1]))'.format(n, nxt)]
    if kind == 'partial':
        return ['def part{}(a, b):'.format(n)] + v + [call, 'f{0} = functools.partial(part{0}, 1, b=2)'.format(n)]
    if kind == 'property':
        return ['class P{}(object):'.format(n), '    @property', '    def prop{}(self):'.format(n), '    ' + call, f, '    return P{0}().prop{0}'.format(n)]
    if kind == 'getattr':
        return ['class G{}(object):'.format(n), '    def __getattr__(self, name):', '    ' + call, f, '    return G{0}().attribute'.format(n)]
    if kind == 'multiline':
        return ['def ident{}(*args): return args'.format(n), f] + v + ['    return ident{}('.format(n), '        1,', '        ' + nxt + ',', '        2)']
    if kind == 'finally':
        return [f, '    try:', '    ' + call, '    finally:', '        done{} = 1'.format(n)]
    if kind == 'reraise':
        return [f, '    try:', '    ' + call, '    except ZeroDivisionError:', '        raise', '    except Exception:', '        pass', '        raise']
    if kind == 'nested_try':
        return [f, '    try:', '        int("x")', '    except ValueError:', '    ' + call]
    if kind == 'cm':
        return ['@contextlib.contextmanager', 'def cm{}():'.format(n), '    yield', f, '    with cm{}():'.format(n), '    ' + call]
    if kind == 'classbody':
        return [f, '    class Body{}(object):'.format(n), '        attr = ' + nxt]
    if kind == 'sort':
        return [f, '    return sorted([1], key=lambda k{}: {})'.format(n, nxt)]
    if kind == 'async':
        return ['async def coro{}():'.format(n)] + v + [call, f, '    coro = coro{}()'.format(n), '    try:', '        coro.send(None)', '    except StopIteration:', '        pass']
    if kind == 'default':
        return ['def d{}(arg=1, *args, key=2, **kwargs):'.format(n)] + v + [call, f, '    return d{}(5, 6, key=7, other=8)'.format(n)]
    if kind == 'handling':
        return [f] + v + ['    with handling_exceptions():', '    ' + call]
    if kind == 'handling_ctx':
        return [f] + v + ["    with handling_exceptions(context='context {0}') as handled:", '    ' + call]
    if kind == 'handling_nofake':
        return [f] + v + ['    with handling_exceptions(fake_traceback=False):', '    ' + call]
    if kind == 'handling_nested':
        return [f] + v + ['    with handling_exceptions():', '        with handling_exceptions(), handling_exceptions():', '        ' + call]
    if kind == 'handling_made':
        return ['def made{}():'.format(n), '    return handling_exceptions()', f] + v + ['    with made{}():'.format(n), '    ' + call]
    if kind == 'handling_cm':
        return ['@contextlib.contextmanager', 'def hcm{}():'.format(n), '    with handling_exceptions():', '        yield', f] + v + ['    with hcm{}():'.format(n), '    ' + call]
    if kind == 'handling_stack':
        return [f] + v + ['    with contextlib.ExitStack() as stack:', '        stack.enter_context(handling_exceptions())', '    ' + call]
    if kind == 'raises_other':
        return [f] + v + ['    with slash.assert_raises((BlockingIOError, ConnectionError)):', '    ' + call]
    raise ValueError(kind)


def sink(kind, exc, n, rng):
    e = EXCS[exc].format(n=n)
    f = 'def f{}():'.format(n)
    v = ['    s{} = {}'.format(j, rng.choice(LOCALS)) for j in range(rng.choice([0, 1, 3]))]
    E = "e, key={!r}".format(n)
    if kind == 'raise':
        return [f] + v + ['    e = ' + e, '    raise errprobe.here(exc=e, how="raise", key={})'.format(n)]
    if kind == 'raise_from':
        return [f, '    e = ' + e, '    try:', '        int("x")', '    except ValueError as original:', '        raise errprobe.here(exc=e, how="raise", key={}) from original'.format(n)]
    if kind == 'native':
        return [f] + v + ['    return ' + rng.choice(['1 / errprobe.here(0, how="native", type="ZeroDivisionError", str="division by zero", key={n})', '[][errprobe.here(3, how="native", type="IndexError", str="list index out of range", key={n})]',
                                                    '{{}}[errprobe.here("k", how="native", type="KeyError", str="\'k\'", key={n})]', 'errprobe.here(None, how="native", type="AttributeError", str="\'NoneType\' object has no attribute \'x\'", key={n}).x',
                                                    'undefined_name(errprobe.here(1))' if False else '__import__("json").loads(errprobe.here("", how="native", type="JSONDecodeError", str="Expecting value: line 1 column 1 (char 0)", key={n}))']).format(n=n)]
    if kind == 'assert':
        return [f] + v + ['    assert errprobe.here(0, how="native", type="AssertionError", str=None, key={}), "expected {}"'.format(n, n)]
    if kind == 'import':
        return [f, '    import errprobe_missing_{0} if errprobe.here(1) else 0'.format(n)] if False else [f, '    exec(errprobe.here("def broken(:", how="native", type="SyntaxError", str=None, key={}))'.format(n)]
    if kind == 'notcaught':
        return [f] + v + ['    with slash.assert_raises(errprobe.here(KeyError, how="native", type="ExpectedExceptionNotCaught", str=None, key={})):'.format(n), '        pass']
    if kind == 'recursion':
        return [f, '    errprobe.here(how="recursion", type="RecursionError", str=None, key={})'.format(n), '    def deep{}(): return deep{}()'.format(n, n), '    deep{}()'.format(n)]
    if kind == 'correction':
        marks = rng.choice([[1], [1], [1, 1], [2], [1, 2]])
        x = 'errprobe.here(exc=e, how="corrected", key={}, frames={})'.format(n, sum(marks))
        for m in marks:
            x = 'mark_exception_frame_correction({}{})'.format(x, rng.choice([', 1', ', correction=1', '']) if m == 1 else ', {}'.format(m))
        return ['def check{}():'.format(n), '    e = ' + e, '    raise ' + x] + outer(n, sum(marks) - 1) + [f] + v + ['    outer{}_{}()'.format(n, sum(marks) - 1)]
    if kind in ('add_error', 'add_failure', 'result_error', 'result_failure', 'current_error'):
        fn = {'add_error': 'slash.add_error', 'add_failure': 'slash.add_failure', 'result_error': 'slash.context.result.add_error', 'result_failure': 'slash.context.result.add_failure', 'current_error': 'slash.session.results.current.add_error'}[kind]
        arg = rng.choice(["'some message {}'".format(n), "'some message {}'".format(n), e, 'Unprintable()', '[1, 2]', 'OddDict()', "'\\x1b[0m {}'".format(n), "''", "('a', 'b')", 'lambda: 1', 'ValueError'])
        return [f] + v + ['    {}(errprobe.here({}, how={!r}, key={}))'.format(fn, arg, 'added', n)]
    if kind == 'add_corrected':
        fn = rng.choice(['slash.add_error', 'slash.add_failure', 'slash.context.result.add_error', 'slash.context.result.add_failure', 'slash.session.results.current.add_error'])
        k = rng.choice([1, 1, 2, 3])
        return ['def check{}():'.format(n), '    {1}(errprobe.here("message {0}", how="added_corrected", key={0}, frames={2}), frame_correction={2})'.format(n, fn, k)] + outer(n, k - 1) + [f] + v + ['    outer{}_{}()'.format(n, k - 1)]
    if kind == 'add_active':
        return ['def thrower{}():'.format(n), '    e = ' + e, '    raise errprobe.here(exc=e, how="active", key={})'.format(n), f] + v + ['    try:', '        thrower{}()'.format(n), '    except Exception as e:', '        slash.add_error()']
    if kind == 'add_exc_info':
        return ['def thrower{}():'.format(n), '    e = ' + e, '    raise errprobe.here(exc=e, how="exc_info", key={})'.format(n), f] + v + ['    try:', '        thrower{}()'.format(n), '    except Exception as e:', '        exc_info = sys.exc_info()', "    slash.add_error({}exc_info=exc_info)".format(rng.choice(["'custom message {}', ".format(n), '']))]
    if kind == 'add_no_exc_info':
        return [f] + v + ['    slash.add_error(errprobe.here("message {0}", how="added", key={0}), exc_info=sys.exc_info())'.format(n)]
    if kind == 'add_unraised':
        return [f] + v + ['    e = ' + e, '    slash.add_error("custom message {0}", exc_info=(type(e), errprobe.here(exc=e, how="unraised", key={0}), None))'.format(n)]
    if kind == 'log':
        return [f] + v + ['    slash.logger.error(errprobe.here("logged message {0}", how="log", key={0}))'.format(n)]
    if kind == 'log_exc':
        return ['def thrower{}():'.format(n), '    e = ' + e, '    raise errprobe.here(exc=e, how="log_exc", key={})'.format(n), f] + v + ['    try:', '        thrower{}()'.format(n), '    except Exception as e:', '        slash.logger.error("logged message {}", exc_info=True)'.format(n)]
    raise ValueError(kind)


def outer(n, count):
    """Functions around checkN, which are not to be shown"""
    lines = ['outer{0}_0 = check{0}'.format(n)]
    for k in range(1, count + 1):
        lines += ['def outer{}_{}():'.format(n, k), '    outer{}_{}()'.format(n, k - 1)]
    return lines


SINKS = ['raise'] * 6 + ['raise_from', 'native', 'native', 'assert', 'import', 'notcaught', 'recursion', 'correction', 'add_error', 'add_error', 'add_failure', 'result_error', 'result_failure', 'current_error', 'add_corrected', 'add_active', 'add_exc_info', 'add_no_exc_info', 'add_unraised', 'log', 'log_exc']
PLACES = {
    'test': ['def test_{k}():', '    return {c}'],
    'nested': ['def test_{k}():', '    if 1:', '        for i in range(1):', '            return {c}'],
    'method': ['class T{k}(slash.Test):', '    def test(self):', '        return {c}'],
    'before': ['class T{k}(slash.Test):', '    def before(self):', '        return {c}', '    def test(self):', '        pass'],
    'after': ['class T{k}(slash.Test):', '    def after(self):', '        return {c}', '    def test(self):', '        pass'],
    'fixture': ['@slash.fixture', 'def fx{k}():', '    return {c}', 'def test_{k}(fx{k}):', '    pass'],
    'fixture_gen': ['@slash.yield_fixture', 'def fx{k}():', '    yield 1', '    {c}', 'def test_{k}(fx{k}):', '    pass'],
    'cleanup': ['def cleanup_{k}():', '    return {c}', 'def test_{k}():', '    slash.add_cleanup(cleanup_{k})'],
    'param': ["@slash.parametrize('p', [1])", 'def test_{k}(p):', '    return {c}'],
    'hook': ['@slash.hooks.test_start.register', 'def hook_{k}():', '    if slash.context.test.__slash__.factory_name.endswith("_{k}"):', '        return {c}', 'def test_{k}():', '    pass'],
    'wrapped': ['def deco{k}(func):', '    @functools.wraps(func)', '    def new_func(*args, **kwargs):', '        return func(*args, **kwargs)', '    return new_func', '@deco{k}', 'def test_{k}():', '    return {c}'],
}
EXTRA = '''
def errprobe_note(e):
    e.add_note('a note')
    return e
def errprobe_chain(e):
    try:
        raise KeyError('cause')
    except KeyError as c:
        e.__cause__ = c
    e.__context__ = OSError(3)
    return e
def errprobe_loop(e):
    e.__cause__ = e
    e.args = (e.args[0], [e])
    return e
'''


class CHECK(Check):
    prop = 'C25'
    technique = 'runtime monitoring: every error object recorded in generated runs, compared with the call stack, locals and exception a probe notes on the very line that fails'
    rule = 'random call chains (functions, methods, generators, comprehensions, decorators, recursion, coroutines, other modules, handling contexts of every form) from every place of a test to failing lines and explicitly added errors, with exceptions and variables of ordinary and hostile types; each error is also formatted, pickled, transferred and reported at every traceback level'
    required = ('errors', 'failures', 'frames', 'locals', 'hostile', 'added', 'corrected', 'handling', 'pickled', 'elsewhere', 'corrected_more', 'transferred', 'syntax', 'recursion', 'global', 'reports', 'code_lines')
    n_quick = 260
    n_thorough = 8000
    assumptions = ['frames outside the generated files are only required to be elsewhere, not to be particular ones', 'a failure (as opposed to an error) recorded in an inner handling context lists its frames from that context on']

    def gen(self, rng, i, tier):
        tests = []
        for k in range(rng.choice([1, 2, 3, 4])):
            links = [rng.choice(HANDLING if rng.random() < 0.25 else LINKS) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
            s = rng.choice(SINKS)
            if s.startswith(('add_', 'result_', 'current', 'log')):
                links = ['func' if x in ('raises_other', 'nested_try') else x for x in links]
            place = rng.choice(['test', 'test'] + sorted(PLACES))
            exc = rng.choice(sorted(EXCS))
            tests.append({'links': links, 'sink': s, 'exc': exc, 'place': place, 'seed': rng.randrange(10 ** 6)})
        return {'tests': tests, 'tb': rng.choice([None, 0, 1, 2, 3, 4]), 'variables': rng.random() < 0.3, 'stream': rng.choice(['string', 'utf8', 'utf8', 'utf8']), 'pdb': rng.random() < 0.1, 'blacklist': rng.random() < 0.15, 'verbose': rng.choice([[], ['-v'], ['-vv'], ['-q']]), 'logs': rng.random() < 0.3}

    def write(self, case):
        import random
        lines, other = [], []
        for k, t in enumerate(case['tests']):
            rng = random.Random(t['seed'])
            base = (k + 1) * 1000
            for j, kind in enumerate(t['links']):
                nxt = 'f{}()'.format(base + j + 1)
                into = other if kind == 'other' and j and False else lines
                code = link(kind, base + j, nxt, rng)
                into += code + [''] * rng.choice([0, 0, 1, 4])
            lines += sink(t['sink'], t['exc'], base + len(t['links']), rng) + ['']
            lines += [x.format(k=k, c='f{}()'.format(base)) for x in PLACES[t['place']]] + ['']
        with open('test_it.py', 'w', encoding='utf-8') as f:
            f.write(HEAD.format(imports='') + HOSTILE + EXTRA + '\n'.join(lines) + '\n')

    def run(self, case):
        import gossip
        import slash
        from vintage import get_no_deprecations_context
        self.write(case)
        root = os.getcwd()
        errprobe.reset(root)
        pdbs = []
        got = []
        if case['pdb']:
            import pdb
            sys.modules['pudb'] = sys.modules['ipdb'] = None
            pdb.post_mortem = lambda *_: pdbs.append(1)
        if case['blacklist']:
            slash.config.root.log.repr_blacklisted_types = [complex]

        def added(error, result):
            rec = {'global': result.is_global_result(), 'failure': error.is_failure(), 'in': [error in result.get_errors(), error in result.get_failures()]}
            got.append((error, rec, result))
            with get_no_deprecations_context():
                rec['vars'] = error.traceback.to_string(include_vars=True) is not None
                rec['detailed'] = error.get_detailed_traceback_str()
        gossip.register(added, 'slash.error_added')
        ends = []
        gossip.register(lambda: ends.append(1), 'slash.session_end')
        raw = io.BytesIO()
        stream = io.StringIO() if case['stream'] == 'string' else io.TextIOWrapper(raw, encoding='utf-8', errors='strict', write_through=True)
        argv = ['test_it.py'] + case['verbose']
        if case['tb'] is not None:
            argv += ['--tb', str(case['tb'])]
        if case['variables']:
            argv += ['-o', 'log.traceback_variables=yes']
        if any(t['sink'].startswith('log') for t in case['tests']):
            argv += ['-o', 'run.capture.error_logs_as_errors=yes']
        if case['pdb']:
            argv += ['--pdb']
        if case['logs']:
            argv += ['-l', os.path.join(root, 'logs')]
        app, escaped = None, None
        import munch
        from slash.frontend import slash_run
        try:
            app = slash_run.slash_run(munch.Munch(argv=argv, cmd='run'), report_stream=stream)
        except BaseException as e:  # pylint: disable=broad-except
            escaped = e
        stream.flush()
        text = stream.getvalue() if case['stream'] == 'string' else raw.getvalue().decode('utf-8', 'replace')
        errs = []
        for error, rec, result in got:
            errs.append(dict(rec, **self.look(error, result)))
        shown = []
        if app is not None and app.session is not None:
            for r in app.session.results.iter_test_results():
                for e in r.get_errors() + r.get_failures():
                    shown.append([(f.filename, f.lineno) for f in e.traceback.frames])
        return {'shown': shown, 'errors': errs, 'expected': list(errprobe.EXPECT), 'text': text, 'escaped': repr(type(escaped)) + str(escaped)[:300] if escaped is not None else None, 'ends': len(ends),
                'code': None if app is None else app.exit_code, 'nresults': 0 if app is None or app.session is None else len(app.session.results), 'pdbs': len(pdbs), 'source': open('test_it.py', encoding='utf-8').read().split('\n'),
                'lists': [] if app is None or app.session is None else [(len(r.get_errors()), len(r.get_failures())) for r in app.session.results.iter_all_results()]}

    def look(self, error, result):
        from slash.core.result import Result
        from vintage import get_no_deprecations_context
        frames = []
        with get_no_deprecations_context():
            for f in error.traceback.frames:
                frames.append({'file': os.path.realpath(f.filename), 'line': f.lineno, 'func': f.func_name, 'code': f.code_line, 'string': f.code_string, 'locals': {k: v['value'] for k, v in f.locals.items()}, 'globals': sorted(f.globals)})
            d = {'frames': frames, 'message': error.message, 'type': None if error.exception_type is None else error.exception_type.__qualname__, 'str': error.exception_str, 'cause': (error.filename and os.path.realpath(error.filename), error.lineno, error.func_name) if frames else None,
                 'custom': error.has_custom_message(), 'fatal': error.is_fatal(), 'problems': []}
            for name, f in (('repr', lambda: repr(error)), ('str', lambda: str(error)), ('detailed', error.get_detailed_str), ('list', error.traceback.to_list), ('string', error.traceback.to_string), ('repr(traceback)', lambda: repr(error.traceback)),
                            ('exception_attributes', lambda: error.exception_attributes), ('is_in_test_code', lambda: [fr.is_in_test_code() for fr in error.traceback.frames])):
                try:
                    f()
                except Exception as e:  # pylint: disable=broad-except
                    d['problems'].append('{} raised {}'.format(name, type(e).__name__))

            def same(other, what):
                a = (error.message, error.exception_str, error.is_failure(), error.is_fatal(), error.exception_type and error.exception_type.__name__, error.traceback.to_list(), error.time)
                b = (other.message, other.exception_str, other.is_failure(), other.is_fatal(), other.exception_type and other.exception_type.__name__, other.traceback.to_list(), other.time)
                if a != b:
                    d['problems'].append('{} differs: {} {}'.format(what, [y for x, y in zip(a, b) if x != y], [x for x, y in zip(a, b) if x != y]))
            try:
                data = pickle.dumps(error)
                same(pickle.loads(data), 'unpickled')
                # as where the test files are not loaded
                here = {name: m for name, m in sys.modules.items() if errprobe.mine(getattr(m, '__file__', None) or '/')}
                for name in here:
                    del sys.modules[name]
                try:
                    same(pickle.loads(data), 'unpickled elsewhere')
                finally:
                    sys.modules.update(here)
                d['pickled'] = 1
                d['elsewhere'] = len(here)
            except Exception as e:  # pylint: disable=broad-except
                d['problems'].append('pickling raised {!r}'.format(e)[:300])
            if not result.is_global_result():
                try:
                    import xmlrpc.client
                    ser = xmlrpc.client.loads(xmlrpc.client.dumps((result.serialize(),), allow_none=True))[0][0]
                    loaded = {k: pickle.loads(v.data) if hasattr(v, 'data') else pickle.loads(v) for k, v in ser.items()}
                    if [e.message for e in loaded['_errors']] != [e.message for e in result.get_errors()] or [e.message for e in loaded['_failures']] != [e.message for e in result.get_failures()]:
                        d['problems'].append('transferred errors differ')
                    d['transferred'] = 1
                except Exception as e:  # pylint: disable=broad-except
                    d['problems'].append('transfer raised {!r}'.format(e)[:300])
        return d

    def judge(self, case, obs):
        for v in self.violations(case, obs):
            return [v]
        return []

    def violations(self, case, obs):
        if obs['escaped'] or obs['ends'] != 1:
            yield Violation('run', 'the run failed: {} {}'.format(obs['escaped'], obs['text'][-1500:]))
        exp = obs['expected']
        if len(obs['errors']) != len(exp) or len(exp) != len(case['tests']) and not any(t['exc'] == 'fatal' for t in case['tests']) or len(exp) != len({x['key'] for x in exp}):
            yield Violation('number', '{} errors were recorded of {} which occurred: {}'.format(len(obs['errors']), len(exp), [(e['type'], e['message'][:200]) for e in obs['errors']]))
            return
        if sum(a + b for a, b in obs['lists']) != len(exp):
            yield Violation('number', 'results list {} errors and failures of {}'.format(obs['lists'], len(exp)))
        for e, x in zip(obs['errors'], exp):
            t = case['tests'][x['key'] // 1000 - 1]
            where = '{} {} {}: '.format(t['place'], t['sink'], t['exc'])
            for m, msg in self.one(case, t, e, x, obs):
                yield Violation(m, where + msg)
                return
        tb = case['tb']
        if case['verbose'] != ['-q'] and '-q' not in case['verbose']:
            for e in obs['errors']:
                first = e['message'].split('\n')[0].strip()
                if tb != 0 and first.isprintable() and first.isascii() and len(first) < 60 and first not in obs['text']:
                    yield Violation('report', 'the message {!r} is not in the report: {}'.format(first, obs['text'][-1500:]))

            # the frames displayed
            level = 2 if tb is None else tb
            want = ['{}:{}'.format(*f) for frames in obs['shown'] for f in (frames[len(frames) - 1:] if level == 1 else frames if level else [])]
            known = {'{}:{}'.format(*f) for frames in obs['shown'] for f in frames}
            got = [line[1:] for line in obs['text'].split('\n') if line[1:] in known and line[:1] == ' ']
            if got != want:
                n = next(k for k, (a, b) in enumerate(zip(got + [None], want + [None])) if a != b)
                yield Violation('report', 'with --tb {} the frames displayed are {}, the errors have {} (frame {})'.format(level, got[max(0, n - 2):n + 3], want[max(0, n - 2):n + 3], n))

    def one(self, case, t, e, x, obs):
        for p in e['problems']:
            yield 'format', p
        how = x['how']
        added = how in ('added', 'added_corrected', 'log')
        if added:
            if e['type'] is not None:
                yield 'type', 'an exception type {} for an error added explicitly'.format(e['type'])
        elif e['type'] != x['type']:
            yield 'type', 'type {}, really {}'.format(e['type'], x['type'])
        if not added and x.get('str') is not None:
            s = x['str'].strip()
            custom = how in ('unraised', 'log_exc') or t['sink'] == 'add_exc_info' and e['custom']
            if custom:
                if 'message' not in e['message']:
                    yield 'message', 'message {!r}'.format(e['message'])
            elif not (e['message'].split('.')[-1] == x['type'].split('.')[-1] if not s and not x['str'] else e['message'].split(':', 1)[0].split('.')[-1] == x['type'].split('.')[-1] and e['message'].split(':', 1)[-1].strip() == s):
                yield 'message', 'message {!r} of a {} which says {!r}'.format(e['message'][:300], x['type'], x['str'][:300])
        elif not added and x['type'].split('.')[-1] not in e['message'] and not e['custom']:
            yield 'message', 'message {!r} of a {}'.format(e['message'], x['type'])
        if how in ('raise', 'active', 'exc_info', 'corrected', 'unraised', 'log_exc') and x['repr'] is not None and e['str'] != x['repr']:
            yield 'representation', '{!r}, really {!r}'.format(e['str'][:300], x['repr'][:300])
        if t['sink'] in ('add_failure', 'result_failure') and not e['failure']:
            yield 'kind', 'not a failure'
        if how == 'unraised':
            return
        want = x['path']
        if how in ('corrected', 'added_corrected'):
            want = want[:len(want) - x['frames']]
        got = [f for f in e['frames'] if errprobe.mine(f['file'])]
        if how == 'recursion':
            n = next((i for i, f in enumerate(got) if f['func'].startswith('deep')), len(got))
            if n == len(got) or any(not f['func'].startswith('deep') for f in got[n:]):
                yield 'frames', 'the frames of a recursion: {}'.format([f['func'] for f in got])
            got, want = got[:n - 1], want[:-1]
        if how in ('active', 'exc_info', 'log_exc'):
            pass      # only what is below the handler is in the traceback
        a = [(f['file'], f['line'], f['func']) for f in got]
        b = [(f['file'], f['line'], f['func']) for f in want]
        if t['exc'] and how not in ('corrected', 'recursion') and got and not added:
            pass
        if how in ('active', 'exc_info', 'log_exc') or e['failure'] and not added or case_nofake(t):
            least = 1
            if t['place'] in ('test', 'nested', 'method', 'param') and not any(k in HANDLING for k in t['links']) and how not in ('active', 'exc_info', 'log_exc'):
                least = len(b)
            if len(a) < least or b[len(b) - len(a):] != a and not extra_generator(t, a, b):
                yield 'frames', 'frames {}, really {}'.format(short(a), short(b))
        elif how == 'log':
            if b != a[:len(b)]:
                yield 'frames', 'frames {}, really {}'.format(short(a), short(b))
        elif a != b and not extra_generator(t, a, b):
            yield 'frames', 'frames {}, really {}'.format(short(a), short(b))
        if got and how != 'log' and how != 'recursion':
            last = e['frames'][-1]
            if t['sink'] not in ('native', 'import') and (last['file'], last['line'], last['func']) != b[-1]:
                yield 'cause', 'caused by {}, really {}'.format((last['file'], last['line'], last['func']), b[-1])
            if e['cause'] != (last['file'], last['line'], last['func']):
                yield 'cause', 'cause {}, last frame {}'.format(e['cause'], (last['file'], last['line'], last['func']))
        src = obs['source']
        by = {}
        for w in want:
            by.setdefault((w['line'], w['func']), []).append(w)
        for f in got:
            if f['code'] != src[f['line'] - 1].rstrip():
                yield 'source', 'source line {} is {!r}, really {!r}'.format(f['line'], f['code'], src[f['line'] - 1])
            for w in by.get((f['line'], f['func']), ())[:1]:
                if f['string'] != '\n'.join(src[w['first'] - 1:f['line']]) + '\n':
                    yield 'source', 'source of {}: {!r}'.format(f['func'], f['string'])
                if len(by[f['line'], f['func']]) > 1 or f['func'].startswith('<'):
                    continue
                for name, val in list(w['locals'].items()) + list(w['attrs'].items()):
                    if name not in f['locals'] and not re.match(r'i\d+$|original$', name):
                        yield 'variables', 'variable {} of {} is missing'.format(name, f['func'])
                    elif val is not None and name in f['locals'] and f['locals'][name] != val and ' at 0x' not in val and name not in ('e', 'coro', 'stack', 'handled', 'item'):
                        yield 'variables', 'variable {} of {} is {!r}, really {!r}'.format(name, f['func'], f['locals'][name], val)

    def counters(self, case, obs):
        c = collections.Counter(reports=1)
        for e, x in zip(obs['errors'], obs['expected']):
            t = case['tests'][x['key'] // 1000 - 1]
            c['failures' if e['failure'] else 'errors'] += 1
            c['frames'] += len(e['frames'])
            mine = [f for f in e['frames'] if errprobe.mine(f['file'])]
            c['locals'] += sum(len(f['locals']) for f in mine)
            c['code_lines'] += sum(1 for f in mine if f['code'])
            c['hostile'] += EXCS[t['exc']][:1].isupper() and t['exc'][:1].isupper()
            c['added'] += t['sink'].startswith(('add', 'result', 'current'))
            c['corrected'] += 'correct' in t['sink']
            c['handling'] += sum(1 for k in t['links'] if k in HANDLING)
            c['pickled'] += e.get('pickled', 0)
            c['elsewhere'] += bool(e.get('elsewhere'))
            c['corrected_more'] += x.get('frames', 0) > 1
            c['transferred'] += e.get('transferred', 0)
            c['syntax'] += t['exc'].startswith('syntax') or t['sink'] == 'import'
            c['recursion'] += t['sink'] == 'recursion'
            c['global'] += sum(1 for f in mine if f['globals'])
        return c

    def signature(self, case, obs):
        return repr([(t['place'], t['sink'], t['exc'], t['links']) for t in case['tests']]) if obs['errors'] else None

    def shrink(self, case):
        ts = case['tests']
        for i, t in enumerate(ts):
            if len(ts) > 1:
                yield dict(case, tests=ts[:i] + ts[i + 1:])
            for j in range(len(t['links'])):
                yield dict(case, tests=ts[:i] + [dict(t, links=t['links'][:j] + t['links'][j + 1:])] + ts[i + 1:])
            if t['exc'] != 'plain':
                yield dict(case, tests=ts[:i] + [dict(t, exc='plain')] + ts[i + 1:])
            if t['place'] != 'test':
                yield dict(case, tests=ts[:i] + [dict(t, place='test')] + ts[i + 1:])
        for k, v in (('tb', None), ('variables', False), ('pdb', False), ('blacklist', False), ('verbose', []), ('logs', False), ('stream', 'string')):
            if case[k] != v:
                yield dict(case, **{k: v})


def case_nofake(t):
    return 'handling_nofake' in t['links']


def extra_generator(t, a, b):
    """Frames of generator based handling contexts precede the ones they guard"""
    a = [f for f in a if not f[2].startswith('hcm')]
    return 'handling_cm' in t['links'] and b[len(b) - len(a):] == a


def short(frames):
    return [(line, func) for _, line, func in frames]
