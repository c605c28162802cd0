"""Probe for C27: performs operations on details, facts, data and the global storage along with a shadow, and compares all of them after each"""
import threading




class Unprintable(object):
    def __repr__(self):
        raise ValueError('repr fails')


class Odd(object):
    def __eq__(self, other):
        raise ValueError('eq fails')
    __hash__ = object.__hash__

    def __bool__(self):
        raise ValueError('no truth value')


class Half(object):
    """pickled, never loaded"""
    def __reduce__(self):
        return (int, ('not a number',))


class MyList(list):
    pass


def values():
    shared = ['base']
    v = {
        'i0': 0, 'i1': 1, 's': 'text', 'empty': '', 'none': None, 'f': 1.5, 'nan': float('nan'), 'true': True, 'false': False, 'list0': shared, 'list1': [], 'list2': [1, [2], {'k': shared}], 'same': shared, 'dict': {'a': [1, {'b': 2}], 'c d': 3, 4: 5},
        'edict': {}, 'tuple': (1, 'two', [3]), 'bytes': b'\xff\x00', 'uni': '\u05d0\u2713\U0001f600', 'surr': 'x\udc80', 'ctl': 'a\x00\x1b[31mb\x07\r\n\tc', 'markup': '<a b="c">&amp;]]>\'', 'big': 10 ** 50, 'set': frozenset([1]), 'cls': dict, 'long': 'y' * 3000,
        'bad': Unprintable(), 'odd': Odd(), 'lock': threading.Lock(), 'lam': lambda: 1, 'half': Half(), 'mylist': MyList(['m']), 'badlist': [Unprintable(), threading.Lock()], 'braces': '{0} %s {x}', 'exc': ValueError('v'), 'multi': 'one\ntwo', 'complex': 1j,
    }
    return v


KEYS = {'a': 'a', 'b': 'b', 'c': 'c', 'sp': 'two words', 'int': 3, 'none': None, 'tuple': ('t', 1), 'uni': '\u05d0', 'braces': '{} %s', 'empty': '', 'ctl': 'k\x01\n', 'true': True, 'Log': 'Log', 'markup': '<&"', 'surr': 'k\udc81'}
V = {}
KINDS = ('details', 'facts', 'data')
SHADOW = {}
RESULTS = []
BAD = []
FACTS_EXPECTED = []
FACTS_SEEN = []
G = {}
COUNTS = {}
PROGRAM = {}
SHARED0 = {}


def count(what, n=1):
    COUNTS[what] = COUNTS.get(what, 0) + n


def reset(program, keep=False):
    for x in (SHADOW, G, PROGRAM, SHARED0):
        x.clear()
    for x in (RESULTS, FACTS_EXPECTED, FACTS_SEEN):
        del x[:]
    if not keep:
        del BAD[:]
        COUNTS.clear()
    V.clear()
    V.update(values())
    SHARED0.update({k: list(v) for k, v in V.items() if isinstance(v, list)})
    PROGRAM.update(program)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:  # pylint: disable=broad-except
        return False


def show(x):
    try:
        return repr(x)[:200]
    except Exception:  # pylint: disable=broad-except
        return '<{}>'.format(type(x).__name__)


def shadow(res):
    for r, sh in RESULTS:
        if r is res:
            return sh
    sh = {k: {} for k in KINDS}
    RESULTS.append((res, sh))
    return sh


def frozen(v):
    return type(v)(v) if isinstance(v, list) else v


def content(res, kind):
    return res.data if kind == 'data' else getattr(res, kind).all()


def check(where):
    """Compares everything"""
    import slash
    for i, (res, sh) in enumerate(RESULTS):
        for kind in KINDS:
            got = content(res, kind)
            want = sh[kind]
            count('compared')
            if set(map(repr, got)) != set(map(repr, want)):
                BAD.append(('content', '{}: {} of result {} has keys {}, should have {}'.format(where, kind, i, list(got), list(want))))
                continue
            for k, v in want.items():
                if not same(got[k], v):
                    BAD.append(('content', '{}: {} {!r} of result {} is {}, should be {}'.format(where, kind, k, i, show(got[k]), show(v))))
            if kind != 'data':
                d = getattr(res, kind)
                if bool(d) != bool(want) or any(k not in d for k in want) or 'no such key' in d:
                    BAD.append(('content', '{}: membership or truth of {} of result {}'.format(where, kind, i)))
    for k, v in SHARED0.items():
        if not same(V[k], v):
            BAD.append(('aliasing', '{}: the list {} given as a value was changed to {}'.format(where, v, show(V[k]))))
            SHARED0[k] = list(V[k])
    g = slash.context.g
    for k, v in G.items():
        count('globals')
        if g is None or not hasattr(g, k) or getattr(g, k) is not v or getattr(slash.g, k) is not v:
            BAD.append(('globals', '{}: slash.g.{} is not {}'.format(where, k, show(v))))


def do(where, ops):
    for op in ops:
        one(where, op)
        check('{} after {}'.format(where, op))


def target(t):
    import slash
    if t == 'cur':
        return slash.context.result
    if t == 'session':
        return slash.session.results.current
    if t == 'global':
        return slash.session.results.global_result
    if t == 'first':
        return slash.session.results[0] if len(slash.session.results) else slash.session.results.global_result
    raise ValueError(t)


def one(where, op):
    import slash
    what = op['op']
    count(what)
    if what == 'gset':
        G[op['name']] = V[op['val']]
        setattr(slash.g if op['via'] == 'slash.g' else slash.context.g, op['name'], V[op['val']])
        return
    res = target(op['t'])
    sh = shadow(res)
    if res is slash.session.results.global_result:
        count('on_global')
    kind, key = op['kind'], KEYS[op['key']]
    v = V[op['val']]
    if kind == 'data':
        if what == 'append':
            if not isinstance(res.data.get(key, []), list):
                return
            res.data[key] = list(res.data.get(key, [])) + [v]
            sh['data'][key] = list(sh['data'].get(key, [])) + [v]
        else:
            res.data[key] = v
            sh['data'][key] = frozen(v)
        return
    d = getattr(res, kind)
    if what == 'set':
        if kind == 'facts':
            FACTS_EXPECTED.append((where, key, frozen(v)))
        if kind == 'details' and op['val'] in ('s', 'i1'):
            res.set_test_detail(key, v)
        else:
            d.set(key, v)
        sh[kind][key] = frozen(v)
    elif what == 'append':
        if key in sh[kind] and not isinstance(sh[kind][key], list):
            try:
                d.append(key, v)
            except TypeError:
                count('refused')
            else:
                BAD.append(('append', '{}: append to {} was accepted'.format(where, show(sh[kind][key]))))
            return
        new = list(sh[kind].get(key, [])) + [v]
        if kind == 'facts':
            FACTS_EXPECTED.append((where, key, new))
        d.append(key, v)
        sh[kind][key] = new
    elif what == 'all':
        copy = d.all()
        copy['injected'] = 1
        copy.pop(key, None)


def fact_set(name, value):
    FACTS_SEEN.append((name, frozen(value)))
    count('fact_set')


def judge_facts():
    if len(FACTS_SEEN) != len(FACTS_EXPECTED):
        BAD.append(('facts', 'fact_set fired {} times for {} facts: {} {}'.format(len(FACTS_SEEN), len(FACTS_EXPECTED), [show(x) for x in FACTS_SEEN], [show(x) for x in FACTS_EXPECTED])))
    for (name, value), (where, key, want) in zip(FACTS_SEEN, FACTS_EXPECTED):
        if not same(name, key) or not same(value, want):
            BAD.append(('facts', '{}: fact_set({}, {}), should be ({}, {})'.format(where, show(name), show(value), show(key), show(want))))
