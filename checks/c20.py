import collections
import json
import os
import subprocess
import sys
import xml.etree.ElementTree as ET

from checks.c27 import close
import vp
from vp import suite
from vp.core import REPO, Check, Violation

TEXTS = ['plain message', '', ' ', '<b attr="x">&amp;</b> ]]> &#0; <!-- -->', 'line one\nline two\n', 'tab\there\rreturn', '\x00\x01\x1b[31mred\x1b[0m\x07', '\udc80 surrogate \ud800', '\ufffe\uffff non characters', '\u05d0\u2713\U0001f600', '\x7f\x85\u2028', '"quotes" \'single\'', 'x' * 5000, '{0} %s %d {x!r}', '\\x1b escaped \\', '<?xml version="1.0"?>', ']]>', '&lt;']
VALUES = ['None', '3', 'Bad()', "b'\\xff\\x00'", "('a', 1)", 'ValueError("x")', '[]', '{}', 'object', '1.5']
NESTED = ['0', 'False', "{'a': 0, 'b': [], 3: [False, '', None]}", "[0, [1, {'k': ''}], {}]", "(0, '')", "{'bad key': {'x\\x00': 'y\\x01'}, '': 0.0}", "{'k': Bad(), 'l': (Bad(),)}", "{'a-b.c': {'<': '>'}, '-x': [[], [[]]], 'i': 1}",
          "[None, 0, '', False]", "{None: None, (1, 2): 'deep', 'xml': {'name': 'n'}}", "{'\\u05d0': '\\udc80'}"]
OPS = ['raise', 'assert', 'fail', 'error', 'failure', 'skip', 'skip_add', 'detail', 'detail', 'ok', 'raise_bad', 'add_value', 'chain', 'exc_group', 'data', 'notexist']
HEAD = '''# -*- coding: utf-8 -*-
import slash, os, signal, sys
from vp import xunitprobe
class Bad(object):
    def __str__(self): raise ValueError('str fails')
    __repr__ = __str__
class BadError(Exception):
    __str__ = __repr__ = Bad.__str__
@slash.hooks.session_end.register
def snap():
    xunitprobe.dump('at_end')
@slash.hooks.after_session_end.register
def snap2():
    xunitprobe.dump('after')
'''


def value(rng, nested=False):
    if nested and rng.random() < 0.5:
        return rng.choice(NESTED)
    return rng.choice(VALUES) if rng.random() < 0.25 else ascii(rng.choice(TEXTS))


def ops(rng, n):
    out = []
    for _ in range(n):
        k = rng.choice(OPS)
        out.append((k, value(rng, k in ('detail', 'data'))))
    return out


def lines(prog, ind):
    out = []
    for k, v in prog:
        s = {'raise': 'raise ValueError({})', 'assert': 'assert 1 == 2, {}', 'fail': 'raise slash.exceptions.TestFailed({})', 'error': 'slash.add_error({})', 'failure': 'slash.add_failure({})', 'skip': 'slash.skip_test({})', 'skip_add': 'slash.context.result.add_skip({})',
             'detail': 'slash.context.result.details.set(xunitprobe.text({0}) or "bad", {0})', 'ok': 'pass', 'raise_bad': 'raise BadError({})', 'add_value': 'slash.context.result.add_error({})', 'chain': 'raise KeyError({0}) from ValueError({0})', 'exc_group': 'raise ExceptionGroup("g", [ValueError({})])',
             'data': 'slash.context.result.details.append("list", {})', 'notexist': 'undefined_name'}[k].format(v)
        out.append(ind + s)
        if k in ('raise', 'assert', 'fail', 'skip', 'raise_bad', 'chain', 'exc_group', 'notexist'):
            break
    return out or [ind + 'pass']


class CHECK(Check):
    prop = 'C20'
    technique = 'runtime monitoring: xunit reports of generated runs, parsed by an independent parser and compared with snapshots of the session results taken at session end'
    rule = 'tests (functions, methods, parametrized, repeated) with any number of errors, failures, skips and details from body, fixtures, cleanups and hooks, whose messages, reasons, names and parameters include control, markup and undecodable text or are no text at all; sessions ended by interrupts, exits, fatal errors and stop-on-error; session level errors; also with parallel workers'
    required = ('reports', 'testcases', 'errors', 'failures', 'skips', 'session_errors', 'hostile', 'not_run', 'interrupted', 'parallel', 'classes', 'multi', 'params', 'details', 'later_errors')
    n_quick = 360
    n_thorough = 9000
    case_timeout = 120
    imports = ('slash.frontend.slash_run', 'slash.plugins.builtin.xunit')
    assumptions = ['characters XML cannot represent may be shown in any way', 'errors added while the session is already ending may or may not be listed', 'tests which never started are only part of the total']

    def gen(self, rng, i, tier):
        par = rng.random() < 0.04
        tests = []
        for k in range(rng.choice([1, 2, 3, 5])):
            t = {'cls': rng.random() < 0.3, 'prog': ops(rng, rng.choice([0, 1, 1, 2, 4])), 'params': [value(rng) for _ in range(rng.choice([0, 0, 1, 2]))], 'fixture': ops(rng, rng.choice([0, 0, 1])), 'cleanup': ops(rng, rng.choice([0, 0, 1, 2])), 'deco': rng.choice([None] * 6 + ['@slash.skipped({})', '@slash.requires(False, {})', '@slash.repeat(2)', '@slash.skipped'])}
            t['text'] = ascii(rng.choice(TEXTS))
            tests.append(t)
        end = None
        if rng.random() < 0.3:
            end = [rng.randrange(len(tests)), rng.choice(['raise KeyboardInterrupt()', 'os.kill(os.getpid(), signal.SIGTERM)', 'os.kill(os.getpid(), signal.SIGINT)', 'sys.exit(3)', 'raise slash.exception_handling.mark_exception_fatal(ValueError("fatal"))', 'raise SystemExit(0)'])]
        if par:
            end = None
            for t in tests:
                t['params'] = []
        hooks = {}
        for h in ('session_start', 'after_session_start', 'test_start', 'test_end', 'session_end', 'before_session_cleanup', 'session_cleanup', 'test_skip', 'module'):
            if rng.random() < 0.12:
                p = [x for x in ops(rng, 1) if x[0] in ('error', 'failure', 'raise', 'add_value') or h.startswith('test') and x[0] in ('skip_add', 'detail')]
                if h in ('session_start', 'after_session_start') and rng.random() < 0.8:
                    p = [x for x in p if x[0] != 'raise']
                hooks[h] = p
        return {'tests': tests, 'end': end, 'hooks': hooks, 'x': rng.random() < 0.15, 'parallel': rng.choice([1, 2]) if par else 0, 'verbose': rng.choice([[], ['-vv'], ['-q']]), 'repeat': rng.choice([1, 1, 1, 2])}

    def write(self, case):
        out = [HEAD]
        for h, p in sorted(case['hooks'].items()):
            if h == 'session_cleanup':
                out += ['def session_cleanup():'] + lines(p, '    ') + ['@slash.hooks.session_start.register', 'def add_session_cleanup():', '    slash.add_cleanup(session_cleanup)']
            elif h == 'module':
                out += ['def module_cleanup():'] + lines(p, '    ') + ['@slash.fixture(scope="module", autouse=True)', 'def module_fixture(this):', '    this.add_cleanup(module_cleanup)']
            elif h != 'before_session_cleanup':
                out += ['@slash.hooks.{}.register'.format(h), 'def hook_{}(**_):'.format(h)] + lines(p, '    ')
        for k, t in enumerate(case['tests']):
            out += ['@slash.yield_fixture', 'def fx{}():'.format(k)] + (['    yield'] if k % 2 else []) + lines(t['fixture'], '    ') + ([] if k % 2 else ['    yield']) + ['def cleanup{}():'.format(k)] + lines(t['cleanup'], '    ')
            ind = '    ' if t['cls'] else ''
            if t['cls']:
                out += ['class T{}(slash.Test):'.format(k)]
            if t['deco']:
                out.append(ind + t['deco'].format(t['text']))
            if t['params']:
                out.append(ind + '@slash.parametrize("p", [{}])'.format(', '.join(t['params'])))
            out += [ind + 'def test_{}({}):'.format(k, ', '.join((['self'] if t['cls'] else []) + (['p'] if t['params'] else []) + ['fx{}'.format(k)])), ind + '    slash.add_cleanup(cleanup{})'.format(k)]
            prog = t['prog']
            if case['end'] and case['end'][0] == k:
                out += [ind + '    ' + case['end'][1]]
            out += lines(prog, ind + '    ')
        with open('test_it.py', 'w', encoding='utf-8') as f:
            f.write('\n'.join(out) + '\n')

    def run(self, case):
        self.write(case)
        os.environ['VP_XUNIT'] = os.getcwd()
        path = os.path.abspath('x.xml')
        argv = ['test_it.py', '--with-xunit', '--xunit-filename', path] + case['verbose'] + (['-x'] if case['x'] else []) + (['--repeat-all', '2'] if case['repeat'] > 1 else [])
        if case['parallel']:
            os.environ['PYTHONPATH'] = os.pathsep.join([REPO, os.path.dirname(os.path.dirname(vp.__file__))])
            p = subprocess.run([sys.executable, '-m', 'slash.frontend.main', 'run'] + argv + ['--parallel', str(case['parallel'])], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            text = p.stdout.decode('utf-8', 'replace')
        else:
            import munch
            from slash.frontend import slash_run
            app, text, escaped = suite.run_app(argv)
        obs = {'console': text[-3000:], 'xml': None, 'snaps': {}}
        for n in ('at_end', 'after'):
            if os.path.exists(n):
                obs['snaps'][n] = json.load(open(n))
        if os.path.exists(path):
            obs['xml'] = open(path, 'rb').read().decode('latin-1')
        return obs

    def judge(self, case, obs):
        for v in self.violations(case, obs):
            return [v]
        return []

    def violations(self, case, obs):
        at = obs['snaps'].get('at_end')
        if at is None:
            if 'Session starts' in obs['console'] or obs['snaps']:
                started = 'session_start' in case['hooks'] or 'after_session_start' in case['hooks']
                if not started:
                    yield Violation('session', 'the session did not end: {}'.format(obs['console']))
            return
        if obs['xml'] is None:
            yield Violation('missing', 'no report was written: {}'.format(obs['console']))
            return
        try:
            root = ET.fromstring(obs['xml'].encode('latin-1'))
        except ET.ParseError as e:
            yield Violation('malformed', '{}: {}'.format(e, obs['xml'][:2000]))
            return
        after = obs['snaps'].get('after') or at
        if root.tag != 'testsuite':
            yield Violation('format', 'root is {}'.format(root.tag))
        for k, v in at['totals'].items():
            lo, hi = sorted([v, after['totals'][k]])
            if not (root.get(k) or '').isdigit() or not lo <= int(root.get(k)) <= hi:
                yield Violation('totals', '{}={} in the report, {} in the session'.format(k, root.get(k), (v, after['totals'][k])))
        try:
            assert float(root.get('time')) >= 0 and root.get('name') and root.get('timestamp')
        except (AssertionError, TypeError, ValueError):
            yield Violation('format', 'attributes {}'.format(root.attrib))
        bad = self.errors('the session', [e for e in root if e.tag in ('error', 'failure')], at['global'], after['global'])
        if bad:
            yield Violation('session-errors', bad)
        cases = root.findall('testcase')
        if len(cases) + len([e for e in root if e.tag in ('error', 'failure')]) != len(root):
            yield Violation('format', 'elements {}'.format([e.tag for e in root]))
        started = [(t, u) for t, u in zip(at['tests'], after['tests']) if u['started']]
        if len(cases) != len(started):
            yield Violation('tests', '{} test cases of {} tests started: {}'.format(len(cases), len(started), [c.get('name') for c in cases]))
            return
        if case['parallel']:
            cases = sorted(cases, key=lambda c: c.get('name'))
            started.sort(key=lambda t: t[0]['address'])
        nerr = nfail = nskip = 0
        for el, (t, u) in zip(cases, started):
            if not close(el.get('name'), t['address']):
                yield Violation('tests', 'test case {!r}, should be {!r}'.format(el.get('name'), t['address']))
            if el.get('classname') != t['class']:
                yield Violation('class', '{} has class {}, should be {}'.format(t['address'], el.get('classname'), t['class']))
            try:
                assert float(el.get('time')) >= 0
            except (AssertionError, TypeError, ValueError):
                yield Violation('format', 'time of {}: {}'.format(t['address'], el.get('time')))
            if {x.tag for x in el} - {'error', 'failure', 'skipped', 'detail'}:
                yield Violation('format', 'elements {}'.format([x.tag for x in el]))
            bad = self.errors(t['address'], [x for x in el if x.tag in ('error', 'failure')], t['errors'], u['errors'])
            if bad:
                yield Violation('errors', bad)
            skips = [x.get('type') for x in el.findall('skipped')]
            if not (len(t['skips']) <= len(skips) <= len(u['skips'])) or not all(close(a, '' if b is None and a == '' else b) for a, b in zip(skips, u['skips'])):
                yield Violation('skips', '{}: skips {} in the report, {} really'.format(t['address'], skips, u['skips']))
            details = [(k, v) for k, vs in t['details'] for v in vs]
            got = el.findall('detail')
            if len(got) != len(details):
                yield Violation('details', '{}: {} details of {}'.format(t['address'], len(got), t['details']))
            for x, (k, v) in zip(got, details):
                if not close(x.get('name'), k) or not self.detail(x, v, True):
                    yield Violation('details', '{}: the detail {!r}, {}, is reported as {}'.format(t['address'], k, v, ET.tostring(x)))
            nerr += any(x.tag == 'error' for x in el)
            nfail += any(x.tag == 'failure' for x in el) and not any(x.tag == 'error' for x in el)
            nskip += bool(skips)
        top = [e.tag for e in root if e.tag != 'testcase']
        unstarted = [t for t in after['tests'] if not t['started']]
        nerr += 'error' in top
        nfail += 'failure' in top and 'error' not in top
        if at['totals'] == after['totals'] and not any(t['errors'] or t['skips'] for t in unstarted):
            if (nerr, nfail) != (int(root.get('errors')), int(root.get('failures'))):
                yield Violation('totals', 'the elements add up to {} errors and {} failures, not {} and {}'.format(nerr, nfail, root.get('errors'), root.get('failures')))
            if nskip != int(root.get('skipped')):
                yield Violation('totals', 'the elements add up to {} skipped, not {}'.format(nskip, root.get('skipped')))

    def detail(self, el, v, top=False):
        kind, x = v
        if kind == 't':
            return len(el) == 0 and close((el.get('value') if top else el.text) or '', x)
        if len(el) != len(x) or el.text and el.text.strip():
            return False
        if kind == 'l':
            return all(self.detail(c, y) for c, y in zip(el, x))
        return all((close(c.get('name'), k) if c.get('name') is not None else c.tag == k) and self.detail(c, y) for c, (k, y) in zip(el, x))

    def errors(self, where, els, at, after):
        if not len(at) <= len(els) <= len(after):
            return '{}: {} errors in the report, {} really'.format(where, len(els), len(after))
        if at != after:
            # those added in between may be anywhere
            rest = list(after)
            pairs = []
            for el in els:
                m = next((e for e in rest if self.match(el, e)), None)
                if m is None:
                    return '{}: {} {} is none of {}'.format(where, el.tag, el.attrib, after)
                rest.remove(m)
            return None
        for el, e in zip(els, at):
            if not self.match(el, e):
                return '{}: {} {}, should be {}'.format(where, el.tag, el.attrib, e)
        return None

    def match(self, el, e):
        return el.tag == ('failure' if e['failure'] else 'error') and close(el.get('message'), e['message']) and el.get('type') in (e['type'], el.tag if e['type'] is None else e['type'])

    def counters(self, case, obs):
        c = collections.Counter(runs=1)
        at = obs['snaps'].get('at_end')
        if at is None or obs['xml'] is None:
            return c
        after = obs['snaps'].get('after') or at
        c['reports'] += 1
        c['parallel'] += bool(case['parallel'])
        c['session_errors'] += len(at['global'])
        c['interrupted'] += bool(case['end'])
        c['later_errors'] += at != after
        for t in at['tests']:
            c['not_run'] += not t['started']
            c['testcases'] += t['started']
            c['classes'] += t['class'] is not None
            c['errors'] += sum(1 for e in t['errors'] if not e['failure'])
            c['failures'] += sum(1 for e in t['errors'] if e['failure'])
            c['multi'] += len(t['errors']) > 1
            c['skips'] += len(t['skips'])
            c['details'] += len(t['details'])
            c['params'] += '(' in t['address']
            c['hostile'] += sum(1 for s in [t['address']] + [e['message'] for e in t['errors']] + t['skips'] if s is None or not s.isprintable() or not s.isascii() or '<' in s)
        return c

    def signature(self, case, obs):
        return repr((case['tests'], case['hooks'], case['end'])) if obs['snaps'] else None

    def shrink(self, case):
        for i in range(len(case['tests'])):
            if len(case['tests']) > 1:
                end = case['end'] and case['end'][0] != i and [case['end'][0] - (case['end'][0] > i), case['end'][1]] or None
                yield dict(case, tests=case['tests'][:i] + case['tests'][i + 1:], end=end)
        for i, t in enumerate(case['tests']):
            for k, v in (('params', []), ('fixture', []), ('cleanup', []), ('prog', []), ('deco', None), ('cls', False)):
                if t[k] != v:
                    yield dict(case, tests=case['tests'][:i] + [dict(t, **{k: v})] + case['tests'][i + 1:])
        for h in case['hooks']:
            yield dict(case, hooks={k: v for k, v in case['hooks'].items() if k != h})
        for k, v in (('end', None), ('x', False), ('parallel', 0), ('verbose', []), ('repeat', 1)):
            if case[k] != v:
                yield dict(case, **{k: v})
