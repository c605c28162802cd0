import collections
import json
import os
import re
import subprocess
import sys

import vp
from vp import suite, warnprobe as wp
from vp.core import REPO, Check, Violation

HEAD = '''# -*- coding: utf-8 -*-
import re, sys, threading, warnings
import logbook, slash
from slash.warnings import LogbookWarning
from vp import warnprobe as wp
class CatA(UserWarning): pass
class CatB(CatA): pass
class Own(Warning):
    def __init__(self, number):
        super(Own, self).__init__(number)
        self.number = number
    def __str__(self): return 'own %s' % self.number
class Local(DeprecationWarning): pass
class Leave(Exception): pass
cats = dict(CatA=CatA, CatB=CatB, Own=Own, Local=Local, UserWarning=UserWarning, DeprecationWarning=DeprecationWarning, ResourceWarning=ResourceWarning, Warning=Warning, LogbookWarning=LogbookWarning, RuntimeWarning=RuntimeWarning)
log = logbook.Logger('some.channel')
def level2(msg, cat):
    warnings.warn(msg, cat, stacklevel=2)
{rules}
'''
FAMILIES = ['alpha {}', 'beta {}', 'alpha beta {}', 'same', 'multi\nline {}', '{{braces}} %s %d {}', '\u05d0\u2713 {}', 'x \udc80 {}', 'ctl \x1b[31m\x00 {}', 'dot. {}', '(paren {}']
CATS = ['CatA', 'CatB', 'UserWarning', 'DeprecationWarning', 'ResourceWarning', 'RuntimeWarning', 'Local']
FORMS = ['warn', 'warn', 'warn', 'instance', 'noargs', 'twoargs', 'intarg', 'own', 'explicit', 'level2', 'log', 'log', 'logger', 'log_args', 'log_other', 'suppressed', 'recorded', 'thread', 'loop', 'plain', 'catch', 'stdlib_none']
EARLY = [f for f in FORMS if not f.startswith('log') or f == 'log_other']     # what is logged before the session exists is no warning of it
SITES = ['body', 'body', 'body', 'fixture', 'teardown', 'cleanup', 'session_start', 'session_end', 'test_start', 'test_end', 'module', 'before', 'session_cleanup', 'after_session_start', 'tests_loaded', 'generator', 'module_fixture']
FILES = ['/some/file.py', '/other/file.py', '/some/file2.py']


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.rules = []
        self.messages = []
        self.escapes = False
        self.forms = FORMS

    def message(self):
        self.n += 1
        m = self.rng.choice(FAMILIES).format(self.n)
        self.messages.append(m)
        return m

    def warn(self, ind):
        r = self.rng
        form = r.choice(self.forms)
        m = self.message()
        c = r.choice(CATS)
        a = ascii(m)
        n = self.n
        note = 'wp.note({}, {}, {}{}); '
        std = note.format(n, c, a, '')
        if form == 'warn':
            return [ind + std + 'warnings.warn({}, {})'.format(a, c)]
        if form == 'plain':
            return [ind + note.format(n, 'UserWarning', a, '') + 'warnings.warn({})'.format(a)]
        if form == 'instance':
            return [ind + std + 'warnings.warn({}({}))'.format(c, a)]
        if form == 'noargs':
            return [ind + note.format(n, c, '""', '') + 'warnings.warn({}())'.format(c)]
        if form == 'twoargs':
            return [ind + note.format(n, c, 'str(({}, 2))'.format(a), '') + 'warnings.warn({}({}, 2))'.format(c, a)]
        if form == 'intarg':
            return [ind + note.format(n, c, '"3"', '') + 'warnings.warn({}(3))'.format(c)]
        if form == 'own':
            return [ind + note.format(n, 'Own', '"own {}"'.format(n), '') + 'warnings.warn(Own({}))'.format(n)]
        if form == 'explicit':
            f, l = r.choice(FILES), r.choice([1, 2, 77])
            return [ind + note.format(n, c, a, ', explicit=({!r}, {})'.format(f, l)) + 'warnings.warn_explicit({}, {}, {!r}, {})'.format(a, c, f, l)]
        if form == 'level2':
            return [ind + std + 'level2({}, {})'.format(a, c)]
        if form == 'log':
            return [ind + note.format(n, 'LogbookWarning', a, '') + 'log.warning("{}", ' + a + ')']
        if form == 'logger':
            return [ind + note.format(n, 'LogbookWarning', a, '') + 'slash.logger.{}("%s" % {}.replace("{{", "").replace("}}", ""))'.format('warning', a).replace(a, ascii(self.plain(m)))] if '{' not in m and '}' not in m else [ind + 'pass']
        if form == 'log_args':
            return [ind + note.format(n, 'LogbookWarning', '"got 5 and " + ' + a, '') + 'slash.logger.warning("got {} and {}", 5, ' + a + ')']
        if form == 'log_other':
            return [ind + 'slash.logger.{}("not a warning")'.format(r.choice(['info', 'debug', 'notice', 'error']))]
        if form == 'stdlib_none':
            return [ind + 'warnings.warn("x", ImportWarning)']
        if form == 'suppressed':
            return [ind + 'with warnings.catch_warnings():', ind + '    warnings.simplefilter("ignore", {})'.format(c), ind + '    ' + note.format(n, c, a, ', shown=False') + 'warnings.warn({}, {})'.format(a, c)]
        if form == 'recorded':
            return [ind + 'with warnings.catch_warnings(record=True) as caught{}:'.format(n), ind + '    ' + note.format(n, c, a, ', shown=False') + 'warnings.warn({}, {})'.format(a, c)]
        if form == 'catch':
            return [ind + 'with warnings.catch_warnings():', ind + '    warnings.simplefilter("ignore", SyntaxWarning)', ind + '    ' + std + 'warnings.warn({}, {})'.format(a, c)]
        if form == 'thread':
            return [ind + 'def threaded{}():'.format(n), ind + '    ' + std + 'warnings.warn({}, {})'.format(a, c), ind + 'threading.Thread(target=threaded{}).run()'.format(n)]
        if form == 'loop':
            return [ind + 'for _ in range({}):'.format(r.choice([2, 3])), ind + '    ' + std + 'warnings.warn({}, {})'.format(a, c)]
        raise ValueError(form)

    @staticmethod
    def plain(m):
        return m

    def rule(self):
        r = self.rng
        d = {}
        for k in r.sample(['category', 'message', 'filename', 'lineno'], r.choice([0, 1, 1, 1, 2, 2, 3, 4]) if r.random() < 0.9 else 0) or (['message'] if r.random() < 0.8 else []):
            if k == 'category':
                d[k] = r.choice(CATS + ['LogbookWarning', 'Warning', 'Own'])
            elif k == 'message':
                d[k] = r.choice([['re', r.choice(['alpha', 'beta', '.*beta', '.*2$', '^own', '\\(paren', '3$', 'x .', '', 'ALPHA'])], ['s', r.choice(['same', 'alpha', '3', 'own', 'beta 2', r.choice(self.messages) if self.messages else 'same'])]])
            elif k == 'filename':
                d[k] = r.choice([['re', r.choice(['.*test_it', '/some/', '.*file', 'file', '.*other'])], ['s', r.choice(FILES + ['test_it.py'])], ['self', '']])
            else:
                d[k] = r.choice([1, 2, 77, r.randrange(60, 110)])
        return d

    def rule_src(self, d):
        a = []
        for k, v in d.items():
            if k == 'category':
                a.append('category=' + v)
            elif k == 'lineno':
                a.append('lineno={}'.format(v))
            elif v[0] == 'self':
                a.append('filename=__file__')
            else:
                a.append('{}={}'.format(k, 're.compile({!r})'.format(v[1]) if v[0] == 're' else ascii(v[1])))
        return ', '.join(a)

    def block(self, ind, depth):
        out = []
        r = self.rng
        for _ in range(r.choice([1, 1, 2, 3]) if depth else r.choice([1, 2, 3, 5])):
            k = r.random()
            if k < 0.62 or depth > 2:
                out += self.warn(ind)
            elif k < 0.68:
                d = self.rule_src(self.rule())
                out += [ind + 'wp.add(dict({})); slash.ignore_warnings({})'.format(d, d)]
            elif k < 0.70:
                out += [ind + 'wp.clear(); slash.clear_ignored_warnings() if hasattr(slash, "clear_ignored_warnings") else slash.warnings.clear_ignored_warnings()']
            else:
                d = self.rule_src(self.rule())
                self.n += 1
                n = self.n
                leave = r.choice(['normal', 'return', 'break'] if self.forms is EARLY else ['normal', 'normal', 'exception', 'exception', 'return', 'generator', 'break', 'error_added', 'skipexc'])
                inner = self.block(ind + '        ', depth + 1)
                if leave in ('normal', 'error_added'):
                    out += [ind + 'r{} = wp.add(dict({}))'.format(n, d), ind + 'with slash.ignored_warnings({}):'.format(d), ind + '    if 1:'] + inner + [ind + 'wp.remove(r{})'.format(n)]
                elif leave in ('exception', 'skipexc'):
                    self.escapes = True
                    exc = 'Leave()' if leave == 'exception' else 'slash.exceptions.SkipTest("left")'
                    out += [ind + 'r{} = wp.add(dict({}))'.format(n, d), ind + 'try:', ind + '    with slash.ignored_warnings({}):'.format(d)] + inner + [ind + '        raise {}'.format(exc), ind + 'except (Leave, slash.exceptions.SkipTest):', ind + '    wp.remove(r{})'.format(n)]
                elif leave == 'return':
                    out += [ind + 'def ret{}():'.format(n), ind + '    with slash.ignored_warnings({}):'.format(d)] + inner + [ind + '        return 1', ind + 'r{} = wp.add(dict({}))'.format(n, d), ind + 'ret{}()'.format(n), ind + 'wp.remove(r{})'.format(n)]
                elif leave == 'generator':
                    out += [ind + 'def gen{}():'.format(n), ind + '    with slash.ignored_warnings({}):'.format(d)] + inner + [ind + '        yield 1', ind + 'r{} = wp.add(dict({}))'.format(n, d), ind + 'g{} = gen{}(); next(g{}); g{}.close()'.format(n, n, n, n), ind + 'wp.remove(r{})'.format(n)]
                elif leave == 'break':
                    out += [ind + 'r{} = wp.add(dict({}))'.format(n, d), ind + 'for i{} in range(2):'.format(n), ind + '    with slash.ignored_warnings({}):'.format(d)] + inner + [ind + '        break', ind + 'wp.remove(r{})'.format(n)]
        return out


ENDS = {'ok': [], 'error': ['    raise ValueError("end")'], 'skip': ['    slash.skip_test("end")'], 'block_error': None, 'block_skip': None}


class CHECK(Check):
    prop = 'C19'
    technique = 'runtime monitoring: each issued warning is noted by the line issuing it, with the rules active then; compared with session.warnings, warning_added events and the console summary'
    rule = 'random programs issuing warnings (functions, instances of any shape, explicit origins, logs, threads) from loading, tests, fixtures, cleanups and hooks, among global rules and nested ignore blocks with random criteria, left normally, by exceptions, returns and closed generators; also with parallel workers'
    required = ('issued', 'ignored', 'suppressed', 'rules', 'blocks', 'clears', 'recorded', 'hook_events', 'console_totals', 'in_tests', 'outside', 'logs', 'parallel', 'verdicts', 'escaping_blocks', 'early')
    n_quick = 420
    n_thorough = 15000
    case_timeout = 120
    assumptions = ['warnings are suppressed by filters of the warnings module as Python does']

    def gen(self, rng, i, tier):
        g = Gen(rng)
        par = rng.random() < 0.03
        tests = []
        sites = {}
        if not par and i % 4 == 1:
            g.forms = EARLY
            sites['slashrc'] = g.block('', 0)
            g.forms = FORMS
        for _ in range(rng.choice([0, 1, 2, 4])):
            s = rng.choice(SITES)
            if s != 'body' and not (par and s not in ('fixture', 'teardown', 'cleanup')):
                sites[s] = g.block('    ', 0 if not par else 3)
        for k in range(rng.choice([1, 2, 3])):
            end = rng.choice(sorted(ENDS) + ['ok'] * 3)
            body = g.block('    ', 0 if not par else 3)
            if end.startswith('block'):
                g.n += 1
                d = g.rule_src(g.rule())
                exc = {'block_error': 'raise ValueError("end")', 'block_skip': 'slash.skip_test("end")'}[end]
                n = g.n
                body += ['    r{} = wp.add(dict({}))'.format(n, d), '    with slash.ignored_warnings({}):'.format(d)] + g.warn('        ') + ['        wp.remove(r{})'.format(n), '        wp.count("escaping_blocks")', '        ' + exc]
            else:
                body += ENDS[end]
            tests.append({'body': body, 'end': end, 'method': rng.random() < 0.2})
        rules = [g.rule_src(g.rule()) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        return {'tests': tests, 'sites': sites, 'rules': rules, 'escapes': g.escapes, 'parallel': rng.choice([1, 2]) if par else 0, 'logs': rng.random() < 0.4, 'verbose': rng.choice([[], ['-v'], ['-vv'], ['-q']]), 'stream': rng.random() < 0.5}

    def write(self, case):
        s = case['sites']
        if 'slashrc' in s:
            with open('.slashrc', 'w', encoding='utf-8') as f:
                f.write('\n'.join([HEAD.replace('{rules}', '')] + s['slashrc'] + ['wp.settle()', '']))
        out = [HEAD.replace('{rules}', '\n'.join('wp.add(dict({0})); slash.ignore_warnings({0})'.format(r) for r in case['rules']))]
        if 'module' in s:
            out += ['if 1:'] + s['module']
        for h in ('session_start', 'session_end', 'test_start', 'test_end', 'after_session_start', 'tests_loaded'):
            if h in s:
                out += ['@slash.hooks.{}.register'.format(h), 'def hook_{}(**_):'.format(h)] + s[h]
        if 'session_cleanup' in s:
            out += ['def session_cleanup():'] + s['session_cleanup'] + ['@slash.hooks.session_start.register', 'def add_session_cleanup():', '    slash.add_cleanup(session_cleanup)']
        if 'module_fixture' in s:
            out += ['@slash.fixture(scope="module", autouse=True)', 'def module_fixture():'] + s['module_fixture']
        out += ['@slash.yield_fixture', 'def fixture():'] + s.get('fixture', []) + ['    yield'] + s.get('teardown', []) + ['def cleanup():'] + s.get('cleanup', []) + ['    pass']
        if 'generator' in s:
            out += ['@slash.generator_fixture', 'def gen_fixture():'] + s['generator'] + ['    yield 1']
        out += ['@slash.hooks.session_end.register', 'def zz_dump():', '    wp.dump()']
        for k, t in enumerate(case['tests']):
            args = ['fixture'] + (['gen_fixture'] if 'generator' in s and k == 0 else [])
            if t['method']:
                out += ['class T{}(slash.Test):'.format(k)] + (['    def before(self):'] + ['    ' + x for x in s['before']] if 'before' in s else [])
                out += ['    def test_{}(self, {}):'.format(k, ', '.join(args)), '        slash.add_cleanup(cleanup)'] + ['    ' + x for x in t['body']]
            else:
                out += ['def test_{}({}):'.format(k, ', '.join(args)), '    slash.add_cleanup(cleanup)'] + t['body']
        with open('test_it.py', 'w', encoding='utf-8') as f:
            f.write('\n'.join(out) + '\n')

    def run(self, case):
        import gossip
        self.write(case)
        argv = ['test_it.py'] + case['verbose'] + (['-l', os.path.abspath('logs')] if case['logs'] else [])
        if case['parallel']:
            os.environ['VP_WARN'] = os.getcwd()
            os.environ['PYTHONPATH'] = os.pathsep.join([REPO, os.path.dirname(os.path.dirname(vp.__file__))])
            p = subprocess.run([sys.executable, '-m', 'slash.frontend.main', 'run'] + argv + ['--parallel', str(case['parallel'])], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            text = p.stdout.decode('utf-8', 'replace')
            exp = [json.loads(l) for l in open('expect')] if os.path.exists('expect') else []
            got = json.load(open('warnings')) if os.path.exists('warnings') else None
            return {'expect': exp, 'warnings': got, 'text': text, 'counts': {}, 'verdicts': None, 'seen': None, 'leftover': None, 'total': None if got is None else len(got)}
        gossip.register(wp.added, 'slash.warning_added')
        # what is shown on standard error is not of interest
        app, text, escaped = suite.run_app(argv)
        if app is None or app.session is None:
            return {'expect': [{k: v for k, v in e.items() if k != 'cls'} for e in wp.EXPECT], 'warnings': None, 'text': text + repr(escaped), 'counts': dict(wp.COUNTS), 'verdicts': None, 'seen': None, 'leftover': None, 'total': None}
        verdicts = ['error' if r.is_error() else 'failure' if r.is_failure() else 'skip' if r.is_skip() else 'ok' if r.is_success() else '?' for r in app.session.results.iter_test_results()]
        import slash.warnings
        ws = list(app.session.warnings)
        return {'expect': [{k: v for k, v in e.items() if k != 'cls'} for e in wp.EXPECT], 'warnings': [wp.describe(w) for w in ws], 'seen': [i for w in wp.SEEN for i, x in enumerate(ws) if x is w], 'nseen': len(wp.SEEN), 'text': text, 'counts': dict(wp.COUNTS), 'verdicts': verdicts, 'nglobal': len(app.session.results.global_result.get_errors()), 'total': len(app.session.warnings), 'truth': bool(app.session.warnings),
                'error': [e.message for r in app.session.results.iter_all_results() for e in r.get_errors()]}

    def judge(self, case, obs):
        for v in self.violations(case, obs):
            return [v]
        return []

    def violations(self, case, obs):
        if obs['warnings'] is None:
            yield Violation('run', 'the run failed: {}'.format(obs['text'][-2000:]))
            return
        root = os.path.realpath(os.getcwd())
        got = [w for w in obs['warnings'] if w['filename'] in FILES or os.path.realpath(w['filename']).startswith(root)]
        keys = ('message', 'category', 'filename', 'lineno', 'test_id')
        a = [tuple(w[k] if k != 'category' or w[k] is not None else w['type'] for k in keys) for w in got]
        b = [tuple(e[k] for k in keys) for e in obs['expect']]
        if case['parallel']:
            a.sort(key=repr)
            b.sort(key=repr)
            if case['parallel'] and len(a) != len(b):
                yield Violation('parallel', '{} warnings in the parent, {} issued by workers: {} {}'.format(len(a), len(b), [x for x in a if x not in b][:3], [x for x in b if x not in a][:3]))
        if a != b:
            extra = list((collections.Counter(a) - collections.Counter(b)).elements())
            missing = list((collections.Counter(b) - collections.Counter(a)).elements())
            yield Violation('lost' if missing else 'extra' if extra else 'order', 'warnings recorded: {}, issued: {}; missing {}, not issued {}'.format(len(a), len(b), missing[:3], extra[:3]))
        for w in obs['warnings']:
            if w['repr'] != w['message'] or not w['dict'] or w['type'] != w['category'] and w['category'] is not None:
                yield Violation('content', 'recorded as {}'.format(w))
        if obs['seen'] is not None:
            if obs['seen'] != list(range(len(obs['warnings']))) or obs['nseen'] != len(obs['seen']):
                yield Violation('hook', 'warning_added was fired for {} ({}), recorded {}'.format(obs['seen'], obs['nseen'], len(obs['warnings'])))
            if obs['truth'] != bool(obs['warnings']):
                yield Violation('content', 'truth of session.warnings')
        if '-q' not in case['verbose']:
            m = re.search(r'Warnings \((\d+) total\)', obs['text'])
            if (int(m.group(1)) if m else 0) != len(obs['warnings']):
                yield Violation('console', 'the summary counts {} warnings of {}'.format(m and m.group(1), len(obs['warnings'])))
            reps = [int(x) for x in re.findall(r'\(Repeated (\d+) times\)', obs['text'])]
            if sum(reps) != len(obs['warnings']):
                yield Violation('console', 'the summary lists {} warnings of {}: {}'.format(sum(reps), len(obs['warnings']), obs['text'][-1500:]))
            elif '\x1b' not in obs['text']:
                places = collections.Counter()
                for filename, lineno, n in re.findall(r'^ \* (.*?):(\d{3,}) -- .*? \(Repeated (\d+) times\)$', obs['text'], re.S | re.M):
                    places[(filename, int(lineno))] += int(n)
                recorded = collections.Counter((w['filename'], w['lineno']) for w in obs['warnings'])
                if places != recorded:
                    yield Violation('console', 'the summary lists {}, recorded {}'.format(sorted((places - recorded).items())[:3], sorted((recorded - places).items())[:3]))
        # exceptions leaving the blocks are recorded as errors wherever they are caught later
        if obs['verdicts'] is not None and not case['escapes']:
            want = []
            for t in sorted(range(len(case['tests'])), key=lambda k: (not case['tests'][k]['method'], k)):
                want.append({'ok': 'ok', 'error': 'error', 'skip': 'skip', 'block_error': 'error', 'block_skip': 'skip'}[case['tests'][t]['end']])
            if obs['verdicts'] != want or obs['nglobal']:
                yield Violation('verdict', 'verdicts {}, should be {}; {}'.format(obs['verdicts'], want, obs['error']))

    def counters(self, case, obs):
        c = collections.Counter(obs['counts'])
        c['runs'] += 1
        ws = obs['warnings'] or []
        c['recorded'] += len(ws)
        c['hook_events'] += len(obs['seen'] or ())
        c['in_tests'] += sum(1 for w in ws if w['test_id'])
        c['outside'] += sum(1 for w in ws if not w['test_id'])
        c['logs'] += sum(1 for w in ws if w['type'] == 'LogbookWarning')
        c['console_totals'] += 'total)' in obs['text']
        c['parallel'] += bool(case['parallel'] and ws)
        c['verdicts'] += len(obs['verdicts'] or ())
        return c

    def signature(self, case, obs):
        return repr((case['tests'], case['sites'], case['rules'])) if obs['expect'] or obs['counts'] else None

    def shrink(self, case):
        for i in range(len(case['tests'])):
            if len(case['tests']) > 1:
                yield dict(case, tests=case['tests'][:i] + case['tests'][i + 1:])
        for s in case['sites']:
            yield dict(case, sites={k: v for k, v in case['sites'].items() if k != s})
        for k, v in (('logs', False), ('verbose', []), ('parallel', 0), ('rules', [])):
            if case[k] != v:
                yield dict(case, **{k: v})
