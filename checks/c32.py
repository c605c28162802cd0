import collections
import json
import os
import subprocess
import sys
import xml.etree.ElementTree as ET

import vp
from vp.core import REPO, Check, Violation

HEAD = 'import json, os\ndef hit(n):\n    with open(os.environ["VP_HITS"], "a") as f:\n        f.write(n + "\\n")\n    return True\n'
ENDS = ('pass', 'pass', 'pass', 'assert 1 == 2', 'raise ValueError("x")', 'slash.skip_test("s")', 'raise KeyboardInterrupt()')


class CHECK(Check):
    prop = 'C32'
    technique = 'runtime monitoring: the covered code itself logs which of its lines are executed; coverage data and reports written by the plugin are compared with that log'
    rule = 'sequential and parallel sessions of generated projects (modules with branches, loops, generators, threads; tests that pass, fail, are interrupted), one or several in a row, with every combination of sources, report types, configuration files and appending'
    required = ('sessions', 'lines_executed', 'lines_missed', 'xml', 'html', 'no_report', 'parallel', 'many_workers', 'appended', 'replaced', 'config', 'config_ignored', 'several_sources', 'outside_sources', 'failed', 'interrupted', 'threads')
    assumptions = ('the coverage package measures correctly',)
    n_quick = 90
    n_thorough = 1500
    case_timeout = 150
    imports = ('slash.frontend.slash_run',)

    def body(self, rng, name, depth=0):
        """A list of (indent, text)"""
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            self.n += 1
            h = 'hit("{}.{}")'.format(name, self.n)
            r = rng.random()
            if r < 0.4 or depth > 2:
                out.append((depth, h))
            elif r < 0.65:
                out.append((depth, 'if x % {} == {}:'.format(rng.choice([2, 3]), rng.choice([0, 1]))))
                out += self.body(rng, name, depth + 1)
                if rng.random() < 0.6:
                    out.append((depth, 'else:'))
                    out += self.body(rng, name, depth + 1)
            elif r < 0.8:
                out.append((depth, 'for _ in range(x % 3):'))
                out += self.body(rng, name, depth + 1)
            else:
                out.append((depth, 'try:'))
                out += self.body(rng, name, depth + 1)
                out.append((depth + 1, '[][x - {}]'.format(rng.choice([1, 2, 3])) if rng.random() < 0.5 else '(lambda: 0)()'))
                out.append((depth, 'except IndexError:'))
                out += self.body(rng, name, depth + 1)
        return out

    def module(self, rng, name):
        lines = [HEAD.rstrip()]
        for k in range(rng.choice([1, 2, 3])):
            lines.append('def f{}(x):'.format(k))
            lines += ['    ' * (d + 1) + t for d, t in self.body(rng, name)]
        if rng.random() < 0.5:
            self.n += 1
            lines.append('hit("{}.{}")'.format(name, self.n))
        return '\n'.join(lines) + '\n', k + 1

    def gen(self, rng, i, tier):
        self.n = 0
        mods, funcs = {}, {}
        for name in ('moda', 'modb', 'modc')[:rng.choice([1, 2, 3])]:
            mods[name], funcs[name] = self.module(rng, name)
        sessions = []
        for s in range(rng.choice([1, 1, 2, 3])):
            par = rng.choice([1, 2, 3]) if (i + s) % 4 == 1 else 0
            wide = par and i % 12 == 1 and not s
            if wide:
                par = rng.choice([10, 11, 12])
            tests = []
            for _ in range(par + 1 if wide else rng.choice([1, 2, 4])):
                calls = []
                for _ in range(1 if wide else rng.choice([0, 1, 2])):
                    m = rng.choice(sorted(mods))
                    calls.append([m, rng.randrange(funcs[m]), rng.randrange(6), rng.choice(['call', 'call', 'thread', 'cleanup', 'fixture'])])
                end = rng.choice(ENDS[:-1] if par or rng.random() < 0.8 else ENDS)
                tests.append([calls, end])
            argv = ['--with-coverage']
            sources = rng.choice([None, None] + [rng.sample(sorted(mods), rng.randint(1, len(mods)))] * 4)
            for m in sources or ():
                argv += ['--cov', m]
            types = rng.choice([[], ['xml'], ['xml'], ['html'], ['html', 'xml'], ['xml', 'html']])
            if types:
                argv += ['--cov-report', ','.join(types)]
            report = rng.random() < 0.8
            if not report:
                argv += ['-o', 'plugin_config.coverage.report=no']
            append = rng.random() < (0.5 if s else 0.2)
            if append:
                argv.append('--cov-append')
            conf = rng.random() < 0.25
            if conf:
                argv += ['--cov-config', 'my.rc']
            sessions.append({'tests': tests, 'argv': argv, 'sources': sources, 'types': types or ['html'], 'report': report, 'append': append, 'conf': conf, 'parallel': par, 'wide': bool(wide)})
        return {'mods': mods, 'sessions': sessions, 'omit': rng.choice(sorted(mods)), 'defaultrc': rng.random() < 0.5}

    def run(self, case):
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([REPO, os.getcwd()]), VP_HITS=os.path.join(os.getcwd(), 'hits'), PYTHONDONTWRITEBYTECODE='1')
        env.pop('COVERAGE_PROCESS_START', None)
        for name, text in case['mods'].items():
            with open(name + '.py', 'w', encoding='utf-8') as f:
                f.write(text)
        with open('my.rc', 'w', encoding='utf-8') as f:
            f.write('[run]\nomit =\n    {}.py\n'.format(case['omit']))
        if case['defaultrc']:
            with open('.coveragerc', 'w', encoding='utf-8') as f:
                f.write('[run]\nomit =\n    {}.py\n'.format(case['omit']))
        out = []
        for s in case['sessions']:
            lines = ['import slash, threading']
            body = []
            for k, (calls, end) in enumerate(s['tests']):
                args, text = [], []
                for j, (m, fn, x, how) in enumerate(calls):
                    call = '{}.f{}({})'.format(m, fn, x)
                    if m not in ' '.join(lines):
                        lines.append('import ' + m)
                    if s.get('wide') and not text:
                        text.append('import time; time.sleep(0.5)')     # every worker gets a test
                    if how == 'call':
                        text.append(call)
                    elif how == 'thread':
                        text.append('t = threading.Thread(target=lambda: {}); t.start(); t.join()'.format(call))
                    elif how == 'cleanup':
                        text.append('slash.add_critical_cleanup(lambda: {})'.format(call))
                    else:
                        body += ['@slash.fixture', 'def fx{}_{}():'.format(k, j), '    ' + call]
                        args.append('fx{}_{}'.format(k, j))
                body += ['def test_{}({}):'.format(k, ', '.join(args))] + ['    ' + t for t in text] + ['    ' + end]
            with open('test_it.py', 'w', encoding='utf-8') as f:
                f.write('\n'.join(lines + body) + '\n')
            for name in ('hits', 'coverage.xml'):
                if os.path.exists(name):
                    os.remove(name)
            if os.path.exists('htmlcov'):
                os.rename('htmlcov', 'old{}'.format(len(out)))
            p = subprocess.run([sys.executable, '-m', 'slash.frontend.main', 'run', 'test_it.py'] + s['argv'] + (['--parallel', str(s['parallel'])] if s['parallel'] else []), env=env,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            one = {'code': p.returncode, 'text': p.stdout.decode('utf-8', 'replace')[-1500:]}
            one['hits'] = sorted(set(open('hits', encoding='utf-8').read().split())) if os.path.exists('hits') else []
            one['data'] = self.data()
            one['files'] = sorted(n for n in os.listdir('.') if n.startswith('.coverage') and n != '.coveragerc')
            if s['parallel'] and not s['report']:
                self.combine()      # as the user does
            one['xml'] = None
            if os.path.exists('coverage.xml'):
                one['xml'] = {}
                for c in ET.parse('coverage.xml').iter('class'):
                    one['xml'][os.path.basename(c.get('filename'))] = sorted(int(line.get('number')) for line in c.iter('line') if int(line.get('hits')))
            one['html'] = None
            if os.path.exists('htmlcov'):
                one['html'] = sorted(n for n in os.listdir('htmlcov') if n.startswith(('mod', 'test_it')) and n.endswith('.html') or n == 'index.html')
            out.append(one)
        return out

    def data(self):
        """Lines in the data files"""
        import coverage
        out = collections.defaultdict(set)
        for name in os.listdir('.'):
            if name.startswith('.coverage') and name != '.coveragerc':
                d = coverage.CoverageData(basename=os.path.abspath(name))
                d.read()
                for f in d.measured_files():
                    out[os.path.basename(f)].update(d.lines(f))
        return {k: sorted(v) for k, v in out.items()}

    def combine(self):
        import coverage
        c = coverage.Coverage(data_file='.coverage', config_file=False)
        c.load()
        c.combine()
        c.save()

    def judge(self, case, obs):
        for v in self.violations(case, obs):
            return [v]
        return []

    def hit_lines(self, case, m):
        return {line.strip()[5:-2]: n for n, line in enumerate(case['mods'][m].splitlines(), 1) if line.strip().startswith('hit("')}

    def violations(self, case, obs):
        before = {}     # lines of earlier sessions which may still be told of
        for n, (s, o) in enumerate(zip(case['sessions'], obs)):
            where = 'session {} ({}, parallel: {})'.format(n, ' '.join(s['argv']), s['parallel'])
            ends = [e for _, e in s['tests']]
            ok = all(e in ('pass', 'slash.skip_test("s")') for e in ends)
            if ok != (o['code'] == 0):
                yield Violation('exit', '{}: the exit code is {}: {}'.format(where, o['code'], o['text']))
                return
            if not s['append']:
                before = {}
            now = {}
            for m in case['mods']:
                wanted = (s['sources'] is None or m in s['sources']) and not (s['conf'] and m == case['omit'])
                lines = self.hit_lines(case, m)
                executed = {lines[h] for h in o['hits'] if h in lines} if wanted else set()
                now[m] = executed | before.get(m, set())
            for m in case['mods']:
                lines = set(self.hit_lines(case, m).values())
                got = set(o['data'].get(m + '.py', ())) & lines
                if got != now[m]:
                    yield Violation('data', '{}: lines {} of {} are recorded, {} were executed (files {})'.format(where, sorted(got), m, sorted(now[m]), o['files']))
                    return
            for kind in ('xml', 'html'):
                made = o[kind] is not None
                want = s['report'] and kind in s['types'] and bool(o['data'])
                if made != want and (made or any(now.values())):
                    yield Violation('report', '{}: the {} report is {}'.format(where, kind, 'written' if made else 'missing: {}'.format(o['text'])))
                    return
            if o['xml'] is not None:
                for m in case['mods']:
                    lines = set(self.hit_lines(case, m).values())
                    got = set(o['xml'].get(m + '.py', ())) & lines
                    # an omitted module of earlier sessions is not reported
                    if got != now[m] and not (s['conf'] and m == case['omit']) and not (s['sources'] is not None and m not in s['sources']):
                        yield Violation('xml', '{}: lines {} of {} are reported, {} were executed'.format(where, sorted(got), m, sorted(now[m])))
                        return
            if o['html'] is not None:
                for m in case['mods']:
                    if now[m] and not any(x.startswith(m) for x in o['html']) and not (s['conf'] and m == case['omit']) and not (s['sources'] is not None and m not in s['sources']):
                        yield Violation('html', '{}: {} is not reported'.format(where, m))
                        return
            before = now

    def counters(self, case, obs):
        c = collections.Counter()
        for n, (s, o) in enumerate(zip(case['sessions'], obs)):
            c['sessions'] += 1
            for m in case['mods']:
                lines = set(self.hit_lines(case, m))
                if s['sources'] is None or m in s['sources']:
                    c['lines_executed'] += len(lines & set(o['hits']))
                    c['lines_missed'] += len(lines - set(o['hits']))
                else:
                    c['outside_sources'] += len(lines & set(o['hits']))
            c['xml'] += o['xml'] is not None
            c['html'] += o['html'] is not None
            c['no_report'] += not s['report']
            c['parallel'] += bool(s['parallel'])
            c['many_workers'] += s['parallel'] >= 10
            c['appended'] += bool(n and s['append'])
            c['replaced'] += bool(n and not s['append'])
            c['config'] += s['conf']
            c['config_ignored'] += bool(case['defaultrc'] and not s['conf'])
            c['several_sources'] += len(s['sources'] or ()) > 1
            ends = [e for _, e in s['tests']]
            c['failed'] += any('assert' in e or 'Value' in e for e in ends)
            c['interrupted'] += any('Keyboard' in e for e in ends)
            c['threads'] += sum(call[3] == 'thread' for calls, _ in s['tests'] for call in calls)
        return c

    def signature(self, case, obs):
        return json.dumps([[o['hits'], o['xml'] is None, s['argv']] for s, o in zip(case['sessions'], obs)])

    def shrink(self, case):
        for k in range(len(case['sessions'])):
            if len(case['sessions']) > 1:
                yield dict(case, sessions=case['sessions'][:k] + case['sessions'][k + 1:])
        for k, s in enumerate(case['sessions']):
            for j in range(len(s['tests'])):
                if len(s['tests']) > 1:
                    t = dict(s, tests=s['tests'][:j] + s['tests'][j + 1:])
                    yield dict(case, sessions=case['sessions'][:k] + [t] + case['sessions'][k + 1:])
