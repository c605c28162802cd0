import collections
import datetime
import glob
import json
import os
import subprocess
import sys

import vp
from vp import logprobe as lp
from vp import suite
from vp.core import REPO, Check, Violation

LEVELS = {'trace': 9, 'debug': 10, 'info': 11, 'notice': 12, 'warning': 13, 'error': 14, 'critical': 15}
TEXTS = ['plain', 'two\nlines', 'braces {} {0} %s %d', '\u05d0\u2713\U0001f600', 'x' * 400, 'ctl \x1b[31m\x07', 'trailing\n', '', 'tab\tand\rreturn']
CORE = ['slash.runner', 'slash.core.scope_manager', 'slash.exception_handling']
CHANNELS = [None, None, None, 'my.channel', 'other', 'silent.one', 'slash.other', 'core']
HOOKS = ['before_session_start', 'session_start', 'after_session_start', 'tests_loaded', 'before_test_cleanups', 'test_start', 'test_end', 'test_success', 'test_failure', 'test_error', 'test_skip', 'test_avoided', 'test_interrupt', 'session_interrupt', 'before_session_cleanup', 'session_end', 'after_session_end', 'result_summary', 'error_added', 'app_quit']
SITES = HOOKS + ['module', 'slashrc', 'fx_setup', 'fx_teardown', 'mod_setup', 'mod_teardown', 'ses_setup', 'ses_teardown', 'cleanup', 'session_cleanup', 'before', 'after', 'body', 'body', 'body', 'generator', 'thread_body', 'critical_cleanup', 'test_scope_cleanup']
ENDS = ['ok', 'ok', 'ok', 'error', 'fail', 'skip', 'add_error', 'add_failure', 'avoid', 'kbd', 'exit', 'fatal', 'add_ok', 'sigterm', 'fail_skip', 'error_skip', 'skip_fail']
SUB = {'default': '{context.session.id}/{context.test_id}/debug.log', 'index': '{context.session.id}/{context.test.__slash__.test_index0:03}-{context.test.id}.log', 'flat': '{context.test_id}.log', 'names': '{context.test_classname}.{context.test_methodname}-{context.test.__slash__.test_index1}.log',
       'project': '{project_name}/{timestamp:%Y}/{context.test_id}/x.log', 'deep': 'a/b/{context.session.id}/c/{context.test_id}/d/e.log', 'address': '{context.test.__slash__.address}-{context.test_id}.log', 'const': 'all.log', 'none': None, 'same': None}
SES = {'default': '{context.session.id}/session.log', 'flat': 'session.log', 'deep': 'x/y/session-{context.session.id}.log', 'time': '{timestamp:%Y%m}/{context.session.id}.log', 'none': None}
HL = {'none': None, 'flat': 'hl.log', 'session': '{context.session.id}/hl.log', 'test': 'hl/{context.test_id}.log'}
FORMATS = [None, '[{record.level_name}] {record.channel}: {record.message}', '{record.time:%H:%M:%S} {record.message}', '>> {record.message} <<', '{record.extra[test]}{record.message}']


def norm(s):
    return str(s).replace('\\', '_').replace('/', '_')


def sub_path(name, ses, w):
    t = w['test']
    now = datetime.datetime.now()
    if name in (None, 'none'):
        return None
    if name == 'same':
        return ses
    return {'default': lambda: '{}/{}/debug.log'.format(w['session'], t['id']), 'index': lambda: '{}/{:03}-{}.log'.format(w['session'], t['index0'], t['id']), 'flat': lambda: '{}.log'.format(t['id']),
            'names': lambda: '{}.{}-{}.log'.format(norm(t['cls']), norm(t['method']), t['index0'] + 1), 'project': lambda: 'proj/{}/{}/x.log'.format(now.year, t['id']), 'deep': lambda: 'a/b/{}/c/{}/d/e.log'.format(w['session'], t['id']),
            'address': lambda: '{}-{}.log'.format(norm(t['address']), t['id']), 'const': lambda: 'all.log'}[name]()


def ses_path(name, w):
    now = datetime.datetime.now()
    return {'default': '{}/session.log'.format(w['session']), 'flat': 'session.log', 'deep': 'x/y/session-{}.log'.format(w['session']), 'time': '{:%Y%m}/{}.log'.format(now, w['session']), 'none': None}[name]


def hl_path(name, w):
    return {'none': None, 'flat': 'hl.log', 'session': '{}/hl.log'.format(w['session']), 'test': 'hl/{}.log'.format(w['test']['id'] if w['test'] else None)}[name]


class CHECK(Check):
    prop = 'C18'
    technique = 'runtime monitoring: every message carries a unique id and is noted, with the test current then, where it is emitted; all log files, the announcements of their closing, reported paths and links are compared with what the configuration says about each message'
    rule = 'messages of all levels from several loggers, threads, loading, hooks, tests, and fixtures and cleanups of all scopes, with tests ending in any way, under random log configurations: path templates, unified log, highlights, silenced and core loggers, formats, compression with and without raw files, links (some already existing), cleanup settings; also with parallel workers'
    required = ('messages', 'in_test', 'outside', 'unified', 'highlights', 'silenced', 'core_hidden', 'core_shown', 'threads', 'prelude', 'closed_events', 'deleted', 'kept', 'compressed', 'raw', 'links', 'interrupted', 'errors_logged', 'console', 'parallel', 'avoided', 'no_files', 'same_file', 'ci_links', 'extra_handler', 'relative')
    n_quick = 360
    n_thorough = 15000
    case_timeout = 120
    imports = ('slash.frontend.slash_run', 'brotli')
    assumptions = ['path templates distinguish tests unless they are uncompressed and never cleaned up', 'messages can be encoded', 'messages emitted by log_file_closed handlers may go to either log', 'the raw copy of the compressed session log starts with the session', 'the highlights log is separate from the other logs']

    def gen(self, rng, i, tier):
        par = rng.random() < 0.025
        sites = {}
        for s in rng.sample(SITES, rng.choice([2, 5, 9, 15])) + ['body']:
            specs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                ch = rng.choice(CHANNELS)
                if ch == 'core':
                    ch = rng.choice(CORE)
                if s == 'slashrc':
                    ch = rng.choice([None, 'my.channel'])
                sp = {'channel': ch, 'level': rng.choice(sorted(LEVELS)), 'text': rng.choice(TEXTS), 'highlight': rng.random() < 0.25 and ch not in CORE, 'bypass': ch in CORE and rng.random() < 0.3, 'thread': s not in ('slashrc',) and rng.random() < 0.2, 'args': rng.random() < 0.3}
                if s == 'error_added' and sp['level'] in ('error', 'critical'):
                    sp['level'] = 'warning'
                specs.append(sp)
            sites[s] = specs
        tests = []
        for k in range(rng.choice([1, 2, 3, 4])):
            e = rng.choice(ENDS)
            if e in ('kbd', 'exit', 'fatal', 'sigterm') and (rng.random() < 0.5 or par):
                e = 'ok'
            tests.append({'end': e, 'cls': rng.random() < 0.3, 'params': rng.choice([0, 0, 0, 2]), 'repeat': rng.choice([1, 1, 1, 1, 2]), 'file': rng.choice([0, 0, 1])})
        comp = rng.random() < 0.3
        clean = rng.random() < 0.35
        sub = rng.choice(sorted(SUB) + ['default'] * 3)
        if sub == 'const' and (comp or clean or par):
            sub = 'default'
        ses = rng.choice(sorted(SES) + ['default'] * 2)
        if sub == 'same' and (ses == 'none' or par or clean):
            sub = 'flat'
        hl = rng.choice(['none', 'none'] + sorted(HL))
        conf = {'root': rng.choice(['abs'] * 8 + ['slashes', 'home', 'none', 'rel', 'dotted']), 'sub': sub, 'ses': 'default' if par else ses, 'hl': 'session' if par and hl != 'none' else hl, 'unified': rng.random() < 0.4, 'silence': rng.choice([[], [], ['silent.one'], ['silent.one', 'other']]),
                'core': rng.choice([None, None, 'trace', 'error']), 'format': rng.choice(FORMATS + [None] * 2), 'console_format': rng.choice([None, None, 'console {record.message}']), 'colorize': rng.random() < 0.15, 'localtime': rng.random() < 0.15, 'compress': rng.choice(['gzip', 'brotli']) if comp else None, 'raw': rng.random() < 0.4,
                'cleanup': clean, 'keep': rng.random() < 0.6, 'captured': rng.random() < 0.15, 'extra': rng.random() < 0.15, 'trunc': rng.choice([None, None, None, 'errors', 'off']), 'ci': rng.choice([None] * 5 + ['http://ci/build', 'http://ci/build/'])}
        links = {}
        for n in ('last_session', 'last_session_dir', 'last_test', 'last_failed'):
            if rng.random() < 0.5:
                links[n] = [rng.choice(['rel', 'deep', 'abs']), rng.choice([None, None, 'dangling', 'file', 'regular'])]
        end = None
        if not par and rng.random() < 0.12:
            end = [rng.choice(['session_start', 'after_session_start', 'before_session_start', 'test_start', 'test_end', 'session_end', 'tests_loaded', 'module', 'mod_teardown', 'session_cleanup', 'cleanup']), rng.choice(['kbd', 'error', 'error', 'exit'])]
        return {'sites': sites, 'tests': tests, 'conf': conf, 'link_spec': links, 'end': end, 'x': rng.random() < 0.15, 'verbose': rng.choice([[], ['-v'], ['-vv'], ['-vvv'], ['-vvvv'], ['-q'], ['-qq']]), 'parallel': rng.choice([1, 2]) if par else 0}

    def paths(self, case):
        cwd = os.path.realpath(os.getcwd())
        root = {'abs': cwd + '/logs', 'slashes': cwd + '//logs/', 'home': '~/logs', 'rel': 'logs', 'dotted': './nodir/.././logs/', 'none': None}[case['conf']['root']]
        real = None if root is None else os.path.abspath(os.path.expanduser(root))
        links = {}
        for n, (where, _) in case['link_spec'].items():
            links[n] = {'rel': os.path.join(real or cwd + '/nolinks', 'link-' + n), 'deep': os.path.join(real or cwd + '/nolinks', 'links/deep/' + n), 'abs': cwd + '/abslinks/' + n}[where]
        return cwd, root, real, links

    def write(self, case):
        cwd, root, real, links = self.paths(case)
        c = case['conf']
        sub = SES[c['ses']] if c['sub'] == 'same' else SUB[c['sub']]
        rc = ['import slash, logbook, os', 'from vp import logprobe as lp', 'L = slash.config.root.log', 'slash.config.root.run.project_name = "proj"']
        for k, v in (('root', root), ('subpath', sub), ('session_subpath', SES[c['ses']]), ('highlights_subpath', HL[c['hl']]), ('unified_session_log', c['unified']), ('silence_loggers', c['silence']), ('format', c['format']), ('console_format', c['console_format']), ('colorize', c['colorize']), ('localtime', c['localtime']), ('compression.enabled', bool(c['compress'])), ('compression.algorithm', c['compress'] or 'brotli'), ('compression.use_rotating_raw_file', c['raw']), ('cleanup.enabled', c['cleanup']), ('cleanup.keep_failed', c['keep'])):
            rc.append('L.{} = {!r}'.format(k, v))
        if c['trunc']:
            rc.append('L.truncate_console_errors = True' if c['trunc'] == 'errors' else 'L.truncate_console_lines = False')
        if c['core']:
            rc.append('L.core_log_level = logbook.{}'.format(c['core'].upper()))
        if c['captured']:
            rc.append('slash.config.root.run.capture.error_logs_as_errors = True')
        for n, (where, state) in case['link_spec'].items():
            rc.append('L.{}_symlink = {!r}'.format(n, {'rel': 'link-' + n, 'deep': 'links/deep/' + n, 'abs': links[n]}[where]))
        if c['extra']:
            rc += ['EXTRA = logbook.TestHandler(bubble=True)', 'slash.log.add_log_handler(EXTRA)', 'slash.app_extra = EXTRA']
        for h in HOOKS:
            rc += ['@slash.hooks.{}.register'.format(h), 'def hook_{}(**_):'.format(h)]
            if h == 'test_start':
                rc.append('    lp.links("test_start")')
            if h == 'session_start':
                rc.append('    lp.write({"kind": "session", "path": slash.context.session.logging.session_log_path, "id": slash.context.session.id, "worker": slash.config.root.parallel.worker_id})')
            rc += ['    lp.site({!r})'.format(h)] + self.fault(case, h)
        rc += ['@slash.hooks.log_file_closed.register', 'def closed(path, result):', '    lp.closed(path, result)']
        rc += ['@slash.hooks.session_start.register', 'def with_cleanup():', '    slash.add_cleanup(session_cleanup)', 'def session_cleanup():', '    lp.site("session_cleanup")'] + self.fault(case, 'session_cleanup')
        rc += ['@slash.hooks.after_session_end.register', 'def zz():', '    lp.results()', 'lp.site("slashrc")']
        with open('.slashrc', 'w') as f:
            f.write('\n'.join(rc) + '\n')
        for fi in (0, 1):
            tests = [(k, t) for k, t in enumerate(case['tests']) if t['file'] == fi]
            if not tests:
                continue
            out = ['# -*- coding: utf-8 -*-', 'import slash, os, sys, signal', 'from vp import logprobe as lp', 'lp.site("module")'] + [x.strip() for x in self.fault(case, 'module')]
            out += ['@slash.yield_fixture(scope="module", autouse=True)', 'def mod():', '    lp.site("mod_setup")', '    yield', '    lp.site("mod_teardown")'] + self.fault(case, 'mod_teardown')
            out += ['@slash.yield_fixture(scope="session")', 'def ses():', '    lp.site("ses_setup")', '    yield', '    lp.site("ses_teardown")']
            out += ['@slash.yield_fixture', 'def fx(ses):', '    lp.site("fx_setup")', '    yield', '    lp.site("fx_teardown")']
            out += ['@slash.generator_fixture', 'def gen():', '    lp.site("generator")', '    yield 1']
            out += ['def cleanup():', '    lp.site("cleanup")'] + self.fault(case, 'cleanup') + ['def critical_cleanup():', '    lp.site("critical_cleanup")']
            for k, t in tests:
                ind = ''
                if t['cls']:
                    out += ['class T{}(slash.Test):'.format(k), '    def before(self):', '        lp.site("before")', '    def after(self):', '        lp.site("after")']
                    ind = '    '
                if t['end'] == 'avoid':
                    out.append(ind + '@slash.skipped("avoided")')
                if t['params']:
                    out.append(ind + '@slash.parametrize("p", [1, "a/b"])')
                if t['repeat'] > 1:
                    out.append(ind + '@slash.repeat({})'.format(t['repeat']))
                args = (['self'] if t['cls'] else []) + ['fx'] + (['p'] if t['params'] else []) + (['gen'] if k == 0 else [])
                out += [ind + 'def test_{}({}):'.format(k, ', '.join(args)), ind + '    slash.add_cleanup(cleanup)', ind + '    slash.add_critical_cleanup(critical_cleanup)', ind + '    lp.site("body")'] + [ind + x for x in self.end(t['end'], 'body')]
            with open('test_{}.py'.format(fi), 'w', encoding='utf-8') as f:
                f.write('\n'.join(out) + '\n')
        for n, (where, state) in case['link_spec'].items():
            if state and root is not None:
                os.makedirs(os.path.dirname(links[n]), exist_ok=True)
                if state == 'regular':
                    open(links[n], 'w').close()
                else:
                    os.symlink(cwd + ('/nowhere' if state == 'dangling' else '/.slashrc'), links[n])
        with open('lp.json', 'w') as f:
            json.dump({'sites': case['sites'], 'links': links}, f)
        return links

    def end(self, e, site):
        f = 'lp.fault({!r})'.format(site)
        return {'ok': [], 'avoid': [], 'error': ['    raise ValueError({})'.format(f)], 'fail': ['    tok = ' + f, '    assert False, tok'], 'skip': ['    slash.skip_test("x")'], 'add_error': ['    slash.add_error({})'.format(f)], 'add_ok': ['    slash.add_error({})'.format(f), '    lp.site("body")'], 'fail_skip': ['    slash.add_failure({})'.format(f), '    slash.skip_test("x")'], 'error_skip': ['    slash.add_error({})'.format(f), '    slash.skip_test("x")'], 'skip_fail': ['    slash.context.result.add_skip("x")', '    tok = ' + f, '    assert False, tok'], 'add_failure': ['    slash.add_failure({})'.format(f)], 'kbd': ['    raise KeyboardInterrupt()'], 'exit': ['    import sys; sys.exit(3)'],
                'fatal': ['    raise slash.exception_handling.mark_exception_fatal(ValueError({}))'.format(f)], 'sigterm': ['    os.kill(os.getpid(), signal.SIGTERM)']}[e]

    def fault(self, case, site):
        return self.end(case['end'][1], site) if case['end'] and case['end'][0] == site else []

    def run(self, case):
        os.environ['VP_LOG'] = os.path.realpath(os.getcwd())
        links = self.write(case)
        lp.load('lp.json')
        argv = sorted(glob.glob('test_*.py')) + case['verbose'] + (['-x'] if case['x'] else [])
        extra = None
        code = None
        if case['conf']['ci']:
            argv += ['--with-ci-links']
            os.environ['BUILD_URL'] = case['conf']['ci']
        if case['parallel']:
            os.environ['PYTHONPATH'] = os.pathsep.join([REPO, os.path.dirname(os.path.dirname(vp.__file__))])
            with open('.slashrc') as f:
                src = f.read()
            with open('.slashrc', 'w') as f:
                f.write('from vp import logprobe\nlogprobe.load({!r})\n'.format(os.path.abspath('lp.json')) + src)
            p = subprocess.run([sys.executable, '-m', 'slash.frontend.main', 'run'] + argv + ['--parallel', str(case['parallel'])], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            text, code = p.stdout.decode('utf-8', 'replace'), p.returncode
            escaped = None
        else:
            import slash
            app, text, escaped = suite.run_app(argv)
            if case['conf']['extra'] and hasattr(slash, 'app_extra'):
                import re
                extra = [m for r in slash.app_extra.records for m in re.findall(r'^VPM(\d+x\d+);', r.message)]
        events = []
        for f in sorted(glob.glob('events-*')):
            with open(f) as fh:
                events += [json.loads(l) for l in fh]
        files = {}
        _, root, real, _ = self.paths(case)
        if real and os.path.isdir(real):
            for d, ds, fs in os.walk(real):
                for f in fs:
                    p = os.path.join(d, f)
                    if not os.path.islink(p) and p not in links.values():
                        files[p] = lp.ids(p)
        return {'events': events, 'files': files, 'links': {n: os.readlink(p) if os.path.islink(p) else 'regular' if os.path.exists(p) else None for n, p in links.items()}, 'text': text, 'escaped': repr(escaped) if escaped else None, 'extra': extra, 'root_exists': real is not None and os.path.isdir(real), 'strays': sorted(os.path.join(d, f) for d, _, fs in os.walk('.') for f in fs if '.log' in f and not d.startswith('./logs') and not os.path.islink(os.path.join(d, f)))}

    def judge(self, case, obs):
        for v in self.violations(case, obs):
            return [v]
        return []

    def expected(self, case, obs, e):
        """The files a message or error should be in: set of paths, or None if unspecified"""
        c = case['conf']
        _, root, real, _ = self.paths(case)
        if e['session'] is None and e.get('site') != 'slashrc' or root is None:
            return set()
        if e.get('site') == 'slashrc':
            if case['parallel']:
                return None
            ids = [x['id'] for x in obs['events'] if x['kind'] == 'session']
            sid = ids[0] if ids else None
            if sid is None:
                return None
            e = dict(e, session=sid)
        ses = ses_path(c['ses'], e)
        sub = sub_path(c['sub'], ses, e) if e['test'] else ses
        main = {sub} if sub else set()
        if c['unified'] and ses:
            main.add(ses)
        out = set()
        for m in main:
            if c['compress']:
                out.add(m + ('.gz' if c['compress'] == 'gzip' else '.br'))
                if c['raw']:
                    out.add(m)
            else:
                out.add(m)
        if (e['kind'] == 'fault' or e['spec']['highlight']) and e.get('site') != 'slashrc':
            h = hl_path(c['hl'], e)
            if h:
                out.add(h)
        if e.get('site') == 'slashrc' and c['compress']:
            # the raw file is only started with the session
            out.discard(ses)
        return {os.path.join(real, p) for p in out}

    def hidden(self, case, e):
        c, s = case['conf'], e['spec']
        if e['site'] == 'slashrc':
            return False
        if s['channel'] in c['silence']:
            return True
        core = LEVELS[c['core'] or 'warning']
        return s['channel'] in CORE and LEVELS[s['level']] < core and not s['bypass']

    def violations(self, case, obs):
        c = case['conf']
        cwd, root, real, linkpaths = self.paths(case)
        ev = obs['events']
        def ab(p, base=cwd):
            return p and os.path.normpath(os.path.join(base, p))

        def target(n, v):
            return v if v == 'regular' else ab(v, os.path.dirname(linkpaths[n]))
        for e in ev:
            if e['kind'] == 'results':
                for t in [e] + e['tests']:
                    t['path'] = ab(t['path'])
                    if 'dir' in t:
                        t['dir'] = ab(t['dir'])
                e['paths'] = [ab(p) for p in e['paths']]
            if 'links' in e:
                e['links'] = {k: target(k, v) for k, v in e['links'].items()}
        obs['links'] = {k: target(k, v) for k, v in obs['links'].items()}
        res = [e for e in ev if e['kind'] == 'results']
        started = [e for e in ev if e['kind'] == 'session']
        emits = [e for e in ev if e['kind'] == 'emit']
        if obs['strays']:
            yield Violation('stray', 'log files outside the log root: {}'.format(obs['strays']))
        if not root and obs['files']:
            yield Violation('stray', 'files {}'.format(sorted(obs['files'])))
        if root and not obs['root_exists'] and any(e['kind'] == 'closed' for e in ev):
            yield Violation('cleanup', 'the log root itself was removed')
        if started and not res and not (case['end'] and case['end'][0] in ('session_start', 'after_session_start', 'before_session_start', 'session_end', 'session_cleanup')) and not obs['escaped']:
            yield Violation('run', 'no results: {}'.format(obs['text'][-1500:]))
        dead = {'app_quit'}
        seen = collections.OrderedDict()
        closed = collections.OrderedDict()
        for e in ev:
            if e['kind'] == 'closed':
                e['path'] = ab(e['path'])
                closed.setdefault(e['path'], []).append(e)
        # every file is announced, with its final contents, and the contents are right
        want = collections.defaultdict(list)
        wanterr = collections.defaultdict(set)
        for e in emits:
            if e['site'] in dead or self.hidden(case, e):
                continue
            p = self.expected(case, obs, e)
            if p is None:
                seen[e['id']] = None
                continue
            for x in p:
                want[x].append(e['id'])
        for e in ev:
            if e['kind'] == 'fault':
                p = self.expected(case, obs, e)
                if e['site'] not in ('app_quit', 'result_summary'):
                    for x in p or ():
                        wanterr[x].add(e['token'])
        if root is None:
            if closed:
                yield Violation('closed', 'log_file_closed without log files: {}'.format(list(closed)))
        prelude = {e['id'] for e in emits if e['site'] == 'slashrc'}
        shared = c['sub'] in ('const', 'same')
        for p, es in closed.items():
            e = es[-1]
            if not e['exists']:
                yield Violation('closed', '{} was announced and did not exist'.format(p))
                continue
            if 'failed' in e['content']:
                yield Violation('content', '{} cannot be read when it is announced as closed: {}'.format(p, e['content']['failed']))
                continue
            if len(es) > 1 and not shared:
                yield Violation('closed', '{} was announced {} times'.format(p, len(es)))
            got = [i for i in e['content']['ids'] if i not in seen and not (c['compress'] and c['raw'] and not p.endswith(('.gz', '.br')) and i in prelude)]
            w = want.get(p, [])
            if got != w:
                cg, cw = collections.Counter(got), collections.Counter(w)
                byid = {x['id']: x for x in emits}
                extra, missing = sorted((cg - cw).elements()), sorted((cw - cg).elements())
                yield Violation('extra' if extra else 'lost' if missing else 'order', '{}: messages not belonging there: {}, missing: {}{}'.format(os.path.relpath(p, real), [self.brief(byid[x]) for x in extra[:3]], [self.brief(byid[x]) for x in missing[:3]], '' if extra or missing else '; order ' + str(got)))
            if e['content']['cut']:
                byid = {x['id']: x for x in emits}
                yield Violation('cut', '{}: the text of messages is not whole: {}'.format(os.path.relpath(p, real), [self.brief(byid[x]) for x in e['content']['cut'][:3]]))
            miss = wanterr.get(p, set()) - set(e['content']['errors'])
            if miss:
                yield Violation('errors', '{} does not contain the errors {} of {}'.format(os.path.relpath(p, real), sorted(miss)[:3], [x['site'] for x in ev if x.get('token') in miss][:3]))
            # contents do not change after that
            now = obs['files'].get(p)
            delete = c['cleanup'] and (not c['keep'] or e['success'])
            if delete and now is not None:
                yield Violation('cleanup', '{} should have been removed (keep_failed={}, success={})'.format(p, c['keep'], e['success']))
            if not delete and now is None:
                yield Violation('cleanup', '{} is gone (cleanup={}, keep_failed={}, success={})'.format(p, c['cleanup'], c['keep'], e['success']))
            if now is not None and now != e['content']:
                yield Violation('content', '{} changed after it was closed: {} -> {}'.format(p, e['content'], now))
        for p in list(want) + list(wanterr):
            if p not in closed and started:
                yield Violation('closed', '{} was never closed'.format(p))
        for p in obs['files']:
            if p not in closed:
                yield Violation('closed', '{} exists and was not announced'.format(p))
        # paths
        for r in res:
            w = {'session': r['session'], 'test': None}
            comp = {'gzip': '.gz', 'brotli': '.br', None: ''}[c['compress']]
            sp = ses_path(c['ses'], w)
            sp = None if sp is None or root is None else os.path.join(real, sp) + comp
            if r['path'] != sp:
                yield Violation('path', 'the session log is reported at {}, should be {}'.format(r['path'], sp))
            h = hl_path(c['hl'], w)
            ps = ([sp] if sp else []) + ([os.path.join(real, h)] if h and root else [])
            if r['paths'] != ps:
                yield Violation('path', 'the session logs are reported as {}, should be {}'.format(r['paths'], ps))
            if case['parallel'] and r['worker'] is None:
                known = {t['id']: t for x in res if x['worker'] is not None for t in x['tests']}
                mine = {t['index0']: t['path'] for x in res if x['worker'] is not None for t in x['tests']}
                for t in r['tests']:
                    if t['started'] and t['index0'] in mine and t['path'] != mine[t['index0']]:
                        yield Violation('path', 'the log of test {} is reported at {}, the worker wrote {}'.format(t['index0'], t['path'], mine[t['index0']]))
                continue
            for t in r['tests']:
                es = [e for e in ev if e.get('test') and e['test']['id'] == t['id']]
                link = c['ci'] and t['started'] and t['path'] and c['ci'].rstrip('/') + '/artifact/' + t['raw_path']
                if (t['link'] or None) != (link or None) and not (case['end'] and case['end'][0] in ('test_start', 'test_end')):
                    yield Violation('ci-link', 'the log of {} is linked as {}, should be {}'.format(t['id'], t['link'], link))
                if not t['started'] and not t['skips'] and t['path'] is not None:
                    yield Violation('path', 'a test which was not run has a log: {}'.format(t))
                if es:
                    p = sub_path(c['sub'], ses_path(c['ses'], w), es[0])
                    p = None if p is None or root is None else os.path.join(real, p) + comp
                    if t['path'] != p or t['dir'] != (p and os.path.dirname(p)):
                        yield Violation('path', 'the log of {} is reported at {} ({}), should be {}'.format(t['id'], t['path'], t['dir'], p))
            if c['sub'] not in ('const', 'same', 'none') and root:
                ps = [t['path'] for t in r['tests'] if t['path']]
                if len(ps) != len(set(ps)):
                    yield Violation('path', 'tests share log files: {}'.format(ps))
        # which result a file is announced for
        for p, es in closed.items():
            for e in es:
                if e['test'] is None and not e['is_global'] or e['test'] is not None and e['result_id'] != e['test']['id']:
                    yield Violation('closed', '{} announced for result {} while {} was current'.format(p, e['result_id'], e['test']))
        if root and not case['parallel'] and res:
            for v in self.links(case, obs, res[0]):
                yield v
        if not case['parallel'] and started:
            for v in self.console(case, obs, emits, dead):
                yield v
        if obs['extra'] is not None:
            exp = [e['id'] for e in emits if e['site'] not in dead and e['session'] is not None and e['spec']['channel'] not in c['silence'] and e['site'] != 'slashrc']
            skip = {e['id'] for e in emits if e['spec']['channel'] in c['silence'] or e['site'] == 'slashrc' or self.hidden(case, e)}
            got = [i for i in obs['extra'] if i not in skip]
            if collections.Counter(got) - collections.Counter(exp) or [x for x in exp if x not in got and x not in skip]:
                yield Violation('extra-handler', 'the added handler received {}, emitted {}'.format(got, exp))

    def brief(self, e):
        return (e['site'], e['spec']['channel'], e['spec']['level'], 'thread' if e['thread'] else '', 'in ' + e['test']['id'][-4:] if e['test'] else 'outside')

    def links(self, case, obs, r):
        c = case['conf']
        cwd, root, real, paths = self.paths(case)
        old = {n: {None: None, 'dangling': cwd + '/nowhere', 'file': cwd + '/.slashrc', 'regular': 'regular'}[s] for n, (_, s) in case['link_spec'].items()}
        raw = c['compress'] and c['raw']

        def same(got, path, was):
            if path is None:
                return got == was
            return got == path or raw and got == os.path.splitext(path)[0]
        ran = [t for t in r['tests'] if t['path']]
        want = {'last_session': r['path'], 'last_session_dir': r['path'] and os.path.dirname(r['path']), 'last_test': ran[-1]['path'] if ran else None, 'last_failed': ([t['path'] for t in ran if t['bad']] or [None])[-1]}
        for n, got in obs['links'].items():
            if not same(got, want[n], old[n]):
                yield Violation('link', '{} points at {}, should be {}'.format(n, got, want[n] or old[n]))
        for e in obs['events']:
            if e['kind'] == 'links' and 'last_test' in e['links'] and e['test']:
                p = [t['path'] for t in r['tests'] if t['id'] == e['test']['id']]
                if p and p[0] and not same(e['links']['last_test'], p[0], None):
                    yield Violation('link', 'last_test points at {} while {} is running'.format(e['links']['last_test'], p[0]))

    def console(self, case, obs, emits, dead):
        level = 13 + {'': 0}.get('', 0)
        for a in case['verbose']:
            level += a.count('q') - a.count('v')
        for e in emits:
            if e['site'] in dead | {'slashrc'} or e['session'] is None:
                continue
            n = obs['text'].count('VPM{};'.format(e['id']))
            lv = LEVELS[e['spec']['level']]
            if self.hidden(case, e) or lv < level:
                if n and lv < LEVELS['warning']:
                    yield Violation('console', '{} is shown on the console (level {})'.format(self.brief(e), level))
            elif n and e['spec']['text'] == TEXTS[4] and lv != LEVELS['warning']:
                cut = case['conf']['trunc'] != 'off' and (lv < LEVELS['error'] or case['conf']['trunc'] == 'errors')
                whole = 'VPM{};{}'.format(e['id'], TEXTS[4]) in obs['text']
                if cut == whole:
                    yield Violation('console', '{} is {}shortened on the console ({})'.format(self.brief(e), 'not ' if whole else '', case['conf']['trunc']))
            elif not n:
                yield Violation('console', '{} is not shown on the console (level {})'.format(self.brief(e), level))
            elif n > 1 and lv < LEVELS['warning']:
                yield Violation('console', '{} is shown {} times on the console'.format(self.brief(e), n))

    def counters(self, case, obs):
        k = collections.Counter(runs=1)
        c = case['conf']
        ev = obs['events']
        for e in ev:
            if e['kind'] == 'emit':
                k['messages'] += 1
                k['in_test' if e['test'] else 'outside'] += 1
                k['unified'] += bool(c['unified'] and e['test'])
                k['highlights'] += bool(c['hl'] != 'none' and e['spec']['highlight'])
                k['silenced'] += e['spec']['channel'] in c['silence']
                if e['spec']['channel'] in CORE:
                    k['core_hidden' if self.hidden(case, e) else 'core_shown'] += 1
                k['threads'] += e['thread']
                k['prelude'] += e['site'] == 'slashrc'
                k['same_file'] += c['sub'] == 'same'
                k['console'] += 'VPM{};'.format(e['id']) in obs['text']
            elif e['kind'] == 'closed':
                k['closed_events'] += 1
                k['compressed'] += e['path'].endswith(('.gz', '.br'))
                k['raw'] += bool(c['compress'] and c['raw'] and not e['path'].endswith(('.gz', '.br')))
                if c['cleanup']:
                    k['kept' if e['path'] in obs['files'] else 'deleted'] += 1
                k['errors_logged'] += len((e['content'] or {}).get('errors', ()))
        k['links'] += sum(1 for x in obs['links'].values() if x)
        k['interrupted'] += any(t['end'] in ('kbd', 'sigterm') for t in case['tests'])
        k['avoided'] += any(t['end'] == 'avoid' for t in case['tests'])
        k['parallel'] += bool(case['parallel'])
        k['ci_links'] += sum(1 for e in ev if e['kind'] == 'results' for t in e['tests'] if t['link'])
        k['no_files'] += c['root'] == 'none'
        k['relative'] += c['root'] in ('rel', 'dotted')
        k['extra_handler'] += len(obs['extra'] or ())
        return k

    def signature(self, case, obs):
        return repr((case['sites'], case['conf'], case['tests'])) if obs['events'] else None

    def shrink(self, case):
        for i in range(len(case['tests'])):
            if len(case['tests']) > 1:
                yield dict(case, tests=case['tests'][:i] + case['tests'][i + 1:])
        for s in case['sites']:
            yield dict(case, sites={k: v for k, v in case['sites'].items() if k != s})
            for i in range(len(case['sites'][s])):
                if len(case['sites'][s]) > 1:
                    yield dict(case, sites=dict(case['sites'], **{s: case['sites'][s][:i] + case['sites'][s][i + 1:]}))
        for n in case['link_spec']:
            yield dict(case, link_spec={k: v for k, v in case['link_spec'].items() if k != n})
        base = {'root': 'abs', 'sub': 'default', 'ses': 'default', 'hl': 'none', 'unified': False, 'silence': [], 'core': None, 'format': None, 'console_format': None, 'colorize': False, 'localtime': False, 'compress': None, 'raw': False, 'cleanup': False, 'keep': True, 'captured': False, 'extra': False, 'ci': None, 'trunc': None}
        for k, v in base.items():
            if case['conf'][k] != v:
                yield dict(case, conf=dict(case['conf'], **{k: v}))
        for i, t in enumerate(case['tests']):
            for k, v in (('cls', False), ('params', 0), ('repeat', 1), ('end', 'ok')):
                if t[k] != v:
                    yield dict(case, tests=case['tests'][:i] + [dict(t, **{k: v})] + case['tests'][i + 1:])
        for k, v in (('end', None), ('x', False), ('verbose', []), ('parallel', 0)):
            if case[k] != v:
                yield dict(case, **{k: v})
