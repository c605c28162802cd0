import collections
import os
import sys

from vp import confprobe, suite
from vp.core import Check, Violation

SOURCE = '''
import slash
from vp import confprobe
confprobe.mark('begin', {name!r}, [k for k in __import__('sys').modules if 'vp_test_mod' in k], slash.config.root.run.session_state_path)
{body}
confprobe.mark('end', {name!r})
'''
ENTRIES = {'parallel.worker_error_file': ['w1', 'w2', 'w3', 'w4'], 'resume.state_retention_days': [3, 4, 5, 6], 'debug.debugger': ['a', 'b', 'c'], 'run.default_sources': [['x'], ['y']], 'parallel.communication_timeout_secs': [70, 80, 90]}
ERRORS = {'runtime': "raise RuntimeError('broken customization')", 'syntax': 'def broken(:', 'import': 'import no_such_module_at_all', 'exit': 'raise SystemExit(3)', 'assert': 'assert 1 == 2', 'interrupt': 'raise KeyboardInterrupt()',
          'slash': "raise slash.exceptions.SlashException('x')", 'key': "slash.config.root.no_such_entry = 3", 'late': "@slash.hooks.configure.register\ndef f():\n    raise RuntimeError('late')"}
TEST = '''
import slash
from vp import confprobe
confprobe.mark('loaded')
def test_a():
    confprobe.mark('test')
    confprobe.snap('test')
'''
PLUGIN = '''
class P(slash.plugins.PluginInterface):
    def get_name(self):
        return 'plug {name}'
    def activate(self):
        confprobe.mark('activated', {name!r})
slash.plugins.manager.install(P(), activate_later=True)
'''


class CHECK(Check):
    prop = 'C29'
    technique = 'runtime monitoring: events emitted by generated customization sources of real runs, and configuration snapshots, against the documented order'
    rule = 'random presence, location (default, configured, environment, URL, entry points), contents and failures of every customization source, combined with command-line overrides'
    required = ('loaded', 'user', 'user_env', 'project', 'project_configured', 'settings_file', 'settings_url', 'entry_points', 'missing', 'failed', 'overridden', 'cmdline', 'plugins', 'side', 'working_directory')
    n_quick = 240
    n_thorough = 5000

    def gen(self, rng, i, tier):
        sources = []

        def add(kind, **kw):
            s = dict(kind=kind, set={}, plugin=rng.random() < 0.3, error=None, **kw)
            for path in rng.sample(sorted(ENTRIES), rng.choice([0, 1, 2, 3])):
                s['set'][path] = rng.choice(ENTRIES[path])
            sources.append(s)
            return s
        user = rng.choice(['none', 'default', 'default', 'env', 'env_missing', 'both', 'configured_none'])
        if user in ('default',):
            add('user', path='~/.slash/slashrc')
        elif user in ('env', 'both'):
            add('user', path='{root}/user dir/my_rc')
        project = rng.choice(['none', 'default', 'default', 'default', 'configured', 'configured_relative', 'configured_home', 'configured_missing'])
        if project.startswith('configured') and not sources:
            project = 'default'
        ppath = {'none': './.slashrc', 'default': './.slashrc', 'configured': '{root}/elsewhere/conf.py', 'configured_relative': 'sub/dir/proj rc', 'configured_home': '~/projrc', 'configured_missing': '{root}/missing/rc'}[project]
        if project.startswith('configured'):
            sources[0]['project_path'] = ppath
        if project not in ('none', 'configured_missing'):
            add('project', path=ppath)
        settings = rng.choice(['none', 'none', 'file', 'file', 'url', 'empty', 'url_404'])
        if settings == 'file':
            add('settings', path='{root}/settings/s.py')
        elif settings in ('url', 'url_404'):
            s = add('settings', path='s.py', url=True)
            if settings == 'url_404':
                s['error'] = '404'
        for n in range(rng.choice([0, 0, 0, 1, 2])):
            add('entry{}'.format(n))
        if sources and rng.random() < 0.3:
            s = rng.choice(sources)
            if not s['error']:
                s['error'] = rng.choice(sorted(ERRORS))
                if s['error'] == 'syntax' and s['kind'].startswith('entry'):
                    s['error'] = 'runtime'
                s['error_late'] = rng.random() < 0.5
        cmd = {path: rng.choice(ENTRIES[path]) for path in rng.sample(sorted(ENTRIES), rng.choice([0, 0, 1, 2]))}
        for s in sources:
            s['side'] = s['kind'] in ('user', 'project') and rng.random() < 0.4
        wd = rng.random() < 0.3         # slash is called with a working directory, which is not the current one
        return {'wd': wd, 'user': user, 'project': project, 'ppath': ppath, 'settings': settings, 'sources': sources, 'cmd': cmd, 'decoy': rng.random() < 0.5, 'missing_test': False}

    def body(self, s):
        lines = []
        if s.get('project_path'):
            lines.append("slash.config.root.run.project_customization_file_path = {!r}".format(s['project_path'].format(root=os.getcwd())))
        lines += ['slash.config.assign_path({!r}, {!r})'.format(k, v) for k, v in s['set'].items()]
        if s.get('side'):
            lines.append('import vp_side_{0}\nconfprobe.mark("side", vp_side_{0}.NAME)'.format(s['kind']))
        if s['plugin']:
            lines.append(PLUGIN.format(name=s['kind']))
        if s['error'] in ERRORS:
            lines.insert(len(lines) if s.get('error_late') else 0, ERRORS[s['error']])
        return '\n'.join(lines) or 'pass'

    def run(self, case):
        root = os.getcwd()
        work = os.path.join(root, 'work dir')
        os.mkdir(work)
        env = {}
        server = None
        os.chdir(work)
        for s in case['sources']:
            text = SOURCE.format(name=s['kind'], body='')
            os.chdir(root)
            text = SOURCE.format(name=s['kind'], body=self.body(s))
            os.chdir(work)
            if s.get('url'):
                server = serve('' if s['error'] == '404' else text, s['error'] == '404')
                env['SLASH_SETTINGS'] = 'http://127.0.0.1:{}/s.py'.format(server.server_address[1])
                continue
            if s['kind'].startswith('entry'):
                write(os.path.join(root, 'dists', s['kind'] + '_mod.py'), 'def customize():\n' + '\n'.join('    ' + line for line in text.splitlines()) + '\n')
                continue
            path = os.path.expanduser(s['path'].format(root=root))
            if s['kind'] == 'settings':
                env['SLASH_SETTINGS'] = path
            if s['kind'] == 'user' and case['user'] in ('env', 'both'):
                env['SLASH_USER_SETTINGS'] = path
            write(path, text)
            if s['side']:
                write(os.path.join(os.path.dirname(path), 'vp_side_{}.py'.format(s['kind'])), 'NAME = {!r}\n'.format(s['kind']))
        if case['user'] == 'both':      # the environment replaces the default location
            write(os.path.expanduser('~/.slash/slashrc'), SOURCE.format(name='WRONG user', body=''))
        elif case['user'] == 'env_missing':
            env['SLASH_USER_SETTINGS'] = os.path.join(root, 'does not exist')
            write(os.path.expanduser('~/.slash/slashrc'), SOURCE.format(name='WRONG user', body=''))
        if case['settings'] == 'empty':
            env['SLASH_SETTINGS'] = ''
        if case['decoy']:
            if case['project'] in ('configured', 'configured_relative', 'configured_home', 'configured_missing'):
                write(os.path.join(work, '.slashrc'), SOURCE.format(name='WRONG project', body=''))
            write(os.path.join(work, 'tests', '.slashrc'), SOURCE.format(name='WRONG tests', body=''))
            write(os.path.join(root, '.slashrc'), SOURCE.format(name='WRONG parent', body=''))
            write(os.path.join(root, 'sub', 'dir', 'proj rc'), SOURCE.format(name='WRONG parent', body=''))
        entries = [s['kind'] for s in case['sources'] if s['kind'].startswith('entry')]
        if entries:
            import pkg_resources
            for n, e in enumerate(entries):
                d = os.path.join(root, 'dists')
                write(os.path.join(d, 'vpsite{}-1.0.dist-info'.format(n), 'METADATA'), 'Metadata-Version: 2.1\nName: vpsite{}\nVersion: 1.0\n'.format(n))
                write(os.path.join(d, 'vpsite{}-1.0.dist-info'.format(n), 'entry_points.txt'), '[slash.site.customize]\n{0} = {0}_mod:customize\n'.format(e))
            sys.path.insert(0, d)
            pkg_resources.working_set.add_entry(d)
        write(os.path.join(work, 'tests', 'test_vp_test_mod.py'), TEST)
        for k in ('SLASH_SETTINGS', 'SLASH_USER_SETTINGS', 'http_proxy', 'HTTP_PROXY', 'all_proxy'):
            os.environ.pop(k, None)
        os.environ['NO_PROXY'] = '*'
        os.environ.update(env)
        del confprobe.EV[:]
        argv = ['run', 'tests'] + [a for k, v in case['cmd'].items() for a in ('-o', '{}={}'.format(k, v))]
        if case['wd']:
            os.chdir(root)
            app, out, escaped = suite.run_app([os.path.join(work, 'tests')] + argv[2:], cwd=work)
            code, err = 1 if app is None else app.exit_code, ''
        else:
            code, out, err, escaped = suite.run_cli(argv, cwd=work)
        if server:
            server.shutdown()
        return {'ev': [e if e[0] == 'mark' else (e[0], e[1], {k: e[2][k] for k in list(ENTRIES) + ['run.project_name']}) for e in confprobe.EV], 'code': code, 'out': (out + err)[-2000:],
                'escaped': repr(escaped) if escaped is not None else None, 'requests': getattr(server, 'vp_requests', 0)}

    def judge(self, case, obs):
        return list(self.violations(case, obs))

    def order(self, case):
        rank = {'user': 0, 'project': 1, 'settings': 2}
        return sorted(case['sources'], key=lambda s: rank.get(s['kind'], 3))

    def violations(self, case, obs):
        marks = [e[1:] for e in obs['ev'] if e[0] == 'mark']
        begun = [m[1] for m in marks if m[0] == 'begin']
        ended = [m[1] for m in marks if m[0] == 'end']
        order = self.order(case)
        failing = next((s for s in order if s['error'] and s['error'] != 'late'), None)
        late = any(s['error'] == 'late' for s in order)
        names = [s['kind'] for s in order]
        fuzzy = [n for n in names if n.startswith('entry')]     # between entry points there is no order
        want_begin = [n for n in names]
        if failing is not None:
            k = names.index(failing['kind'])
            want_begin = names[:k + (failing['error'] not in ('syntax', '404'))]
        strip = lambda seq: [n for n in seq if n not in fuzzy]
        if strip(begun) != strip(want_begin):
            yield Violation('order', 'customization sources executed: {}, expected {}'.format(begun, want_begin))
            return
        got_f = collections.Counter(n for n in begun if n in fuzzy)
        if any(v > 1 for v in got_f.values()) or failing is None and set(got_f) != set(fuzzy):
            yield Violation('order', 'entry points executed: {}, expected {}'.format(dict(got_f), fuzzy))
            return
        if fuzzy and begun and any(n in fuzzy for n in begun[:len(strip(begun))]):
            yield Violation('order', 'customization sources executed: {}, expected {}'.format(begun, want_begin))
            return
        if any(m[0] == 'begin' and m[2] for m in marks) or any(m[0] in ('loaded', 'activated') for m in marks[:max([i for i, m in enumerate(marks) if m[0] == 'begin'] or [0])]):
            yield Violation('too-late', 'a customization source was executed after tests were loaded or plugins activated: {}'.format(marks))
            return
        if failing is not None or late:
            if any(m[0] in ('loaded', 'test') for m in marks):
                yield Violation('not-aborted', 'a customization source failed ({}), yet tests were loaded'.format(failing))
            elif not obs['code']:
                yield Violation('exit-code', 'a customization source failed ({}) and the exit code is {}'.format(failing, obs['code']))
            return
        if sorted(ended) != sorted(names):
            yield Violation('incomplete', 'completed {}, expected {}'.format(ended, names))
            return
        if obs['code'] != 0 or sum(1 for m in marks if m[0] == 'test') != 1:
            yield Violation('run', 'exit code {}: {} {}'.format(obs['code'], obs['escaped'], obs['out'][-800:]))
            return
        side = sorted(m[1] for m in marks if m[0] == 'side')
        if side != sorted(s['kind'] for s in order if s['side']):
            yield Violation('side', 'modules beside the sources: {}'.format(side))
            return
        act = sorted(m[1] for m in marks if m[0] == 'activated')
        if act != sorted(s['kind'] for s in order if s['plugin']):
            yield Violation('plugins', 'activated {}'.format(act))
            return
        snap = next(e[2] for e in obs['ev'] if e[0] == 'snap')
        for path in ENTRIES:
            vals = [s['set'][path] for s in order if path in s['set'] and s['kind'] not in fuzzy]
            fvals = [s['set'][path] for s in order if path in s['set'] and s['kind'] in fuzzy]
            allowed = [case['cmd'][path]] if path in case['cmd'] else fvals or vals[-1:]
            if allowed and snap[path][1] not in allowed:
                yield Violation('override', '{} is {!r}, expected {!r} (set by {})'.format(path, snap[path][1], allowed, [(s['kind'], s['set'].get(path)) for s in order]))
                return
        path = case['ppath']
        wantp = {'{root}/elsewhere/conf.py': 'elsewhere', 'sub/dir/proj rc': 'dir', '~/projrc': 'home', '{root}/missing/rc': 'missing'}.get(path, 'work dir')
        if snap['run.project_name'][1] != wantp:
            yield Violation('project-name', 'project name {!r}, expected {!r}'.format(snap['run.project_name'][1], wantp))

    def counters(self, case, obs):
        marks = [e[1:] for e in obs['ev'] if e[0] == 'mark']
        kinds = [m[1] for m in marks if m[0] == 'end']
        c = collections.Counter(loaded=len(kinds))
        c['user'] = int('user' in kinds and case['user'] == 'default')
        c['user_env'] = int('user' in kinds and case['user'] != 'default')
        c['project'] = int('project' in kinds and case['project'] == 'default')
        c['project_configured'] = int('project' in kinds and case['project'] != 'default')
        c['settings_file'] = int('settings' in kinds and case['settings'] == 'file')
        c['settings_url'] = int('settings' in kinds and case['settings'] == 'url')
        c['entry_points'] = sum(1 for k in kinds if k.startswith('entry'))
        c['missing'] = int(case['user'] in ('none', 'env_missing')) + int(case['project'] in ('none', 'configured_missing'))
        c['failed'] = int(any(s['error'] for s in case['sources']))
        c['overridden'] = sum(1 for p in ENTRIES if sum(1 for s in case['sources'] if p in s['set']) > 1)
        c['cmdline'] = sum(1 for p in case['cmd'] if any(p in s['set'] for s in case['sources']))
        c['working_directory'] = int(case['wd'] and 'project' in kinds)
        c['side'] = sum(m[0] == 'side' for m in marks)
        c['plugins'] = sum(1 for m in marks if m[0] == 'activated')
        return c

    def signature(self, case, obs):
        return repr((case['user'], case['project'], case['settings'], [(s['kind'], s['error']) for s in case['sources']], obs['code'], [e for e in obs['ev'] if e[0] == 'mark'][:3]))

    def shrink(self, case):
        for i, s in enumerate(case['sources']):
            for key, val in (('set', {}), ('plugin', False), ('error', None)):
                if s[key]:
                    yield dict(case, sources=case['sources'][:i] + [dict(s, **{key: val})] + case['sources'][i + 1:])
        if case['cmd']:
            yield dict(case, cmd={})
        if case['wd']:
            yield dict(case, wd=False)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def serve(text, missing):
    import threading
    from http.server import BaseHTTPRequestHandler, HTTPServer

    class Handler(BaseHTTPRequestHandler):
        def do_GET(self):
            self.server.vp_requests += 1
            self.send_response(404 if missing else 200)
            self.end_headers()
            self.wfile.write(text.encode() or b'confprobe = None')

        def log_message(self, *_):
            pass
    server = HTTPServer(('127.0.0.1', 0), Handler)
    server.vp_requests = 0
    threading.Thread(target=server.serve_forever, kwargs={'poll_interval': 0.02}, daemon=True).start()
    return server
