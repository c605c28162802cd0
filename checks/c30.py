import collections
import email
import json
import os
import subprocess
import sys
import urllib.parse

import vp
from vp import suite
from vp.core import REPO, Check, Violation

NOTIFIERS = ('prowl', 'nma', 'pushbullet', 'email', 'slack')
TESTS = {
    'pass': 'pass',
    'skip': 'slash.skip_test("{braces} %s")',
    'fail': 'assert 1 == 2, "{braces} %s"',
    'error': 'raise ValueError("{braces} {0} %s \\u2713")',
    'adderr': 'slash.add_error("{braces}")',
    'addfail': 'slash.add_failure("{x}")',
    'cleanup': 'slash.add_cleanup(lambda: 1 / 0)',
    'session': 'slash.add_cleanup(lambda: {}["{key}"], scope="session")',
    'module': 'slash.add_cleanup(lambda: [][1], scope="module")',
    'interrupt': 'raise KeyboardInterrupt()',
    'fatal': 'raise slash.exception_handling.mark_exception_fatal(ValueError("fatal"))',
    'swallowed': 'slash.exception_handling.handling_exceptions',
}
TESTS['swallowed'] = 'with slash.exception_handling.handling_exceptions(swallow=True): raise KeyError("{swallowed}")'
GOOD = ('pass', 'skip')
# those which raise an exception slash sees
DETAILS = [['additional_information', 'some information included'], ['key {x}', 'value {0} %s'], ['n', 5], ['caf\u00e9', '\u2713'], ['none', None]]


class CHECK(Check):
    prop = 'C30'
    technique = 'runtime monitoring: stand-ins for the HTTP transport and the SMTP client record everything the notifications plugin sends in generated sessions; compared with what each session was to tell, and to whom'
    rule = 'sessions of every outcome (passing, failing, skipping, interrupted, fatal, failing to load, with session level errors, entering the debugger), sequential and parallel, with random sets of enabled and configured notifiers, thresholds, recipients, details and broken notifiers'
    required = ('sessions', 'sent', 'succeeded', 'failed', 'quiet_threshold', 'quiet_success', 'pdb_notifications', 'pdb_quiet', 'broken', 'after_broken', 'unconfigured', 'mails', 'slack', 'posts', 'parallel', 'not_loaded', 'interrupted', 'details', 'inactive')
    assumptions = ('nothing is really sent: the transport below the requests library and the SMTP client are replaced by stand-ins which record',
                   'the threshold is compared with the duration by values far away from it')
    n_quick = 220
    n_thorough = 5000
    case_timeout = 120
    imports = ('slash.frontend.slash_run', 'slash.plugins.builtin.notifications', 'jinja2', 'requests')

    def gen(self, rng, i, tier):
        par = i % 16 == 7
        kinds = rng.choice([['pass'], ['pass', 'skip'], sorted(TESTS), sorted(TESTS), sorted(TESTS) + ['pass'] * 6])
        tests = [rng.choice(kinds) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if par:
            tests = [t for t in tests if t not in ('interrupt', 'session', 'module')] or ['pass']
        config, argv, on = {}, [], {}
        for name in NOTIFIERS:
            r = rng.random()
            default = name in ('prowl', 'nma', 'pushbullet')
            if r < 0.35:
                argv.append('--notify-' + name)
            elif r < 0.5:
                config[name + '.enabled'] = True
            elif r < 0.65:
                argv += ['-o', 'plugin_config.notifications.{}.enabled=yes'.format(name)]
            elif r < 0.8:
                config[name + '.enabled'] = False
            on[name] = default if r >= 0.8 else r < 0.65
        keys = {}
        for name in ('prowl', 'nma', 'pushbullet'):
            if rng.random() < 0.6:
                keys[name] = 'key-{}-{}'.format(name, rng.randrange(1000))
                legacy = rng.random() < 0.3
                path = '{}_api_key'.format(name) if legacy else '{}.api_key'.format(name)
                if rng.random() < 0.5:
                    config[path] = keys[name]
                elif not legacy:
                    argv += ['-o', 'plugin_config.notifications.{}={}'.format(path, keys[name])]
                else:
                    config[path] = keys[name]
        slack = {}
        for k, v in (('url', 'https://hooks.slack.example/services/x?y={z}'), ('channel', '@some{user}')):
            if rng.random() < 0.75:
                slack[k] = v
                config['slack.' + k] = v
        slack['from_user'] = 'slash-bot'
        if rng.random() < 0.3:
            slack['from_user'] = config['slack.from_user'] = 'my bot'
        mail = {'to': [], 'cc': [], 'sender': 'Slash <noreply@getslash.github.io>', 'server': None}
        if rng.random() < 0.75:
            mail['server'] = config['email.smtp_server'] = 'mail.example'
        if rng.random() < 0.75:
            mail['to'] = ['u{}@example.com'.format(k) for k in range(rng.choice([1, 1, 2, 3]))]
            for a in mail['to']:
                argv += ['--email-to', a]
        if rng.random() < 0.3:
            mail['cc'] = config['email.cc_list'] = ['cc@example.com']
        if rng.random() < 0.2:
            mail['sender'] = config['email.from_email'] = 'Me <me@example.com>'
        threshold = rng.choice([0, 0, 0, 0, 100000])
        config['notification_threshold'] = threshold
        only = rng.random() < 0.35
        if only:
            argv += rng.choice([['--notify-only-on-failures'], ['-o', 'plugin_config.notifications.notify_only_on_failures=yes']])
        pdb = rng.random() < 0.35 and not par
        on_pdb = rng.random() < 0.7
        if not on_pdb:
            config['notify_on_pdb'] = False
        if pdb:
            argv.append('--pdb')
        if rng.random() < 0.2:
            argv.append('-x')
        active = rng.random() < 0.93
        if active:
            argv.append('--with-notifications')
        fail = {}
        if rng.random() < 0.35:
            for name in rng.sample(NOTIFIERS, rng.choice([1, 1, 2, 4])):
                fail[name] = rng.choice(['status', 'connection', 'value', 'os'])
        unload = None if rng.random() < 0.93 else rng.choice(['raise ValueError("{load}")', 'import nothing_like_this', 'x = 1'])
        return {'tests': tests, 'config': config, 'argv': argv, 'on': on, 'keys': keys, 'slack': slack, 'mail': mail, 'threshold': threshold, 'only': only, 'pdb': pdb, 'on_pdb': on_pdb, 'active': active,
                'fail': fail, 'unload': unload, 'details': rng.sample(DETAILS, rng.choice([0, 0, 1, 2])), 'parallel': rng.choice([1, 2]) if par else 0}

    def run(self, case):
        home = os.path.expanduser('~/.slash')
        os.makedirs(home, exist_ok=True)
        with open(os.path.join(home, 'slashrc'), 'w', encoding='utf-8') as f:
            f.write('from vp import noteprobe\nnoteprobe.install()\n')
        path = os.path.join(os.environ.get('TMPDIR', '/tmp'), 'notes')
        os.environ['VP_NOTE'] = path
        with open(path + '.plan', 'w', encoding='utf-8') as f:
            json.dump({'config': case['config'], 'fail': case['fail'], 'details': case['details']}, f)
        open(path, 'w').close()
        with open('test_it.py', 'w', encoding='utf-8') as f:
            f.write('# -*- coding: utf-8 -*-\nimport slash\n')
            if case['unload']:
                f.write(case['unload'] + '\n')
            else:
                for k, t in enumerate(case['tests']):
                    f.write('def test_{}():\n    {}\n'.format(k, TESTS[t]))
        argv = ['test_it.py'] + case['argv']
        out = {'escaped': None}
        if case['parallel']:
            os.environ['PYTHONPATH'] = os.pathsep.join([REPO, os.path.dirname(os.path.dirname(vp.__file__))])
            p = subprocess.run([sys.executable, '-m', 'slash.frontend.main', 'run'] + argv + ['--parallel', str(case['parallel'])], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            out.update(code=p.returncode, text=p.stdout.decode('utf-8', 'replace'), sid=None, host=None)
        else:
            app, text, escaped = suite.run_app(argv)
            out.update(escaped=None if escaped is None else repr(escaped), text=text, code=None if app is None else app.exit_code)
            if app is not None and app.session is not None:
                out.update(sid=app.session.id, host=app.session.host_name, success=app.session.results.is_success(allow_skips=True),
                           results=[[r.is_error(), r.is_failure(), r.is_skip(), r.is_success(), r.is_interrupted()] for r in app.session.results.iter_test_results()])
        with open(path, encoding='utf-8') as f:
            out['log'] = [json.loads(line) for line in f]
        return out

    def targets(self, case):
        """Notifiers which are enabled and have all they need"""
        out = set()
        for name in NOTIFIERS:
            if not case['on'][name]:
                continue
            if name in ('prowl', 'nma', 'pushbullet'):
                ok = name in case['keys']
            elif name == 'slack':
                ok = 'url' in case['slack'] and 'channel' in case['slack']
            else:
                ok = case['mail']['server'] is not None and bool(case['mail']['to'])
            if ok:
                out.add(name)
        return out

    def judge(self, case, obs):
        for v in self.violations(case, obs):
            return [v]
        return []

    def violations(self, case, obs):
        log = obs['log']
        if obs['escaped'] is not None:
            yield Violation('escaped', 'the run was left by {}'.format(obs['escaped']))
            return
        targets = self.targets(case) if case['active'] else set()
        parent = [e['pid'] for e in log if e['kind'] == 'ended' and e.get('worker') is None]
        ended = len(parent)
        loaded = not case['unload']
        if ended != loaded:
            raise RuntimeError('the session ended {} times: {}'.format(ended, obs['text'][-800:]))
        bad = any(t not in GOOD for t in case['tests'])
        told = []       # what is to be told, in order
        entering = [e for e in log if e['kind'] == 'entering']
        tells_end = case['active'] and loaded and case['threshold'] == 0 and not (case['only'] and not bad)
        pdb_expected = case['active'] and case['on_pdb']
        # exceptions of broken notifiers are errors as all are, and are debugged as all are: those are not of interest here
        own = [e for e in entering if 'broken' in (e['exc'] or '') or 'refused' in (e['exc'] or '') or 'no network' in (e['exc'] or '') or 'HTTPError' in (e['exc'] or '') or 'SMTPConnectError' in (e['exc'] or '')]
        if not case['pdb'] and entering:
            yield Violation('debugger', 'the debugger was entered without --pdb: {}'.format(entering))
        prepares = [e for e in log if e['kind'] == 'prepare']
        n_pdb = len(entering) - len(own) if pdb_expected else 0
        if any(e['worker'] is not None for e in prepares):
            yield Violation('worker', 'a worker sent a notification')
        ends = [e for e in prepares if not e['pdb']]
        pdbs = [e for e in prepares if e['pdb']]
        if len(ends) != (1 if tells_end else 0):
            yield Violation('end-count', '{} notifications of the end of the session were prepared; {} to be sent (success: {}, only on failures: {}, threshold: {}, loaded: {})'.format(
                len(ends), 1 if tells_end else 0, not bad, case['only'], case['threshold'], loaded))
            return
        if not own and len(pdbs) != n_pdb or own and len(pdbs) < n_pdb or not pdb_expected and pdbs:
            yield Violation('pdb-count', '{} notifications of the debugger were prepared, it was entered {} times (notify: {})'.format(len(pdbs), len(entering), pdb_expected))
            return
        # every prepared message goes to every target, once
        current = None
        sent = collections.defaultdict(list)
        for e in log:
            if e['kind'] == 'prepare':
                current = e
            elif e['kind'] in ('http', 'mail'):
                if current is None:
                    yield Violation('unprepared', 'sent without prepare_notification: {}'.format(e))
                    return
                sent[e['name']].append((current, e))
        for name in NOTIFIERS:
            got = sent.pop(name, [])
            want = prepares if name in targets else []
            a = collections.Counter(id(p) for p, _ in got)
            b = collections.Counter(id(p) for p in want)
            # (a broken notifier entering the debugger makes others follow it: what is sent when is not told apart then)
            if (a != b) if not (own and case['pdb']) else (sum(a.values()) != sum(b.values())):
                yield Violation('recipients', '{}: {} of {} messages were sent (enabled: {}, complete: {}; broken: {})'.format(
                    name, len(got), len(want), case['on'][name], name in targets, case['fail']))
                return
            for prepared, e in got:
                problem = self.content(case, obs, name, prepared, e, bad, exact=not (own and case['pdb']))
                if problem:
                    yield Violation('content', '{}: {}; sent {}'.format(name, problem, {k: str(v)[:1500] for k, v in e.items()}))
                    return
        if sent:
            yield Violation('recipients', 'something was sent to {}'.format(list(sent)))
        for e, p in zip([x for x in entering if x not in own], [x for x in pdbs]) if not own else ():
            if e['exc'] is not None and e['exc'] not in p['short']:
                yield Violation('pdb-text', 'the debugger was entered for {}, the notification says {!r}'.format(e['exc'], p['short']))
        # a broken notifier does not change the results of tests
        if not case['parallel'] and loaded and not own:
            want = []
            stop = False
            for t in case['tests']:
                if stop:
                    break
                want.append(t)
                stop = t in ('interrupt', 'fatal') or ('-x' in case['argv'] and t in ('fail', 'error', 'adderr', 'addfail', 'cleanup', 'swallowed'))
            for t, r in zip(want, obs['results']):
                exp = {'pass': 's', 'skip': 'k', 'fail': 'f', 'addfail': 'f', 'interrupt': 'i'}.get(t, 'e')
                if t in ('session', 'module'):
                    continue
                have = 'i' if r[4] else 'e' if r[0] else 'f' if r[1] else 'k' if r[2] else 's' if r[3] else '?'
                if have != exp and exp in 'skf' and not any(x in ('module', 'session') for x in case['tests']):
                    yield Violation('verdict', 'a test ({}) has the verdict {}'.format(t, have))

    def content(self, case, obs, name, prepared, e, bad, exact):
        sid = obs['sid']
        texts = []
        word = 'PDB' if prepared['pdb'] else 'Failed' if bad else 'Succeeded'
        if name == 'email':
            mail = case['mail']
            if e['to'] is None:
                return None         # it was broken
            m = email.message_from_string(e['text'])
            body = ''.join(p.get_payload(decode=True).decode('utf-8') for p in m.walk() if not p.is_multipart())
            title = str(email.header.make_header(email.header.decode_header(m['Subject'])))
            if e['host'] != mail['server'] or e['sender'] != mail['sender'] or m['From'] != mail['sender']:
                return 'sent from {} ({}) through {}'.format(e['sender'], m['From'], e['host'])
            if collections.Counter(e['to']) != collections.Counter(mail['to'] + mail['cc']):
                return 'sent to {}, should be {}'.format(e['to'], mail['to'] + mail['cc'])
            for k, v in case['details']:
                if str(k) not in body or str(v) not in body:
                    return 'the detail {}: {} is missing'.format(k, v)
            if not prepared['pdb'] and exact and prepared['results'] not in body:
                return 'the summary of the results ({}) is missing'.format(prepared['results'])
            texts = [body]
        elif name == 'slack':
            d = json.loads(e['body'])
            [a] = d['attachments']
            title = a['title']
            if e['url'] != case['slack']['url'].replace('{', '%7B').replace('}', '%7D') or d['channel'] != case['slack']['channel'] or d['username'] != case['slack']['from_user']:
                return 'sent to {} {} as {}'.format(e['url'], d['channel'], d['username'])
            color = {'PDB': '#439FE0', 'Failed': 'danger', 'Succeeded': 'good'}[word]
            if exact and a['color'] != color:
                return 'the color is {}, should be {}'.format(a['color'], color)
            texts = [a['text'], a['fallback']]
        else:
            d = dict(urllib.parse.parse_qsl(e['body'], keep_blank_values=True))
            if name == 'pushbullet':
                title, texts = d['title'], [d['body']]
                import base64
                if e['auth'] != 'Basic ' + base64.b64encode((case['keys'][name] + ':').encode()).decode():
                    return 'authorized by {}'.format(e['auth'])
            else:
                title, texts = d['event'], [d['description']]
                if d['apikey'] != case['keys'][name]:
                    return 'the key is {}'.format(d['apikey'])
        if e['kind'] == 'http' and e['method'] != 'POST':
            return 'sent by {}'.format(e['method'])
        if exact and (word not in title or any(w in title for w in ('PDB', 'Failed', 'Succeeded') if w != word)):
            return 'the title is {!r}; the session: {}'.format(title, word)
        if obs['host'] and obs['host'] not in title:
            return 'the title is {!r}, running on {}'.format(title, obs['host'])
        if sid:
            for t in texts:
                if sid not in t:
                    return 'the session {} is not told: {!r}'.format(sid, t[:500])
        if exact and name != 'email' and not prepared['pdb'] and prepared['results'] not in texts[0]:
            return 'the summary {} is not told: {!r}'.format(prepared['results'], texts[0])
        return None

    def counters(self, case, obs):
        c = collections.Counter(sessions=1)
        log = obs['log']
        targets = self.targets(case)
        sent = [e for e in log if e['kind'] in ('http', 'mail')]
        c['sent'] = len(sent)
        c['mails'] = sum(e['kind'] == 'mail' and e['to'] is not None for e in sent)
        c['slack'] = sum(e['name'] == 'slack' for e in sent)
        c['posts'] = sum(e['kind'] == 'http' for e in sent)
        bad = any(t not in GOOD for t in case['tests'])
        ends = [e for e in log if e['kind'] == 'prepare' and not e['pdb']]
        c['succeeded'] = len(ends) * (not bad) * bool(sent)
        c['failed'] = len(ends) * bad * bool(sent)
        c['quiet_threshold'] = bool(case['threshold'] and targets and case['active']) * 1
        c['quiet_success'] = bool(case['only'] and not bad and targets and case['active'] and not case['threshold']) * 1
        c['pdb_notifications'] = sum(e['kind'] == 'prepare' and e['pdb'] for e in log)
        c['pdb_quiet'] = sum(e['kind'] == 'entering' for e in log) if not case['on_pdb'] else 0
        c['broken'] = len([e for e in sent if e['name'] in case['fail']])
        c['after_broken'] = len([e for e in sent if e['name'] not in case['fail']]) if c['broken'] else 0
        c['unconfigured'] = sum(case['on'][n] and n not in targets for n in NOTIFIERS) if ends else 0
        c['parallel'] = bool(case['parallel'] and ends) * 1
        c['not_loaded'] = bool(case['unload']) * 1
        c['interrupted'] = ('interrupt' in case['tests'] and bool(ends)) * 1
        c['details'] = len(case['details']) * c['mails']
        c['inactive'] = (not case['active'] and bool(targets)) * 1
        return c

    def signature(self, case, obs):
        return repr((case['tests'], sorted((e['kind'], e.get('name')) for e in obs['log']), sorted(case['fail']), case['parallel'], case['pdb']))

    def shrink(self, case):
        for k in range(len(case['tests'])):
            if len(case['tests']) > 1:
                yield dict(case, tests=case['tests'][:k] + case['tests'][k + 1:])
        for k in case['fail']:
            yield dict(case, fail={a: b for a, b in case['fail'].items() if a != k})
        for k, v in (('details', []), ('parallel', 0)):
            if case[k] != v:
                yield dict(case, **{k: v})
