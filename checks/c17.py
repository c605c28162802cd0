import collections
import os
import re

from vp import confprobe, suite
from vp.core import Check, Violation

#: the documented command line of the configuration: path -> (kind, flag, ...)
FLAGS = {
    'debug.filter_strings': ('append', '--pdb-filter'),
    'log.console_level': ('count', '-q', '-v'),
    'log.color_console': ('toggle', '--force-color', '--no-color'),
    'log.console_traceback_level': ('arg', '--tb'),
    'log.truncate_console_lines': ('arg', '--truncate-console-lines'),
    'log.root': ('arg', '-l'),
    'run.suite_files': ('append', '-f'),
    'run.stop_on_error': ('toggle', '-x', '-X'),
    'run.filter_strings': ('append', '-k'),
    'run.repeat_each': ('arg', '--repeat-each'),
    'run.repeat_all': ('arg', '--repeat-all'),
    'resume.failed_first': ('toggle', '--failed-first', None),
    'resume.unstarted_first': ('toggle', '--unstarted-first', None),
    'resume.failed_only': ('toggle', '--failed-only', None),
    'resume.unstarted_only': ('toggle', '--unstarted-only', None),
    'resume.no_skipped': ('toggle', '--no-skipped', None),
    'parallel.server_port': ('arg', '--parallel-port'),
    'parallel.server_addr': ('arg', '--parallel-addr'),
    'parallel.keepalive_port': ('arg', '--keepalive-port'),
    'parallel.workers_error_dir': ('arg', '--workers-error-dir'),
}
SHORT_NOARG = {'-q', '-v', '-x', '-X'}
#: values that do not change what the run does in ways this check does not want
VALUES = {
    'log.console_traceback_level': ['0', '1', '2', '3', '5'], 'log.truncate_console_lines': ['yes', 'no', 'False', 'TRUE', 'n', 't'], 'log.root': ['logs', './logs/a b'],
    'run.repeat_each': ['1', '2', '3'], 'run.repeat_all': ['1', '2'], 'run.filter_strings': ['test', 'it', 'not xyz', 'test and not zz'], 'run.suite_files': ['suite.txt'],
    'debug.filter_strings': ['abc', 'x y', ''], 'parallel.server_port': ['0', '8000'], 'parallel.server_addr': ['localhost', '::1'], 'parallel.keepalive_port': ['17'],
    'parallel.workers_error_dir': ['errs'],
}
BOOLS = ['yes', 'no', 'true', 'False', 'y', 'N', 't', 'f']
LISTS = ['[]', '["a", "b"]', "['x']", '[1, 2.5, None]', '["a=b"]']
STRS = ['x', 'a=b', '', 'two words', '5', 'yes', 'None', u'\u05d0', '{context.session.id}/x.log']
O_BOOL = ['debug.debug_skips', 'debug.debug_hook_handlers', 'log.colorize', 'log.truncate_console_lines', 'log.truncate_console_errors', 'log.show_manual_errors_tb', 'log.show_raw_param_values',
          'log.localtime', 'log.unified_session_log', 'log.compression.use_rotating_raw_file', 'log.cleanup.enabled', 'log.cleanup.keep_failed', 'run.dump_variation', 'run.stop_on_error',
          'run.message_assertion_introspection', 'run.capture.error_logs_as_errors', 'interactive.expose_g_globals', 'resume.failed_first', 'resume.no_skipped', 'tmux.use_panes', 'log.traceback_variables',
          'log.console_theme.dark_background']
O_INT = ['log.console_level', 'log.core_log_level', 'log.console_traceback_level', 'parallel.communication_timeout_secs', 'parallel.worker_connect_timeout', 'parallel.no_request_timeout', 'parallel.server_port',
         'resume.state_retention_days']
O_STR = ['parallel.server_addr', 'parallel.worker_error_file', 'log.compression.algorithm']
O_LIST = ['debug.filter_strings', 'log.repr_blacklisted_types', 'log.silence_loggers', 'run.default_sources', 'plugins.search_paths']
O_NONE = ['debug.debugger', 'log.color_console', 'log.highlights_subpath', 'run.project_name', 'interactive.colors', 'parallel.parent_session_id', 'parallel.workers_error_dir', 'log.last_session_symlink']
BAD = [('-o', 'no.such.path=3'), ('-o', 'log.nope=1'), ('-o', 'log=3'), ('-o', 'run=x'), ('-o', 'foo'), ('-o', 'run.repeat_each=abc'), ('-o', 'run.repeat_all='), ('-o', 'run.stop_on_error=maybe'), ('-o', 'log.unified_session_log='),
       ('-o', 'run.repeat_each.deeper=1'), ('-o', '=5'), ('-o', 'run.filter_strings=[1, '), ('-o', 'run.filter_strings=abc def'), ('--repeat-each', 'x'), ('--repeat-each', '1.5'), ('--truncate-console-lines', 'perhaps'), ('--tb', 'long'),
       ('--no-such-option',), ('--no-such-option=5',), ('-Z',), ('--parallel', 'two'), ('-o',), ('--repeat-all',), ('-o', 'log.compression=no'), ('--parallel-port', '80a')]
PLUGIN_FLAGS = {
    'num': ('arg', '--{}-num'), 'names': ('append', '--{}-name'), 'flag': ('toggle', '--{}-on', '--{}-off'), 'level': ('count', '--{}-more', '--{}-less'), 'sub.deep': ('arg', '--{}-deep'), 'yes': ('toggle', None, '--{}-disable'),
    'truth': ('arg', '--{}-truth'),
}
PLUGIN_CFG = {'num': 3, 'names': ['first'], 'flag': False, 'level': 5, 'sub.deep': 'x', 'yes': True, 'truth': False, 'ratio': 0.5, 'opt': None, 'plain': [1], 'text': 'abc', 'count': 0}
PLUGIN_VALUES = {'num': ['7', '-1', ' 12'], 'names': ['q', 'r s', ''], 'sub.deep': ['', 'deep=1', 'yes'], 'truth': BOOLS, 'ratio': ['1', '2.25', '1e3'], 'opt': STRS, 'plain': LISTS, 'text': STRS, 'count': ['4', '-9', '007']}

RC = '''
import slash
from slash.conf import Cmdline, Doc
from vp import confprobe
{assign}
{plugins}
for name in ('configure', 'session_start', 'test_start', 'test_end', 'session_end', 'result_summary'):
    def cb(name=name, **_):
        confprobe.snap(name)
        if name == {hook_error!r}:
            raise RuntimeError('hook')
    getattr(slash.hooks, name).register(cb)
confprobe.snap('rc')
'''
PLUGIN = '''
class P{i}(slash.plugins.PluginInterface):
    def get_name(self):
        return {name!r}
    def get_default_config(self):
        return {{'num': 3 // Cmdline(arg='--{flag}-num'), 'names': ['first'] // Doc('x') // Cmdline(append='--{flag}-name'), 'flag': False // Cmdline(on='--{flag}-on', off='--{flag}-off'),
                'level': 5 // Cmdline(increase='--{flag}-more', decrease='--{flag}-less'), 'sub': {{'deep': 'x' // Cmdline(arg='--{flag}-deep')}}, 'yes': True // Cmdline(off='--{flag}-disable'),
                'truth': False // Cmdline(arg='--{flag}-truth'), 'ratio': 0.5, 'opt': None, 'plain': [1] // Doc('plain'), 'text': 'abc', 'count': 0}}
    def session_start(self):
        confprobe.EV.append(('plugin', {name!r}, self.current_config.num, list(self.current_config.names)))
slash.plugins.manager.install(P{i}(), activate={active!r})
'''
TESTS = '''
import slash, sys
from vp import confprobe
@slash.parametrize('x', [0, 1])
def test_it(x):
    confprobe.snap('test')
    confprobe.mark('test', x)
    if x == 0:
        {action}
'''
ACTIONS = {'normal': 'pass', 'fail': 'assert False', 'error': "raise ValueError('x')", 'exit': 'sys.exit(3)', 'interrupt': 'raise KeyboardInterrupt()', 'hook_error': 'pass', 'load_error': 'pass', 'summary_error': 'pass',
           'uninstall': "slash.plugins.manager.uninstall('my plug')"}


class Bad(Exception):
    pass


def convert(text, old):
    """The value of `text` for an entry whose current value is `old`"""
    if old is None or isinstance(old, str):
        return text
    if isinstance(old, bool):
        low = text.lower()
        if low in ('yes', 'y', 'true', 't'):
            return True
        if low in ('no', 'n', 'false', 'f'):
            return False
        raise Bad(text)
    if isinstance(old, int):
        try:
            return int(text)
        except ValueError:
            raise Bad(text)
    if isinstance(old, float):
        try:
            return float(text)
        except ValueError:
            raise Bad(text)
    if isinstance(old, list):
        import ast
        try:
            return ast.literal_eval(text)
        except (ValueError, SyntaxError):
            raise Bad(text)
    raise AssertionError(old)


def all_flags(plugins):
    flags = dict(FLAGS)
    for p in plugins:
        for k, spec in PLUGIN_FLAGS.items():
            flags['plugin_config.{}.{}'.format(p['name'].replace(' ', '_'), k)] = (spec[0],) + tuple(f and f.format(p['flag']) for f in spec[1:])
    return flags


def expected(base, items, plugins):
    """The configuration after the options of a command line, given as items ['flag', path, which/value] and ['o', path, value]"""
    flags = all_flags(plugins)
    new = dict(base)
    args = {}
    for it in items:
        if it[0] != 'flag':
            continue
        path, val = it[1:]
        kind = flags[path][0]
        if kind == 'arg':
            args[path] = val
        elif kind == 'append':
            new[path] = new[path] + [val]
        elif kind == 'toggle':
            new[path] = val == 'on'
        else:
            new[path] = new[path] + (1 if val == 'up' else -1)
    for path, val in args.items():
        new[path] = convert(val, base[path])
    for it in items:
        if it[0] == 'o':
            new[it[1]] = convert(it[2], new[it[1]])
    return new


class CHECK(Check):
    prop = 'C17'
    technique = 'runtime monitoring: snapshots of the whole configuration tree at every stage of real runs (and after them) against a reference of the documented options'
    rule = 'random combinations and spellings of all configuration flags and -o assignments (plugin entries included), initial values from .slashrc, ill-formed options, runs ending normally, by failures, interrupts, exits and errors'
    required = ('snapshots', 'overrides', 'flags', 'rejected', 'changed_entries', 'plugin_entries', 'end_normal', 'end_fail', 'end_exit', 'end_interrupt', 'end_hook_error', 'end_load_error', 'end_summary_error', 'end_uninstall', 'restored')
    assumptions = ['entries without a value (None) have no type: a value given with -o is a string', 'tuple, dict and callable entries are not generated']
    n_quick = 260
    n_thorough = 6000

    def gen(self, rng, i, tier):
        plugins = []
        if rng.random() < 0.6:
            plugins.append({'name': 'my plug', 'flag': 'mp', 'active': rng.random() < 0.5})
            if rng.random() < 0.3:
                plugins.append({'name': 'other', 'flag': 'oth', 'active': False})
        end = rng.choice(['normal', 'normal', 'fail', 'error', 'exit', 'interrupt', 'hook_error', 'load_error', 'summary_error', 'uninstall'])
        if end == 'uninstall' and not plugins:
            end = 'normal'
        assign = {}
        for path in rng.sample(O_BOOL + O_INT + O_LIST + ['run.filter_strings', 'run.repeat_each', 'log.color_console'], rng.choice([0, 1, 3, 6])):
            if path in O_BOOL:
                assign[path] = rng.random() < 0.5
            elif path in ('run.filter_strings', 'debug.filter_strings'):
                assign[path] = rng.choice([['test'], ['it', 'test'], []])
            elif path == 'plugins.search_paths':
                assign[path] = []
            elif path in O_LIST:
                assign[path] = rng.choice([[], ['q']])
            elif path == 'log.color_console':
                assign[path] = False
            else:
                assign[path] = rng.choice([1, 2, 3])
        flags = all_flags(plugins)
        items = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 15])):
            if rng.random() < 0.55:
                path = rng.choice(list(flags) if not plugins or rng.random() < 0.5 else [p for p in flags if p.startswith('plugin_config')])
                kind = flags[path][0]
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    if kind in ('toggle', 'count'):
                        which = rng.choice([0, 1])
                        if flags[path][1 + which] is None:
                            which = 1 - which
                        items.append(['flag', path, (('on', 'off') if kind == 'toggle' else ('up', 'down'))[which]])
                    else:
                        items.append(['flag', path, rng.choice(self.values(path))])
            else:
                items.append(['o', *self.override(rng, plugins)])
        rng.shuffle(items)
        bad = list(rng.choice(BAD)) if rng.random() < 0.2 else None
        if bad and plugins and rng.random() < 0.2:
            bad = rng.choice([['-o', 'plugin_config.my_plug=3'], ['-o', 'plugin_config.my_plug.num=z'], ['--mp-num', 'z'], ['-o', 'plugin_config.nothing.num=3'], ['-o', 'plugin_config.my_plug.ratio=abc']])
        if bad and bad[0].startswith('--') and len(bad) == 2:
            # given again, the last one counts
            items = [it for it in items if it[0] != 'flag' or bad[0] not in flags[it[1]]]
        # spellings
        argv = []
        short = ''
        for it in items:
            argv += self.spell(rng, it, flags)
        del short
        chunks = argv
        if bad:
            chunks.insert(rng.randrange(len(chunks) + 1) if bad[-1] not in ('-o', '--repeat-all') else len(chunks), bad)
        pos = rng.randrange(len(chunks) + 1) if not bad or len(bad) > 1 and bad[0] not in ('-o', '--repeat-all') else 0
        chunks.insert(pos, ['tests'])
        if bad in (['-o'], ['--repeat-all']):   # the argument is missing
            chunks = [c for c in chunks if c != bad] + [bad]
        out = [a for c in chunks for a in c]
        return {'plugins': plugins, 'end': end, 'assign': assign, 'items': items, 'argv': out, 'bad': bad, 'with': [p['name'] for p in plugins if rng.random() < 0.3]}

    def values(self, path):
        if path in VALUES:
            return VALUES[path]
        return PLUGIN_VALUES[path.split('.', 2)[2]]

    def override(self, rng, plugins):
        if plugins and rng.random() < 0.4:
            p = rng.choice(plugins)
            k = rng.choice(list(PLUGIN_CFG))
            v = {'names': LISTS, 'flag': BOOLS, 'yes': BOOLS, 'level': ['1', '-3']}.get(k) or PLUGIN_VALUES[k]
            return 'plugin_config.{}.{}'.format(p['name'].replace(' ', '_'), k), rng.choice(v)
        kind = rng.choice('bbiilsn')
        if kind == 'b':
            return rng.choice(O_BOOL), rng.choice(BOOLS)
        if kind == 'i':
            return rng.choice(O_INT), rng.choice(['0', '3', '11', '-2', '13'])
        if kind == 'l':
            path = rng.choice(O_LIST)
            return path, rng.choice(LISTS if path not in ('debug.filter_strings', 'plugins.search_paths') else ['[]', '["a"]'])
        if kind == 's':
            if rng.random() < 0.3:
                return rng.choice(['log.console_theme.inline-error', 'log.console_theme.tb-line']), rng.choice(['red', 'blue/bold'])
            return rng.choice(O_STR), rng.choice(STRS)
        path = rng.choice(O_NONE)
        return path, rng.choice(['x', 'a=b', 'yes', '5', 'two words'])

    def spell(self, rng, it, flags):
        if it[0] == 'o':
            s = '{}={}'.format(it[1], it[2])
            return [rng.choice([['-o', s], ['-o' + s]])]
        path, val = it[1:]
        spec = flags[path]
        if spec[0] in ('toggle', 'count'):
            return [[spec[1 if val in ('on', 'up') else 2]]]
        flag = spec[1]
        forms = [[flag, val]] if not val.startswith('-') or re.match(r'-\d+$', val) else []
        if flag.startswith('--'):
            forms.append([flag + '=' + val])
        elif val:
            forms.append([flag + val])
        return [rng.choice(forms or [[flag, val]])]

    def run(self, case):
        import slash
        os.mkdir('tests')
        with open('suite.txt', 'w') as f:
            f.write('tests/test_it.py\n')
        with open('tests/test_it.py', 'w') as f:
            f.write(TESTS.format(action=ACTIONS[case['end']]))
        with open('.slashrc', 'w') as f:
            f.write(RC.format(assign='\n'.join('slash.config.assign_path({!r}, {!r})'.format(k, v) for k, v in case['assign'].items()),
                              plugins='\n'.join(PLUGIN.format(i=i, **p) for i, p in enumerate(case['plugins'])), hook_error={'hook_error': 'test_start', 'summary_error': 'result_summary'}.get(case['end'])))
        argv = list(case['argv'])
        if case['end'] in ('load_error', 'summary_error') and not case['bad']:
            argv[argv.index('tests')] = 'no_such_directory'
        argv = ['--with-' + n.replace(' ', '-') for n in case['with']] + argv
        del confprobe.EV[:]
        app, console, escaped = suite.run_app(argv, cwd=os.getcwd())
        confprobe.snap('after')
        return {'ev': list(confprobe.EV), 'code': app.exit_code if app is not None else None, 'escaped': repr(escaped) if escaped is not None else None, 'console': console[-1500:]}

    def judge(self, case, obs):
        return list(self.violations(case, obs))

    def violations(self, case, obs):
        snaps = [(w, s) for k, w, s in [e for e in obs['ev'] if e[0] == 'snap']]
        tests = [e for e in obs['ev'] if e[0] == 'mark']
        if not snaps or snaps[0][0] != 'rc':
            yield Violation('harness', 'the customization file did not run: {}'.format(obs))
            return
        base = {k: v for k, v in snaps[0][1].items()}
        if base['run.project_name'][1] is None:
            base['run.project_name'] = ('str', 'proj')
        for path, v in case['assign'].items():
            if base[path][1] != v:
                yield Violation('harness', 'initial value of {}'.format(path))
                return
        for p in case['plugins']:
            for k, v in PLUGIN_CFG.items():
                got = base.get('plugin_config.{}.{}'.format(p['name'].replace(' ', '_'), k))
                if got is None or got[1] != v:
                    yield Violation('plugin-config', 'configuration {} of plugin {} is {}'.format(k, p['name'], got))
                    return
        after = snaps[-1][1]
        want = dict(base)
        if case['end'] == 'uninstall' and tests:
            want = {k: v for k, v in want.items() if not k.startswith('plugin_config.my_plug.')}
        diff = self.diff(want, after)
        if diff:
            yield Violation('not-restored', 'after the run ({}): {}'.format(case['end'], diff))
            return
        if case['bad']:
            if tests or not obs['code'] and not obs['escaped']:
                yield Violation('bad-accepted', '{} was accepted: exit code {}, {} tests'.format(case['bad'], obs['code'], len(tests)))
            return
        try:
            new = expected({k: v[1] for k, v in base.items()}, case['items'], case['plugins'])
        except Bad:
            if tests or not obs['code'] and not obs['escaped']:
                yield Violation('bad-accepted', 'ill-typed value accepted: exit code {}, {} tests'.format(obs['code'], len(tests)))
            return
        if obs['escaped'] and case['end'] != 'summary_error':
            yield Violation('escaped', obs['escaped'])
            return
        new = {k: (type(v).__name__, v) for k, v in new.items()}
        if not any(w == 'configure' for w, _ in snaps):
            yield Violation('refused', 'the command line {} was refused: {}'.format(case['argv'], obs['console'][-500:]))
            return
        gone = False
        for where, s in snaps[1:-1]:
            if where in ('test_end', 'session_end', 'result_summary', 'test_start', 'test') and case['end'] == 'uninstall' and tests:
                gone = gone or where == 'test_end'
                s = {k: v for k, v in s.items() if not k.startswith('plugin_config.my_plug.')}
                target = {k: v for k, v in new.items() if not k.startswith('plugin_config.my_plug.')}
            else:
                target = new
            diff = self.diff(target, s)
            if diff:
                yield Violation('not-in-effect', 'at {}: {}'.format(where, diff))
                return
        for e in obs['ev']:
            if e[0] == 'plugin':
                pre = 'plugin_config.{}.'.format(e[1].replace(' ', '_'))
                if (e[2], e[3]) != (new[pre + 'num'][1], new[pre + 'names'][1]):
                    yield Violation('plugin-current-config', 'plugin {} sees {}'.format(e[1], e[2:]))
                    return

    @staticmethod
    def diff(want, got):
        for k in sorted(set(want) | set(got)):
            a, b = want.get(k), got.get(k)
            if a != b or (a and a[0] == 'float' and b[0] != 'float'):
                return '{} is {}, expected {}'.format(k, b and b[1:], a and a[1:])
        return None

    def counters(self, case, obs):
        snaps = [e for e in obs['ev'] if e[0] == 'snap']
        c = collections.Counter(snapshots=len(snaps), overrides=sum(1 for x in case['items'] if x[0] == 'o'), flags=sum(1 for x in case['items'] if x[0] == 'flag'))
        ran = any(e[0] == 'mark' for e in obs['ev'])
        if case['bad']:
            c['rejected'] = int(not ran)
        else:
            if ran or case['end'] in ('load_error', 'hook_error', 'summary_error'):
                c['end_' + case['end']] = 1
            first = snaps[0][2]
            during = next((e[2] for e in snaps if e[1] == 'configure'), first)
            changed = [k for k in first if during.get(k) != first[k]]
            c['changed_entries'] = len(changed)
            c['plugin_entries'] = sum(1 for k in changed if k.startswith('plugin_config'))
            c['restored'] = len([k for k in changed if snaps[-1][2].get(k) == first[k]])
        return c

    def signature(self, case, obs):
        snaps = [e for e in obs['ev'] if e[0] == 'snap']
        return repr((case['end'], case['bad'], sorted((k, v) for e in snaps[1:2] for k, v in e[2].items())))

    def shrink(self, case):
        if case['bad'] is None:
            for i in range(len(case['items'])):
                items = case['items'][:i] + case['items'][i + 1:]
                import random
                argv = [a for it in items for c in self.spell(random.Random(0), it, all_flags(case['plugins'])) for a in c] + ['tests']
                yield dict(case, items=items, argv=argv)
        if case['assign']:
            yield dict(case, assign={})
        for i in range(len(case['plugins'])):
            if not any('plugin_config' in it[1] for it in case['items']) and not case['with'] and case['end'] != 'uninstall':
                yield dict(case, plugins=[])
