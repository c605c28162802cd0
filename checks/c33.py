import collections
import json
import os
import re
import subprocess
import sys

from vp.core import REPO, Check, Violation

WORDS = ('alpha', 'beta', 'gamma', 'Delta', 'e2', 'zeta_eta', 'iota-kappa', 'Omega')
DOCS = (None, 'Does things', '  Does things\n\n    and more things\n    ', 'active (use --without-x to deactivate)', 'Ünïcode: doc %s {} \\t', '\n\n')
VALUES = (3, 0, None, True, False, '', 'a value', [], ['a', 'b'], {}, 2.5, '%s {}', 'ünï', [None], 'x.y')
CHANGES = {'log.root': '/no/such/place', 'log.colorize': True, 'run.default_sources': ['a.py', 'b.py'], 'parallel.worker_error_file': 'w.log', 'resume.state_retention_days': 77, 'debug.debugger': 'some', 'run.dump_variation': True}
PLUGIN = '''
class {cls}(slash.plugins.PluginInterface):
    __doc__ = {doc!r}
    def get_name(self):
        return {name!r}
    def get_default_config(self):
        return {config}
{what}
'''
TEST = '''
import json, slash
def test_a():
    out = {'active': sorted(slash.plugins.manager.get_active_plugins()), 'plugins': {}, 'leaves': {}}
    for name, p in slash.plugins.manager.get_installed_plugins().items():
        out['plugins'][name] = [p.__doc__, slash.plugins.manager.is_internal_plugin(p)]
    for path, leaf in slash.config.traverse_leaves():
        out['leaves'][path] = [str(leaf.get_value()), (leaf.metadata or {}).get('doc')]
    with open('seen.json', 'w') as f:
        json.dump(out, f)
'''
ANSI = re.compile('\x1b\\[[0-9;]*m')


class CHECK(Check):
    prop = 'C33'
    technique = 'runtime monitoring: what the listing commands print, compared with the configuration and the active plugins seen by a test of a real run of the same project, and with the effect of the flags they advise'
    rule = 'generated customization files (plugins with any names, documentation, states and configuration; changed and added configuration entries), path filters and colors; the commands and the runs are processes of their own'
    required = ('plugins_listed', 'active', 'inactive', 'internal', 'leaves', 'documented', 'changed', 'added', 'filtered', 'leaf_filter', 'missing_filter', 'colored', 'with', 'without', 'plugin_config', 'plugin_docs')
    n_quick = 110
    n_thorough = 2500
    case_timeout = 150
    imports = ('slash.frontend.slash_run',)

    def gen(self, rng, i, tier):
        plugins, names = [], set()
        for k in range(rng.choice([0, 1, 2, 3, 4])):
            name = rng.choice([' ', ' ', '-', '_']).join(rng.sample(WORDS, rng.choice([1, 1, 2, 3])))
            key = re.sub('[ _-]', '', name).lower()
            if key in names:
                continue
            names.add(key)
            config = {}
            for e in rng.sample(['one', 'two', 'sub'], rng.choice([0, 1, 2])):
                config[e] = [rng.choice(VALUES), rng.choice([None, 'a doc', 'doc of ' + e])]
            plugins.append({'name': name, 'doc': rng.choice(DOCS), 'config': config, 'state': rng.choice(['installed', 'installed', 'now', 'later', 'later', 'changed_mind', 'internal', 'later_again'])})
        changes = {p: CHANGES[p] for p in rng.sample(sorted(CHANGES), rng.choice([0, 1, 2, 3]))}
        added = {}
        for k in range(rng.choice([0, 1, 2])):
            added['extra{}'.format(k)] = [rng.choice(VALUES), rng.choice([None, 'an added entry'])]
        pool = ['log', 'log.root', 'run', 'run.dump_variation', 'parallel', 'debug', 'lo', 'log.ro', 'nothing', 'log.root.x', 'run.message_assertion_introspection', 'plugin_config', 'plugin_config.xunit', 'plugin_config.xunit.filename', 'extra0', 'mine', 'mine.extra1', 'resume', 'root', 'interaction']
        filters = rng.sample(pool, rng.choice([1, 1, 2, 3])) if rng.random() < 0.7 else []
        return {'plugins': plugins, 'changes': changes, 'added': added, 'filters': filters, 'color': rng.choice(['', '', '--force-color', '--no-color']), 'flag': rng.random()}

    def rc(self, case):
        out = ['import slash', 'from slash.utils.conf_utils import Doc']

        def value(v, doc):
            return '{!r}'.format(v) + (' // Doc({!r})'.format(doc) if doc else '')
        for k, p in enumerate(case['plugins']):
            what = {'installed': 'slash.plugins.manager.install({}())', 'internal': 'slash.plugins.manager.install({}(), is_internal=True)', 'now': 'slash.plugins.manager.install({}(), activate=True)',
                    'later': 'slash.plugins.manager.install({}(), activate_later=True)', 'later_again': 'slash.plugins.manager.install({}()); slash.plugins.manager.deactivate_later({!r}); slash.plugins.manager.activate_later({!r})',
                    'changed_mind': 'slash.plugins.manager.install({}(), activate_later=True); slash.plugins.manager.deactivate_later({!r})'}[p['state']].format('P{}'.format(k), p['name'], p['name'])
            config = '{{{}}}'.format(', '.join('{!r}: {}'.format(e, value(*v)) for e, v in sorted(p['config'].items()))) if p['config'] else 'None'
            out.append(PLUGIN.format(cls='P{}'.format(k), doc=p['doc'], name=p['name'], config=config, what=what))
        for path, v in case['changes'].items():
            out.append('slash.config.root.{} = {!r}'.format(path, v))
        if case['added']:
            out.append("slash.config.extend({{'mine': {{{}}}}})".format(', '.join('{!r}: {}'.format(k, value(*v)) for k, v in case['added'].items())))
        return '\n'.join(out) + '\n'

    def run(self, case):
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([REPO, os.getcwd()]), PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')

        def slash(*argv):
            p = subprocess.run([sys.executable, '-m', 'slash.frontend.main'] + [a for a in argv if a], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            return p.returncode, p.stdout.decode('utf-8'), p.stderr.decode('utf-8', 'replace')[-1500:]

        def seen(*argv):
            if os.path.exists('seen.json'):
                os.remove('seen.json')
            code, out, err = slash('run', 'test_it.py', *argv)
            if not os.path.exists('seen.json'):
                return {'code': code, 'err': out[-800:] + err}
            with open('seen.json', encoding='utf-8') as f:
                return dict(json.load(f), code=code)
        with open('.slashrc', 'w', encoding='utf-8') as f:
            f.write(self.rc(case))
        with open('test_it.py', 'w', encoding='utf-8') as f:
            f.write(TEST)
        obs = {'plugins': slash('list-plugins', case['color']), 'config': slash('list-config', case['color'], *case['filters']), 'plain': seen(), 'flag': None}
        shown = self.parse_plugins(obs['plugins'][1])
        mine = [(n, flag) for n, _, flag, _ in shown if flag and n in {p['name'] for p in case['plugins'] if p['state'] not in ('changed_mind', 'later_again')}]     # deactivate_later prevails, as the project's tests have it
        if mine:
            name, flag = mine[int(case['flag'] * len(mine))]
            obs['flag'] = [name, flag, seen(flag)]
        return obs

    def parse_plugins(self, text):
        out = []
        for line in ANSI.sub('', text).splitlines():
            if line.startswith('\t'):
                if out:
                    out[-1][3].append(line.strip())
                continue
            m = re.match(r'(.*?) (active|inactive) \(use (--\S+) to (?:de)?activate\)$', line)
            if m:
                out.append([m.group(1), m.group(2), m.group(3), []])
            else:
                out.append([line, '?', None, []])
        return out

    def parse_config(self, text):
        out = []
        for line in ANSI.sub('', text).splitlines():
            if line.startswith('    '):
                if line.lstrip().startswith('default:') and out and out[-1][1] is None:
                    out[-1][1] = line.lstrip()[len('default: '):]
                elif out:
                    out[-1][2].append(line.strip())
            elif line.endswith(' --'):
                out.append([line[:-3], None, []])
            else:
                out.append([line, '?', []])
        return out

    def wanted(self, case, path):
        return not case['filters'] or any(path == f or path.startswith(f + '.') for f in case['filters'])

    def judge(self, case, obs):
        for v in self.violations(case, obs):
            return [v]
        return []

    def violations(self, case, obs):
        for what in ('plugins', 'config'):
            if obs[what][0] != 0:
                yield Violation('exit', 'slash list-{}: exit code {}: {}'.format(what, obs[what][0], obs[what][2]))
                return
        plain = obs['plain']
        if plain['code'] != 0 or 'active' not in plain:
            yield Violation('run', 'the run ended with {}'.format(plain))
            return
        shown = self.parse_plugins(obs['plugins'][1])
        want = sorted(n for n, (_, internal) in plain['plugins'].items() if not internal)
        if [n for n, _, _, _ in shown] != want:
            yield Violation('plugins', 'the plugins listed are {}, those installed {}'.format([n for n, _, _, _ in shown], want))
            return
        for name, state, flag, docs in shown:
            if (state == 'active') != (name in plain['active']):
                yield Violation('state', '{!r} is listed as {}, but the plugins active in a run are {}'.format(name, state, plain['active']))
            if not flag.startswith('--without-' if state == 'active' else '--with-') or (state != 'active' and flag.startswith('--without-')):
                yield Violation('advice', '{!r} is {}, and the advice is {}'.format(name, state, flag))
            doc = [x.strip() for x in (plain['plugins'][name][0] or '').splitlines() if x.strip()]
            if docs != doc:
                yield Violation('doc', '{!r} is documented by {!r}; listed: {!r}'.format(name, doc, docs))
        if obs['flag']:
            name, flag, run = obs['flag']
            [state] = [s for n, s, _, _ in shown if n == name]
            want = sorted(set(plain['active']) ^ {name})
            if run.get('active') != want:
                yield Violation('flag', '{!r} is {}; with {} the active plugins are {} instead of {}'.format(name, state, flag, run.get('active', run), want))
        leaves = {p: v for p, v in plain['leaves'].items() if self.wanted(case, p)}
        got = self.parse_config(obs['config'][1])
        if [p for p, _, _ in got] != sorted(leaves):
            names = [p for p, _, _ in got]
            yield Violation('leaves', 'filters {}: listed but not wanted {}, missing {}, repeated {}, sorted: {}'.format(
                case['filters'], sorted(set(names) - set(leaves)), sorted(set(leaves) - set(names)), [k for k, v in collections.Counter(names).items() if v > 1], names == sorted(names)))
            return
        for path, value, docs in got:
            v, doc = leaves[path]
            if path == 'run.session_state_path':
                continue
            if value != v:
                yield Violation('value', '{} is {!r}; listed: {!r}'.format(path, v, value))
            if docs != [x.strip() for x in (doc or '').splitlines()]:
                yield Violation('config_doc', '{} is documented by {!r}; listed: {!r}'.format(path, doc, docs))

    def counters(self, case, obs):
        c = collections.Counter()
        shown = self.parse_plugins(obs['plugins'][1])
        got = self.parse_config(obs['config'][1])
        mine = {p['name'] for p in case['plugins']}
        c['plugins_listed'] += len(shown)
        c['active'] += sum(s == 'active' for n, s, _, _ in shown if n in mine)
        c['inactive'] += sum(s == 'inactive' for n, s, _, _ in shown if n in mine)
        c['internal'] += sum(p['state'] == 'internal' for p in case['plugins'])
        c['plugin_docs'] += sum(bool(d) for n, _, _, d in shown if n in mine)
        c['leaves'] += len(got)
        c['documented'] += sum(bool(d) for _, _, d in got)
        c['changed'] += sum(p in case['changes'] for p, _, _ in got)
        c['added'] += sum(p.startswith('mine.') for p, _, _ in got)
        c['plugin_config'] += sum(p.startswith('plugin_config.') for p, _, _ in got)
        c['filtered'] += bool(case['filters'])
        c['leaf_filter'] += any(f in [p for p, _, _ in got] for f in case['filters'])
        c['missing_filter'] += any(not any(p == f or p.startswith(f + '.') for p, _, _ in got) for f in case['filters'])
        c['colored'] += '\x1b' in obs['config'][1] + obs['plugins'][1]
        if obs['flag']:
            c['without' if '--without-' in obs['flag'][1] else 'with'] += 1
        return c

    def signature(self, case, obs):
        return json.dumps([obs['plugins'], obs['config'][1], obs['flag'] and obs['flag'][:2]])

    def shrink(self, case):
        for key in ('plugins', 'filters'):
            for k in range(len(case[key])):
                yield dict(case, **{key: case[key][:k] + case[key][k + 1:]})
        for key in ('changes', 'added'):
            for k in case[key]:
                yield dict(case, **{key: {x: y for x, y in case[key].items() if x != k}})
