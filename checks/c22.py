import ast
import collections
import io
import os
import re

from vp import engineb, tree
from vp.core import Violation
from vp.engineb import TreeCheck
from vp.tree import Ref
from checks import c02, c06, c21

ANSI = re.compile('\x1b\\[[0-9;]*m')


def slash_list(argv):
    import contextlib
    import munch
    from slash.frontend.slash_list import slash_list as cmd
    out, err, std = io.StringIO(), io.StringIO(), io.StringIO()
    code = escaped = None
    with contextlib.redirect_stdout(std), contextlib.redirect_stderr(std):
        try:
            code = cmd(munch.Munch(argv=list(argv), cmd='list'), report_stream=out, error_stream=err)
        except SystemExit as e:
            code = e.code
        except Exception as e:  # pylint: disable=broad-except
            escaped = repr(e)
    return {'code': code, 'out': out.getvalue(), 'err': err.getvalue() + std.getvalue(), 'escaped': escaped}


class CHECK(TreeCheck):
    prop = 'C22'
    technique = 'runtime monitoring: output of the real slash list vs. the trace of the real slash run with the same arguments; body/fixture events during listing'
    rule = 'generated trees, paths, filters, suite files and listing options; listed addresses compared with the tests the run had, and the other columns with the reference'
    required = ('listed', 'lists', 'errors', 'none', 'with_tags', 'without_params', 'relative', 'duplicates', 'fixtures_listed', 'fixtures_unused', 'fixtures_autouse', 'fixtures_override')
    n_quick = 150
    profile = dict(p_param=0.5, p_fxparam=0.3, p_class=0.4, max_total=40, max_unit=8, p_noise=0.3, p_repeat=0.1, p_autouse=0.12, nasty=0.3, p_override=0.7, p_dep=0.55, names=5)

    def gen(self, rng, i, tier):
        tags = rng.random() < 0.5
        t = self.gen_tree(rng, **(dict(p_tag=0.3, p_vtag=0.2, shared_tags=0.3, p_extra=0) if tags else dict(p_extra=0.2)))
        if rng.random() < 0.15:
            t = relocate(t, rng.choice(['par(en', 'p(1)', '(x)', 'a b', "it's", 'c,d=1']))
        ref = Ref(t)
        args = c02.random_args(rng, ref, bad=0.08)
        case = {'tree': t, 'args': args, 'k': [], 'suites': {}, 'f': [], 'each': 1, 'all': 1, 'how': rng.choice(['args', 'args', 'args', 'rc', 'sources']), 'sort': rng.random() < 0.15}
        units = c06.places(ref)
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                words, tagwords = c06.vocabulary(rng, units)
                case['k'].append(c06.render(rng, c06.random_expr(rng, words, tagwords, rng.choice([0, 1, 2]))))
        if rng.random() < 0.25:
            case['suites'] = c21.gen_suites(rng, t, bad=0.02, n_max=3)
            case['f'] = [rng.choice(list(case['suites'])) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.5:
                case['args'] = []
        if rng.random() < 0.2:
            case[rng.choice(['each', 'all'])] = 2
        if rng.random() < 0.06:
            case['args'] = [d for d in t['dirs'] if d and not Ref(t).walk(d)][:1] or case['args']
        lists = []
        for _ in range(4):
            o = [x for x, p in (('--show-tags', 0.5 if tags else 0.1), ('--no-params', 0.3), (rng.choice(['-r', '--relative-paths']), 0.3), ('--show-duplicates', 0.4), ('--allow-empty', 0.3),
                                ('--no-color', 0.3), ('--force-color', 0.2)) if rng.random() < p]
            if rng.random() < 0.7:
                o.append(rng.choice(['--only-tests', '--only-tests', '--only-fixtures']))
            if rng.random() < 0.1:
                o.append('--no-output')
            rng.shuffle(o)
            lists.append(o)
        case['lists'] = lists
        return case

    def run(self, case):
        from vp import vpmon
        root = os.path.realpath(os.getcwd())
        tree.write(case['tree'], root)
        c21.write_suites(case['suites'], root)
        args = c02.resolve_args(case['args'], root)
        common, rc = list(args), ['import slash']
        for f in case['f']:
            common += ['-f', f]
        if case['how'] == 'rc':
            rc.append('slash.config.root.run.filter_strings = {!r}'.format(case['k']))
        else:
            for k in case['k']:
                common += ['-k', k]
        if case['how'] == 'sources' and args:
            rc.append('slash.config.root.run.default_sources = {!r}'.format(args))
            if not case['f']:
                common = common[len(args):]
        for name in ('each', 'all'):
            if case[name] > 1:
                rc.append('slash.config.root.run.repeat_{} = {}'.format(name, case[name]))
        if case['sort']:
            rc += ['@slash.hooks.tests_loaded.register', 'def reorder(tests):', '    for i, t in enumerate(tests):', '        t.__slash__.set_sort_key(-i)']
        with open('.slashrc', 'w', encoding='utf-8') as f:
            f.write('\n'.join(rc) + '\n')
        import slash
        slash.config.backup()
        obs = engineb.run(common, root)
        slash.config.restore()
        obs['lists'] = []
        for opts in case['lists']:
            slash.config.backup()
            del vpmon.TEV[:]
            o = slash_list(common + opts)
            slash.config.restore()
            o['touched'] = len(vpmon.TEV)
            obs['lists'].append(o)
        if obs['loads']:
            order = sorted(range(len(obs['tests'])), key=lambda i: (obs['tests'][i]['repeat_all'], obs['tests'][i]['index'] if obs['tests'][i]['index'] is not None else 10 ** 9))
            obs['order'] = order
        obs['raw'] = [t.__slash__.address for b in vpmon.LOADED[:1] for t in b]
        obs['positional'] = [a for a in args] if (case['how'] != 'sources' or case['f']) else args
        return obs

    def judge(self, case, obs):
        root = os.path.realpath(os.getcwd())
        stats = obs['stats'] = collections.Counter()
        if obs['escaped']:
            return [Violation('run-escaped', obs['escaped'])]
        none = not obs['loads'] or not obs['tests']
        error = not obs['loads'] and 'No tests could be collected' not in obs['console'] and 'No tests specified' not in obs['console']
        ref = Ref(case['tree'])
        units = {u.id: u for f in case['tree']['files'] for u in ref.units_of(f['path'])}
        tests = [(obs['raw'][i], obs['tests'][i]) for i in obs.get('order', ())]
        for opts, o in zip(case['lists'], obs['lists']):
            what = 'slash list {}'.format(' '.join(opts))
            stats['lists'] += 1
            if o['touched']:
                return [Violation('executed', '{}: {} test or fixture events while listing'.format(what, o['touched']))]
            ok = o['code'] == 0
            if error:
                stats['errors'] += 1
                if ok or (o['out'].strip() and '--only-fixtures' not in opts):
                    return [Violation('error-listed', '{}: the run could not load its tests, but listing exits with {} and shows {!r}'.format(what, o['code'], o['out'][:300]))]
                continue
            if o['escaped']:
                return [Violation('list-escaped', '{}: {}'.format(what, o['escaped']))]
            if none:
                stats['none'] += 1
                if ok != ('--allow-empty' in opts):
                    return [Violation('exit', '{}: no tests, exit code {}'.format(what, o['code']))]
            elif not ok:
                return [Violation('exit', '{}: {} tests, exit code {}: {}'.format(what, len(tests), o['code'], o['err'][-300:]))]
            if '--no-output' in opts:
                if o['out'].strip():
                    return [Violation('output', '{} printed {!r}'.format(what, o['out'][:200]))]
                continue
            if '--force-color' not in opts and '\x1b' in o['out']:
                return [Violation('color', '{} printed escape sequences to a stream that is not a terminal'.format(what))]
            lines = ANSI.sub('', o['out']).split('\n')
            sections = {}
            if '--only-tests' in opts:
                sections['tests'] = lines
            elif '--only-fixtures' in opts:
                sections['fixtures'] = lines
            else:
                if lines[:1] != ['Fixtures'] or 'Tests' not in lines:
                    return [Violation('sections', '{}: headings are missing: {}'.format(what, lines[:3]))]
                k = lines.index('Tests')
                sections = {'fixtures': lines[1:k], 'tests': lines[k + 1:]}
            if 'tests' in sections:
                v = self.judge_tests(what, opts, [l for l in sections['tests'] if l], tests, ref, units, root, stats)
                if v:
                    return [v]
            if 'fixtures' in sections:
                v = self.judge_fixtures(what, sections['fixtures'], case, obs, ref, units, tests, root, stats)
                if v:
                    return [v]
        return []

    @staticmethod
    def judge_tests(what, opts, lines, tests, ref, units, root, stats):
        shown = []
        seen = set()
        for raw, t in tests:
            path = raw[:raw.index('.py:') + 3]
            rest = raw[len(path):]
            if '--no-params' in opts and t['ids']:
                rest = ':{}{}'.format(t['factory'], '.' + t['method'] if t['method'] else '')
            if ('-r' in opts or '--relative-paths' in opts) and os.path.isabs(path):
                path = os.path.relpath(path, root)
            address = path + rest
            if address in seen and '--show-duplicates' not in opts:
                continue
            seen.add(address)
            shown.append((address, t))
        if '--show-tags' in opts:
            got = []
            for l in lines:
                a, sep, tags = l.rpartition('  Tags: ')
                if not sep:
                    return Violation('tags', '{}: no tags on line {!r}'.format(what, l))
                got.append((a, tags))
        else:
            got = [(l, None) for l in lines]
        if [a for a, _ in got] != [a for a, _ in shown]:
            i = next((i for i, (a, b) in enumerate(zip(got, shown)) if a[0] != b[0]), min(len(got), len(shown)))
            return Violation('addresses', '{}: differs from what was run at {} of {}/{}: listed {}, run {}'.format(what, i, len(got), len(shown), got[i:i + 2], [a for a, _ in shown[i:i + 2]]))
        for (a, tags), (_, t) in zip(got, shown):
            if tags is None:
                continue
            if not t['ids'] or '--no-params' not in opts:
                u = units[engineb.unit_id(t)]
                idx, err = engineb.indices_of(ref, u, t)
                if not err and not any(u.spec.get('extra', ())) and set(ast.literal_eval(tags)) != {n for n, _ in ref.tags(u, idx)}:
                    return Violation('tags', '{}: {} is shown with tags {}, it has {}'.format(what, a, tags, ref.tags(u, idx)))
            stats['with_tags'] += 1
        stats['listed'] += len(got)
        stats['without_params'] += len(got) if '--no-params' in opts else 0
        stats['relative'] += len(got) if '-r' in opts or '--relative-paths' in opts else 0
        stats['duplicates'] += len(got) - len({a for a, _ in got})
        return None

    @staticmethod
    def judge_fixtures(what, lines, case, obs, ref, units, tests, root, stats):
        got = []
        start = obs['positional'][0] if obs['positional'] else '.'
        for l in lines:
            m = re.match(r'^(\S+)( \(Autouse\)| \(Unused\))?( -- Override)?$', l)
            if m:
                got.append([m.group(1), (m.group(2) or '').strip(), bool(m.group(3)), None])
                continue
            m = re.match(r'^    Source: (.*):(\d+)$', l)
            if m and got:
                got[-1][3] = (os.path.normpath(os.path.join(root, start, m.group(1))), int(m.group(2)))
            elif l.strip():
                return Violation('fixture-line', '{}: {!r}'.format(what, l))
        used = set()
        files = set()
        for _, t in tests:
            used |= set(ref.used_fixtures(units[engineb.unit_id(t)]))
        loaded = loaded_sites(case, ref, root)
        if loaded is None:
            return None
        want = []
        for key, fx in ref.fx.items():
            kind, where = ref.site[key]
            if (kind, where) not in loaded:
                continue
            outer = ref.chain_of((kind, where))[1:]
            override = any(x['name'] == fx['name'] for s in outer for x in ref.fixtures_at(s))
            state = '(Autouse)' if fx.get('autouse') else '' if key in used else '(Unused)'
            want.append((fx['name'], state, override))
            stats['fixtures_unused'] += state == '(Unused)'
            stats['fixtures_autouse'] += state == '(Autouse)'
            stats['fixtures_override'] += override
        a, b = collections.Counter(tuple(x[:3]) for x in got), collections.Counter(want)
        if a != b:
            return Violation('fixtures', '{}: shown but not so {}, so but not shown {}'.format(what, sorted((a - b).items())[:4], sorted((b - a).items())[:4]))
        stats['fixtures_listed'] += len(got)
        places = {}
        for key, fx in ref.fx.items():
            if fx['kind'] != 'gen':
                places.setdefault(fx['name'], []).append((key, fx))
        for name, _, _, src in got:
            if name not in places or any(x['kind'] == 'gen' and x['name'] == name for x in ref.fx.values()):
                continue
            if src is None or not os.path.isfile(src[0]):
                return Violation('fixture-source', '{}: fixture {} is said to be at {}'.format(what, name, src))
            with open(src[0], encoding='utf-8') as f:
                text = f.read().split('\n')[src[1] - 1:]
            d = next((l for l in text if l.startswith('def ')), '')
            if not any(d.startswith('def {}('.format('impl_' + key if fx.get('named') else name)) for key, fx in places[name]):
                return Violation('fixture-source', '{}: fixture {} is said to be at {}, where {!r} is'.format(what, name, src, d))
        return None

    def counters(self, case, obs):
        return obs.get('stats', {})

    def shrink(self, case):
        for j in range(len(case['lists'])):
            if len(case['lists']) > 1:
                yield dict(case, lists=case['lists'][:j] + case['lists'][j + 1:])
        for l in range(len(case['lists'])):
            for j in range(len(case['lists'][l])):
                yield dict(case, lists=[x if i != l else x[:j] + x[j + 1:] for i, x in enumerate(case['lists'])])
        for k, v in (('k', []), ('each', 1), ('all', 1), ('f', []), ('suites', {}), ('sort', False), ('how', 'args')):
            if case[k] != v and (k != 'suites' or not case['f']):
                yield dict(case, **{k: v})
        yield from super().shrink(case)


def loaded_sites(case, ref, root):
    """Places whose fixtures are defined by loading the arguments; None if suite files make that hard to say"""
    if case['f']:
        return None
    out = set()
    for a in case['args']:
        path = os.path.normpath(os.path.join(root, c02.plain(a).partition(':')[0]))
        if os.path.isfile(path):
            found = [path]
        else:
            found = []
            for d, dirs, names in os.walk(path):
                dirs[:] = [x for x in dirs if not x.startswith('.')]
                found += [os.path.join(d, n) for n in names if n.endswith('.py')]
        for f in found:
            rel = os.path.relpath(f, root)
            d = os.path.dirname(rel)
            if os.path.basename(d) == 'slashconf':
                d = os.path.dirname(d)
            out.update(ref.chain_of(('file', rel)) if rel in ref.files else ref.chain_of(('dir', d)))
    return out


def relocate(t, name):
    """Moves the whole tree into a directory of another name, by renaming one directory"""
    import copy
    t = copy.deepcopy(t)
    dirs = [d for d in t['dirs'] if d and '/' not in d]
    if not dirs:
        return t
    old = dirs[0]

    def ren(p):
        return name + p[len(old):] if p == old or p.startswith(old + '/') else p
    t['dirs'] = {ren(d): v for d, v in t['dirs'].items()}
    t['confdirs'] = [ren(d) for d in t.get('confdirs', ())]
    for f in t['files']:
        f['path'] = ren(f['path'])
    if t.get('other'):
        t['other'] = {ren(p): v for p, v in t['other'].items()}
    return t
