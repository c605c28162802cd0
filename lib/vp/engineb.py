"""Running generated project trees under the monitors, and the comparisons with the reference that several checks share"""
import collections
import os
import string

from vp import core, gentree, suite, tree
from vp.core import Violation
from vp.tree import Ref

SAFE = set(string.ascii_letters) | set(string.digits) | set('-_')


def describe_test(t, root, session):
    md = t.__slash__
    v = md.variation
    res = session.results.safe_get_result(t)
    tags = {}
    for name in md.tags:
        x = md.tags[name]
        tags[name] = None if type(x).__name__ == 'Sentinel' else repr(x)
    return {
        'path': os.path.relpath(md.file_path, root), 'factory': md.factory_name, 'method': (t.get_address_in_factory() or '')[1:],
        'address': md.address.replace(root + '/', ''), 'values': {k: repr(x) for k, x in v.values.items()}, 'ids': dict(v.id),
        'labels': dict(v.labels), 'tags': tags, 'index': md.test_index0, 'repeat_all': md.repeat_all_index, 'class': md.class_name, 'address_in_file': md.address_in_file, 'function': md.function_name,
        'result': None if res is None else suite.result_obs(res), 'id': md.id,
        'skip_reasons': [] if res is None else [str(s) for s in res.get_skips()]}


def run(argv, root, cwd=None, hooks=None, **kw):
    """Runs slash in-process; returns everything the monitors saw"""
    from vp import vpmon
    import gossip
    del vpmon.TEV[:]
    del vpmon.LOADED[:]
    del vpmon.EV[:]
    vpmon.SERIAL.clear()
    gossip.unregister_token('vpmon')
    gossip.unregister_token('vptree')
    avoided = []

    def on_loaded(tests):
        vpmon.LOADED.append(list(tests))
        if hooks and hooks.get('tests_loaded'):
            hooks['tests_loaded'](tests)
    gossip.register(on_loaded, 'slash.tests_loaded', token='vptree')

    def on_avoided(reason):
        from slash.ctx import context
        avoided.append((id(context.test), str(reason)))
    gossip.register(on_avoided, 'slash.test_avoided', token='vptree')
    started = []

    def on_start():
        from slash.ctx import context
        started.append(id(context.test))
    gossip.register(on_start, 'slash.test_start', token='vptree')
    got = {}
    app, console, escaped = suite.run_app(argv, cwd=cwd or root, callback=lambda a: got.setdefault('app', a), **kw)
    app = app or got.get('app')
    obs = {'code': app.exit_code if app is not None else None, 'console': console, 'escaped': None if escaped is None else repr(escaped), 'tests': []}
    session = app.session if app is not None else None
    ids = {}
    for batch in vpmon.LOADED:
        for t in batch:
            ids[id(t)] = len(obs['tests'])
            obs['tests'].append(describe_test(t, root, session))
    obs['loads'] = len(vpmon.LOADED)
    obs['events'] = [dict(e, T=None if e.get('T') is None else ids.get(e['T'], '?')) for e in vpmon.TEV]
    obs['ran'] = [e['T'] for e in obs['events'] if e['k'] == 'test']
    obs['started'] = [ids.get(i, '?') for i in started]
    obs['avoided'] = [(ids.get(i, '?'), r) for i, r in avoided]
    obs['sid'] = None
    if session is not None:
        obs['sid'] = session.id
        obs['results'] = len(session.results)
        obs['global_errors'] = [e.message for e in session.results.global_result.get_errors()]
    gossip.unregister_token('vptree')
    return obs


def unit_id(t):
    return '{}:{}{}'.format(t['path'], t['factory'], '.' + t['method'] if t['method'] else '')


def load(paths, root, cwd=None, filters=()):
    """Loads without running, as any embedding application could; returns (descriptions of the tests, error)"""
    import slash
    from slash.loader import Loader
    from slash.exceptions import CannotLoadTests
    prev = os.getcwd()
    if cwd:
        os.chdir(cwd)
    slash.config.backup()
    try:
        slash.config.root.run.filter_strings = list(filters)
        with slash.Session() as session:
            try:
                tests = Loader().get_runnables(list(paths))
            except CannotLoadTests as e:
                return None, str(e)
            return [describe_test(t, root, session) for t in tests], None
    finally:
        slash.config.restore()
        os.chdir(prev)


class TreeCheck(core.Check):
    profile = {}
    n_quick = 150
    n_thorough = 5000
    case_timeout = 120

    def gen_tree(self, rng, **kw):
        return gentree.gen_tree(rng, **dict(self.profile, **kw))

    def shrink(self, case):
        return gentree.shrink_tree(case)

    def describe(self, case):
        t = case['tree']
        d = {k: v for k, v in case.items() if k != 'tree'}
        d['tree'] = {'dirs': {k: [x['name'] for x in v] for k, v in t['dirs'].items()}, 'files': {f['path']: [i['name'] for i in f['items']] for f in t['files']}}
        return d

    def signature(self, case, obs):
        s = repr((case['tree'], {k: v for k, v in case.items() if k != 'tree'}))
        return hash(s) & 0xffffffffffff


# --- shared comparisons ----------------------------------------------------------------------------------------------
def expected_keys(ref, unit):
    out = set()
    for p in ref.needed_params(unit).values():
        for i in range(len(p['names'])):
            out.add('{}/{}'.format(p['key'], i))
    return out


def indices_of(ref, unit, t):
    """{param key: value index} of a test from what its variation says; None if the names are not paths to parameters"""
    paths = ref.bindings(unit)
    out = {}
    for name, idx in t['ids'].items():
        if name not in paths:
            return None, 'the variation names {!r}, which leads to no parameter of the test (paths: {})'.format(name, sorted(paths))
        options = paths[name]
        if len(options) == 1:
            (key, _), = options
            if out.setdefault(key, idx) != idx:
                return None, 'the variation gives parameter {} two different values'.format(name)
    return out, None


def check_params(ref, obs, mech='params'):
    """C05: product, delivery, variation, labels, address. Yields violations."""
    by_unit = collections.defaultdict(list)
    for i, t in enumerate(obs['tests']):
        by_unit[unit_id(t)].append(i)
    units = {u.id: u for f in ref.spec['files'] for u in ref.units_of(f['path'])}
    seen = delivered = 0
    events = collections.defaultdict(list)
    alive = {}
    autofx = collections.defaultdict(dict)   # test -> fixture key -> assign of the instance alive while it ran
    for e in obs['events']:
        if e['k'] == 'fx':
            alive[e['key']] = e
        elif e['k'] == 'down':
            alive.pop(e['key'], None)
        elif e['T'] is not None:
            events[e['T']].append(e)
            autofx[e['T']].update(alive)
    for uid, tests in by_unit.items():
        u = units.get(uid)
        if u is None:
            continue
        want = expected_keys(ref, u)
        combos = collections.Counter()
        for i in tests:
            t = obs['tests'][i]
            seen += 1
            idx, err = indices_of(ref, u, t)
            if err:
                yield Violation(mech + '-variation', '{}: {}'.format(t['address'], err))
                return
            needed = ref.needed_params(u)
            if set(idx) != set(needed):
                yield Violation(mech + '-variation', '{}: the variation covers parameters {}, the test depends on {}'.format(t['address'], sorted(idx), sorted(needed)))
                return
            combos[tuple(sorted(idx.items()))] += 1
            for v in check_variation(ref, u, t, idx):
                yield Violation(mech + '-variation', v)
                return
            if events[i]:
                assign = {}
                for e in events[i]:
                    for k, x in e['assign'].items():
                        if assign.setdefault(k, x) != x:
                            yield Violation(mech + '-delivery', '{}: consumers received different values of {}: {} and {}'.format(t['address'], k, assign[k], x))
                            return
                for fx in ref.used_fixtures(u).values():
                    if fx['kind'] == 'gen':
                        continue
                    inst = autofx[i].get(fx['key'])
                    if inst is None:
                        if i in obs['ran']:
                            yield Violation(mech + '-activation', '{}: fixture {} ({}) is not active'.format(t['address'], fx['name'], fx['key']))
                            return
                        continue
                    for k, x in inst['assign'].items():
                        if assign.setdefault(k, x) != x:
                            yield Violation(mech + '-delivery', '{}: fixture {} was computed for {}={} while another consumer received {}'.format(t['address'], fx['name'], k, x, assign[k]))
                            return
                # values handed over by generator fixtures are raw: they are compared through the arguments below
                for k, x in assign.items():
                    if k not in want:
                        yield Violation(mech + '-delivery', '{}: received a value of {}, which the test does not depend on'.format(t['address'], k))
                        return
                    p, n = k.split('/')
                    exp = ref.value_reprs(ref.params[p], idx[p])[int(n)]
                    delivered += 1
                    if x != exp:
                        yield Violation(mech + '-delivery', '{}: {} received {}, the variation says {}'.format(t['address'], k, x, exp))
                        return
                for v in check_args(ref, u, t, events[i] + [e for k, e in autofx[i].items() if k in ref.used_fixtures(u)], idx):
                    yield Violation(mech + '-arguments', v)
                    return
        n = ref.count(u)
        rep = set(combos.values())
        if len(combos) != n or len(rep) != 1:
            yield Violation(mech + '-product', '{}: {} combinations expected, seen {}'.format(uid, n, dict(combos)))
            return
        addresses = {}
        for i in tests:
            t = obs['tests'][i]
            key = (tuple(sorted(t['values'].items())), tuple(sorted((k, str(v)) for k, v in t['labels'].items())))
            ids = tuple(sorted(t['ids'].items()))
            if addresses.setdefault(key, ids) != ids:
                yield Violation(mech + '-unique', '{}: two combinations {} and {} have the same values and labels'.format(uid, addresses[key], ids))
                return
    obs['seen_tests'], obs['seen_values'] = seen, delivered


def check_variation(ref, u, t, idx):
    paths = ref.bindings(u)
    if set(t['values']) != set(t['ids']) or set(t['labels']) != set(t['ids']):
        yield '{}: values {}, labels {} and ids {} do not cover the same names'.format(t['address'], sorted(t['values']), sorted(t['labels']), sorted(t['ids']))
        return
    shown = {}
    for name in t['ids']:
        options = paths[name]
        ok_value = ok_label = False
        for key, n in options:
            p = ref.params[key]
            if key not in idx:
                continue
            v = p['values'][idx[key]]
            label = v.get('label') if v.get('label') is not None else idx[key]
            if t['values'][name] == ref.value_reprs(p, idx[key])[n]:
                ok_value = True
            if t['labels'][name] == label:
                ok_label = True
            value = eval(v['src'])  # pylint: disable=eval-used
            value = value if len(p['names']) == 1 else value[n]
            shown[name] = label if isinstance(label, str) else str(value) if SAFE.issuperset(str(value)) else '{}{}'.format(name, label)
        if not ok_value:
            yield '{}: the variation says {}={}'.format(t['address'], name, t['values'][name])
        if not ok_label:
            yield '{}: the label of {} is {!r}'.format(t['address'], name, t['labels'][name])
    want = '{}:{}'.format(t['path'], u.addr)
    if idx:
        want += '({})'.format(','.join('{}={}'.format(k, shown[k]) for k in sorted(shown)))
    if t['address'] != want and all(len(paths[n]) == 1 for n in t['ids']):
        yield 'the address is {!r}, expected {!r}'.format(t['address'], want)


def check_args(ref, u, t, events, idx):
    """Every argument must come from the fixture its name resolves to where the consumer is defined"""
    parts = {x['key']: (x, ('file', u.path)) for _, x, _ in ref.parts(u)}
    for e in events:
        if e['k'] == 'fx':
            x, site = ref.fx[e['key']], ref.site[e['key']]
        elif e['key'] in parts:
            x, site = parts[e['key']]
        else:
            yield '{}: code of {} ran'.format(t['address'], e['key'])
            return
        if set(e['args']) != {a for a, _ in x['deps']}:
            yield '{}: {} received the arguments {}'.format(t['address'], e['key'], sorted(e['args']))
        for arg, name in x['deps']:
            fx = ref.resolve(name, site)
            got = e['args'].get(arg)
            if fx['kind'] == 'gen':
                p = fx['params'][0]
                exp = ref.value_reprs(p, idx[p['key']])[0]
                if got.get('V') != exp:
                    yield '{}: {} received {} as {}, expected {} from generator fixture {}'.format(t['address'], e['key'], got, arg, exp, fx['key'])
            elif got.get('F') != fx['key']:
                yield '{}: argument {} of {} came from {}, expected fixture {} ({})'.format(t['address'], arg, e['key'], got, fx['key'], ref.site[fx['key']])


def check_activation(ref, obs, mech):
    """Fixtures are set up only for tests that use them"""
    units = {u.id: u for f in ref.spec['files'] for u in ref.units_of(f['path'])}
    for e in obs['events']:
        if e['k'] == 'fx' and e['T'] is not None and e['T'] != '?':
            u = units.get(unit_id(obs['tests'][e['T']]))
            if u is not None and e['key'] not in ref.used_fixtures(u):
                yield Violation(mech, '{}: fixture {} was set up but the test does not use it'.format(u.id, e['key']))
                return
