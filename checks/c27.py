import collections
import os
import pickle
import re
import xml.etree.ElementTree as ET

from vp import detailprobe as dp, suite
from vp.core import Check, Violation

ENDS = {'ok': 'pass', 'error': 'raise ValueError("message")', 'failure': 'assert 1 == 2', 'skip': 'slash.skip_test({})', 'add_error': 'slash.add_error("message")', 'skip_decorator': 'pass', 'not_run': 'pass', 'fatal': 'raise slash.exception_handling.mark_exception_fatal(ValueError("fatal"))', 'interrupt': 'raise KeyboardInterrupt()'}
SITES = ['body', 'body', 'fixture', 'teardown', 'cleanup', 'module_fixture', 'test_start', 'test_end', 'session_start', 'session_end', 'after_session_start', 'error_added', 'before', 'after', 'session_cleanup', 'test_skip', 'test_success']


def gen_op(rng, pool):
    if rng.random() < 0.12:
        return {'op': 'gset', 'name': rng.choice(['x', 'y', 'target', 'long_name_1', 'session', 'g']), 'val': rng.choice(pool), 'via': rng.choice(['slash.g', 'context.g'])}
    return {'op': rng.choice(['set', 'set', 'append', 'append', 'append', 'all']), 't': rng.choice(['cur', 'cur', 'cur', 'session', 'global', 'first']), 'kind': rng.choice(['details', 'details', 'facts', 'data']), 'key': rng.choice(['a', 'b', rng.choice(sorted(dp.KEYS))]), 'val': rng.choice(pool)}


class CHECK(Check):
    prop = 'C27'
    technique = 'runtime monitoring: every operation is mirrored in a shadow store, compared with all results after each of them, in the console summary, the xunit report and after transferring results the way workers do'
    rule = 'random set/append/copy operations with ordinary, shared, unpicklable and hostile keys and values on the current, global and other results, from tests, fixtures, cleanups and hooks of tests with every outcome; global storage set and read everywhere, also in the next session'
    required = ('set', 'append', 'compared', 'fact_set', 'refused', 'gset', 'globals', 'on_global', 'console_details', 'xunit_details', 'transferred', 'unpicklable', 'second_sessions', 'skips')
    n_quick = 320
    n_thorough = 12000
    imports = ('slash.frontend.slash_run', 'slash.plugins.builtin.xunit')
    assumptions = ['details which cannot be pickled are the only ones that may be missing in a parallel parent', 'values are not modified by tests after they were set']

    def gen(self, rng, i, tier):
        names = sorted(dp.values())
        pool = names if rng.random() < 0.6 else rng.sample(names, 4) + ['list0', 'list1']
        tests = []
        for k in range(rng.choice([1, 2, 2, 3, 4])):
            end = rng.choice(['ok', 'error', 'failure', 'skip', 'add_error', 'error', 'skip_decorator'] + (['fatal', 'interrupt'] if rng.random() < 0.2 else []))
            tests.append({'end': end, 'cls': rng.random() < 0.3, 'params': rng.choice([0, 0, 2]), 'reason': rng.choice(['"why"', 'None', '3', '{0}'.format("('a', 1)"), 'dp.V["bad"]', 'dp.V["lam"]', '"{0}"', '""'])})
        sites = {}
        for _ in range(rng.choice([2, 4, 8, 12])):
            sites.setdefault(rng.choice(SITES), []).append(gen_op(rng, pool))
        for s in ('body',):
            sites.setdefault(s, []).extend(gen_op(rng, pool) for _ in range(rng.choice([1, 3, 6])))
        return {'tests': tests, 'sites': sites, 'verbose': rng.choice([[], ['-v'], ['-vv'], ['-q'], ['-v']]), 'xunit': rng.random() < 0.7, 'second': rng.random() < 0.25, 'logs': rng.random() < 0.3}

    def write(self, case):
        out = ['import slash', 'from vp import detailprobe as dp', 'SITES = dp.PROGRAM["sites"]', 'def at(site):', '    dp.do(site, SITES.get(site, ()))',
               '@slash.fixture(scope="module")', 'def module_fixture():', '    at("module_fixture")',
               '@slash.yield_fixture', 'def fixture(module_fixture):', '    at("fixture")', '    yield 1', '    at("teardown")', 'def cleanup():', '    at("cleanup")', '']
        for k, t in enumerate(case['tests']):
            ind = ''
            if t['cls']:
                out += ['class T{}(slash.Test):'.format(k), '    def before(self):', '        at("before")', '    def after(self):', '        at("after")']
                ind = '    '
            if t['end'] == 'skip_decorator':
                out.append(ind + '@slash.skipped("why")')
            if t['params']:
                out.append(ind + '@slash.parametrize("p", {})'.format(list(range(t['params']))))
            out += [ind + 'def test_{}({}):'.format(k, ', '.join((['self'] if t['cls'] else []) + ['fixture'] + (['p'] if t['params'] else []))), ind + '    slash.add_cleanup(cleanup)', ind + '    at("body")', ind + '    ' + ENDS[t['end']].format(t['reason'])]
        with open('test_it.py', 'w') as f:
            f.write('\n'.join(out) + '\n')

    def run(self, case):
        import gossip
        import slash
        dp.reset({'sites': case['sites']})
        self.write(case)
        for h in ('test_start', 'test_end', 'session_start', 'session_end', 'after_session_start', 'error_added', 'test_skip', 'test_success'):
            if h in case['sites']:
                def hook(h=h, **_):
                    dp.do(h, dp.PROGRAM['sites'].get(h, ()))
                gossip.register(hook, 'slash.' + h)
        if 'session_cleanup' in case['sites']:
            gossip.register(lambda: slash.add_cleanup(lambda: dp.do('session_cleanup', dp.PROGRAM['sites']['session_cleanup'])), 'slash.session_start')
        gossip.register(dp.fact_set, 'slash.fact_set')
        argv = ['test_it.py'] + case['verbose'] + (['--with-xunit', '--xunit-filename', os.path.abspath('x.xml')] if case['xunit'] else []) + (['-l', os.path.abspath('logs')] if case['logs'] else [])
        snap = {}

        def at_end():
            # what the reports could have seen
            snap['details'] = [(r.test_metadata.address if r.test_metadata else None, r.is_started(), list(s['details'].items())) for r, s in dp.RESULTS]
        gossip.register(at_end, 'slash.session_end')
        app, text, escaped = suite.run_app(argv)
        obs = self.look(case, app, text, escaped, snap)
        if case['second']:
            before = list(dp.G)
            dp.reset({'sites': dict(case['sites'], session_start=[])}, keep=True)
            left = []

            def early():
                left.extend(n for n in before if hasattr(slash.g, n))
            gossip.register(early, 'slash.before_session_start')
            app, text, escaped = suite.run_app(['test_it.py'])
            dp.check('the end of the second session') if False else None
            obs['second'] = {'left': left, 'escaped': repr(escaped)}
        obs['after_g'] = slash.context.g is None
        obs['bad'] = [list(map(str, b)) for b in dp.BAD]
        obs['counts'] = dict(dp.COUNTS)
        return obs

    def look(self, case, app, text, escaped, snap):
        from slash.core.result import Result
        import xmlrpc.client
        bad = dp.BAD
        c = dp.COUNTS
        if app is None or app.session is None or escaped is not None:
            bad.append(('run', 'the run failed: {!r} {}'.format(escaped, text[-1500:])))
            return {}
        if 'Traceback (most recent' in text or 'Unexpected error' in text or 'Session ended' not in text:
            bad.append(('run', 'the summary failed: {}'.format(text[-1500:])))
        dp.judge_facts()
        results = list(app.session.results.iter_all_results())
        for res, sh in dp.RESULTS:
            for kind in dp.KINDS:
                got = dp.content(res, kind)
                if list(map(repr, got)) != list(map(repr, sh[kind])) and set(map(repr, got)) != set(map(repr, sh[kind])) or not all(dp.same(got[k], v) for k, v in sh[kind].items()):
                    bad.append(('content', 'at the end: {} is {}, should be {}'.format(kind, dp.show(got), dp.show(sh[kind]))))
        # untouched results are empty
        for res in results:
            if not any(r is res for r, _ in dp.RESULTS) and (res.details.all() or res.facts.all() or res.data):
                bad.append(('content', 'a result nobody wrote to has {} {} {}'.format(res.details.all(), res.facts.all(), res.data)))
        # console
        blocks = re.split(r'(?m)^== #(\d+): ([^\n]*?) *=*\n', text)
        for k in range(1, len(blocks) - 2, 3):
            res = results[int(blocks[k]) - 1]
            sh = next((s for r, s in dp.RESULTS if r is res), {'details': {}})
            want = []
            for key, v in sh['details'].items():
                try:
                    want.append('    > {}: {!r}\n'.format(key, v))
                except Exception:  # pylint: disable=broad-except
                    want.append('    > {}: '.format(key))
                dp.count('console_details')
            for w in want:
                if w not in blocks[k + 2]:
                    bad.append(('console', 'the summary of {} does not show {!r}: {}'.format(blocks[k + 1], w, blocks[k + 2][:800])))
            n = len(re.findall(r'(?m)^    > ', blocks[k + 2]))
            if n > len(want) + 1:
                bad.append(('console', 'the summary of {} shows {} details of {}'.format(blocks[k + 1], n, len(want))))
        # xunit: written at session_end, possibly before other callbacks of it
        if case['xunit']:
            self.xunit(case, results, snap)
        for res in results[:-1]:
            sh = next((s for r, s in dp.RESULTS if r is res), None)
            if sh is None:
                continue
            ser = xmlrpc.client.loads(xmlrpc.client.dumps((res.serialize(),), allow_none=True))[0][0]
            new = Result(res.test_metadata)
            ser = {k: v for k, v in ser.items() if k not in ('_errors', '_failures', '_skips')}
            new.deserialize(ser)
            dp.count('transferred')
            for kind in dp.KINDS:
                want = {}
                loadable = True
                for key, v in sh[kind].items():
                    try:
                        data = pickle.dumps((key, v))
                    except Exception:  # pylint: disable=broad-except
                        dp.count('unpicklable')
                        continue
                    try:
                        want[key] = pickle.loads(data)[1]
                    except Exception:  # pylint: disable=broad-except
                        dp.count('unpicklable')
                        loadable = False
                got = dp.content(new, kind)
                if kind == 'data' and not loadable:
                    continue
                if set(map(repr, got)) != set(map(repr, want)) or any(not equal(got[k], v) for k, v in want.items()):
                    bad.append(('transfer', '{} arrive as {}, are {}'.format(kind, dp.show(got), dp.show(want))))
            n = len(dp.FACTS_SEEN)
            new.facts.set('late', 1)
            if len(dp.FACTS_SEEN) != n + 1:
                bad.append(('facts', 'a fact set on a transferred result did not fire fact_set'))
            del dp.FACTS_SEEN[n:]
            c['skips'] = c.get('skips', 0) + len(res.get_skips())
        return {}

    def xunit(self, case, results, snap):
        bad = dp.BAD
        if not os.path.exists('x.xml'):
            bad.append(('xunit', 'no report was written'))
            return
        try:
            root = ET.parse('x.xml').getroot()
        except ET.ParseError as e:
            bad.append(('xunit', 'malformed: {} {}'.format(e, open('x.xml', 'rb').read()[:1500])))
            return
        if 'session_end' in case['sites']:
            return
        started = [r for r in results[:-1] if r.is_started()]
        cases = root.findall('testcase')
        if len(cases) != len(started):
            bad.append(('xunit', '{} test cases, {} tests started'.format(len(cases), len(started))))
            return
        want_by = [(r, s) for r, s in dp.RESULTS]
        snapped = {a: d for a, _, d in snap.get('details', ())}
        for el, res in zip(cases, started):
            items = snapped.get(res.test_metadata.address, [])
            want = []
            for key, v in items:
                for x in (v if isinstance(v, list) else [v]):
                    want.append((key, x))
            got = el.findall('detail')
            if len(got) != len(want):
                bad.append(('xunit', '{} lists {} details of {}'.format(res.test_metadata.address, len(got), len(want))))
                continue
            for g, (key, x) in zip(got, want):
                dp.count('xunit_details')
                if not close(g.get('name'), str(key)):
                    bad.append(('xunit', 'detail named {!r}, really {!r}'.format(g.get('name'), key)))
                if isinstance(x, (list, tuple, dict)):
                    leaves = [y for y in leaf(x) if y != '']
                    texts = [t.text or '' for t in g.iter() if t is not g and not len(t) and t.text]
                    if len(leaves) != len(texts) or not all(close(t, s) for t, s in zip(texts, leaves)):
                        bad.append(('xunit', 'detail {!r} has {!r}, really {!r}'.format(key, texts, leaves)))
                else:
                    try:
                        s = str(x)
                    except Exception:  # pylint: disable=broad-except
                        continue
                    if not close(g.get('value'), s):
                        bad.append(('xunit', 'detail {!r} is {!r}, really {!r}'.format(key, g.get('value'), s)))

    def judge(self, case, obs):
        for m, msg in obs['bad'][:1]:
            return [Violation(m, msg)]
        if obs.get('second') and (obs['second']['left'] or obs['second']['escaped'] != 'None'):
            return [Violation('globals', 'the next session: {}'.format(obs['second']))]
        if not obs['after_g']:
            return [Violation('globals', 'global storage is available after the session')]
        return []

    def counters(self, case, obs):
        c = collections.Counter(obs['counts'])
        c['second_sessions'] += case['second']
        c['runs'] += 1
        return c

    def signature(self, case, obs):
        return repr((case['sites'], [t['end'] for t in case['tests']])) if obs['counts'] else None

    def shrink(self, case):
        for i in range(len(case['tests'])):
            if len(case['tests']) > 1:
                yield dict(case, tests=case['tests'][:i] + case['tests'][i + 1:])
        for s, ops in case['sites'].items():
            for i in range(len(ops)):
                yield dict(case, sites=dict(case['sites'], **{s: ops[:i] + ops[i + 1:]}))
        for k, v in (('verbose', []), ('xunit', False), ('second', False), ('logs', False)):
            if case[k] != v:
                yield dict(case, **{k: v})


def leaf(x):
    if isinstance(x, dict):
        if not x:
            yield ''
        for v in x.values():
            for y in leaf(v):
                yield y
    elif isinstance(x, (list, tuple)):
        if not x:
            yield ''
        for v in x:
            for y in leaf(v):
                yield y
    else:
        try:
            yield str(x)
        except Exception:  # pylint: disable=broad-except
            yield None


ILLEGAL = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def close(got, want):
    """Texts are equal, but for characters XML cannot represent"""
    if want is None or got is None:
        return got is not None
    norm = lambda s: s.replace('\r\n', '\n').replace('\r', '\n')
    if not ILLEGAL.search(want):
        return norm(got) == norm(want)
    pos = 0
    for part in ILLEGAL.split(norm(want)):
        pos = norm(got).find(part, pos)
        if pos < 0:
            return False
        pos += len(part)
    return True


def equal(a, b):
    if isinstance(a, BaseException) and type(a) is type(b):
        return a.args == b.args
    if isinstance(a, float) and a != a:
        return b != b
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    try:
        return type(a) is type(b) and (bool(a == b) or type(a).__module__ == 'vp.detailprobe')
    except Exception:  # pylint: disable=broad-except
        return type(a) is type(b)
