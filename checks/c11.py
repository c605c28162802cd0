import collections
import contextlib
import os
import pickle
import random
import time
import traceback
import uuid

from vp import engineb, gentree, tree
from vp.core import Check, Violation
from vp.tree import Ref

from checks.c02 import random_args, resolve_args

BAD = ('fail', 'error', 'kbd', 'term', 'fatal', 'adderr', 'addfail', 'exit')
STOP = ('kbd', 'term', 'fatal', 'exit')


def forked(fn):
    """What fn() returns, computed in a process of its own, like every slash command is"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException:  # pylint: disable=broad-except
                out = ('crash', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)

    def wait():
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        what, out = pickle.loads(data)
        if what == 'crash':
            raise RuntimeError(out)
        return out
    return wait


def session(step, argv, root, cwd, before_end=None):
    """Runs one session; returns the engine's observation and what was done to each test"""
    import gossip
    import slash
    from slash.ctx import context
    from slash.exceptions import TestFailed
    from vp import vpmon
    os.chdir(cwd)
    uuid.uuid1 = uuid.uuid4         # ids which say nothing of when they were made
    done = collections.defaultdict(list)     # id(test) -> [what was done to it]
    state = {'n': -1, 'cur': None, 'fired': set()}
    extra = {}

    def act(what):
        t = context.test
        done[id(t)].append(what)
        if what == 'fail':
            raise TestFailed('planned')
        if what == 'error':
            raise ValueError('planned')
        if what == 'kbd':
            raise KeyboardInterrupt()
        if what == 'term':
            raise slash.exceptions.TerminatedException('planned')
        if what == 'fatal':
            raise slash.exception_handling.mark_exception_fatal(ValueError('planned'))
        if what == 'exit':
            raise SystemExit(3)
        if what == 'skip':
            slash.skip_test('planned')
        if what == 'addskip':
            context.result.add_skip('planned')
        if what == 'adderr':
            slash.add_error('planned')
        if what == 'addfail':
            slash.add_failure('planned')

    def at(where):
        for i, (place, what) in enumerate(state['cur'] or ()):
            if place == where and i not in state['fired']:
                state['fired'].add(i)
                act(what)

    def plan(kind, key):
        if context.test is None:
            return
        if kind == 'fx':
            if FX_TEST[0] is None or key in FX_TEST[0]:
                at('fx')
        else:
            at(kind)
    FX_TEST = [step.get('fx_keys')]

    def on_start():
        state['n'] += 1
        state['cur'] = step['plan'].get(str(state['n']), ())
        state['fired'] = set()
        done[id(context.test)].append('start')
        for place, what in state['cur']:
            if place in ('cleanup', 'critical'):
                slash.add_cleanup(lambda what=what: act(what), critical=place == 'critical')
        at('start')

    def on_end():
        at('end')
    if before_end is not None:
        gossip.register(before_end, 'slash.session_end', token='c11')
    for name, fn in (('test_start', on_start), ('test_end', on_end)):
        gossip.register(fn, 'slash.' + name, token='c11')

    for name in step.get('hooks', ()):
        def raiser():
            extra['hook'] = True
            raise KeyboardInterrupt()
        gossip.register(raiser, 'slash.' + name, token='c11')
    vpmon.PLAN = plan
    try:
        obs = engineb.run(argv, root, cwd=cwd, resume=step['mode'] == 'resume', rerun=step['mode'] == 'rerun')
    finally:
        vpmon.PLAN = None
        gossip.unregister_token('c11')
    flat = [t for b in vpmon.LOADED for t in b]
    obs['done'] = [done.get(id(t), []) for t in flat]
    obs['order'] = sorted(range(len(flat)), key=lambda i: (flat[i].__slash__.repeat_all_index, flat[i].__slash__.get_sort_key()))
    obs.pop('events', None)
    obs['hook'] = extra.get('hook', False)
    return obs


def key_of(t):
    return (engineb.unit_id(t), tuple(sorted(t['ids'].items())), tuple(sorted(t['values'].items())))


def status(obs, i):
    done = obs['done'][i]
    if i in [a for a, _ in obs['avoided']]:
        return 'skipped'
    if not done:
        return 'planned'
    if any(d in BAD for d in done):
        return 'failed'
    if any(d in ('skip', 'addskip') for d in done):
        return 'skipped'
    return 'success'


def wanted(flags, mode):
    if '--failed-only' in flags:
        out = {'failed'}
    elif '--unstarted-only' in flags:
        out = {'planned', 'skipped'}
    else:
        out = {'failed', 'planned', 'skipped'}
    if '--no-skipped' in flags:
        out.discard('skipped')
    if mode == 'rerun':
        out.add('success')
    return out


class CHECK(Check):
    prop = 'C11'
    technique = 'runtime monitoring: tests run by chains of resumed and rerun sessions vs. what was observed to happen in the sessions they name'
    rule = 'chains of run/resume/rerun sessions, each in a process of its own, over generated trees with planned verdicts, stop points, flags, folders and stores; tests loaded and run compared with the observed history'
    required = ('sessions', 'resumed', 'reran', 'stopped', 'interrupted', 'failed', 'planned', 'skipped', 'success', 'unknown', 'repeated', 'parametrized', 'several', 'first', 'avoided', 'hooked', 'together', 'locked', 'narrowed')
    imports = ('slash', 'slash.frontend.slash_run')
    assumptions = ('the tests themselves do not change between sessions', 'sessions end by themselves (a killed process stores nothing)',
                   'sessions interrupted before their tests were loaded have nothing to resume')
    n_quick = 200
    n_thorough = 3000
    case_timeout = 150

    def gen(self, rng, i, tier):
        profile = dict(p_param=0.4, p_fxparam=0.25, p_dep=0.4, p_class=0.4, items=3, files=3, dirs=3, p_repeat=0.15, max_total=24, max_unit=6, p_ba=0.3, p_req=0.12, p_noise=0.1,
                       p_gen=0.08, p_autouse=0.12, p_nofix=0.3, nasty=0.4)
        t = gentree.gen_tree(rng, **profile)
        multi = rng.random() < 0.25
        args = random_args(rng, Ref(t))
        if multi:
            args = [a if a.startswith('@/') else '@/' + a for a in args]
        steps = []
        for k in range(rng.choice([2, 2, 3, 3, 4, 5])):
            step = {'mode': 'run' if k == 0 else rng.choice(['resume', 'resume', 'resume', 'rerun', 'rerun', 'run']), 'cwd': rng.choice(['', 'elsewhere']) if multi else '',
                    'flags': [], 'each': 1, 'all': 1, 'target': [], 'plan': {}, 'hooks': []}
            if step['mode'] == 'run':
                step['args'] = args if k == 0 or rng.random() < 0.4 else random_args(rng, Ref(t))
                if multi:
                    step['args'] = [a if a.startswith('@/') else '@/' + a for a in step['args']]
            else:
                r = rng.random()
                if r < 0.06:
                    step['target'] = ['unknown']
                elif r < 0.6:
                    step['target'] = [rng.randrange(k)]
                    if k > 1 and rng.random() < 0.25:
                        step['target'].append(rng.randrange(k))
                if rng.random() < 0.45:
                    f = rng.choice([['--failed-only'], ['--unstarted-only'], ['--no-skipped'], ['--no-skipped', '--unstarted-only'], ['--failed-first'], ['--unstarted-first'],
                                    ['--failed-first', '--no-skipped'], ['--failed-only', '--failed-first']])
                    if step['mode'] == 'resume' or f[0].endswith('first'):
                        step['flags'] += f
                    if rng.random() < 0.08:
                        step['flags'] = rng.choice([['--failed-only', '--unstarted-only'], ['--failed-only', '--no-skipped'], ['--failed-first', '--unstarted-first']])
            if rng.random() < 0.15:
                step[rng.choice(['each', 'all'])] = rng.choice([2, 2, 3])
            if rng.random() < 0.2:
                step['flags'].append('-x')
            if rng.random() < 0.12:
                step['store'] = 'alt'
            if rng.random() < 0.06:
                step['hooks'] = [rng.choice(['session_start', 'before_session_start', 'after_session_start', 'session_end'])]
            dens = rng.choice([0.15, 0.4, 0.7])
            for n in range(60):
                if rng.random() < dens:
                    acts = []
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        what = rng.choice(['fail', 'error', 'skip', 'skip', 'addskip', 'adderr', 'addfail', 'fail', 'error'])
                        if rng.random() < 0.12:
                            what = rng.choice(STOP)
                        place = rng.choice(['test', 'test', 'test', 'start', 'end', 'fx', 'cleanup', 'before', 'after', 'critical'])
                        if what in ('exit',):
                            place = 'test'
                        if what == 'skip' and place in ('cleanup', 'critical', 'end', 'after'):
                            what = 'addskip'
                        acts.append([place, what])
                    step['plan'][str(n)] = acts
            steps.append(step)
        if i % 8 == 3:
            # narrowing down to a single test
            one = [['test', rng.choice(['fail', 'error', 'adderr'])]]
            for k, step in enumerate(steps):
                step['plan'] = {str(rng.randrange(12) if k == 0 else 0): one}
                step['hooks'] = []
                if k:
                    step.update(mode='resume', target=[k - 1] if rng.random() < 0.7 else [], flags=['--failed-only'] if k == 1 and rng.random() < 0.7 else [], store=steps[0].get('store'))
        if i % 6 == 1 and i % 25 != 7 and i % 150 != 60:
            # some of the sessions are old
            keep = rng.choice([None, 2, 5, 30])
            for k in range(1, len(steps)):
                steps[k]['keep'] = keep
                for j in range(k):
                    if rng.random() < 0.5:
                        steps[k].setdefault('age', {})[str(j)] = (10 if keep is None else keep) + rng.choice([-1, -1, 1, 20])
        case = {'tree': t, 'steps': steps, 'multi': multi}
        if i % 25 == 7:
            # sessions ending at the same moment, in a fresh home
            k = rng.choice([2, 4, 6, 8])
            case['together'] = k
            case['steps'] = [dict(rng.choice(steps), mode='run', args=args, cwd='', target=[], flags=[], store=None) for _ in range(k)]
            case['steps'] += [dict(rng.choice(steps), mode=rng.choice(['resume', 'rerun']), cwd='', target=[j], flags=[], store=None) for j in range(k)]
        elif i % (400 if tier == 'thorough' else 150) == 60:
            # something else is using the store while the session ends
            case['lock'] = rng.choice([5.6, 6.5, 8]) if tier == 'thorough' else 5.6
            case['steps'] = [dict(rng.choice(steps), mode='run', args=args, cwd='', target=[], flags=[], store=None) for _ in range(2)]
            case['steps'] += [dict(rng.choice(steps), mode='resume', cwd='', target=[j], flags=[], store=None) for j in (1, 0)]
        return case

    def run(self, case):
        root = os.path.realpath(os.getcwd())
        tree.write(case['tree'], root)
        os.makedirs(os.path.join(root, 'elsewhere'), exist_ok=True)
        ref = Ref(case['tree'])
        fx_keys = [k for k, fx in ref.fx.items() if fx['scope'] == 'test']
        out = []
        waits = []
        aged = 0
        self.t0 = time.time()
        together = case.get('together', 0)
        meet = os.path.join(root, 'elsewhere', 'meet')
        os.makedirs(meet)

        def meeting():
            open(os.path.join(meet, str(os.getpid())), 'w', encoding='utf-8').close()
            end = time.time() + 20
            while len(os.listdir(meet)) < together and time.time() < end:
                time.sleep(0.0003)
        for k, step in enumerate(case['steps']):
            step = dict(step, fx_keys=fx_keys)
            if k < together:
                step['hooks'] = []
            argv = self.argv(case, step, out, root)

            def one(step=step, argv=argv, k=k):
                return session(step, argv, root, os.path.join(root, step['cwd']), meeting if k < together else None)
            wait = forked(one)
            if k < together:
                waits.append(wait)
                if k == together - 1:
                    out = [w() for w in waits]
                continue
            for j, days in step.get('age', {}).items():
                aged += self.age(out[int(j)]['sid'], days, int(j), root)
            locks = self.lock_store() if case.get('lock') and k == 1 else []
            if locks:
                time.sleep(case['lock'])
                for c in locks:
                    c.rollback()
                    c.close()
            out.append(wait())
            time.sleep(0.002)
        return {'steps': out, 'aged': aged}

    @staticmethod
    def stores(*roots):
        for r in roots:
            for d, _, files in os.walk(r):
                for f in files:
                    path = os.path.join(d, f)
                    with open(path, 'rb') as fh:
                        if fh.read(15) == b'SQLite format 3':
                            yield path

    def lock_store(self):
        import sqlite3
        out = []
        for path in self.stores(os.path.expanduser('~')):
            c = sqlite3.connect(path, isolation_level=None)
            c.execute('BEGIN EXCLUSIVE')
            out.append(c)
        return out

    def age(self, sid, days, j, root):
        """As if the session had been stored that many days ago: whatever times are stored beside its id; returns how many were"""
        import sqlite3
        n = 0
        if sid is None:
            return 0
        for path in set(self.stores(os.path.expanduser('~'), os.path.join(root, 'elsewhere'))):
            with contextlib.closing(sqlite3.connect(path)) as c:
                for (table,) in c.execute("select name from sqlite_master where type = 'table'").fetchall():
                    columns = [(col[1], col[2].upper()) for col in c.execute('pragma table_info("{}")'.format(table))]
                    for when in [name for name, type_ in columns if 'DATE' in type_ or 'TIME' in type_]:
                        for name, type_ in columns:
                            if 'CHAR' in type_ or 'TEXT' in type_:
                                old = time.strftime('%Y-%m-%d %H:%M:00.{:06}'.format(j), time.localtime(self.t0 - days * 86400))
                                n += c.execute('update "{0}" set "{1}" = ? where "{2}" = ?'.format(table, when, name), (old, sid)).rowcount
                c.commit()
        return n

    def argv(self, case, step, before, root):
        if step['mode'] == 'run':
            argv = resolve_args(step['args'], root)
        else:
            argv = ['no-such-session_0' if k == 'unknown' else before[k]['sid'] or 'missing' for k in step['target']]
        argv += step['flags']
        for name in ('each', 'all'):
            if step[name] > 1:
                argv += ['--repeat-' + name, str(step[name])]
        if step.get('store'):
            argv += ['-o', 'run.resume_state_path=' + os.path.join(root, 'elsewhere', 'store')]
        if step.get('keep') is not None:
            argv += ['-o', 'resume.state_retention_days={}'.format(step['keep'])]
        return argv

    def history(self, case, obs):
        """For each step, [(key, status)] of its tests in the order they were meant to run"""
        hist = []
        for o in obs['steps']:
            hist.append([(key_of(o['tests'][i]), status(o, i)) for i in o['order']])
        return hist

    def judge(self, case, obs):
        hist = self.history(case, obs)
        age = collections.Counter()
        dead, dying = set(), set()
        for k, (step, o) in enumerate(zip(case['steps'], obs['steps'])):
            dead |= dying
            if obs['aged']:
                for j, days in step.get('age', {}).items():
                    age[int(j)] = days
            limit = 10 if step.get('keep') is None else step['keep']
            dying = {j for j in range(k) if age[j] > limit and case['steps'][j].get('store') == step.get('store')}
            name = 'session {} ({} {})'.format(k, step['mode'], ' '.join(str(x) for x in step['target'] + step['flags']))
            if o['escaped'] is not None:
                return [Violation('escaped', '{}: {}'.format(name, o['escaped']))]
            if case.get('together') and step['mode'] == 'run' and o['console'].find('Unexpected error') >= 0 and o['loads']:
                return [Violation('store', '{}: the session could not end properly: {}'.format(name, o['console'][-800:]))]
            if o['sid'] is None:
                return [Violation('no-session', '{}: no session was seen: {}'.format(name, o['console'][-800:]))]
            for i, t in enumerate(o['tests']):
                if o['loads'] > 1:
                    return [Violation('loads', '{}: tests were loaded {} times'.format(name, o['loads']))]
            if step['mode'] == 'run':
                continue
            targets = step['target']
            if not targets:
                same = [j for j in range(k) if case['steps'][j]['cwd'] == step['cwd'] and case['steps'][j].get('store') == step.get('store')]
                if dying - dead:
                    continue        # about to be forgotten, or already
                same.sort(key=lambda j: (j not in dead, -age[j], j))
                targets = same[-1:] or ['unknown']
            if any(j in dying and j not in dead for j in targets):
                continue
            conflict = [('--failed-only', '--unstarted-only'), ('--failed-only', '--no-skipped'), ('--failed-first', '--unstarted-first')]
            bad = any(a in step['flags'] and b in step['flags'] for a, b in conflict)
            missing = [j for j in targets if j == 'unknown' or j in dead or case['steps'][j].get('store') != step.get('store')]
            if bad or missing:
                if o['code'] == 0 or any(o['done']):
                    return [Violation('error-ignored', '{}: {}, but the exit code is {} and {} tests ran'.format(
                        name, 'contradicting flags' if bad else 'there is no such session here', o['code'], sum(map(bool, o['done']))))]
                continue
            if any(not hist[j] for j in targets):
                # nothing is known of a session which never had tests: reporting that is as good as running nothing
                if any(o['done']) and not any(hist[j] for j in targets):
                    return [Violation('selection', '{}: tests ran though the session had none'.format(name))]
                if not o['loads']:
                    continue
            states = wanted(step['flags'], step['mode'])
            want = []
            for j in targets:
                mine = [(key, st) for key, st in hist[j] if st in states]
                for flag, st in (('--failed-first', 'failed'), ('--unstarted-first', 'planned')):
                    if flag in step['flags']:
                        mine = [x for x in mine if x[1] == st] + [x for x in mine if x[1] != st]
                want += mine
            wkeys = [key for key, _ in want for _ in range(step['each'])] * step['all']
            gkeys = [key for key, _ in hist[k]]
            if collections.Counter(wkeys) != collections.Counter(gkeys):
                a, b = collections.Counter(gkeys), collections.Counter(wkeys)
                return [Violation('selection', '{}: of {} tests to run, too many: {}, missing: {}; the sessions had {}; {}'.format(
                    name, len(wkeys), sorted((a - b).items())[:3], sorted((b - a).items())[:3], [h for j in targets for h in hist[j]][:12], o['console'][-300:]))]
            if step['mode'] == 'rerun' or any(f.endswith('-first') for f in step['flags']):
                if step['mode'] == 'rerun' and not step['flags']:
                    if gkeys != wkeys:
                        i = next(i for i, (x, y) in enumerate(zip(gkeys, wkeys)) if x != y)
                        return [Violation('order', '{}: ran {} where the session had run {} (position {})'.format(name, gkeys[i], wkeys[i], i))]
                if len(targets) == 1 and step['all'] == 1:
                    for flag, st in (('--failed-first', 'failed'), ('--unstarted-first', 'planned')):
                        if flag in step['flags']:
                            n = sum(s == st for _, s in want) * step['each']
                            a, b = collections.Counter(gkeys[:n]), collections.Counter(wkeys[:n])
                            if a != b:
                                return [Violation('first', '{}: the first {} tests are not the {} ones: {}'.format(name, n, st, sorted((a - b).items())[:3]))]
            # they run, unless the session was stopped
            acted = [d for ds in o['done'] for d in ds]
            if not o['hook'] and '-x' not in step['flags'] and not any(d in STOP for d in acted):
                not_run = [hist[k][n] for n in range(len(gkeys)) if hist[k][n][1] == 'planned']
                if not_run:
                    return [Violation('not-run', '{}: {} was loaded but not run'.format(name, not_run[:3]))]
        return []

    def counters(self, case, obs):
        c = collections.Counter(together=case.get('together', 0), locked='lock' in case, aged=obs['aged'])
        hist = self.history(case, obs)
        c['narrowed'] += sum(len(h) == 1 for h in hist[1:])
        for k, (step, o) in enumerate(zip(case['steps'], obs['steps'])):
            c['sessions'] += 1
            for _, st in hist[k]:
                c[st] += 1
            acted = [d for ds in o['done'] for d in ds]
            c['interrupted'] += any(d in ('kbd', 'term') for d in acted)
            c['stopped'] += '-x' in step['flags'] or 'fatal' in acted
            c['avoided'] += len(o['avoided'])
            c['hooked'] += bool(o['hook'])
            if step['mode'] != 'run':
                c['resumed' if step['mode'] == 'resume' else 'reran'] += len(hist[k])
                c['unknown'] += 'unknown' in step['target']
                c['several'] += len(step['target']) > 1
                c['first'] += any(f.endswith('-first') for f in step['flags'])
                c['parametrized'] += sum(bool(key[1]) for key, _ in hist[k])
                c['repeated'] += sum(n > 1 for n in collections.Counter(key for key, _ in hist[k]).values())
        return c

    def describe(self, case):
        return {'tree': {f['path']: [i['name'] for i in f['items']] for f in case['tree']['files']}, 'steps': case['steps']}

    def signature(self, case, obs):
        return hash(repr([(s['mode'], s['target'], s['flags'], h) for s, h in zip(case['steps'], self.history(case, obs))])) & 0xffffffffffff

    def shrink(self, case):
        if len(case['steps']) > 2 and 'together' not in case:
            for k in range(1, len(case['steps'])):
                rest = case['steps'][:k] + case['steps'][k + 1:]
                if all(j == 'unknown' or j != k for s in rest for j in s['target']):
                    yield dict(case, steps=[dict(s, target=[j if j == 'unknown' or j < k else j - 1 for j in s['target']]) for s in rest])
        for k, s in enumerate(case['steps']):
            def put(**kw):
                return dict(case, steps=case['steps'][:k] + [dict(s, **kw)] + case['steps'][k + 1:])
            for n in list(s['plan']):
                yield put(plan={a: b for a, b in s['plan'].items() if a != n})
            if s['plan']:
                yield put(plan={})
            for f in s['flags']:
                yield put(flags=[x for x in s['flags'] if x != f])
            if s['each'] > 1 or s['all'] > 1:
                yield put(each=1, all=1)
            if s['hooks']:
                yield put(hooks=[])
        yield from gentree.shrink_tree(case)
