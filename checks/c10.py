import collections
import os

from vp import enginep, engineb, gentree
from vp.core import Violation
from vp.tree import Ref

from checks.c09 import test_key

ODD = '''import slash
from vp import parprobe
def test_common():
    pass
if parprobe.ROLE in parprobe.PLAN['mismatch']:
    {}
else:
    {}
'''
ODDS = [('def test_odd(): pass', 'pass'), ('pass', 'def test_odd(): pass'), ('def test_odd1(): pass', 'def test_odd2(): pass'),
        ('@slash.parametrize("x", [1, 2])\n    def test_odd(x): pass', '@slash.parametrize("x", [1])\n    def test_odd(x): pass'),
        ('class TestA(slash.Test):\n        def test_odd(self): pass', 'class TestB(slash.Test):\n        def test_odd(self): pass'),
        ('class TestA(slash.Test):\n        def test_odd(self): pass', 'class TestA(slash.Test):\n        def test_even(self): pass')]

ONCE = ['boot', 'configure', 'call:connect', 'return:connect', 'rpc:keep_alive', 'loaded', 'call:validate_collection', 'return:validate_collection', 'before_session_start', 'session_start',
        'after_session_start', 'before_session_cleanup', 'call:disconnect', 'return:disconnect', 'session_end', 'after_session_end', 'app_quit']
PER_TEST = ['call:get_test', 'return:get_test', 'start', 'body', 'body', 'cleanups', 'end', 'call:finished_test', 'return:finished_test']
AFTER = ('return:disconnect', 'session_end', 'after_session_end', 'app_quit')


class CHECK(enginep.ParCheck):
    prop = 'C10'
    technique = 'runtime monitoring with fault injection: workers killed, stopped, terminated or failing at every point of the protocol; the parent\'s results, end and exit code vs. the merged event log'
    rule = 'generated projects run with 1-4 real worker processes of which some are lost (SIGKILL, SIGSTOP, SIGTERM, exit, exceptions, interrupts) at chosen requests, hooks and test phases, or see another collection; followed by resuming the session'
    required = ('lost', 'lost_running', 'lost_between', 'lost_before_tests', 'stopped_workers', 'refused', 'survivors', 'interrupted_results', 'not_run', 'kept_verdicts', 'aborted', 'not_lost',
                'parent_faults', 'several_lost', 'resumed', 'interrupted', 'interrupted_running', 'interrupted_kept', 'interrupted_noticed')
    assumptions = ('a worker whose every thread keeps the connection alive while a test never returns is not lost, just as a sequential run would never return',
                   'after a worker disconnected it is waited for: a worker hanging in its last hooks is not a lost worker',
                   'if no worker communicates at all for no_request_timeout, or a worker never connects, the session is aborted as a whole: it fails with a session error, and what was not reported by then has no result',
                   'runs in which a healthy worker was starved for longer than the communication timeout are not judged for what that worker ran')
    n_quick = 96
    n_thorough = 1200
    nproc = 20
    case_timeout = 260

    def gen(self, rng, i, tier):
        profile = dict(p_param=0.3, p_fxparam=0.1, p_dep=0.3, p_class=0.4, items=3, files=3, dirs=2, max_total=rng.choice([4, 8, 16]), max_unit=4, p_ba=0.2, p_req=0.08, p_noise=0,
                       p_gen=0, p_autouse=0.1, p_nofix=0.2, nasty=0.2)
        t = gentree.gen_tree(rng, **profile)
        n = rng.choice([1, 2, 2, 3, 3, 4])
        plan = {'seed': rng.randrange(1 << 30), 'p_act': rng.choice([0, 0.3, 0.5]), 'delays': {}, 'faults': [], 'mismatch': []}
        dens = rng.random()
        for what, span in (('boot', 0.2), ('loaded', 0.2), ('call', 0.02), ('return', 0.02), ('start', 0.03), ('body', 0.15), ('end', 0.03), ('distributed', 0.03), ('connected', 0.1)):
            if rng.random() < dens:
                plan['delays'][what] = [rng.choice([0.2, 0.5, 1]), span * rng.choice([0.3, 1, 2])]
        case = {'tree': t, 'workers': n, 'plan': plan, 'odd': None, 'comm': 4, 'request': 9, 'connect': 9.0 / n + 3, 'stop': rng.random() < 0.15}
        if rng.random() < 0.15:
            case['request'], case['comm'] = 4, 9
        kind = i % 16
        faults = plan['faults']
        if kind in (3, 11):
            case['odd'] = rng.randrange(len(ODDS))
            plan['mismatch'] = sorted({str(rng.randint(1, n)) for _ in range(rng.choice([1, 1, 2]))})
            if rng.random() < 0.2:
                plan['mismatch'] = ['parent']
        elif kind in (7, 15):
            # the run as a whole is interrupted
            point = rng.choice(ONCE) if rng.random() < 0.3 else rng.choice(PER_TEST)
            faults.append({'role': str(rng.randint(1, n)), 'point': point, 'what': rng.choice(['parent-int', 'parent-term']), 'nth': None if point in ONCE else rng.choice([1, 1, 2, 2, 3])})
            plan['delays'].setdefault('body', [0.5, 0.2])
            case['interrupt'] = True
        elif kind in (5, 13):
            where = rng.choice(['distributed', 'distributed', 'connected', 'before_worker'])
            what = rng.choice(['worker-kill', 'worker-stop', 'raise'] if where != 'before_worker' else ['raise'])
            faults.append({'role': 'parent', 'point': where, 'nth': rng.randint(1, n if where != 'distributed' else 5), 'what': what})
        else:
            for _ in range(rng.choice([1, 1, 1, 2, 3] if n > 1 else [1])):
                point = rng.choice(ONCE) if rng.random() < (0.7 if kind in (1, 9) else 0.35) else rng.choice(PER_TEST)
                what = rng.choice(['kill', 'kill', 'kill', 'stop', 'stop', 'exit', 'exit', 'term', 'raise', 'kbd', 'sysexit'])
                if what == 'stop' and point in AFTER:
                    what = 'kill'
                if what in ('kbd', 'sysexit', 'raise') and point == 'rpc:keep_alive':
                    what = 'kill'
                f = {'role': str(rng.randint(1, n)), 'point': point, 'what': what, 'nth': None if point in ONCE else rng.choice([1, 1, 1, 2, 2, 3, 4])}
                if what in ('exit', 'sysexit'):
                    f['code'] = rng.choice([0, 0, 1, 3])
                faults.append(f)
        return case

    def run(self, case):
        root = os.path.realpath(os.getcwd())
        enginep.write(case, root)
        if case['odd'] is not None:
            with open(os.path.join(root, 'zz_odd.py'), 'w', encoding='utf-8') as f:
                f.write(ODD.format(*ODDS[case['odd']]))
        ref = Ref(case['tree'])
        plan = dict(case['plan'], fx_keys=[k for k, fx in ref.fx.items() if fx['scope'] == 'test'])
        still = dict(plan, delays={}, faults=[], mismatch=['seq'] if 'parent' in plan['mismatch'] else [])
        out = {'seq': enginep.Run(still, ['.'], root, 'seq')()}
        par = ['.', '--parallel', str(case['workers'])] + (['-x'] if case['stop'] else [])
        for name, value in (('worker_connect_timeout', max(1, int(case['connect']))), ('no_request_timeout', case['request']), ('communication_timeout_secs', case['comm'])):
            par += ['-o', 'parallel.{}={}'.format(name, value)]
        for _ in range(2):
            out['par'] = enginep.Run(plan, par, root, 'parent', bound=100, forked=case['workers'])()
            if out['par']['outcome'] != 'hung':
                break
        if out['par']['outcome'] == 'ok' and out['par']['loads'] and out['par']['sid'] and out['par']['code']:
            out['resumed'] = enginep.Run(dict(still, p_act=0, mismatch=['seq'] if 'parent' in plan['mismatch'] else []), [out['par']['sid']], root, 'seq', resume='resume')()
        return out

    def history(self, case, par):
        """What the log says: who was lost, and what was handed out, executed and reported"""
        workers = [str(w) for w in range(1, case['workers'] + 1)]
        h = {'workers': workers, 'left': set(), 'faulted': set(), 'refused': set(), 'connected': set(), 'handed': {}, 'reported': {}, 'reporting': {}, 'parent': []}
        ids = {t['id']: k for k, t in enumerate(par['tests'])}
        current = {}
        last = None
        for e in par['log']:
            w = e['w']
            if e['k'] in ('connected', 'distributed'):
                last = e.get('sid', e.get('to')).rsplit('_', 1)[1]
            if e['k'] == 'fault':
                if w == 'parent':
                    h['parent'].append(e)
                    if last is not None:
                        h['faulted'].add(last)      # its request fails
                else:
                    h['faulted'].add(w)
            elif e['k'] == 'strike':
                h['faulted'].add(e['worker'])
            elif e['k'] == 'connected':
                h['connected'].add(e['sid'].rsplit('_', 1)[1])
            elif e['k'] == 'return' and e['m'] == 'disconnect':
                h['left'].add(w)
            elif e['k'] == 'return' and e['m'] == 'validate_collection' and not e['r']:
                h['refused'].add(w)
            elif e['k'] == 'distributed':
                k = ids.get(e['id'])
                h['handed'].setdefault(k, []).append(e['to'].rsplit('_', 1)[1])
                current[e['to'].rsplit('_', 1)[1]] = k
            elif e['k'] == 'call' and e['m'] == 'finished_test':
                h['reporting'][current.get(w)] = w
            elif e['k'] == 'return' and e['m'] == 'finished_test':
                h['reported'][current.get(w)] = w
        h['lost'] = (set(workers) - h['left']) | h['refused']
        h['starved'] = h['lost'] - h['faulted'] - h['refused']
        # was a worker that did nothing wrong silent for long before it was killed?
        seen, pids, h['silent'] = {}, {}, {}
        for e in par['log']:
            if e['k'] == 'kill':
                w = pids.get(e['target'])
                if w in seen and w not in h['silent']:
                    h['silent'][w] = e['t'] - seen[w][-1]
            elif e['w'] in workers:
                pids[e['pid']] = e['w']
                seen.setdefault(e['w'], []).append(e['t'])
        for w, times in seen.items():
            gaps = [b - a for a, b in zip(times, times[1:])]
            h['silent'][w] = max([h['silent'].get(w, 0)] + gaps)
        return h

    def judge(self, case, obs):
        seq, par = obs['seq'], obs['par']
        if seq['outcome'] != 'ok':
            raise RuntimeError('the reference run: {} {}'.format(seq['outcome'], seq.get('value')))
        faults = ', '.join('{} of {} at {} {}'.format(f['what'], f['role'], f['point'], f.get('nth') or '') for f in case['plan']['faults']) or 'another collection in {}'.format(case['plan']['mismatch'])
        name = '{} workers, {}'.format(case['workers'], faults)
        if par['outcome'] == 'crash':
            raise RuntimeError(par['value'])
        if par['outcome'] != 'ok':
            return [Violation('no-termination', '{}: the run {} after {} s; last events {}'.format(name, par['outcome'], par['seconds'], enginep.brief(par['log'][-6:])))]
        out = []
        if par['left']:
            out.append(Violation('worker-left', '{}: {} worker processes were still there after the run ended ({})'.format(name, par['left'], par['left_states'])))
        if par['escaped'] is not None:
            return out + [Violation('escaped', '{}: {}'.format(name, par['escaped']))]
        if not seq['tests']:
            if par['code'] == 0:
                out.append(Violation('exit-code', '{}: nothing was loaded, yet the exit code is 0'.format(name)))
            return out
        if [test_key(t) for t in seq['tests']] != [test_key(t) for t in par['tests']]:
            return out + [Violation('collection', '{}: the parent collected {}, a sequential run {}'.format(name, [t['address'] for t in par['tests']], [t['address'] for t in seq['tests']]))]
        h = self.history(case, par)
        if any(e['k'] == 'interrupt' for e in par['log']):
            return out + (list(self.interrupted(case, seq, par, name)) or list(self.resumed(obs, par['tests'], name)))
        bad = bool(h['lost'])
        tests = par['tests']
        # at most once
        ran = collections.defaultdict(list)
        for e in par['log']:
            if e['k'] in ('start', 'body') and isinstance(e['i'], int):
                ran[e['k'], par['order'][e['i']]].append(e['w'])
        for (kind, k), ws in ran.items():
            if len(ws) > 1:
                return out + [Violation('executed-twice', '{}: {} was executed by workers {} ({} events)'.format(name, tests[k]['address'], ws, kind))]
            if ws[0] in h['refused']:
                return out + [Violation('refused-ran', '{}: worker {} was refused and ran {}'.format(name, ws[0], tests[k]['address']))]
            if h['handed'].get(k) != ws:
                return out + [Violation('wrong-worker', '{}: {} was handed out to {} and ran on {}'.format(name, tests[k]['address'], h['handed'].get(k), ws))]
        for k, ws in h['handed'].items():
            if k is None or len(ws) > 1:
                return out + [Violation('handed-twice', '{}: {} was handed out to {}'.format(name, tests[k]['address'] if k is not None else '?', ws))]
        for w in set(case['plan']['mismatch']) & set(h['workers']):
            if any(e['k'] == 'start' and e['w'] == w for e in par['log']):
                return out + [Violation('refused-ran', '{}: worker {} has another collection and ran tests'.format(name, w))]
        aborted = self.aborted(par)
        if bad and par['code'] == 0:
            out.append(Violation('exit-code', '{}: worker(s) {} were lost and the exit code is 0'.format(name, sorted(h['lost']))))
        if bad and not aborted and par['totals']['is_success']:
            out.append(Violation('success', '{}: worker(s) {} were lost and the session is successful'.format(name, sorted(h['lost']))))
        if aborted and not bad and not h['parent'] and not self.hook_faults(case):
            out.append(Violation('aborted', '{}: no worker was lost, yet the session failed: {}'.format(name, aborted)))
        if aborted and par['code'] == 0:
            out.append(Violation('exit-code', '{}: the session failed ({}) and the exit code is 0'.format(name, aborted)))
        timeout = aborted and (case['request'] < case['comm'] or set(h['workers']) - h['connected'])
        if aborted and not timeout and not h['parent'] and not self.hook_faults(case) and not h['starved']:
            out.append(Violation('aborted', '{}: all workers connected and some are lost, but the session failed as a whole: {}'.format(name, aborted)))
        for w in sorted(h['starved']):
            if not aborted and w in h['connected'] and h['silent'].get(w, 0) < 0.5 * case['comm']:
                out.append(Violation('healthy-lost', '{}: worker {} was lost although nothing happened to it and it was never silent for more than {:.2f} s (timeout {})'.format(
                    name, w, h['silent'].get(w, 0), case['comm'])))
        if out:
            return out
        count = collections.Counter()
        for k, (a, b) in enumerate(zip(seq['tests'], tests)):
            fa, fb = a['full'], b['full']
            w = h['handed'].get(k, [None])[0]
            if fb is None:
                if aborted and k not in h['reported']:
                    count['none'] += 1
                    continue
                return out + [Violation('result-missing', '{}: {} has no result (handed out to: {})'.format(name, b['address'], w))]
            if w is None:
                if not fb['not_run'] or fb['started'] or fb['success'] or fb['skips']:
                    return out + [Violation('unrun', '{}: {} was never handed out and its result says {}'.format(name, b['address'], fb))]
                count['not_run'] += 1
                continue
            same = all(fa[f] == fb[f] for f in ('started', 'finished', 'success', 'interrupted', 'not_run', 'errors', 'failures', 'skips', 'details', 'facts', 'data'))
            gone = (fb['interrupted'] or fb['errors'] or fb['failures']) and not fb['success']
            if k in h['reported']:
                ok = same
            elif w in h['lost'] or w in h['faulted']:
                ok = gone or (k in h['reporting'] and same)
            else:
                ok = same
            if not ok and w in h['faulted'] and not same and gone and self.hook_faults(case):
                ok = True       # what was injected is an error of the test
            if not ok and not (w in h['starved'] and gone):
                return out + [Violation('account', '{}: {} was handed out to worker {} ({}{}); its result is {}, sequentially {}'.format(
                    name, b['address'], w, 'lost' if w in h['lost'] else 'not lost', ', reported' if k in h['reported'] else '', fb, fa))]
            count['kept' if same else 'gone'] += 1
        t = par['totals']
        if not aborted and t['results'] != len(tests):
            out.append(Violation('totals', '{}: {} results for {} tests'.format(name, t['results'], len(tests))))
        if not bad and not aborted and not case['stop'] and not self.hook_faults(case) and seq['code'] != par['code']:
            out.append(Violation('exit-code', '{}: no worker was lost; exit code {}, sequentially {}'.format(name, par['code'], seq['code'])))
        if not out:
            out += list(self.resumed(obs, tests, name))
        return out

    @staticmethod
    def resumed(obs, tests, name):
        res = obs.get('resumed')
        if res is not None:
            if res['outcome'] != 'ok':
                raise RuntimeError(res['value'])
            want = collections.Counter(test_key(t)[:2] for t in tests if t['full'] is None or not t['full']['success'])
            got = collections.Counter(test_key(t)[:2] for t in res['tests'])
            if want != got:
                yield Violation('resume', '{}: resuming runs {}; these did not succeed: {}'.format(name, sorted(got.items()), sorted(want.items())))

    def interrupted(self, case, seq, par, name):
        """The parent got a signal"""
        if par['code'] == 0:
            yield Violation('interrupt-code', '{}: the run was interrupted and the exit code is 0'.format(name))
        h = self.history(case, par)
        tests = par['tests']
        mine = [e for e in par['log'] if e['w'] == 'parent']
        kinds = [e['k'] for e in mine]
        t = par['totals']
        noticed = 'kill' in kinds
        if noticed or any(x['full'] is None for x in tests):
            if not t['interrupted'] or t['is_success']:
                yield Violation('interrupt-flag', '{}: the run was interrupted and the session is {}interrupted, {}successful'.format(name, '' if t['interrupted'] else 'not ', '' if t['is_success'] else 'not '))
            if par['complete']:
                yield Violation('interrupt-complete', '{}: the run was interrupted and the session is complete'.format(name))
            if kinds.count('session_interrupt') != 1:
                yield Violation('interrupt-hook', '{}: session_interrupt was fired {} times'.format(name, kinds.count('session_interrupt')))
        for k in ('session_end', 'after_session_end', 'app_quit'):
            if kinds.count(k) != 1:
                yield Violation('interrupt-hook', '{}: {} was fired {} times'.format(name, k, kinds.count(k)))
        if 'Session ended.' not in par['console']:
            yield Violation('interrupt-report', '{}: no final report on the console'.format(name))
        if noticed and 'distributed' in kinds[kinds.index('kill'):]:
            yield Violation('interrupt-handout', '{}: a test was handed out after the interruption'.format(name))
        for k, ws in h['handed'].items():
            if k is None or len(ws) > 1:
                yield Violation('handed-twice', '{}: {} was handed out to {}'.format(name, tests[k]['address'] if k is not None else '?', ws))
        started = collections.Counter(e['i'] for e in par['log'] if e['k'] == 'start')
        if any(n > 1 for n in started.values()):
            yield Violation('executed-twice', '{}: executions by number: {}'.format(name, dict(started)))
        # what a worker was told to end while it ran a test
        told = {e['target']: e['t'] for e in mine if e['k'] == 'kill'}
        pids = {e['w']: e['pid'] for e in par['log'] if e['k'] == 'boot'}
        last_report = {e['w']: e['t'] for e in par['log'] if e['k'] == 'call' and e['m'] == 'finished_test'}
        for k, (a, b) in enumerate(zip(seq['tests'], tests)):
            fa, fb = a['full'], b['full']
            same = fb is not None and all(fa[f] == fb[f] for f in ('started', 'finished', 'success', 'interrupted', 'not_run', 'errors', 'failures', 'skips', 'details', 'facts', 'data'))
            if k in h['reported']:
                w = h['reported'][k]
                struck = fb is not None and fb['interrupted'] and not fb['success'] and told.get(pids.get(w), 1e99) < last_report[w]    # interrupted, and then reported
                if not same and not struck:
                    yield Violation('interrupt-result', '{}: {} was reported by worker {} before the interruption; its result is {}, sequentially {}'.format(name, b['address'], h['reported'][k], fb, fa))
                    return
            elif fb is not None and not (k in h['reporting'] and same) and (fb['success'] or not (fb['interrupted'] or fb['not_run'] or fb['errors'] or fb['failures'])):
                yield Violation('interrupt-result', '{}: {} was not reported by a worker and its result is {}'.format(name, b['address'], fb))
                return
        inside = {}
        for e in par['log']:
            if e['k'] == 'start':
                inside[e['w']] = e
            elif e['k'] == 'end':
                inside.pop(e['w'], None)
        for w, e in inside.items():
            yield Violation('interrupt-test-end', '{}: worker {} ended without ending the test it ran (number {})'.format(name, w, e['i']))

    @staticmethod
    def aborted(par):
        lines = [line for line in par['console'].splitlines() if line.startswith('ERROR: ')]
        missing = [t['address'] for t in par['tests'] if t['full'] is None]
        return lines + par['session_errors'] + (['no results of {}'.format(missing)] if missing else [])

    @staticmethod
    def hook_faults(case):
        """Injected exceptions which are errors of a test or of a session, not losses"""
        return any(f['what'] in ('raise', 'kbd', 'sysexit', 'term') for f in case['plan']['faults'])

    def counters(self, case, obs):
        par, seq = obs['par'], obs['seq']
        c = collections.Counter()
        if par['outcome'] != 'ok' or seq['outcome'] != 'ok' or not par['tests']:
            return c
        ints = [e for e in par['log'] if e['k'] == 'interrupt']
        if ints:
            c['interrupted'] = 1
            c['interrupted_running'] = sum(e['k'] == 'test_interrupt' for e in par['log'])
            c['interrupted_kept'] = len(self.history(case, par)['reported'])
            c['interrupted_noticed'] = any(e['k'] == 'kill' for e in par['log']) * 1
            return c
        h = self.history(case, par)
        c['events'] = len(par['log'])
        c['tests'] = len(par['tests'])
        c['lost'] = len(h['lost'])
        c['several_lost'] = (len(h['lost']) > 1) * 1
        c['survivors'] = len(set(h['workers']) - h['lost']) if h['lost'] else 0
        c['refused'] = len(h['refused'])
        c['starved'] = 0 if self.aborted(par) else len(h['starved'])
        c['not_lost'] = (not h['lost']) * 1
        c['parent_faults'] = len(h['parent'])
        c['aborted'] = bool(self.aborted(par)) * 1
        c['resumed'] = ('resumed' in obs) * 1
        last = {}
        for e in par['log']:
            if e['w'] in h['lost'] and e['k'] not in ('fault',):
                last[e['w']] = e
            if e['k'] == 'fault' and e['what'] == 'stop':
                c['stopped_workers'] += 1
        running = set()
        for w in h['lost']:
            mine = [k for k, ws in h['handed'].items() if ws == [w]]
            if any(k not in h['reported'] for k in mine):
                running.add(w)
                c['lost_running'] += 1
            elif mine:
                c['lost_between'] += 1
            else:
                c['lost_before_tests'] += 1
        for t in par['tests']:
            if t['full']:
                c['interrupted_results'] += t['full']['interrupted']
                c['not_run'] += t['full']['not_run']
        if h['lost']:
            c['kept_verdicts'] = len(h['reported'])
        return c

    def signature(self, case, obs):
        par = obs['par']
        if par['outcome'] != 'ok':
            return None
        h = self.history(case, par)
        points = sorted((e['point'], e['nth'], e['what']) for e in par['log'] if e['k'] == 'fault')
        return hash(repr((points, sorted(h['lost']), [sorted(x) for x in (h['refused'], h['connected'])], len(h['reported']), len(h['handed']), bool(self.aborted(par))))) & 0xffffffffffff

    def shrink(self, case):
        for k in list(case['plan']['delays']):
            yield dict(case, plan=dict(case['plan'], delays={a: b for a, b in case['plan']['delays'].items() if a != k}))
        for k in range(len(case['plan']['faults'])):
            yield dict(case, plan=dict(case['plan'], faults=case['plan']['faults'][:k] + case['plan']['faults'][k + 1:]))
        if case['stop']:
            yield dict(case, stop=False)
        for sub in gentree.shrink_tree({'tree': case['tree']}):
            yield dict(case, tree=sub['tree'])

    def describe(self, case):
        return dict(engineb.TreeCheck.describe(self, case))
