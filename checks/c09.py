import collections
import os

from vp import enginep, engineb, gentree
from vp.core import Violation
from vp.tree import Ref

from checks.c02 import random_args, resolve_args


def test_key(t):
    return (t['path'], t['address'], tuple(sorted(t['ids'].items())))


class CHECK(enginep.ParCheck):
    prop = 'C09'
    technique = 'runtime monitoring: event logs of parent and workers (every request, hand-out, start, body and end) and the parent\'s results vs. a monitored sequential run of the same project'
    rule = 'generated projects run sequentially and with 1-6 real worker processes under random delays at every request and hook, with planned verdicts, results of all kinds, forced and excluded tests, sort keys, repetition, stop-on-error and resumed sessions'
    required = ('parallel', 'tests', 'results_compared', 'failed', 'skipped', 'warnings', 'details', 'forced', 'excluded', 'sorted', 'stopped', 'fatal_failures', 'repeated', 'resumed', 'late', 'interleaved', 'overlaps', 'resumed_after')
    assumptions = ('tests do not depend on the process they run in: faults are planned in test-scope code only, as module and session scopes are opened once per worker',
                   'a test excluded from all workers, and a test forced onto a worker that already left, cannot run; neither is generated')
    n_quick = 120
    n_thorough = 1500
    case_timeout = 200

    def gen(self, rng, i, tier):
        profile = dict(p_param=0.4, p_fxparam=0.2, p_dep=0.4, p_class=0.45, items=4, files=4, dirs=3, p_repeat=0.1, max_total=rng.choice([8, 20, 40]), max_unit=6, p_ba=0.3, p_req=0.1,
                       p_noise=0.1, p_gen=0.06, p_autouse=0.12, p_nofix=0.3, nasty=0.4, p_base=0.4)
        t = gentree.gen_tree(rng, **profile)
        n = rng.choice([1, 2, 2, 3, 3, 4, 4, 6])
        plan = {'seed': rng.randrange(1 << 30), 'p_act': rng.choice([0, 0.3, 0.6, 0.9]), 'delays': {}}
        dens = rng.random()
        for what, span in (('boot', 0.3), ('configure', 0.1), ('loaded', 0.3), ('call', 0.02), ('return', 0.02), ('start', 0.02), ('body', 0.05), ('end', 0.02), ('cleanups', 0.02),
                           ('distributed', 0.02), ('connected', 0.1), ('session_start', 0.2), ('session_end', 0.1)):
            if rng.random() < dens:
                plan['delays'][what] = [rng.choice([0.2, 0.5, 1]), span * rng.choice([0.3, 1, 2])]
        case = {'tree': t, 'args': random_args(rng, Ref(t)) if rng.random() < 0.4 else ['.'], 'workers': n, 'plan': plan, 'flags': [], 'stop': False, 'mode': None, 'real': i % 20 == 3}
        if rng.random() < 0.25:
            plan['sort'] = rng.choice(['all', 'some'])
        if rng.random() < 0.2:
            case['flags'] += [rng.choice(['--repeat-each', '--repeat-all']), str(rng.choice([2, 3]))]
        if rng.random() < 0.4 and n > 1:
            pairs = {}
            for _ in range(rng.choice([1, 2, 5, 12])):
                pairs[rng.randrange(25)] = str(rng.randint(1, n))
            which = rng.random()
            if which < 0.7:
                plan['exclude'] = sorted([w, k] for k, w in pairs.items())
            if which > 0.4:
                taken = set(pairs) if which < 0.7 else set()
                plan['force'] = sorted([str(rng.randint(1, n)), k] for k in {rng.randrange(25) for _ in range(rng.choice([1, 2, 5, 12]))} - taken)
        r = rng.random()
        if r < 0.2:
            case['stop'] = True
        elif r < 0.35:
            case['mode'] = rng.choice(['resume', 'rerun'])
        elif r < 0.5:
            plan['late'] = rng.choice([0.1, 0.4, 0.8])
            plan['p_act'] = rng.choice([0, 0, 0.2])
            case['late_fx'] = rng.random() < 0.4
        case['after'] = i % 5 == 2
        if i % 5 == 4:
            # errors marked fatal stop the run as well
            plan['fatal'] = rng.choice([0.15, 0.4])
            plan['p_act'] = rng.choice([0.3, 0.6])
            plan.pop('late', None)
            case.update(stop=rng.random() < 0.2, mode=None, after=False)
        return case

    def run(self, case):
        root = os.path.realpath(os.getcwd())
        enginep.write(case, root)
        ref = Ref(case['tree'])
        plan = dict(case['plan'], fx_keys=[k for k, fx in ref.fx.items() if fx['scope'] == 'test'])
        if case.get('late_fx'):
            plan['late_fx'] = [k for k, fx in ref.fx.items() if fx['scope'] != 'test']
        argv = resolve_args(case['args'], root) + case['flags']
        out = {}
        still = dict(plan, delays={}, force=[], exclude=[], unfatal=True)
        mode = case['mode']
        if mode:
            # what is resumed is the same session in both
            out['first'] = enginep.Run(still, argv + ['-x'], root, 'seq')()
            argv = [out['first'].get('sid') or 'missing']
            plan['seed'] = still['seed'] = plan['seed'] + 1
        out['seq'] = enginep.Run(still, argv, root, 'seq', resume=mode)()
        par = ['--parallel', str(case['workers']), '-o', 'parallel.worker_connect_timeout=60', '-o', 'parallel.no_request_timeout=60']
        out['par'] = enginep.Run(plan, argv + (['-x'] if case['stop'] else []) + par, root, 'parent', resume=mode, bound=150, forked=0 if case['real'] else case['workers'])()
        if case.get('after') and out['par']['outcome'] == 'ok' and out['par'].get('sid') and out['par']['tests']:
            out['after'] = enginep.Run(dict(still, p_act=0), [out['par']['sid']], root, 'seq', resume='resume')()
        return out

    def judge(self, case, obs):
        seq, par = obs['seq'], obs['par']
        if seq['outcome'] != 'ok':
            raise RuntimeError('the reference run: {} {}'.format(seq['outcome'], seq.get('value')))
        name = '{} workers'.format(case['workers'])
        if par['outcome'] == 'crash':
            raise RuntimeError(par['value'])
        if par['outcome'] != 'ok':
            return [Violation('no-termination', '{}: the run {} after {} s; last events {}'.format(name, par['outcome'], par['seconds'], enginep.brief(par['log'][-6:])))]
        out = []
        if par['left']:
            out.append(Violation('worker-left', '{}: {} worker processes were still there after the run ended ({})'.format(name, par['left'], par['left_states'])))
        if par['escaped'] is not None:
            return out + [Violation('escaped', par['escaped'])]
        if not seq['loads'] or not seq['tests']:
            if (par['code'] == 0) != (seq['code'] == 0) or any(e['k'] == 'start' for e in par['log']):
                out.append(Violation('bad-load', '{}: the sequential run loaded nothing (exit code {}), the parallel one gave {}'.format(name, seq['code'], par['code'])))
            return out
        if [test_key(t) for t in seq['tests']] != [test_key(t) for t in par['tests']] or seq['order'] != par['order']:
            return out + [Violation('collection', '{}: the parent collected {}, a sequential run {}'.format(name, [t['address'] for t in par['tests']], [t['address'] for t in seq['tests']]))]
        log = par['log']
        workers = [str(w) for w in range(1, case['workers'] + 1)]
        for v in self.handouts(case, par, workers):
            out.append(v)
        if any(v.mechanism != 'forced-after-reorder' for v in out):
            return out
        if obs.get('after'):
            out += list(self.after(par, obs['after']))
        if case['plan'].get('late') is not None:
            return out + list(self.late(case, seq, par))
        if case['stop'] or case['plan'].get('fatal'):
            return out + list(self.stopped(case, seq, par, workers))
        ran = collections.Counter(e['i'] for e in log if e['k'] == 'start')
        position = {p: k for k, p in enumerate(par['order'])}
        for k, (a, b) in enumerate(zip(seq['tests'], par['tests'])):
            fa, fb = a['full'], b['full']
            if fb is None:
                return out + [Violation('result-missing', '{}: {} has no result'.format(name, b['address']))]
            n = ran[position[k]]
            if n != (1 if fa['started'] else 0):
                return out + [Violation('executions', '{}: {} was started {} times by the workers; sequentially it {}'.format(
                    name, b['address'], n, 'runs once' if fa['started'] else 'is avoided'))]
            for field in ('started', 'finished', 'success', 'interrupted', 'not_run', 'errors', 'failures', 'skips', 'details', 'facts', 'data'):
                if fa[field] != fb[field]:
                    return out + [Violation('result-' + field, '{}: {}: {} is {!r} in the parent, {!r} in a sequential run'.format(name, b['address'], field, fb[field], fa[field]))]
        if seq['totals'] != par['totals']:
            out.append(Violation('totals', '{}: totals {}, sequentially {}'.format(name, par['totals'], seq['totals'])))
        if seq['code'] != par['code']:
            out.append(Violation('exit-code', '{}: exit code {}, sequentially {}'.format(name, par['code'], seq['code'])))
        if seq['complete'] != par['complete']:
            out.append(Violation('complete', '{}: the session is {}complete, sequentially it is {}'.format(name, '' if par['complete'] else 'in', seq['complete'])))
        if par['session_errors'] or par['global_errors']:
            out.append(Violation('session-error', '{}: session errors {}'.format(name, par['session_errors'] or par['global_errors'])))
        wa, wb = ([w for w in o['warnings'] if w[0].startswith('w:')] for o in (seq, par))
        if wa != wb:
            ca, cb = (collections.Counter(map(tuple, w)) for w in (wa, wb))
            out.append(Violation('warnings', '{}: warnings only in the parallel run: {}; only in the sequential run: {}'.format(name, list((cb - ca).items())[:4], list((ca - cb).items())[:4])))
        return out

    def handouts(self, case, par, workers):
        """Rules on the log of events which hold for every parallel run without a lost worker"""
        name = '{} workers'.format(case['workers'])
        log = par['log']
        ids = {t['id']: k for k, t in enumerate(par['tests'])}
        position = {p: k for k, p in enumerate(par['order'])}
        idents = {}
        handed = {}
        for e in log:
            if e['k'] == 'distributed':
                if e['id'] not in ids:
                    yield Violation('handed-unknown', '{}: test_distributed told of {}, which is no collected test'.format(name, e['id']))
                    return
                k = ids[e['id']]
                w = e['to'].rsplit('_', 1)[1]
                if k in handed:
                    yield Violation('handed-twice', '{}: {} was handed out to worker {} and again to worker {}'.format(name, par['tests'][k]['address'], handed[k], w))
                    return
                handed[k] = w
            elif e['k'] in ('start', 'body'):
                if e['w'] not in workers:
                    yield Violation('executions', '{}: a test was executed by {}'.format(name, e['w']))
                    return
                k = par['order'][e['i']] if isinstance(e['i'], int) and e['i'] < len(par['order']) else None
                if k is None:
                    yield Violation('worker-index', '{}: worker {} ran a test as number {}'.format(name, e['w'], e['i']))
                    return
                t = par['tests'][k]
                if e['id'][0] != os.path.basename(t['path']) or e['id'][2] != t['address_in_file'] or e['id'][3] != sorted([a, b] for a, b in t['ids'].items()):
                    yield Violation('wrong-test', '{}: worker {} was given {} {} and ran {}'.format(name, e['w'], t['address'], t['ids'], e['id']))
                    return
                if handed.get(k) != e['w']:
                    yield Violation('wrong-worker', '{}: {} was handed out to worker {} and ran on {}'.format(name, t['address'], handed.get(k), e['w']))
                    return
                key = (e['k'], k)
                if key in idents:
                    yield Violation('executions', '{}: {} was executed by worker {} and again by {}'.format(name, t['address'], idents[key], e['w']))
                    return
                idents[key] = e['w']
        found = self.assignment(case, par, handed, lambda k: k)
        if found:
            # known: the numbers of tests are taken before they are put in order, and used after
            known = case['plan'].get('sort') and not self.assignment(case, par, handed, lambda k: position[k])
            yield Violation('forced-after-reorder' if known else found[0], '{}: {}'.format(name, found[1]))
            if not known:
                return
        conn = [e['sid'] for e in log if e['k'] == 'connected']
        if sorted(s.rsplit('_', 1)[1] for s in conn) != workers:
            yield Violation('connected', '{}: worker_connected told of {}'.format(name, conn))
            return
        for w in workers:
            if not any(e['k'] == 'session_end' and e['w'] == w for e in log):
                yield Violation('worker-unfinished', '{}: worker {} never ended its session'.format(name, w))
                return

    @staticmethod
    def assignment(case, par, handed, number):
        for k, w in handed.items():
            for ww, kk in case['plan'].get('force', ()):
                if kk == number(k) and ww != w:
                    return 'forced', '{} was forced onto worker {} and handed out to {}'.format(par['tests'][k]['address'], ww, w)
            if [w, number(k)] in case['plan'].get('exclude', ()):
                return 'excluded', '{} was excluded from worker {} and handed out to it'.format(par['tests'][k]['address'], w)
        return None

    @staticmethod
    def after(par, after):
        """Resuming a parallel session runs what did not succeed in it"""
        if after['outcome'] != 'ok':
            raise RuntimeError('resuming the parallel run: {} {}'.format(after['outcome'], after.get('value')))
        want = collections.Counter(test_key(t) for t in par['tests'] if not t['full'] or not t['full']['success'] or t['full']['skips'])
        got = collections.Counter(test_key(t) for t in after['tests'])
        if want != got:
            yield Violation('resume-after', 'resuming a parallel session: missing {}, too many {}'.format(list((want - got).items())[:3], list((got - want).items())[:3]))

    def late(self, case, seq, par):
        """What fails when module and session scopes are left may be told of another test or of the session, but it is told"""
        name = '{} workers'.format(case['workers'])
        if (seq['code'] == 0) != (par['code'] == 0) or seq['totals']['is_success'] != par['totals']['is_success']:
            yield Violation('late-errors', '{}: with errors in module and session scopes: exit code {} (success: {}), sequentially {} (success: {})'.format(
                name, par['code'], par['totals']['is_success'], seq['code'], seq['totals']['is_success']))
        ran = collections.Counter(e['i'] for e in par['log'] if e['k'] == 'start')
        position = {p: k for k, p in enumerate(par['order'])}
        for k, (a, b) in enumerate(zip(seq['tests'], par['tests'])):
            if b['full'] is None or ran[position[k]] != (1 if a['full']['started'] else 0):
                yield Violation('executions', '{}: {} was started {} times (result: {})'.format(name, b['address'], ran[position[k]], b['full']))
                return

    def stopped(self, case, seq, par, workers):
        """Stop-on-error: which tests run depends on the interleaving; what is done with each does not"""
        name = '{} workers, {}'.format(case['workers'], 'stop-on-error' if case['stop'] else 'fatal errors')
        fatal = case['plan'].get('fatal')

        def is_fatal(e):
            return 'fatal planned' in e['message']
        log = par['log']
        ids = {t['id']: k for k, t in enumerate(par['tests'])}
        handed = {}
        stop = None     # the worker whose report stopped the run
        bad = {k for k, t in enumerate(seq['tests']) if any(case['stop'] or is_fatal(e) for e in t['full']['errors'] + t['full']['failures'])}
        if fatal:
            # sequentially, the same errors were not marked
            for t in seq['tests']:
                for e in t['full']['errors'] + t['full']['failures']:
                    e['fatal'] = is_fatal(e)
        current = {}
        done_by = {}
        for e in log:
            if e['k'] == 'distributed':
                w = e['to'].rsplit('_', 1)[1]
                if stop is not None:
                    yield Violation('stop', '{}: {} was handed out to worker {} although worker {} had reported a test which failed'.format(name, par['tests'][ids[e['id']]]['address'], w, stop))
                    return
                handed[ids[e['id']]] = w
                current[w] = ids[e['id']]
            elif e['k'] == 'return' and e['m'] == 'finished_test':
                done_by[e['w']] = current.pop(e['w'], None)
                if done_by[e['w']] in bad:
                    stop = e['w']
        for k, (a, b) in enumerate(zip(seq['tests'], par['tests'])):
            fa, fb = a['full'], b['full']
            if fb is None:
                yield Violation('result-missing', '{}: {} has no result'.format(name, b['address']))
                return
            if k in handed:
                for field in ('started', 'finished', 'success', 'interrupted', 'not_run', 'errors', 'failures', 'skips', 'details', 'facts', 'data'):
                    if fa[field] != fb[field]:
                        yield Violation('result-' + field, '{}: {}: {} is {!r} in the parent, {!r} in a sequential run'.format(name, b['address'], field, fb[field], fa[field]))
                        return
            elif not fb['not_run'] or fb['started'] or fb['skips']:
                yield Violation('stop-unrun', '{}: {} was never handed out and its result says {}'.format(name, b['address'], fb))
                return
        if bad & set(handed):
            if par['code'] == 0:
                yield Violation('exit-code', '{}: exit code 0 although tests failed'.format(name))
        elif set(handed) != set(range(len(par['tests']))) or par['code'] != seq['code']:
            yield Violation('stop-early', '{}: no test stopped the run, yet {} of {} were handed out (exit code {})'.format(name, len(handed), len(par['tests']), par['code']))

    def counters(self, case, obs):
        par, seq = obs['par'], obs['seq']
        c = collections.Counter()
        if par['outcome'] != 'ok' or seq['outcome'] != 'ok' or not par['tests']:
            return c
        log = par['log']
        c['parallel'] = 1
        c['workers'] = case['workers']
        c['events'] = len(log)
        c['requests'] = sum(e['k'] == 'call' for e in log)
        c['tests'] = len(par['tests'])
        c['started'] = sum(e['k'] == 'start' for e in log)
        c['results_compared'] = sum(t['full'] is not None for t in par['tests'])
        fulls = [t['full'] for t in par['tests'] if t['full']]
        c['failed'] = sum(bool(f['errors'] or f['failures']) for f in fulls)
        c['skipped'] = sum(bool(f['skips']) for f in fulls)
        c['details'] = sum(f['details'] != '[]' for f in fulls)
        c['warnings'] = sum(w[0].startswith('w:') for w in par['warnings'])
        n = len(par['tests'])
        c['forced'] = sum(k < n for _, k in case['plan'].get('force', ()))
        c['excluded'] = sum(k < n for _, k in case['plan'].get('exclude', ()))
        c['sorted'] = bool(case['plan'].get('sort')) * 1
        c['stopped'] = (case['stop'] and any(f['not_run'] for f in fulls)) * 1
        c['fatal'] = sum(e['fatal'] for f in fulls for e in f['errors'])
        c['fatal_failures'] = sum(e['fatal'] for f in fulls for e in f['failures'])
        c['late'] = (case['plan'].get('late') is not None and seq['code'] != 0) * 1
        c['repeated'] = bool(case['flags']) * 1
        c['resumed'] = bool(case['mode']) * 1
        c['resumed_after'] = len(obs['after']['tests']) if obs.get('after') else 0
        running = set()
        seq_w = []
        for e in log:
            if e['k'] == 'start':
                c['overlaps'] += bool(running)
                running.add(e['w'])
                seq_w.append(e['w'])
            elif e['k'] == 'end':
                running.discard(e['w'])
        c['interleaved'] = sum(a != b for a, b in zip(seq_w, seq_w[1:]))
        return c

    def signature(self, case, obs):
        par = obs['par']
        if par['outcome'] != 'ok':
            return None
        moves = [(e['k'], e['w'], e.get('m')) for e in par['log'] if e['k'] in ('distributed', 'start', 'end', 'call', 'return', 'connected') and e.get('m') != 'get_test']
        return hash(repr(moves)) & 0xffffffffffff if moves else None

    def shrink(self, case):
        for k in list(case['plan']['delays']):
            yield dict(case, plan=dict(case['plan'], delays={a: b for a, b in case['plan']['delays'].items() if a != k}))
        for k in ('force', 'exclude', 'sort'):
            if case['plan'].get(k):
                yield dict(case, plan={a: b for a, b in case['plan'].items() if a != k})
        if case['workers'] > 1 and not case['plan'].get('force') and not case['plan'].get('exclude'):
            yield dict(case, workers=case['workers'] - 1)
        if case['flags']:
            yield dict(case, flags=[])
        for sub in gentree.shrink_tree({'tree': case['tree']}):
            yield dict(case, tree=sub['tree'])

    def describe(self, case):
        return dict(engineb.TreeCheck.describe(self, case))
