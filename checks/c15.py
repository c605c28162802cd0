import collections
import sys

from vp import excprog, suite
from vp.core import Check, Violation

PLACES = {
    'test': 'def test_x():\n    excrun.go()\n',
    'method': 'class T(slash.Test):\n    def test_x(self):\n        excrun.go()\n',
    'before': 'class T(slash.Test):\n    def before(self):\n        excrun.go()\n    def test_x(self):\n        pass\n',
    'fixture': '@slash.fixture\ndef fx():\n    excrun.go()\ndef test_x(fx):\n    pass\n',
    'cleanup': 'def test_x():\n    slash.add_cleanup(excrun.go)\n',
    'hook': '@slash.hooks.test_start.register\ndef hook():\n    excrun.go()\ndef test_x():\n    pass\n',
    'none': '',
}


class CHECK(Check):
    prop = 'C15'
    technique = 'runtime monitoring: traces of generated nestings of the exception contexts, run by the real contexts in tests, fixtures, cleanups, hooks and outside sessions, against a reference semantics'
    rule = 'random nestings of handling, swallowing, assert_raises and allowing contexts (directly, in exit stacks, in generator based context managers, created elsewhere, in threads) around exceptions of ordinary, special and hostile types, marked, copied, chained, forwarded and raised again'
    required = ('raised', 'recorded', 'suppressed', 'passed', 'already_handled', 'raises_caught', 'raises_missing', 'noswallow', 'interrupts', 'skips', 'exits', 'hostile', 'threads', 'copies', 'stacks', 'no_session', 'debugger', 'cleanup')
    n_quick = 500
    n_thorough = 20000

    def gen(self, rng, i, tier):
        return {'program': excprog.gen_program(rng, copies=rng.random() < 0.3), 'place': rng.choice(['test', 'test', 'test', 'none', 'none'] + sorted(PLACES)), 'pdb': rng.random() < 0.2}

    def run(self, case):
        import gossip
        import pdb
        import slash
        import types
        ev = []
        interp = excprog.Interpreter(ev)
        sys.modules['pudb'] = sys.modules['ipdb'] = None
        pdb.post_mortem = lambda *_: ev.append(('pdb',))
        mod = types.ModuleType('vp.excrun')
        seen = [0]

        def go():
            try:
                interp.block(case['program'])
            except BaseException as e:
                ev.append(('end', interp.state(e)))
                if case['place'] not in ('test', 'method') and not isinstance(e, Exception) or isinstance(e, GeneratorExit) or case['place'] == 'hook' and isinstance(e, StopIteration):
                    return
                raise
            ev.append(('end', None))
        mod.go = go
        sys.modules['vp.excrun'] = mod

        def error_added(error, result):
            e = error.exc_info[1] if error.exc_info else None
            ev.append(('added', 'failure' if error in result.get_failures() else 'error', interp.name(e) if e is not None else error.message) + (() if result.test_metadata is not None else ('global',)))

        def before():
            if slash.context.session is not None:
                skips = slash.context.session.results.current.get_skips()
                for s in skips[seen[0]:]:
                    ev.append(('added', 'skip', s))
                seen[0] = len(skips)
            ev.append(('before',))
        reg = [('slash.error_added', error_added), ('slash.exception_caught_before_debugger', before), ('slash.exception_caught_after_debugger', lambda: ev.append(('after',))),
               ('slash.interruption_added', lambda result, exception: ev.append(('added', 'interruption', interp.name(exception.exc_info[1])))),
               ('slash.entering_debugger', lambda exc_info: ev.append(('debugger', interp.name(exc_info[1])))),
               ('slash.session_start', lambda: slash.register_skip_exception(interp.cls['MySkip']))]
        if case['place'] == 'none':
            slash.config.root.debug.enabled = case['pdb']
            for name, f in reg:
                gossip.register(f, name)
            try:
                go()
            except BaseException:  # pylint: disable=broad-except
                pass
            return {'ev': ev, 'results': None}
        with open('test_it.py', 'w') as f:
            f.write('import slash\nfrom vp import excrun\n' + PLACES[case['place']])
        for name, f in reg:
            gossip.register(f, name)
        app, console, escaped = suite.run_app(['test_it.py'] + (['--pdb'] if case['pdb'] else []))
        results = None
        if app is not None and app.session is not None:
            results = [(r.is_global_result(), [interp.name(x) if x is None else x.message for x in r.get_errors()], [x.message for x in r.get_failures()], list(r.get_skips())) for r in app.session.results.iter_all_results()]
        return {'ev': ev, 'results': results, 'console': console[-3000:], 'escaped': repr(type(escaped)) if escaped is not None else None}

    def reference(self, case):
        ref = excprog.Reference(session=case['place'] != 'none', pdb=case['pdb'])
        try:
            ref.block(case['program'])
            ref.ev.append(('end', None))
        except excprog._Raised as r:
            ref.ev.append(('end', ref.state(r.exc)))
            dropped = (case['place'] not in ('test', 'method') and not r.exc.isa(['Exception'])) or r.exc.type == 'GeneratorExit' or case['place'] == 'hook' and r.exc.type == 'StopIteration'      # gossip's own generators turn the latter into RuntimeError
            if case['place'] != 'none' and not dropped:
                ref.handle(r.exc)
        return ref

    def judge(self, case, obs):
        want = self.reference(case).ev
        got = [e for e in obs['ev'] if e[0] != 'pdb']
        if len(got) == len(want) + 1 and got[-1][0] == 'debugger' and got[-2:-1] != got[-1:]:
            # what ends the whole run may be debugged once more as the application is left
            got = got[:-1]
        for i in range(max(len(want), len(got))):
            a, b = (x[i] if i < len(x) else None for x in (want, got))
            if a != b:
                kind = 'recorded' if 'added' in ((a or [''])[0], (b or [''])[0]) else 'debugger' if {'before', 'after', 'debugger'} & {(a or [''])[0], (b or [''])[0]} else 'propagation'
                return [Violation(kind, 'event {}: {}, expected {}; before it: {}'.format(i, b, a, got[max(0, i - 6):i]))]
        ndbg = sum(1 for e in obs['ev'] if e[0] == 'debugger')
        if ndbg != sum(1 for e in obs['ev'] if e[0] == 'pdb'):
            return [Violation('debugger', 'the debugger was entered {} times, announced {}'.format(sum(1 for e in obs['ev'] if e[0] == 'pdb'), ndbg))]
        if case['place'] != 'none':
            if obs['results'] is None:
                return [Violation('no-session', 'the run failed: {} {}'.format(obs['escaped'], obs['console']))]
            n = {k: sum(1 for e in want if e[:2] == ('added', k)) for k in ('error', 'failure', 'skip')}
            have = {'error': sum(len(r[1]) for r in obs['results']), 'failure': sum(len(r[2]) for r in obs['results']), 'skip': sum(len(r[3]) for r in obs['results'])}
            if n != have:
                return [Violation('results', 'results have {}, expected {}'.format(have, n))]
        return []

    def counters(self, case, obs):
        c = collections.Counter(events=len(obs['ev']))
        kinds = collections.Counter()

        def walk(b):
            for st in b:
                kinds[st[0]] += 1
                if st[0] == 'try':
                    kinds[st[4][0]] += 1
                if st[0] == 'raise' and st[1][0] in excprog.HOSTILE:
                    kinds['hostile'] += 1
                for x in st:
                    if isinstance(x, list) and x and isinstance(x[0], list) and isinstance(x[0][0], str) and st[0] != 'stack':
                        walk(x)
                    elif st[0] == 'stack' and x is st[3]:
                        walk(x)
        walk(case['program'])
        for e in obs['ev']:
            if e[0] == 'left':
                if e[2] is None and any(e[3]):
                    c['suppressed'] += 1
                elif e[2] is not None and not e[2][1]:
                    c['passed'] += 1
                elif e[2] is not None and any(e[3]):
                    c['already_handled'] += 1
                if e[2] and e[2][0].startswith('ExpectedE'):
                    c['raises_missing'] += 1
            if e[0] == 'added':
                c['recorded'] += 1
                c['skips'] += e[1] == 'skip'
                c['interrupts'] += e[1] == 'interruption'
                c['exits'] += 0
            if e[0] == 'debugger':
                c['debugger'] += 1
        text = repr(case['program'])
        c['raised'] = kinds['raise']
        c['raises_caught'] = sum(1 for e in obs['ev'] if e[0] == 'left' and e[2] is None and any(e[3])) if "'raises'" in text else 0
        c['noswallow'] = text.count("'noswallow'") + text.count("'NsBase', None") + kinds['marking']
        c['exits'] = text.count("['SystemExit', None")
        c['hostile'] = kinds['hostile']
        c['threads'] = kinds['thread']
        c['copies'] = kinds['copy']
        c['stacks'] = kinds['stack']
        c['no_session'] = int(case['place'] == 'none')
        c['cleanup'] = int(case['place'] == 'cleanup')
        return c

    def signature(self, case, obs):
        if len(obs['ev']) < 4:
            return None
        return repr((case['place'], case['pdb'], obs['ev']))

    def shrink(self, case):
        for p in excprog.smaller(case['program']):
            yield dict(case, program=p)
        if case['pdb']:
            yield dict(case, pdb=False)
        if case['place'] not in ('test', 'none'):
            yield dict(case, place='test')
