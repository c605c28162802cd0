import collections
import os

from vp import engineb, tree
from vp.core import Violation
from vp.engineb import TreeCheck
from vp.tree import Ref

EXCLUDED = 'Excluded due to parameter combination exclusion rules'


class CHECK(TreeCheck):
    prop = 'C14'
    technique = 'runtime monitoring: which test bodies and fixtures executed and which skips were recorded vs. the reference set of unmet requirements and matching exclusions'
    rule = 'project trees with requirements, skip marks and exclusions on functions, methods, class hierarchies and fixtures; every test\'s fate compared with the reference'
    required = ('ran', 'avoided_by_requirement', 'avoided_by_exclusion', 'avoided_by_fixture', 'avoided_by_class', 'several_reasons')
    profile = dict(p_req=0.2, p_excl=0.25, p_param=0.5, p_fxparam=0.4, p_dep=0.6, p_class=0.5, p_base=0.7, p_extra=0.12, p_autouse=0.12, max_total=60, p_noise=0, nasty=0.4, p_skip_all=0.04)
    n_quick = 220

    def gen(self, rng, i, tier):
        kw = {}
        if i % 3 == 1:
            kw = dict(p_req=0.45, p_excl=0, p_param=0.2, p_fxparam=0.1, p_class=0.7, p_base=0.85)
        elif i % 3 == 2:
            kw = dict(p_req=0.02, p_excl=0.6, p_param=0.7, p_fxparam=0.6, p_skip_all=0)
        if i % 6 == 4:
            # mixins: classes with several bases, each with requirements of its own
            kw = dict(p_req=0.5, req_met=0.75, p_excl=0, p_param=0.1, p_fxparam=0, p_class=1, p_base=0.8, p_two=0.95, p_ba=0.1, files=2, items=9, p_extra=0, p_autouse=0, p_skip_all=0, p_dep=0.1)
        return {'tree': self.gen_tree(rng, **kw), 'argv': rng.choice([[], [], [], ['--repeat-each', '2'], ['-v'], ['-x']])}

    def run(self, case):
        root = os.path.realpath(os.getcwd())
        tree.write(case['tree'], root)
        return engineb.run([root] + case['argv'], root)

    # reference
    def unmet(self, ref, u, extra=True):
        """Requirements that are not met: [[kind, met, msg], where]"""
        out = []
        for r in u.spec.get('reqs', ()):
            out.append((r, 'test'))
        for c in u.chain:
            out += [(r, 'class') for r in c.get('reqs', ())]
        fixtures = {}
        names = {n for g in u.spec.get('extra', ()) for n in g}
        for prefix, fx in ref.roots(u):
            if not extra and not u.method and prefix in names and prefix not in {a for a, _ in u.spec['deps']}:
                continue
            fixtures.update(ref.closure(fx))
        for fx in fixtures.values():
            out += [(r, 'fixture') for r in fx.get('reqs', ())]
        return [(r, w) for r, w in out if not r[1]]

    def excluded(self, ref, u, idx):
        site = ('file', u.path)
        rules = [(e, None) for e in u.spec.get('excl', ())]
        for fx in ref.used_fixtures(u).values():
            rules += [(e, fx) for e in fx.get('excl', ())]
        for e, fx in rules:
            values = []
            for name in e['names']:
                x, s = (u.spec, site) if fx is None else (fx, ref.site[fx['key']])
                values.append(self.value_at(ref, x, s, name.split('.'), idx))
            for vs in e['values']:
                if tuple(values) == tuple(eval(v) for v in vs):  # pylint: disable=eval-used
                    return True
        return False

    def value_at(self, ref, x, site, parts, idx):
        for p in x['params']:
            names = p['names']
            if parts[0] in names:
                v = eval(p['values'][idx[p['key']]]['src'])  # pylint: disable=eval-used
                return v if len(names) == 1 else v[names.index(parts[0])]
        fx = ref.resolve(dict(x['deps']).get(parts[0], parts[0]), site)
        return self.value_at(ref, fx, ref.site[fx['key']], parts[1:], idx)

    def judge(self, case, obs):
        ref = Ref(case['tree'])
        units = {u.id: u for f in case['tree']['files'] for u in ref.units_of(f['path'])}
        if obs['escaped'] is not None or (units and not obs['loads']):
            return [Violation('not-loaded', '{} {}'.format(obs['escaped'], obs['console'][-1500:]))]
        ran = collections.Counter(obs['ran'])
        touched = {}
        for e in obs['events']:
            if e['k'] != 'down' and e['T'] is not None:
                touched.setdefault(e['T'], e)
        avoided = collections.defaultdict(list)
        for i, reason in obs['avoided']:
            avoided[i].append(reason)
        known = []
        stats = obs['stats'] = collections.Counter()
        for i, t in enumerate(obs['tests']):
            u = units.get(engineb.unit_id(t))
            if u is None:
                return [Violation('unknown', t['address'])]
            idx, err = engineb.indices_of(ref, u, t)
            if err or set(idx) != set(ref.needed_params(u)):
                return []
            skip_all = [c['skip_all'] for c in u.chain if c.get('skip_all')]
            unmet = self.unmet(ref, u)
            excl = self.excluded(ref, u, idx)
            should_run = not unmet and not excl and not skip_all
            viol = self.judge_test(t, i, should_run, unmet, excl, skip_all, ran, touched, avoided)
            if viol is not None and not u.method:
                less = self.unmet(ref, u, extra=False)
                if len(less) < len(unmet) and self.judge_test(t, i, not less and not excl, less, excl, skip_all, ran, touched, avoided) is None:
                    known = [Violation('function-extra-fixture-requirements', viol.msg)]
                    continue
            if viol is not None:
                return [viol]
            if should_run:
                stats['ran'] += 1
            if unmet:
                stats['avoided_by_requirement'] += 1
                for w in {w for _, w in unmet}:
                    stats['avoided_by_' + w] += 1
                stats['several_reasons'] += len(unmet) > 1
            stats['avoided_by_exclusion'] += excl and not unmet
            mets = [[r[1] for r in c.get('reqs', ())] for c in u.chain]
            # only the requirements of a base other than the first ones with requirements are not met
            first = next((k for k, m in enumerate(mets) if m), None)
            stats['mixins'] += bool(unmet) and first is not None and all(w == 'class' for _, w in unmet) and all(mets[first])
            stats['further_mixins'] += bool(unmet) and all(w == 'class' for _, w in unmet) and all(sum(mets[:2], [])) and bool(sum(mets[:2], []))
            stats['skip_all'] += bool(skip_all)
        if units and obs['code'] != 0:
            return [Violation('exit-code', 'exit code {} although nothing failed: {}'.format(obs['code'], obs['console'][-600:]))]
        return known

    def judge_test(self, t, i, should_run, unmet, excl, skip_all, ran, touched, avoided):
        name = t['address']
        if should_run:
            if ran[i] != 1:
                return Violation('not-run', '{} has no unmet requirement and matches no exclusion, but its body ran {} times (skips {}, errors {})'.format(
                    name, ran[i], t['skip_reasons'], t['result'] and t['result']['errors']))
            if t['skip_reasons'] or i in avoided:
                return Violation('skip-recorded', '{} ran, but skips {} are recorded'.format(name, t['skip_reasons']))
            return None
        why = [r[2] for r, _ in unmet] + (['excluded'] if excl else []) + skip_all
        if ran[i] or i in touched:
            return Violation('run', '{} must not run ({}) but {} executed'.format(name, why, touched.get(i)))
        res = t['result']
        if res is None or not res['skip'] or res['errors'] or res['failures'] or res['success']:
            return Violation('not-skipped', '{} must be skipped ({}), its result is {}'.format(name, why, res))
        if skip_all and not unmet and not excl:
            return None if any(s in r for s in skip_all for r in t['skip_reasons']) else Violation('reasons', '{}: skip reasons {}'.format(name, t['skip_reasons']))
        if unmet:
            text = '\n'.join(str(s) for s in t['skip_reasons'])
            reasons = {r[2] for r, _ in unmet if r[2]}
            missing = [m for m in reasons if m not in t['skip_reasons'] and 'Unmet requirement: ' + m not in t['skip_reasons']]
            if missing:
                return Violation('reasons', '{}: reasons {} are not among the skips recorded: {}'.format(name, missing, text))
            wrong = [s for s in t['skip_reasons'] if 'reason' in s and s.replace('Unmet requirement: ', '') not in reasons]
            if wrong:
                return Violation('reasons', '{}: skips {} recorded, unmet {}'.format(name, wrong, sorted(reasons)))
        if len(avoided[i]) != 1:
            return Violation('avoided-hook', '{}: test_avoided fired {} times'.format(name, len(avoided[i])))
        if unmet and any(r[2] and r[2] not in avoided[i][0] for r, _ in unmet):
            return Violation('avoided-hook', '{}: test_avoided gave the reason {!r}, expected {}'.format(name, avoided[i][0], why))
        return None

    def counters(self, case, obs):
        c = collections.Counter(obs.get('stats', {}))
        c['tests'] = len(obs['tests'])
        return c
