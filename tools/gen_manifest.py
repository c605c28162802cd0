"""Writes /verif/MANIFEST.json from the checks that exist"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'lib')]
PENDING = 'check not built yet in this commit'
TECH = {
    'C01': 'runtime monitoring: event log and results of generated faulty suites vs. reference interpreter',
    'C03': 'runtime monitoring: cleanup event log of generated suites vs. reference interpreter, plus exactly-once checker',
    'C04': 'runtime monitoring: fixture lifecycle log of generated suites vs. reference interpreter, plus ordering checker',
    'C07': 'runtime monitoring: hook trace vs. reference interpreter and grammar automaton',
    'C08': 'runtime monitoring: totals, exit code and console parsed and compared with individual results',
    'C12': 'runtime monitoring with injected interrupts (fault enumeration over program points) vs. reference interpreter',
    'C13': 'runtime monitoring: complete trace of stopped runs vs. reference interpreter',
    'C24': 'runtime monitoring: context snapshots at every event vs. reference interpreter',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if not os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')):
            na.append({'property': pid, 'reason': PENDING})
            continue
        mod = importlib.import_module('checks.' + pid.lower())
        c = mod.CHECK
        checks.append({
            'property': pid, 'quick_cmd': './run.sh {} --tier quick'.format(pid), 'thorough_cmd': './run.sh {} --tier thorough'.format(pid),
            'technique': getattr(c, 'technique', None) or TECH[pid], 'level': c.level,
            'level_note': getattr(c, 'level_note', None) or 'Held on the executions observed: {}'.format(c.rule)})
    out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks;', 'pending', [x['property'] for x in na])


main()
