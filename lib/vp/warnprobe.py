"""Probe for C19: test files call note(id) on the line that issues warning id; rules are mirrored here"""
import json
import os
import re
import sys

PROGRAM = {}
EXPECT = []
SEEN = []
RULES = []
COUNTS = {}


def count(what):
    COUNTS[what] = COUNTS.get(what, 0) + 1


def load(path):
    with open(path) as f:
        PROGRAM.update(json.load(f))


def rule_args(rule, cats):
    out = {}
    if rule.get('category'):
        out['category'] = cats[rule['category']]
    for k in ('message', 'filename'):
        if rule.get(k):
            kind, text = rule[k]
            out[k] = re.compile(text) if kind == 're' else text
    if rule.get('lineno'):
        out['lineno'] = rule['lineno']
    return out


class Rule(object):
    def __init__(self, args):
        self.args = args

    def matches(self, category, message, filename, lineno):
        a = self.args
        if 'category' in a and not issubclass(category, a['category']):
            return False
        for k, v in (('message', message), ('filename', filename)):
            if k in a and not (a[k] == v if isinstance(a[k], str) else a[k].match(v) is not None):
                return False
        return 'lineno' not in a or a['lineno'] == lineno


def add(args):
    r = Rule(args)
    RULES.append(r)
    count('rules')
    return r


def remove(r):
    if r in RULES:
        RULES.remove(r)
    count('blocks')


def clear():
    del RULES[:]
    count('clears')


def note(wid, category, message, explicit=None, level=1, shown=True):
    """A warning is about to be issued by the calling line"""
    import slash
    frame = sys._getframe(level)
    filename, lineno = explicit or (frame.f_code.co_filename, frame.f_lineno)
    ignored = any(r.matches(category, message, filename, lineno) for r in RULES)
    count('ignored' if ignored else 'issued' if shown else 'suppressed')
    e = {'id': wid, 'message': message, 'category': category.__name__, 'filename': filename, 'lineno': lineno, 'test_id': (slash.context.test_id or None) if slash.context.session else None, 'session_id': slash.context.session_id if slash.context.session else None}
    if shown and not ignored:
        EXPECT.append(dict(e, cls=category))
        if os.environ.get('VP_WARN'):
            with open(os.path.join(os.environ['VP_WARN'], 'expect'), 'a') as f:
                f.write(json.dumps(e) + '\n')


def settle():
    """Warnings issued before the session exists join it when it is created, unless a rule ignores them then"""
    kept = [e for e in EXPECT if not any(r.matches(e['cls'], e['message'], e['filename'], e['lineno']) for r in RULES)]
    count('ignored_later') if len(kept) < len(EXPECT) else None
    EXPECT[:] = kept
    for e in EXPECT:
        count('early')


def describe(w):
    return {'message': w.message, 'category': None if w.category is None else w.category.__name__, 'type': w.details.get('type'), 'filename': w.filename, 'lineno': w.lineno, 'test_id': w.details.get('test_id'), 'session_id': w.details.get('session_id'), 'repr': repr(w), 'dict': w.to_dict() == w.details}


def added(warning):
    SEEN.append(warning)


def dump():
    import slash
    if slash.config.root.parallel.worker_id is None and os.environ.get('VP_WARN'):
        with open(os.path.join(os.environ['VP_WARN'], 'warnings'), 'w') as f:
            json.dump([describe(w) for w in slash.context.session.warnings], f)
