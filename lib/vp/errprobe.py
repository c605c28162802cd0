"""Probe for C25: where errors really come from. Test files call here() on the line that fails or adds an error."""
import os
import sys

ROOT = [None]
#: expectations, in the order the failing lines were executed
EXPECT = []
MAXLEN = 100


def reset(root):
    ROOT[0] = os.path.realpath(root) + os.sep
    del EXPECT[:]


def mine(filename):
    return os.path.realpath(filename).startswith(ROOT[0])


def rep(value):
    try:
        r = repr(value)
    except Exception:  # pylint: disable=broad-except
        return None
    return r if len(r) <= MAXLEN else r[:MAXLEN - 3] + '...'


def path(skip):
    frame = sys._getframe(skip + 1)
    out = []
    while frame is not None:
        if mine(frame.f_code.co_filename):
            out.append({'file': os.path.realpath(frame.f_code.co_filename), 'line': frame.f_lineno, 'func': frame.f_code.co_name, 'first': frame.f_code.co_firstlineno,
                        'locals': {k: rep(v) for k, v in frame.f_locals.items() if '@' not in k},
                        'attrs': {'self.' + k: rep(v) for k, v in vars(frame.f_locals['self']).items() if isinstance(v, (int, str))} if type(frame.f_locals.get('self')).__module__.endswith('_vp') else {}})
        frame = frame.f_back
    return out[::-1]


def here(value=None, key=None, exc=None, **kw):
    """Notes the calling line as the one an error is about to come from, and returns value"""
    info = dict(kw, key=key, path=path(1))
    if isinstance(exc, BaseException):
        describe(info, exc)
    EXPECT.append(info)
    return exc if exc is not None and value is None else value


def describe(info, exc):
    info['type'] = type(exc).__qualname__
    try:
        info['repr'] = repr(exc)
    except Exception:  # pylint: disable=broad-except
        info['repr'] = None
    try:
        info['str'] = exc.msg if isinstance(exc, SyntaxError) else str(exc)
    except Exception:  # pylint: disable=broad-except
        info['str'] = None
