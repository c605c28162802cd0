"""Records configuration snapshots and marks at points of a run"""
EV = []


def snapshot():
    import slash
    return {path: cfg.get_value() for path, cfg in slash.config.traverse_leaves()}


def snap(where):
    s = snapshot()
    # the exact types matter, and so do later changes of mutable values
    EV.append(('snap', where, {k: (type(v).__name__, list(v) if isinstance(v, list) else v) for k, v in s.items()}))


def mark(*what):
    EV.append(('mark',) + what)
