"""Plugins generated from JSON specs, which log what is called on them, and the reference of what should be called.

A spec: {id, name, base: id|None, needs: [], provides: [], methods: {name: {on: [hook|None]|None, needs, provides, if: bool|None}},
         fail: {activate: {call index: kind}, deactivate: {...}}, config: {..}|None, mode: parallel mode|None, attr: bool}"""
import os

EV = []
ROLE = [None]


def log(*what):
    EV.append(what)
    path = os.environ.get('VP_EVFILE')
    if path:
        fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, (repr((role(),) + what) + '\n').encode())
        finally:
            os.close(fd)


def role():
    import slash
    return slash.config.root.parallel.worker_id


def _exc(kind, what):
    from slash.plugins import IncompatiblePlugin
    return {'runtime': RuntimeError, 'incompatible': IncompatiblePlugin, 'key': KeyError}[kind](what)


def make_class(spec, classes):
    from slash import plugins
    pid = spec['id']
    base = classes[spec['base']] if spec.get('base') is not None else plugins.PluginInterface

    def callback(name, m):
        def method(self, **_):
            log('call', self.vp_id, name)
        for hook in m['on'] or ():
            method = plugins.registers_on(hook)(method)
        for n in m.get('needs', ()):
            method = plugins.needs(n)(method)
        for n in m.get('provides', ()):
            method = plugins.provides(n)(method)
        if m.get('if') is not None:
            method = plugins.register_if(m['if'])(method)
        return method

    ns = {name: callback(name, m) for name, m in spec['methods'].items()}

    def lifecycle(which):
        def func(self):
            n = self.vp_calls[which] = self.vp_calls.get(which, -1) + 1
            log(which, self.vp_id)
            kind = spec.get('fail', {}).get(which, {}).get(str(n))
            if kind:
                raise _exc(kind, '{} of {}'.format(which, pid))
        return func

    ns.update(vp_id=pid, activate=lifecycle('activate'), deactivate=lifecycle('deactivate'), get_name=lambda self: spec['name'],
              get_default_config=lambda self: spec.get('config'))
    ns['__init__'] = lambda self: setattr(self, 'vp_calls', {})
    if spec.get('attr'):
        ns['some_attribute'] = 15
        ns['_private_method'] = lambda self: None
    cls = type('Plugin' + str(pid), (base,), ns)
    for n in spec.get('needs', ()):
        cls = plugins.needs(n)(cls)
    for n in spec.get('provides', ()):
        cls = plugins.provides(n)(cls)
    if spec.get('mode'):
        cls = plugins.parallel_mode(spec['mode'])(cls)
    return cls


def make(specs):
    """id -> class"""
    classes = {}
    for s in specs:
        classes[s['id']] = make_class(s, classes)
    return classes


class Ref(object):

    """What is registered for each plugin, computed from the specs alone"""

    def __init__(self, specs, slash_hooks):
        self.specs = {s['id']: s for s in specs}
        self.slash_hooks = set(slash_hooks)

    def chain(self, pid):
        out = []
        while pid is not None:
            out.append(self.specs[pid])
            pid = self.specs[pid].get('base')
        return out

    def class_level(self, pid, what):
        return {n for s in self.chain(pid) for n in s.get(what, ())}

    def callbacks(self, pid):
        """[(hook, method, needs, provides)]; a hook of None marks a method for a hook that does not exist"""
        methods = {}
        for s in reversed(self.chain(pid)):
            methods.update(s['methods'])
        out = []
        for name, m in methods.items():
            for hook in (m['on'] if m['on'] else ['slash.' + name]):
                if hook is None or m.get('if') is False:
                    continue
                if (not m['on'] or hook.startswith('slash.')) and hook not in self.slash_hooks:
                    hook = None
                out.append((hook, name, set(m.get('needs', ())) | self.class_level(pid, 'needs'), set(m.get('provides', ())) | self.class_level(pid, 'provides')))
        return out

    def incompatible(self, pid):
        return any(hook is None for hook, _, _, _ in self.callbacks(pid))

    def on_hook(self, active, hook):
        return [(pid, name, needs, provides) for pid in sorted(active) for h, name, needs, provides in self.callbacks(pid) if h == hook]

    def unmet(self, active, hook):
        regs = self.on_hook(active, hook)
        needs = set().union(*[r[2] for r in regs]) if regs else set()
        provides = set().union(*[r[3] for r in regs]) if regs else set()
        if hook in self.slash_hooks:
            for pid in active:
                provides |= self.class_level(pid, 'provides')
        return needs - provides

    def hooks(self, active):
        return sorted({h for pid in active for h, _, _, _ in self.callbacks(pid) if h is not None})

    def contradictory(self, active):
        for hook in self.hooks(active):
            regs = self.on_hook(active, hook)
            edges = {i: {j for j, b in enumerate(regs) if a[3] & b[2]} for i, a in enumerate(regs)}
            for start in edges:
                seen, todo = set(), list(edges[start])
                while todo:
                    n = todo.pop()
                    if n == start:
                        return True
                    if n not in seen:
                        seen.add(n)
                        todo.extend(edges[n])
        return False

    def misordered(self, active, hook, calls):
        """The first pair of calls out of order"""
        regs = {(r[0], r[1]): r for r in self.on_hook(active, hook)}
        for i, a in enumerate(calls):
            for b in calls[i + 1:]:
                if a in regs and b in regs and regs[b][3] & regs[a][2]:
                    return a, b
        return None
