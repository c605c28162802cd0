"""Used by the generated projects of C31: delivers signals to its own process, or does what their handlers are to do (the reference run)"""
import json
import os
import signal
import subprocess
import threading
import time

S = {}
PLUGIN = 'signal handling'
CUSTOM = ('SIGHUP', 'SIGWINCH', 'SIGALRM', 'SIGURG', 'SIGUSR1', 'SIGUSR2')


def put(*a):
    S['log'].append(list(a))


def here():
    from slash.ctx import context
    return None if context.test is None else context.test.__slash__.address.split(':')[-1]


def orig(signum, *_):
    put('orig', signal.Signals(signum).name, here())


def other(name, n):
    """Someone else installs a handler while the plugin is not active"""
    if S['active']:
        return

    def another(signum, *_):
        put('other', signal.Signals(signum).name, n, here())
    S['orig'][name] = another
    if S['real']:
        signal.signal(getattr(signal, name), another)


def make(name, n, action):
    def handler(*_, **__):
        put('handler', name, n, here())
        act(action, n)
    return handler


def act(action, n):
    import slash
    if action == 'raise':
        raise ValueError('handler {}'.format(n))
    if action == 'skip':
        slash.skip_test('handler {}'.format(n))
    if action == 'error':
        slash.add_error('handler {}'.format(n))
    if action == 'cleanup':
        slash.add_cleanup(lambda: put('cleanup of handler', n))
    if action == 'fatal':
        raise slash.exception_handling.mark_exception_fatal(ValueError('handler {}'.format(n)))


def register(name, n, action):
    """As users register handlers; the reference only remembers what is to be in effect"""
    handler = make(name, n, action)
    S['registered'][name] = handler
    if S['active']:
        S['current'][name] = handler
    if S['real']:
        from slash.plugins.builtin.signal_handling import register_handler
        if register_handler(name)(handler) is not handler:
            put('not returned', name)


def activate():
    if not S['active']:
        S['active'] = True
        S['current'].update(S['registered'])
        if S['real']:
            import slash
            slash.plugins.manager.activate(PLUGIN)


def deactivate():
    if S['active']:
        S['active'] = False
        S['current'].clear()
        if S['real']:
            import slash
            slash.plugins.manager.deactivate(PLUGIN)


def unknown():
    if S['real']:
        from slash.plugins.builtin.signal_handling import register_handler
        register_handler('SIGNOSUCH')(orig)


def dump_handler(*_, **__):
    put('usr1', here())


def skip_handler(*_, **__):
    import slash
    slash.skip_test('Skipped due to SIGUSR2')


def send(name, how):
    """A signal arrives here"""
    put('send', name, here())
    no = getattr(signal, name)
    if not S['real']:
        S['current'].get(name, S['orig'][name])(no, None)
    else:
        out = S['stream'].tell()
        if how == 'kill':
            os.kill(os.getpid(), no)
        elif how == 'raise':
            signal.raise_signal(no)
        elif how == 'child':
            subprocess.check_call(['kill', '-s', name[3:], str(os.getpid())])
        elif how == 'thread':
            main = threading.get_ident()
            t = threading.Thread(target=lambda: (time.sleep(0.005), signal.pthread_kill(main, no)))
            t.daemon = True
            t.start()
            for _ in range(50):
                time.sleep(0.001)
        for _ in range(5):
            time.sleep(0.001)
        S['stream'].seek(out)
        if name == 'SIGUSR1' and 'SIGUSR1' in S['stream'].read() and S['active'] and S['current'].get(name) is dump_handler:
            put('usr1', here())
        S['stream'].seek(0, 2)
    put('sent', name, here())


def start(real, stream, plan):
    S.update(real=real, stream=stream, log=[], active=False, current={}, orig=dict.fromkeys(CUSTOM, orig), registered={'SIGUSR1': dump_handler, 'SIGUSR2': skip_handler})
    for name in CUSTOM:
        signal.signal(getattr(signal, name), orig)
    import gossip
    for ops, hook in plan:
        def callback(ops=ops, hook=hook, state=[]):  # pylint: disable=dangerous-default-value
            state.append(1)
            put('hook', hook, here())
            for n, op in ops:
                if n == len(state):
                    do(op)
        gossip.register(callback, 'slash.' + hook, token='sigprobe')


def do(op):
    {'send': send, 'register': register, 'activate': activate, 'deactivate': deactivate, 'unknown': unknown, 'other': other, 'mark': lambda n: put('mark', n, here())}[op[0]](*op[1:])


def run(ops):
    import slash
    for op in ops:
        if op[0] == 'try':
            try:
                run(op[1])
            except Exception as e:  # pylint: disable=broad-except
                put('caught', type(e).__name__)
        elif op[0] == 'cleanup':
            slash.add_cleanup(lambda op=op: run(op[1]))
        elif op[0] == 'deep':
            run(op[1])
            put('deep end', here())
        elif op[0] == 'handling':
            with slash.exception_handling.handling_exceptions(swallow=op[2]):
                run(op[1])
        else:
            do(op)
            put('after', op[0], here())


def final():
    """Handlers after everything"""
    return {name: signal.getsignal(getattr(signal, name)) is S['orig'][name] or not S['real'] for name in CUSTOM}


def from_file(key):
    with open('ops.json', encoding='utf-8') as f:
        run(json.load(f).get(key, []))
