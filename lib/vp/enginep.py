"""Running generated project trees in parallel, with real worker processes, and sequentially, under the monitors of vp.parprobe"""
import json
import os
import pickle
import select
import shutil
import signal
import tempfile
import time
import traceback

from vp import core, engineb, tree
from vp.core import Check
from vp.tree import Ref

LIB = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RC = 'from vp import parprobe\nparprobe.install()\n'


def processes(mark):
    """Processes started by a run (their environment carries its event file, or they are listed in it); gone and zombie ones excluded"""
    out = {}
    with open(mark, encoding='utf-8') as f:
        for line in f:
            if '"zygote"' in line:
                e = json.loads(line)
                try:
                    with open('/proc/{}/stat'.format(e['pid'])) as g:
                        stat = g.read().rsplit(')', 1)[1].split()
                    if stat[19] == e['born'] and stat[0] not in 'ZX':
                        out[e['pid']] = stat[0]
                except OSError:
                    pass
    needle = ('VP_EVFILE=' + mark).encode()
    for name in os.listdir('/proc'):
        if not name.isdigit():
            continue
        try:
            with open('/proc/{}/environ'.format(name), 'rb') as f:
                if needle not in f.read().split(b'\0'):
                    continue
            with open('/proc/{}/stat'.format(name)) as f:
                state = f.read().rsplit(')', 1)[1].split()[0]
            if state not in 'ZX':
                out[int(name)] = state
        except OSError:
            continue
    return out


def sweep(mark, spare=()):
    for pid in processes(mark):
        if pid not in spare:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass


def launch(fn, bound):
    """fn() in a process of its own; (outcome, value) where outcome is 'ok', 'crash', 'hung' or 'died'"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException:  # pylint: disable=broad-except
                out = ('crash', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    end = time.monotonic() + bound
    data = b''
    hung = False
    with os.fdopen(r, 'rb', buffering=0) as f:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([f], [], [], left)[0]:
                hung = True
                break
            chunk = f.read(1 << 20)
            if not chunk:
                break
            data += chunk
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if hung:
        return 'hung', None
    if not data:
        return 'died', None
    return pickle.loads(data)


def own_frames(frames):
    """The frames from the first one of the tests' own code on: how slash was started is not the same"""
    names = [[os.path.basename(f.filename), f.lineno, f.func_name] for f in frames]
    for k, f in enumerate(names):
        if f[0] in ('vpmon.py', 'parprobe.py'):
            return names[max(0, k - 1):] if k and f[2] == 'place' else names[k:]
    return names[-1:]


def error_obs(e):
    return {'message': e.message, 'type': None if e.exception_type is None else e.exception_type.__name__, 'failure': e.is_failure(), 'fatal': e.is_fatal(),
            'frames': None if e.traceback is None else own_frames(e.traceback.frames)}


def full_result(res):
    return {
        'errors': [error_obs(e) for e in res.get_errors()], 'failures': [error_obs(e) for e in res.get_failures()], 'skips': sorted(str(s) for s in res.get_skips()),
        'started': res.is_started(), 'finished': res.is_finished(), 'interrupted': res.is_interrupted(), 'success': res.is_success(), 'not_run': res.is_not_run(),
        'details': repr(sorted((k, v) for k, v in res.details.all().items() if k != 'bad')), 'facts': repr(sorted(res.facts.all().items())), 'data': repr(sorted((k, v) for k, v in res.data.items() if k != 'bad'))}


class Forge(object):

    """Worker processes which have the modules imported already: what slash starts as `python -m slash.frontend.main ...` goes on in one of them.

    They are children of the process that runs slash, were forked before it did anything, and know nothing but their command line."""

    def __init__(self, n, note):
        self.idle = []
        for _ in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                self.worker(r)
            os.close(r)
            note({'k': 'zygote', 'pid': pid, 'born': born(pid), 'w': None, 't': 0})
            self.idle.append((pid, w))

    @staticmethod
    def worker(r):
        import sys
        import threading
        code = 1
        try:
            os.dup2(r, 3)
            os.closerange(4, 1024)
            devnull = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(devnull, fd)
            with os.fdopen(3, 'rb') as f:
                data = f.read()
            if not data:
                os._exit(0)
            os.close(devnull) if devnull > 2 else None
            argv = json.loads(data)
            sys.argv = ['-m'] + argv
            from slash.frontend import main
            try:
                sys.exit(main.main_entry_point())
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            threading._shutdown()
        except BaseException:  # pylint: disable=broad-except
            pass
        finally:
            os._exit(code & 0xff)

    def popen(self):
        import subprocess
        forge = self

        class Popen(subprocess.Popen):

            def _execute_child(self, args, *rest, **kw):
                if not (isinstance(args, list) and 'slash.frontend.main' in args and forge.idle):
                    return super()._execute_child(args, *rest, **kw)
                pid, w = forge.idle.pop(0)
                with os.fdopen(w, 'wb') as f:
                    f.write(json.dumps(args[args.index('slash.frontend.main') + 1:]).encode())
                self.pid = pid
                self._child_created = True
                return None
        return Popen

    def close(self):
        for pid, w in self.idle:
            os.close(w)
            os.waitpid(pid, 0)


def born(pid):
    with open('/proc/{}/stat'.format(pid)) as f:
        return f.read().rsplit(')', 1)[1].split()[19]


class Run(object):

    """One slash run (with its workers) over a tree"""

    def __init__(self, plan, argv, root, role, cwd=None, bound=60, resume=None, forked=0):
        self.plan, self.argv, self.root, self.role, self.cwd, self.bound, self.mode = plan, list(argv), root, role, cwd or root, bound, resume
        self.forked = forked
        fd, self.evfile = tempfile.mkstemp(prefix='ev-', dir=os.environ['VP_STRAY'])
        os.close(fd)
        self.planfile = self.evfile + '.plan'
        with open(self.planfile, 'w', encoding='utf-8') as f:
            json.dump(plan, f)

    def __call__(self):
        home = os.path.expanduser('~/.slash')
        os.makedirs(home, exist_ok=True)
        with open(os.path.join(home, 'slashrc'), 'w', encoding='utf-8') as f:
            f.write(RC)
        t0 = time.monotonic()
        what, value = launch(self._inside, self.bound)
        obs = {'outcome': what, 'value': value if what == 'crash' else None, 'seconds': round(time.monotonic() - t0, 2)}
        if what == 'ok':
            obs.update(value)
        # the parent is gone: so should be its workers
        left = processes(self.evfile)
        end = time.monotonic() + 3
        while left and time.monotonic() < end:
            time.sleep(0.05)
            left = processes(self.evfile)
        obs['left'] = len(left)
        obs['left_states'] = sorted(left.values())
        sweep(self.evfile)
        os.unlink(self.planfile)
        obs['log'] = []
        with open(self.evfile, encoding='utf-8') as f:
            for line in f:
                try:
                    obs['log'].append(json.loads(line))
                except ValueError:
                    pass
        obs['log'] = [e for e in obs['log'] if e['k'] != 'zygote']
        os.unlink(self.evfile)
        return obs

    def note(self, e):
        with open(self.evfile, 'a', encoding='utf-8') as f:
            f.write(json.dumps(e) + '\n')

    def _inside(self):
        from slash.parallel import parallel_manager
        os.environ.update(VP_PLAN=self.planfile, VP_EVFILE=self.evfile, VP_ROLE=self.role, PYTHONPATH=core.REPO + os.pathsep + LIB)
        if hasattr(parallel_manager, 'TIME_BETWEEN_CHECKS'):
            parallel_manager.TIME_BETWEEN_CHECKS = 0.05
        os.chdir(self.cwd)
        holder = {}
        import gossip
        from slash.ctx import context
        errors = []

        def on_error(error, result):
            if result.is_global_result():
                errors.append(error.message)
        gossip.register(on_error, 'slash.error_added', token='enginep')
        forge = None
        if self.forked:
            import subprocess
            forge = Forge(self.forked, self.note)
            subprocess.Popen = forge.popen()
        obs = engineb.run(self.argv, self.root, cwd=self.cwd, hooks={'tests_loaded': lambda tests: holder.update(session=context.session)}, resume=self.mode == 'resume', rerun=self.mode == 'rerun')
        if forge is not None:
            forge.close()
        from vp import vpmon
        flat = [t for b in vpmon.LOADED for t in b]
        obs.pop('events', None)
        session = holder.get('session')
        for t, d in zip(flat, obs['tests']):
            res = None if session is None else session.results.safe_get_result(t)
            d['full'] = None if res is None else full_result(res)
        order = sorted(range(len(flat)), key=lambda i: (flat[i].__slash__.repeat_all_index, flat[i].__slash__.get_sort_key()))
        obs['order'] = order
        obs['session_errors'] = errors
        if session is not None:
            r = session.results
            obs['totals'] = {'results': len(r), 'started': r.get_num_started(), 'successful': r.get_num_successful(), 'errors': r.get_num_errors(), 'failures': r.get_num_failures(),
                             'skipped': r.get_num_skipped(), 'not_run': r.get_num_not_run(), 'is_success': r.is_success(allow_skips=True), 'interrupted': r.is_interrupted()}
            obs['complete'] = session.is_complete()
            obs['warnings'] = sorted([str(w.message), w.category if isinstance(w.category, str) else getattr(w.category, '__name__', str(w.category)), os.path.basename(w.filename), w.lineno]
                                     for w in session.warnings)
        return obs


class ParCheck(Check):
    imports = ('slash', 'slash.frontend.slash_run', 'slash.parallel.parallel_manager', 'slash.parallel.worker')

    def setup(self, tier, seed):
        self.stray = tempfile.mkdtemp(prefix='vpp-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        os.environ['VP_STRAY'] = self.stray

    def teardown(self):
        # what runs left behind which could not end it themselves
        for name in os.listdir(self.stray):
            sweep(os.path.join(self.stray, name))
        shutil.rmtree(self.stray, ignore_errors=True)


def brief(log):
    return [{k: v for k, v in e.items() if k not in ('t', 'pid')} for e in log]


def ref_of(case):
    return Ref(case['tree'])


def write(case, root):
    tree.write(case['tree'], root)
