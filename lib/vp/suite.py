"""Engine A: generates suites as JSON specs, writes them as slash test files, runs them in-process under the monitors.

A spec: {conf: [FX], files: [{name, fixtures: [FX], tests: [T]}], actions: {place: [action]}, hooks: {name: [[action]]}, argv: []}
FX: {key, name, scope, kind: this|plain|yield, autouse, params: [[name, n]], deps: [[arg, fixture]]}
T:  {type: func, key, name, params, deps, extra} |
    {type: class, key, name, base, methods: [{key, name, params, deps}], before: {params, deps}|None, after: ...}"""
import io
import os
import re

SCOPES = ('test', 'module', 'session')


def pvalue(owner, pname, i):
    return '{}~{}~{}'.format(owner, pname, i)


def _args(deps, params, this=False):
    names = ['this'] if this else []
    for arg, fix in deps:
        names.append(arg if arg == fix else '{}: slash.use({!r})'.format(arg, fix))
    names += [p for p, _ in params]
    return names


def _vals(deps, params):
    return 'dict({})'.format(', '.join('{0}={0}'.format(n) for n in [a for a, _ in deps] + [p for p, _ in params]))


def _param_lines(owner, params, indent=''):
    # decorators apply bottom up
    return ['{}@slash.parametrize({!r}, {!r})'.format(indent, p, [pvalue(owner, p, i) for i in range(n)]) for p, n in params]


def fixture_source(fx):
    out = []
    kw = []
    if fx['scope'] != 'test':
        kw.append('scope={!r}'.format(fx['scope']))
    if fx.get('autouse'):
        kw.append('autouse=True')
    fname = fx['name']
    if fx.get('named'):
        kw.append('name={!r}'.format(fx['name']))
        fname = 'impl_' + fx['name']
    out.append('@slash.fixture({})'.format(', '.join(kw)) if kw else '@slash.fixture')
    out += _param_lines(fx['key'], fx['params'])
    this = fx['kind'] == 'this'
    out.append('def {}({}):'.format(fname, ', '.join(_args(fx['deps'], fx['params'], this))))
    call = 'vpmon.fixture_setup({!r}, {!r}, {}{})'.format(fx['key'], fx['name'], _vals(fx['deps'], fx['params']), ', this' if this else '')
    if fx['kind'] == 'yield':
        out += ['    fv = ' + call, '    yield fv', '    vpmon.fixture_yield_teardown({!r}, fv)'.format(fx['key'])]
    else:
        out += ['    return ' + call]
    return out + ['']


def _func_source(key, name, spec, indent, self_arg):
    out = _param_lines(key, spec['params'], indent)
    if spec.get('avoid'):
        out.append(indent + ('@slash.skipped({!r})' if spec['avoid'].startswith('skip') else '@slash.requires(False, message={!r})').format(spec['avoid']))
    for x in spec.get('extra', ()):
        out.append('{}@slash.use_fixtures([{!r}])'.format(indent, x))
    args = (['self'] if self_arg else []) + _args(spec['deps'], spec['params'])
    out.append('{}def {}({}):'.format(indent, name, ', '.join(args)))
    out.append('{}    vpmon.here({!r}, {!r}, {})'.format(indent, spec.get('kind', 'test'), key, _vals(spec['deps'], spec['params'])))
    return out


def test_source(t):
    if t['type'] == 'func':
        return _func_source(t['key'], t['name'], t, '', False) + ['']
    out = ['class {}({}):'.format(t['name'], t.get('base') or 'slash.Test')]
    for which in ('before', 'after'):
        if t.get(which):
            out += _func_source(t['key'] + '.' + which, which, dict(t[which], kind=which), '    ', True)
    for m in t['methods']:
        out += _func_source(m['key'], m['name'], m, '    ', True)
    if len(out) == 1:
        out.append('    pass')
    return out + ['']


HEADER = ['import slash', 'from vp import vpmon', '']


def write(spec, root):
    os.makedirs(root, exist_ok=True)
    if spec.get('conf'):
        with open(os.path.join(root, 'slashconf.py'), 'w') as f:
            lines = HEADER[:]
            for fx in spec['conf']:
                lines += fixture_source(fx)
            f.write('\n'.join(lines) + '\n')
    for fl in spec['files']:
        with open(os.path.join(root, fl['name']), 'w') as f:
            lines = HEADER[:]
            for fx in fl['fixtures']:
                lines += fixture_source(fx)
            for t in fl['tests']:
                lines += test_source(t)
            f.write('\n'.join(lines) + '\n')


def run_app(argv, cwd=None, resume=False, rerun=False, callback=None, stream=None):
    """Runs slash in this process; returns (app, console text, escaped exception or None)"""
    import munch
    from slash.frontend import slash_run
    stream = stream or io.StringIO()
    app = escaped = None
    try:
        app = slash_run.slash_run(munch.Munch(argv=list(argv), cmd='resume' if resume else 'rerun' if rerun else 'run'), report_stream=stream, resume=resume, rerun=rerun,
                                  app_callback=callback, working_directory=cwd)
    except BaseException as e:  # pylint: disable=broad-except
        escaped = e
    return app, stream.getvalue(), escaped


_ident = re.compile(r'[A-Za-z0-9_.:/~-]+@\d+')


def ident(msg):
    m = _ident.search(msg or '')
    if m:
        return m.group(0)
    m = re.search(r'SystemExit\D*(\d+)', msg or '')
    return 'exit:' + m.group(1) if m else (msg or '')


def result_obs(res):
    return {
        'errors': [ident(e.message) for e in res.get_errors()],
        'failures': [ident(e.message) for e in res.get_failures()],
        'skips': [ident(str(s)) for s in res.get_skips()],
        'started': res.is_started(), 'finished': res.is_finished(), 'interrupted': res.is_interrupted(),
        'success': res.is_success(), 'success_skips': res.is_success(allow_skips=True), 'not_run': res.is_not_run(),
        'skip': res.is_skip(), 'error': res.is_error(), 'failure': res.is_failure(), 'fatal': res.has_fatal_errors(),
        'just_failure': res.is_just_failure(),
    }


#: other projects run by the same process before the one observed
PRIOR = {
    'passed': 'def test_a():\n    pass\ndef test_b():\n    pass\n',
    'failed': 'def test_a():\n    assert 1 == 2\ndef test_b():\n    raise ValueError("prior")\n',
    'skipped': 'def test_a():\n    slash.skip_test("prior")\n@slash.skipped("prior")\ndef test_b():\n    pass\n',
    'interrupted': 'def test_a():\n    slash.add_critical_cleanup(lambda: None)\n    raise KeyboardInterrupt()\ndef test_b():\n    pass\n',
    'terminated': 'def test_a():\n    import os, signal\n    os.kill(os.getpid(), signal.SIGTERM)\n    import time\n    time.sleep(0.2)\ndef test_b():\n    pass\n',
    'fatal': 'def test_a():\n    raise slash.exception_handling.mark_exception_fatal(ValueError("prior"))\ndef test_b():\n    pass\n',
    'exit': 'def test_a():\n    raise SystemExit(3)\n',
    'unloadable': 'raise ValueError("prior")\n',
    'nothing': 'x = 1\n',
    'fixtures': '@slash.fixture(scope="session")\ndef fx(this):\n    this.add_cleanup(lambda: 1 / 0)\n    return 1\n@slash.fixture(scope="module", autouse=True)\n@slash.parametrize("x", [1, 2])\ndef auto(x):\n    raise ValueError("prior")\ndef test_a(fx):\n    pass\n',
    'cleanups': 'import gossip\n@gossip.register("slash.session_start", token="prior")\ndef start():\n    slash.add_cleanup(lambda: 1 / 0)\nslash.add_cleanup(lambda: None)\ndef test_a():\n    slash.add_cleanup(lambda: 1 / 0, scope="session")\n',
    'avoided': '@slash.requires(lambda: False)\ndef test_a():\n    pass\nclass T(slash.Test):\n    def before(self):\n        slash.skip_test()\n    def test_b(self):\n        pass\n',
    'cyclic': '@slash.fixture\ndef a(b):\n    pass\n@slash.fixture\ndef b(a):\n    pass\ndef test_a(a):\n    pass\n',
}


def run_prior(kinds):
    import gossip
    import tempfile
    for k, kind in enumerate(kinds):
        d = tempfile.mkdtemp(prefix='prior')
        with open(os.path.join(d, 'test_prior_{}.py'.format(kind)), 'w') as f:
            f.write('import slash\n' + PRIOR[kind])
        run_app([d] + (['-x'] if k else []), cwd=d)
        gossip.unregister_token('prior')


def run(spec, root=None):
    """Writes and runs the suite; returns the observation"""
    from vp import vpmon
    import slash
    root = root or os.getcwd()
    root = os.path.realpath(root)
    write(spec, root)
    if spec.get('prior'):
        run_prior(spec['prior'])
    vpmon.ACTIONS.update(spec.get('actions', {}))
    vpmon.register_hooks(spec.get('hooks'))
    ctx_before = repr((slash.context.session, slash.context.test, slash.context.result, slash.context.test_id))
    got = {}

    def callback(app):
        got['app'] = app
    app, console, escaped = run_app([root] + list(spec.get('argv', ())), cwd=root, callback=callback)
    app_obj = app or got.get('app')
    obs = {'console': console, 'escaped': repr(escaped) if escaped is not None else None,
           'exit_code': app.exit_code if app is not None else None, 'interrupted': app.interrupted if app is not None else None}
    session = app_obj.session if app_obj is not None else None
    tests, ids = [], {}
    loaded = sorted([t for batch in vpmon.LOADED for t in batch], key=lambda t: (t.__slash__.repeat_all_index, t.__slash__.get_sort_key()))
    for t in loaded:
        md = t.__slash__
        ids[id(t)] = len(tests)
        ids['md', id(md)] = len(tests)
        res = session.results.safe_get_result(t)
        tests.append({
            'address': md.address.replace(root + '/', ''), 'file': os.path.relpath(md.file_path, root), 'factory': md.factory_name,
            'method': t.get_address_in_factory()[1:], 'values': {k: v for k, v in t.get_variation().values.items()},
            'index': md.test_index0, 'id': md.id, 'result': None if res is None else result_obs(res)})
    obs['tests'] = tests
    events = []
    for e in vpmon.EV:
        c = dict(e['c'])
        if c['T'] is not None:
            c['T'] = ids.get(c['T'], '?')
        if c['R'] not in (None, 'G'):
            c['R'] = ids.get(('md', c['R']), '?')
        tid = c.pop('TID')
        c['TID'] = None if tid is None else next((i for i, t in enumerate(tests) if t['id'] == tid), '?')
        e = dict(e, c=c)
        if e.get('res') not in (None, 'G'):
            e['res'] = ids.get(('md', e['res']), '?')
        if 'msg' in e:
            e['msg'] = ident(e['msg'])
        events.append(e)
    obs['events'] = events
    if session is not None:
        r = session.results
        obs['global'] = result_obs(r.global_result)
        obs['totals'] = {
            'results': len(r), 'num_results': r.get_num_results(), 'started': r.get_num_started(), 'successful': r.get_num_successful(),
            'errors': r.get_num_errors(), 'failures': r.get_num_failures(), 'skipped': r.get_num_skipped(),
            'skipped_run': r.get_num_skipped(include_not_run=False), 'not_run': r.get_num_not_run(), 'is_success': r.is_success(),
            'is_success_skips': r.is_success(allow_skips=True), 'interrupted': r.is_interrupted(), 'fatal': r.has_fatal_errors(),
            'complete': session.is_complete()}
        obs['result_order'] = [ids.get(('md', id(x.test_metadata)), '?') for x in r.iter_test_results()]
    obs['ctx_restored'] = ctx_before == repr((slash.context.session, slash.context.test, slash.context.result, slash.context.test_id))
    return obs


def run_cli(argv, cwd=None):
    """Runs the slash command line in this process; returns (exit code, stdout, stderr, escaped exception or None)"""
    import contextlib
    import sys
    from slash.frontend import main
    out, err = io.StringIO(), io.StringIO()
    prev_argv, prev_cwd = sys.argv, os.getcwd()
    sys.argv = ['slash'] + [str(a) for a in argv]
    code = escaped = None
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                code = main.main()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:  # pylint: disable=broad-except
                escaped = e
                code = 1
    finally:
        sys.argv = prev_argv
        os.chdir(prev_cwd)
    return code, out.getvalue(), err.getvalue(), escaped
