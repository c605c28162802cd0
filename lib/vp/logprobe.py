"""Probe for C18: messages with unique ids are emitted through this module, which notes what was the current test then"""
import gzip
import json
import os
import re
import threading

CASE = {}
COUNT = [0]
_lock = threading.Lock()


def load(path):
    with open(path) as f:
        CASE.update(json.load(f))


def write(e):
    with _lock, open(os.path.join(os.environ['VP_LOG'], 'events-{}'.format(os.getpid())), 'a') as f:
        f.write(json.dumps(e) + '\n')


def where():
    import slash
    c = slash.context
    s = c.session
    d = {'session': None if s is None else s.id, 'test': None}
    if c.test is not None:
        m = c.test.__slash__
        d['test'] = {'id': m.id, 'index0': m.test_index0, 'address': m.address, 'cls': c.test_classname, 'method': c.test_methodname}
    return d


def emit(site, spec):
    """Emits one message as spec says: {channel, level, highlight, bypass, thread, text}"""
    import logbook
    import slash
    with _lock:
        COUNT[0] += 1
        mid = '{}x{}'.format(os.getpid(), COUNT[0])
    logger = slash.logger if spec['channel'] is None else logbook.Logger(spec['channel'])
    extra = {}
    if spec.get('highlight'):
        extra['highlight'] = True
    if spec.get('bypass'):
        extra['filter_bypass'] = True
    if spec['level'] in ('error', 'critical'):
        extra['capture'] = False

    def do():
        text = 'VPM{};{}'.format(mid, spec['text'])
        if spec.get('args'):
            getattr(logger, spec['level'])('VPM{};{} {!r}', mid, spec['text'], 5, extra=extra)
        else:
            getattr(logger, spec['level'])(text.replace('{', '{{').replace('}', '}}') if spec.get('fmt') else text, extra=extra)
    write(dict(where(), kind='emit', id=mid, site=site, spec=spec, thread=bool(spec.get('thread'))))
    if spec.get('thread'):
        t = threading.Thread(target=do)
        t.start()
        t.join()
    else:
        do()


def site(name):
    for spec in CASE['sites'].get(name, ()):
        emit(name, spec)


def fault(name):
    """A token naming an error which is about to be raised or added"""
    with _lock:
        COUNT[0] += 1
        tok = 'VPE{}x{}!'.format(os.getpid(), COUNT[0])
    write(dict(where(), kind='fault', token=tok, site=name))
    return tok


def read(path):
    with open(path, 'rb') as f:
        data = f.read()
    if path.endswith('.gz'):
        data = gzip.decompress(data)
    elif path.endswith('.br'):
        import brotli
        data = brotli.decompress(data)
    return data.decode('utf-8')


def ids(path):
    """Message ids found in a file, in order, and error tokens"""
    try:
        text = read(path)
    except Exception as e:  # pylint: disable=broad-except
        return {'failed': repr(e)}
    return {'ids': re.findall(r'VPM(\d+x\d+);', text), 'errors': sorted(set(re.findall(r'VPE\d+x\d+!', text))), 'text': None,
            'cut': sorted({i for i, x in re.findall(r'VPM(\d+x\d+);(x+)', text) if len(x) != 400})}


def closed(path, result):
    import slash
    s = slash.context.session
    g = result.is_global_result()
    write(dict(where(), kind='closed', path=path, exists=os.path.isfile(path), is_global=g, result_id=None if g else result.test_metadata.id,
               success=s.results.is_success(allow_skips=True) if g else result.is_success(allow_skips=True), content=ids(path) if os.path.isfile(path) else None))


def links(at):
    d = {}
    for name, path in CASE['links'].items():
        d[name] = os.readlink(path) if os.path.islink(path) else None
    write(dict(where(), kind='links', at=at, links=d))


def results():
    import slash
    s = slash.context.session
    out = []
    for r in s.results.iter_test_results():
        out.append({'id': r.test_metadata.id, 'started': r.is_started(), 'path': r.get_log_path(), 'raw_path': r.get_log_path(), 'link': r.details.all().get('log_link'), 'bad': r.is_error() or r.is_failure(), 'skips': len(r.get_skips()), 'index0': r.test_metadata.test_index0, 'dir': r.get_log_dir()})
    g = s.results.global_result
    write({'kind': 'results', 'worker': slash.config.root.parallel.worker_id, 'session': s.id, 'tests': out, 'path': g.get_log_path(), 'paths': list(g.get_log_paths()), 'success': s.results.is_success(allow_skips=True), 'active': sorted(s.logging.get_active_log_paths())})
