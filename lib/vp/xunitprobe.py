"""Snapshots of the results of a session, for C20"""
import json
import os


def text(x):
    try:
        return str(x)
    except Exception:  # pylint: disable=broad-except
        return None


def errors(res):
    return [{'failure': e.is_failure(), 'message': text(e.message), 'type': e.exception_type.__name__ if e.exception_type else None} for e in list(res.get_errors()) + list(res.get_failures())]


def shape(v):
    if isinstance(v, dict):
        return ['d', [[text(k), shape(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return ['l', [shape(x) for x in v]]
    return ['t', text(v)]


def snapshot(session):
    r = session.results
    out = {'global': errors(r.global_result), 'tests': [], 'totals': {'tests': r.get_num_results(), 'errors': r.get_num_errors(), 'failures': r.get_num_failures(), 'skipped': r.get_num_skipped(include_not_run=False)}}
    for res in r.iter_test_results():
        out['tests'].append({'address': res.test_metadata.address, 'class': res.test_metadata.class_name, 'started': res.is_started(), 'errors': errors(res), 'skips': [s if s is None else text(s) for s in res.get_skips()],
                             'details': [(text(k), [shape(x) for x in (v if isinstance(v, list) else [v])]) for k, v in res.details.all().items()]})
    return out


def dump(name):
    import slash
    if slash.config.root.parallel.worker_id is None:
        with open(os.path.join(os.environ['VP_XUNIT'], name), 'w') as f:
            json.dump(snapshot(slash.context.session), f)
