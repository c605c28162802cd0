"""Stand-ins for the network of the notifications plugin: they record what would have been sent, or fail as planned.

Loaded from the user customization file, in the parent and in every worker; records go to the file named by VP_NOTE, one JSON object per line"""
import json
import os

PLAN = {}


def put(**kw):
    kw['pid'] = os.getpid()
    with open(os.environ['VP_NOTE'], 'a', encoding='utf-8') as f:
        f.write(json.dumps(kw, default=repr) + '\n')


class Broken(Exception):
    pass


def fail(name):
    how = PLAN['fail'].get(name)
    if how == 'value':
        raise Broken('notifier {} {{is}} broken'.format(name))
    if how == 'os':
        raise OSError(111, 'refused')
    return how


def which(url):
    for name in ('prowl', 'notifymyandroid', 'pushbullet', 'slack'):
        if name in url:
            return {'notifymyandroid': 'nma'}.get(name, name)
    return url


def http_send(self, request, **_):
    import requests
    name = which(request.url)
    body = request.body
    if isinstance(body, bytes):
        body = body.decode('utf-8')
    put(kind='http', name=name, url=request.url, method=request.method, body=body, type=request.headers.get('Content-Type'), auth=request.headers.get('Authorization'))
    how = fail(name)
    if how == 'connection':
        raise requests.ConnectionError('no network')
    r = requests.Response()
    r.status_code = 500 if how == 'status' else 200
    r.url = request.url
    r.request = request
    r._content = b'ok'
    return r


class SMTP(object):
    """Takes the place of smtplib.SMTP"""

    def __init__(self, host='', port=0, *args, **kw):
        self.host = host
        if PLAN['fail'].get('email'):
            put(kind='mail', name='email', host=host, to=None, text=None, sender=None)
            fail('email')
            import smtplib
            raise smtplib.SMTPConnectError(421, 'no service')

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return None

    def sendmail(self, from_addr, to_addrs, msg, *_, **__):
        put(kind='mail', name='email', host=self.host, sender=from_addr, to=[to_addrs] if isinstance(to_addrs, str) else list(to_addrs), text=msg.decode() if isinstance(msg, bytes) else msg)
        return {}

    def send_message(self, msg, from_addr=None, to_addrs=None, *_, **__):
        to = to_addrs or [a for h in ('To', 'Cc', 'Bcc') for a in (msg[h] or '').split(', ') if a]
        return self.sendmail(from_addr or msg['From'], to, msg.as_string())

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **k: (250, b'ok')


def install():
    path = os.environ.get('VP_NOTE')
    if not path:
        return
    with open(path + '.plan', encoding='utf-8') as f:
        PLAN.update(json.load(f))
    import gossip
    import pdb
    import smtplib
    import requests.adapters
    import slash
    requests.adapters.HTTPAdapter.send = http_send
    smtplib.SMTP = SMTP
    pdb.post_mortem = lambda *a, **k: put(kind='pdb')
    for name, value in PLAN['config'].items():
        slash.config.assign_path('plugin_config.notifications.' + name, value)

    def prepare(message):
        from slash.ctx import context
        put(kind='prepare', title=message.get_title(), short=message.get_short_message(), pdb=message.is_pdb, results=repr(context.session.results).strip('<>'), worker=slash.config.root.parallel.worker_id)
        for k, v in PLAN['details']:
            message.details_dict[k] = v
    gossip.register(prepare, 'slash.prepare_notification', token='noteprobe')

    def entering(exc_info):
        put(kind='entering', exc=None if exc_info[1] is None else repr(exc_info[1]))
    gossip.register(entering, 'slash.entering_debugger', token='noteprobe')

    def ended():
        from slash.ctx import context
        put(kind='ended', worker=slash.config.root.parallel.worker_id)
    gossip.register(ended, 'slash.after_session_end', token='noteprobe')
