"""P36: the server offers exactly the enabled services, where it is told to listen."""
import runpy, wsgiref.simple_server
from world import *
import ladon.server.wsgi as W

HOSTS = ['', 'localhost', '0.0.0.0', '10.0.0.1', 'example.org', '::', ' ', 'Host.Example']
PORTS = ['8888', '80', '1', '65535', '0', '12345']
_import = importlib.import_module


class Server:
    def __init__(self, host, port, app):
        self.args, self.served = (host, port, app), False

    def serve_forever(self, *a, **kw):
        self.served = True

    def handle_request(self):
        self.served = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    server_close = shutdown = lambda self: None


def start(main):
    """hgaa.handler run as a program or imported, in a process of its own as far as the code can tell."""
    made = []

    def make(host, port, app, *a, **kw):
        made.append(Server(host, port, app))
        return made[-1]
    for k in [k for k in sys.modules if k == 'hgaa' or k.startswith('hgaa.')]:
        del sys.modules[k]
    W.APPS.clear()
    old, wsgiref.simple_server.make_server = wsgiref.simple_server.make_server, make
    try:
        def go():
            return runpy.run_module('hgaa.handler', run_name='__main__' if main else 'hgaa.handler', alter_sys=False)
        out = outcome(go)
    finally:
        wsgiref.simple_server.make_server = old
    e = {'main': main, 'ok': False, 'offered': [], 'served': [], 'missing': [], 'said': str(out[1:])[:300] if out[0] != 'ok' else ''}
    app = out[1].get('application') if out[0] == 'ok' else None
    if isinstance(app, W.LadonWSGIApplication):
        e['ok'] = True
        e['offered'] = [codes(str(x)) for x in app.services]
        for s in app.services:             # the web layer looks for the modules in the places it is told
            paths = [app.path] if isinstance(app.path, str) else list(app.path or [])
            if not any(os.path.exists(os.path.join(p, s + '.py')) for p in paths):
                e['missing'].append(codes(s))
        e['served'] = [{'host': codes(str(m.args[0])), 'port': codes(str(m.args[1])) if isinstance(m.args[1], int) else [-1], 'same': m.args[2] is app} for m in made if m.served]
    return e


def case(r, p):
    yes, no = ['True', 'true', 'TRUE', 'tRuE'], ['False', 'false', '', 'no', '0', 'None', 'off', 'Truly', 'yes']
    conf = {'DEFAULT': {}}
    for x, s in (('d', 'DEFAULT'), ('a', 'AAUTH'), ('b', 'PAUTH'), ('l', 'LADON')):
        if p[x] >= 0:
            conf.setdefault(s, {})
            if p[x]:
                conf[s]['SERVICE_ENABLED'] = r.choice(yes if p[x] == 1 else no)
            if s in ('AAUTH', 'PAUTH') and r.random() < .3:
                conf[s].update(SERVICE_HOST='nowhere', SERVICE_PORT='9')
    for s, q in (('LADON', .8), ('DEFAULT', .4)):
        if s in conf:
            if r.random() < q:
                conf[s]['SERVICE_HOST'] = r.choice(HOSTS)
            if r.random() < q:
                conf[s]['SERVICE_PORT'] = r.choice(PORTS)
    if 'LADON' in conf and r.random() < .5:
        conf['LADON']['LOG_LEVEL'] = r.choice(['ALL', 'WARN', 'INFO', 'ERROR', 'CRITICAL', 'x'])
    d = dict(conf, DEFAULT=dict(LOGGING, **conf['DEFAULT']))
    m = Modules({})
    import world
    world._CONF['services.ini'], world._CONF['clients.ini'] = ini(d), ini({'DEFAULT': {'LOG_STDOUT': 'False', 'SERVICE_ENABLED': 'False', 'SERVICE_PORT': '7'}})
    ev = [start(x) for x in r.choice([[True], [False], [True, False]])]
    # the values as the configuration file gives them, without blanks around
    return {'service': [{'sect': codes(s), 'name': codes(k), 'val': codes(v.strip())} for s, x in d.items() for k, v in x.items()], 'ev': ev}


def describe(cs):
    t = lambda x: ''.join(map(chr, x)) if x != [-1] else '?'
    return {'configuration': ['[%s] %s=%r' % (t(x['sect']), t(x['name']), t(x['val'])) for x in cs['service']],
            'starts': [dict(e, offered=[t(x) for x in e['offered']], served=[(t(x['host']), t(x['port']), x['same']) for x in e['served']]) for e in cs['ev']]}


def run(ck):
    g = sorted(ck.generate('GenServe', 'GenServe.cfg', workers=4), key=str)
    ck.exhaustive_parts.append('all %d ways the services can be enabled' % len(g))
    for _ in range(ck.pick(3, 40)):
        ck.validate('TraceServe', ck.pmap(case, g), describe, what='every way the services can be enabled')
