"""P28: configuration values come from the most specific place that sets them."""
from world import *
import world

SETTINGS = ['X', 'AAUTH_ID', 'LOG_NAME', 'LOG_LEVEL', 'DB_USER', 'SERVICE_HOST', 'DB_TYPE', 'SERVICE_PORT', 'CLEAN_LOG_ON_START', 'LOG_FORMAT', 'SQL_LOG_FILE', 'KEY_SIZE', 'DB_PASS', 'A_1']
SECTS = ['AAUTH', 'PAUTH', 'LADON', 'TOOLS', 'X', 'AAUTH_TEST', 'A B', 'LOG_NAME', 'DEFAULTS']
VALUES = ['v', '0', 'None', 'True', 'a b', 'x=y', 'x:y', '\u4e16', '100%', 'C:\\x', '# no comment', '; none', '[X]', "'q'", '"q"', '"', '"a b" c', '/a/', 'a,b', '$HOME', '~', 'on', '007', 'v' * 200, 'DEFAULT', '%(x)s']


def cased(r, s):
    return r.choice([s, s.lower(), s.title(), ''.join(r.choice([ch.lower(), ch.upper()]) for ch in s)])


def write(r, conf):
    """conf: {section: {setting: value}} as an ini file, in some order, spelling and spacing."""
    out = []
    names = list(conf)
    r.shuffle(names)
    for s in names:
        out.append('[%s]' % s)
        items = list(conf[s].items())
        r.shuffle(items)
        for k, v in items:
            if r.random() < .1:
                out.append(r.choice(['# comment = x', '; x', '']))
            out.append(cased(r, k) + r.choice(['=', ' = ', ':', ': ', '= ']) + v.replace('%', '%%'))
    return '\n'.join(out) + r.choice(['\n', ''])


class Conf:
    def __init__(self, r, service, client):
        self.ev = []
        self.m = Modules({})
        world._CONF['services.ini'], world._CONF['clients.ini'] = write(r, service), write(r, client)
        self.c = self.m.config
        flat = lambda d: [{'sect': codes(s), 'name': codes(k), 'val': codes(v)} for s, x in d.items() for k, v in x.items()]
        self.start = {'service': flat(service), 'client': flat(client)}

    def ask(self, name, side, sect, short=False):
        k, v = call(self.c.get_conf, name, *([] if short else [side, sect]))
        got = [] if k == 'ok' and v is None else [codes(v)] if k == 'ok' and isinstance(v, str) else [[-1]]
        self.ev.append({'name': codes(name), 'side': True if short else side, 'sect': codes('DEFAULT' if short else sect), 'got': got})

    def case(self):
        return dict(self.start, ev=self.ev)


def pattern(r, p):
    """One setting present as told by GenConf, next to others that must not matter."""
    name = r.choice(SETTINGS)
    a, b = r.sample(SECTS, 2)
    sides = {'s': {'DEFAULT': {}}, 'c': {'DEFAULT': {}}}
    vals = r.sample(VALUES, 6)
    for i, place in enumerate(('sA', 'sB', 'sD', 'cA', 'cB', 'cD')):
        w = p[place]
        sect = {'A': a, 'B': b, 'D': 'DEFAULT'}[place[1]]
        if w >= 0:
            d = sides[place[0]].setdefault(sect, {})
            if w:
                d[name] = '' if w == 1 else vals[i]
            if r.random() < .3:
                o = r.choice([x for x in SETTINGS if x != name])
                d[o] = r.choice(VALUES)
    for x in sides.values():
        if not x['DEFAULT'] and r.random() < .5:
            del x['DEFAULT']
    c = Conf(r, sides['s'], sides['c'])
    q = [(side, z) for side in (True, False) for z in (a, b, 'DEFAULT', 'NOWHERE')]
    r.shuffle(q)
    for side, z in q + r.sample(q, 2):
        c.ask(cased(r, name), side, cased(r, z))
    c.ask(cased(r, name), True, 'DEFAULT', short=True)
    return c.case()


def random_conf(r):
    side = lambda: {s: {k: r.choice(VALUES + ['']) for k in r.sample(SETTINGS, r.choice([0, 1, 4, 8]))} for s in r.sample(SECTS, r.choice([0, 1, 3, 6])) + (['DEFAULT'] if r.random() < .7 else [])}
    c = Conf(r, side(), side())
    for _ in range(r.choice([10, 30])):
        c.ask(cased(r, r.choice(SETTINGS + ['NOTHING', ''])), r.choice([True, False]), cased(r, r.choice(SECTS + ['DEFAULT', 'DEFAULT', 'NO SUCH', ''])))
    return c.case()


ALL = ['DB_TYPE', 'DB_NAME', 'DB_USER', 'DB_PASS', 'DB_PORT', 'DB_HOST', 'LOG_LEVEL', 'LOG_FILE', 'LOG_FORMAT', 'LOG_DATE_FORMAT', 'LOG_NAME', 'LOG_STDOUT', 'SQL_LOG_LEVEL', 'SQL_LOG_FILE',
       'SQL_LOG_FORMAT', 'SQL_LOG_DATE_FORMAT', 'SQL_LOG_STDOUT', 'CLEAN_LOG_ON_START', 'SERVICE_ENABLED', 'SERVICE_PORT', 'SERVICE_HOST', 'KEY_SIZE', 'CLIENT_TYPE']


def builtin(r, conf):
    c = Conf(r, *conf)
    for name in ALL:
        for side in (True, False):
            for z in ('DEFAULT', 'AAUTH', 'EMPTY'):
                c.ask(name, side, z)
    return c.case()


def describe(cs):
    t = lambda x: ''.join(map(chr, x)) if x != [-1] else '?'
    f = lambda d: ['[%s] %s=%r' % (t(x['sect']), t(x['name']), t(x['val'])) for x in d]
    return {'service': f(cs['service']), 'client': f(cs['client']), 'asked': ['%s %s %s -> %r' % (t(e['name']), e['side'], t(e['sect']), [t(v) for v in e['got']]) for e in cs['ev'][:40]]}


def run(ck):
    r = ck.rng
    g = sorted(ck.generate('GenConf', 'GenConf.cfg', workers=4), key=str)
    ck.exhaustive_parts.append('all %d ways a setting can be present, empty or missing in two sections and the default section of both sides' % len(g))
    for _ in range(ck.pick(1, 12)):
        ck.validate('TraceConf', [pattern(r, p) for p in g], describe, what='every way a setting can be present')
    ck.validate('TraceConf', [random_conf(r) for _ in range(ck.pick(300, 10000))], describe, what='any configurations')
    ck.validate('TraceConf', [builtin(r, x) for x in (({}, {}), ({'EMPTY': {}}, {'EMPTY': {}}), ({'AAUTH': {k: 's' for k in ALL}}, {}), ({}, {'AAUTH': {k: 'c' for k in ALL}}),
                                                      ({'DEFAULT': {k: '' for k in ALL}}, {'DEFAULT': {'X': '1'}}), ({'DEFAULT': {'X': '1'}}, {'DEFAULT': {k: '' for k in ALL}}))], describe, what='built-in defaults')
