"""Replaying histories of GenIssue into the attribute authority, with names, values and settings of all kinds."""
from aa import *

NAMES = ['dan', 'eve', 'bob smith', 'jos\xe9', 'o\'hara', 'x', 'user_1', 'a%b', '"q"', 'n' * 60, '\u4e16\u754c', 'dan2', 'da', '0', 'strasse', 'office', 'danr']
PASSWORDS = ['admin', 'Admin', 'admin ', 'x y', '', 'p' * 60, 'p' * 61, '\u4e16\u754c', 'pass\tword', '%s', 'None', "' OR '1'='1", '0', 'ADMIN', '\xe9']
STRANGE = ["' OR '1'='1", '%', '_an', 'dan ', ' dan', 'd*n', '', 'nobody', 'admin', 'dan\x00', 'x' * 300, 'stra\xdfe', 'o\ufb03ce', 'da\u0144', '\uff44an']
ATTS = [('/att/age', 'age', 'INT'), ('/att/name', 'name', 'STRING'), ('/att/w', 'weight', 'FLOAT'), ('/att/on', 'on', 'BOOL'), ('/att/set', 'groups', 'SET'),
        ('/att/nul', 'nothing', 'NULL'), ('AGE', 'Age', 'INT'), ('age', 'Name', 'STRING'), ('urn:x/\xe9', 'caf\xe9', 'STRING'), ('/att/con', 'con_time', 'INT'),
        ('remote_addr', 'remote_addr', 'STRING'), ('/att/long', 'l' * 100, 'STRING'), ('a b', ' a b', 'STRING'), ('name', 'ids', 'SET'), ('%', '_', 'STRING')]
VALUES = ['31', '0', 'False', '', 'Eve', '*', 'None', '\u4e16\u754c', ' x ', '{1, 2}', 'v' * 300, "it's", '-1.5', 'a\x00b', '1', '31.0', 'NULL', '%d', '\xe9']
IDLE = [0, 0, 1, 59, 3600, 86399, 86400 * 30]


def case_of(r, s):
    return ''.join(ch.upper() if 'a' <= ch <= 'z' and r.random() < .5 else ch for ch in s)


def settings(r):
    return {'uri': r.choice(['urn:aa', 'http://a.example/x', 'http://a.example/', 'u', 'a\xe9']), 'name': r.choice(['authority', 'A B', '\u4e16', 'x']), 'len': r.choice([1, 60, 3600, 86400, 10**7]),
            'key': r.choice([1, 2, 3, 4, 5, 6, 7, 8]), 'rev': r.choice(['', '', ' ', 'http://r/x', 'ldap:x']), 'host': r.choice(['', ' ', 'example.org', '10.1.2.3']),
            'port': r.choice(['8888', '80', '1'])}


def moment(r):
    return r.choice([r.randrange(10**8, 2 * 10**9), 951782400 + r.randrange(86400), 1582934400 + r.randrange(2 * 86400), 1483228800 + r.randrange(-5, 5), 1609459199, 0x7fffffff - 2 * 10**7,
                     4102444800 % 2**31])


def setup(ck, r, asp, users=3, atts=3, conf=None, level=None, clock=None):
    # accounts and attributes as in Init of GenIssue
    names = r.sample(NAMES, users)
    pws = r.sample(PASSWORDS, users)
    alist = r.sample(ATTS, atts)
    vals = r.sample(VALUES, 3)
    own = [[2 + u if a in (0, u) else 0 for a in range(atts)] for u in range(users)]
    x = AA(ck, conf or settings(r), list(zip(names, pws)), alist, [], asp, pepper=r.choice(['pepper', '', 'x']), level=level or r.choice(['DEBUG', 'INFO', 'ERROR']),
           clock=clock or moment(r))
    x.own, x.vals, x.pws = own, vals, pws
    x.names = names
    assign(x)
    x._write()
    x.start.update(assign=x._assign(), db=x._db())
    return x


def assign(x):
    x.assign = [(u + 1, x.atts[a][0], None if v == 1 else x.vals[v - 2]) for u, row in enumerate(x.own) for a, v in enumerate(row) if v]


def form(x, r, w):
    i = lambda a: x.atts[a - 1][0]
    n = lambda a: x.atts[a - 1][1]
    junk = lambda: [r.choice([None, '', '*']) for _ in range(r.choice([0, 0, 1, 2]))]

    def mix(xs):
        xs = list(xs) + junk()
        r.shuffle(xs)
        return xs
    if w == 1:
        return [], []
    if w == 2:
        return mix([i(1)]), mix([])
    if w == 3:
        return mix([]), mix([n(1)])
    if w == 4:
        return mix([i(2)]), mix([])
    if w == 5:
        return (mix([i(1), i(2)]), mix([])) if r.random() < .5 else (mix([i(2)]), mix([n(1)]))
    if w == 6:
        return mix([i(1), i(1)]), mix([n(1)])
    if w == 7:
        return (['*'], []) if r.random() < .4 else (mix(['*']), mix([]))
    if w == 8:
        return mix([]), mix([n(2)])
    return mix([i(3)]) if len(x.atts) > 2 else ['no such'], mix([])


def remote(r):
    a = r.choice(['10.0.0.1', '255.255.255.255', '0.0.0.0', '192.168.1.20', '::1', 'fe80::1:2%eth0', '2001:db8:0:0:1:0:0:1', '::ffff:10.1.2.3', '2001:DB8::A', '::',
                  '1:2:3:4:5:6:7:8', 'localhost', 'unix', '1:2:3:4:5:6:7::', '::2:3:4:5:6:7:8', 'ffff::ffff', '1::', '0001:02::0'])
    out = {'remote_addr': a}
    for f in ('remote_host', 'remote_ident', 'remote_user'):
        if r.random() < .4:
            out[f] = r.choice(['host.example', '', 'x', 'None', 'caf\xe9', 'a b'])
    return out


def args(x, r):
    return dict(key=r.choice([b'KEY', bytes(range(256)), b'x', b'-----BEGIN\r\n', bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 40])))]),
                cipher=r.choice(['RSA', 'DSA', 'x']), bits=r.choice([1024, 2048, 1, 4096]), remote=remote(r), tick=r.choice([0, 0, 0, .3, .7, .01]))


def replay(ck, r, hist, asp, **kw):
    n = max([2] + [e[k] for e in hist for k in (1, 3) if e[0] in ('req', 'nest', 'give', 'take') and not (k == 3 and e[0] != 'nest')])
    x = setup(ck, r, asp, users=max(n, kw.pop('users', 2)), **kw)
    pw = list(x.pws)

    def req(u, p, w, **more):
        name = case_of(r, x.names[u - 1]) if u else r.choice([s for s in STRANGE if s not in x.names])
        word = None if p == 9 else r.choice([s for s in PASSWORDS if s not in pw] + ['z' * 80, 'Q']) if p == 0 else pw[p - 1]
        ids, nms = form(x, r, w)
        a = args(x, r)
        a.update(more)
        CLOCK.now = float(int(CLOCK.now) + r.choice([0, 0, 0, 1, .9]))
        return x.request(name, word, ids, nms, **a)
    for e in hist:
        k = e[0]
        if k == 'req':
            req(e[1], e[2], e[3])
        elif k == 'nest':
            u, w, v, y = e[1:]
            req(u, u, w, at=r.choice(['public_key', 'cipher', 'key_size', 'password', 'username', 'attribute_ids', 'attribute_names']),
                meanwhile=lambda: req(v, v, y))
        elif k in ('give', 'take'):
            if e[2] > len(x.atts):
                continue
            x.own[e[1] - 1][e[2] - 1] = e[3] if k == 'give' else 0
            assign(x)
            x.change()
        elif k == 'swap':
            pw[0], pw[1] = pw[1], pw[0]
            x.accounts = list(zip(x.names, pw))
            x.change()
        elif k == 'restart':
            s = settings(r)
            x.restart(**({} if e[1] == 1 else s if e[1] == 2 else {q: s[q] for q in r.sample(sorted(s), 2)}))
        elif k == 'tick':
            CLOCK.now += r.choice(IDLE)
    return x.case()


def histories(ck, asp, quick2, long, thorough3=0):
    """Short histories enumerated by TLC from GenIssue and long ones simulated, replayed and judged."""
    r = ck.rng
    g = sorted(ck.generate('GenIssue', 'GenIssue2.cfg', workers=4))
    ck.exhaustive_parts.append('GenIssue: every history of 2 actions of the abstract authority (design invariants checked on all)')
    if ck.quick:
        g = r.sample(g, min(quick2, len(g)))
    ck.validate('TraceIssue', [replay(ck, r, h, asp, atts=2) for h in g], describe, what='short histories enumerated from the specification')
    if not ck.quick and thorough3:
        g = sorted(ck.generate('GenIssue', 'GenIssue3.cfg', workers=4))
        g = r.sample(g, min(thorough3, len(g)))
        for i in range(0, len(g), 4000):
            ck.validate('TraceIssue', [replay(ck, r, h, asp, atts=2) for h in g[i:i + 4000]], describe, what='histories of three actions')
    n = ck.pick(long, long * 25)
    g = ck.generate('GenIssue', 'GenIssueLong.cfg', args=['-simulate', 'num=%d' % n, '-depth', '15', '-seed', str(ck.seed + 5)])
    for i in range(0, len(g), 1000):
        ck.validate('TraceIssue', [replay(ck, r, h, asp, users=3) for h in g[i:i + 1000]], describe, what='long histories simulated from the specification')
