"""P27: clients never take a failed reply for a result nor send their private key."""
from client import *

URLS = ['http://localhost:8888/AttributeAuthority/jsonwsp/description', 'http://a.example/x', 'https://b.example:1/y?z', '', '\u4e16']
LISTS = [None, [], ['*'], ['a'], ['/a/b', 'c', 'c'], [None], ['\xe9', "o'x"], ['a'] * 20]
CREDS = [None, None, {'type': 0, 'username': 'eve', 'password': 'x'}, {'type': 0, 'username': '', 'password': ''}, {'type': 5, 'username': 'a', 'password': '\u4e16', 'extra': [1]}, {}]
CERTS = [[], [{'data': 'x', 'version': 1, 'format': 0}], [{'data': 'x', 'version': 1, 'format': 0}, {'data': 'y', 'version': 1, 'format': 3}], None]


def replay(ck, r, side, hist, made=True):
    conf = {'url': r.choice(URLS[:3]), 'bits': 1024, 'type': r.choice(['0', '1', 'x']), 'user': r.choice(['dan', '', '\xe9', 'a b']), 'pass': r.choice(['admin', '', 'x=y', '\u4e16']),
            'who': r.choice(['urn:s', '', 'caf\xe9']), 'level': r.choice(['DEBUG', 'ERROR'])}
    c = Client(ck, side, conf, r.choice(CREDS) if side == 'aa' else None, r)
    urls = r.sample(URLS, 2)
    ks = r.sample([1, 2, 3, 7, 8], 2)
    broken = False
    for op, a, rep in hist:
        if op == 'attribute_request':
            k = ks[a - 1] if a else 0
            if a and r.random() < .15:
                k = -k
            if not a and not made:
                k = r.choice([1, 2, 3, 7, 8])
            c.ask(rep, k, r.choice(LISTS), r.choice(LISTS))
        elif op == 'update':
            if a == -1:
                c.update(r.choice([None, 'http://never']), r.choice(['SOAP', 'jsonwsp', '', 'JSONWSP ']))
                broken = True
            elif a == 0 and not broken:
                c.update(None, r.choice([None, 'JSONWSP']))
            else:
                u = urls[max(a, 1) - 1]
                c.update(u, 'JSONWSP' if broken else r.choice([None, 'JSONWSP']))
                broken = False
        else:
            c.other(op, rep, r.choice(CERTS))
    return c.case()


def run(ck):
    r = ck.rng
    for side in ('aa', 'pa'):
        ck.design('GenClient', 'GenClient3%s.cfg' % side)
        for cfg, n, what in (('GenClient2%s.cfg' % side, ck.pick(300, None), 'short histories enumerated from the specification'),
                             ('GenClient3%s.cfg' % side, ck.pick(400, 20000), 'histories of three calls')):
            g = sorted(ck.generate('GenClient', cfg, workers=4), key=str)
            if n is not None and n < len(g):
                g = r.sample(g, n)
            for i in range(0, len(g), 2000):
                ck.validate('TraceClient', [replay(ck, r, side, h, made=r.random() < ck.pick(.4, .3)) for h in g[i:i + 2000]], describe, what=what)
        n = ck.pick(40, 1500)
        g = ck.generate('GenClient', 'GenClientLong%s.cfg' % side, args=['-simulate', 'num=%d' % n, '-depth', '14', '-seed', str(ck.seed + 3)])
        ck.validate('TraceClient', [replay(ck, r, side, h, made=r.random() < .3) for h in g], describe, what='long histories simulated from the specification')
