"""Replaying histories of GenSession into the policy authority."""
from pa import *

UIDS = ['urn:aa', 'urn:bb', 'http://a.example/x', 'URN:AA', 'urn:aa ', 'a\xe9', 'x', '\u4e16\u754c', "o'x", '%', 'urn:aa/']
ADDRS = ['10.0.0.1', '::1', 'unix', '192.168.0.255', '2001:db8::1']
SVCS = ['urn:s', '', 'svc', 'caf\xe9', "a'b", 'x' * 90]


def atts(r, n=None):
    return [('/a/%d' % i, r.randrange(6), r.choice(['v', '', '1', '\u4e16']), r.choice(['n', ''])) for i in range(r.choice([0, 1, 3]) if n is None else n)]


class World:
    """The pool of GenSession made concrete: issuers, keys, serials, moments."""
    def __init__(self, r, clock=None):
        self.r = r
        self.uid = r.sample(UIDS, 3)
        self.ks = r.sample([1, 2, 3, 4, 5, 6], 3) if r.random() < .85 else r.sample([1, 2, 7, 8], 3)
        self.kf = [r.choice([pem, der]) for _ in range(3)]
        self.serial = [r.choice([r.getrandbits(160), r.getrandbits(8), 2**160 - 1 - i, r.getrandbits(152)]) for i in range(12)]
        self.serial = [s if self.serial.index(s) == i else s ^ (i + 1) for i, s in enumerate(self.serial)]
        self.unit = r.choice([1, 1, 10, 3600, 100000])
        self.t0 = clock or r.choice([1500000000, 1400000000 + r.randrange(10**8), 2**31 - 10**7])
        self.made = {}

    def at(self, n):
        return self.t0 + self.unit * n

    def cert(self, n):
        """Certificate n of the pool as bytes."""
        if n in self.made:
            return self.made[n]
        r = self.r
        s, i, k, ok, a, b = {1: (1, 1, 1, 1, 0, 4), 2: (2, 1, 1, 1, 1, 9), 3: (1, 1, 1, 1, 0, 6), 4: (4, 2, 2, 1, 0, 9), 5: (5, 1, 3, 1, 0, 9), 6: (6, 1, 1, 0, 0, 9), 7: (1, 1, 1, 1, 0, 4),
                             8: (8, 3, 1, 1, 0, 9), 9: (1, 2, 2, 1, 0, 9), 10: (10, 1, 1, 1, 3, 5)}[n]
        bd = body(self.serial[s], self.uid[i - 1], self.kf[k - 1](self.ks[k - 1]), max(0, self.at(a) + r.choice([0, 0, -5, 5])), self.at(a), self.at(b), atts(r),
                  rurl=r.choice(['', 'http://r']), rex=r.choice([b'', b'x']), dele=r.choice([b'', b'd']), exts=r.choice([(), (('e', b'1'),)]))
        d = signed(bd, self.ks[k - 1], r.choice([LABEL, LABEL, b'other']))
        if not ok:
            d = bytearray(d)
            w = r.randrange(4)
            if w == 0:
                d[-1 - r.randrange(60)] ^= 1 << r.randrange(8)                              # the signature
            elif w == 1:
                d[len(bd) - 1 - r.randrange(2, 8)] ^= 1                                        # the end of the content
            elif w == 2:
                i = bytes(d).index(self.at(b).to_bytes(4, 'little'))
                d[i] ^= 1                                                                      # the validity
            else:
                d = bytearray(signed(bd, [x for x in (1, 2, 3, 4) if x != self.ks[k - 1]][0]))     # signed with another key than it names
            d = bytes(d)
        self.made[n] = d
        if n == 7 or n == 1:
            self.made[1] = self.made[7] = d
        return d

    def give(self, n):
        if ('g', n) not in self.made:
            f = self.r.choice([0, 0, 3, 4])
            if n == 7:
                f = self.r.choice([x for x in (0, 3, 4) if x != self.give(1).fmt])
            self.made[('g', n)] = G(self.cert(n), f)
        return self.made[('g', n)]

    def registry(self):
        return [entry(self.uid[i], self.ks[i], 1 + self.r.choice([0, 0, 4, 99])) for i in (0, 1)]


def replay(ck, r, hist, asp, **kw):
    w = World(r)
    reg = w.registry()
    if r.random() < .3:
        reg.append(entry('urn:other', 6, 5))
    p = PA(ck, reg, asp, level=r.choice(['DEBUG', 'ERROR']), clock=w.at(2))
    now = 2

    def start(q, **more):
        return p.start([w.give(n) for n in q], r.choice(SVCS), r.choice(ADDRS), **more)
    for k, a, b in hist:
        if k == 'start':
            start(a, tick=r.choice([0, 0, 0, .3]) if w.unit > 1 else 0)
        elif k == 'fail':
            e = start(a, fail=b)
            if r.random() < .5:
                start(a)
        elif k == 'nest':
            start(a, meanwhile=(r.randrange(len(a)), lambda: start(b)))
        elif k == 'trust':
            p.reg[a[0] - 1]['trust'] = b if b <= 0 else r.choice([1, 2, 100])
            if b == -1 and r.random() < .5:
                gone = p.reg[a[0] - 1]
                p.reg[a[0] - 1] = entry('urn:gone%d' % a[0], 5, 3)
                p.registry()
                p.reg[a[0] - 1] = gone
                if hist[-1][0] == 'start':
                    start(hist[-1][1])
            p.registry()
        elif k == 'rekey':
            e = p.reg[a[0] - 1]
            e.update(key=w.ks[b - 1], pub=pem(w.ks[b - 1]).decode())
            p.registry()
        elif k == 'tick':
            now += b
            CLOCK.now = float(w.at(now))
        elif k == 'restart':
            p.restart()
    return p.case()


def histories(ck, asp, quick2, quickset, quicknest, long, thorough3=14000):
    r = ck.rng
    ck.design('GenSession', 'MCSession.cfg')
    ck.exhaustive_parts.append('GenSession: the abstract authority, all histories of 4 actions with sets of up to 2 certificates (invariants Sound, OneSerial, Kept)')

    def go(cfg, n, what, args=()):
        g = ck.generate('GenSession', cfg, workers=4 if not args else 1, args=args)
        g.sort(key=str)
        if n is not None and n < len(g):
            g = r.sample(g, n)
        for i in range(0, len(g), 2000):
            ck.validate('TraceSession', [replay(ck, r, h, asp) for h in g[i:i + 2000]], describe, what=what)
    go('GenSession2.cfg', ck.pick(quick2, None), 'short histories enumerated from the specification')
    go('GenSessionSet.cfg', ck.pick(quickset, None), 'short histories with sets of certificates')
    go('GenSessionNest.cfg', ck.pick(quicknest, 10000), 'requests inside requests and failing statements')
    if not ck.quick:
        go('GenSession3.cfg', thorough3, 'histories of three actions')
    n = ck.pick(long, long * 40)
    go('GenSessionLong.cfg', None, 'long histories simulated from the specification', ['-simulate', 'num=%d' % n, '-depth', '13', '-seed', str(ck.seed + 11)])
