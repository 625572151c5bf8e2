"""P22: sessions are opened only on valid certificates of trusted issuers."""
from session import *
ASP = ['accept']


def good(r, w, t, serial, k=1, uid=0, **kw):
    """A certificate that is fine at moment t."""
    a, b = t - r.choice([1, 1, 5, 10**6]), t + r.choice([1, 2, 50, 10**6])
    a, b = kw.pop('after', a), kw.pop('before', b)
    return body(serial, kw.pop('named', w.uid[uid]), kw.pop('shown', w.kf[k - 1](w.ks[k - 1])), kw.pop('issued', max(0, a)), a, b, kw.pop('atts', None) or atts(r), **kw)


BAD = ['foreign', 'by name', 'otherkey', 'rekeyed', 'altered', 'cut', 'longer', 'late', 'early', 'edge', 'edge0', 'version', 'format', 'wrongformat', 'empty', 'junk', 'inner', 'near', 'nokey',
       'keyless', 'unsigned', 'empty window', 'distrusted', 'negative', 'swapped', 'wild']


def bad(r, w, t, serial, kind):
    """A certificate that is not fine at moment t, in one respect only."""
    k = w.ks[0]
    f = r.choice([0, 3, 4])
    b = good(r, w, t, serial)
    if kind == 'foreign':
        return G(signed(good(r, w, t, serial, named='urn:nobody'), k), f)
    if kind == 'by name':                        # names the issuer by what else is known of it
        return G(signed(good(r, w, t, serial, named=r.choice(['name of ', 'http://x/']) + w.uid[0]), k), f)
    if kind == 'near':
        u = w.uid[0]
        v = r.choice([u + ' ', ' ' + u, u.swapcase(), u + '\0', u[:-1], u + 'x', '', u * 2, '%'])
        return G(signed(good(r, w, t, serial, named=v if v not in w.uid else 'zz'), k), f)
    if kind == 'otherkey':                       # names the issuer, but brings and uses another key
        o = r.choice([x for x in range(1, 9) if x != k])
        return G(signed(good(r, w, t, serial, shown=r.choice([pem, der])(o)), o), f)
    if kind == 'swapped':                        # brings the issuer's key, is signed with another
        o = r.choice([x for x in range(1, 9) if x != k])
        return G(signed(b, o), f)
    if kind == 'rekeyed':                        # the issuer of one with the key of another, both trusted
        return G(signed(good(r, w, t, serial, shown=w.kf[1](w.ks[1])), w.ks[1]), f)
    if kind == 'altered':
        d = bytearray(signed(b, k))
        d[r.randrange(len(d))] ^= 1 << r.randrange(8)
        return G(bytes(d), f)
    if kind == 'cut':
        d = signed(b, k)
        return G(d[:-r.choice([1, 2, 64, 128, len(d) - 1])], f)
    if kind == 'longer':
        return G(signed(b, k) + r.choice([b'\0', b'x', b'\n', signed(b, k)]), f)
    if kind == 'late':
        return G(signed(good(r, w, t, serial, before=t - r.choice([1, 2, 10**6]), after=t - 2 * 10**6), k), f)
    if kind == 'edge':
        return G(signed(good(r, w, t, serial, before=t), k), f)
    if kind == 'early':
        return G(signed(good(r, w, t, serial, after=t + r.choice([1, 2, 10**6]), before=t + 2 * 10**6), k), f)
    if kind == 'edge0':
        return G(signed(good(r, w, t, serial, after=t, before=t + 5), k), f)
    if kind == 'empty window':
        return G(signed(good(r, w, t, serial, after=t + 1, before=t - 1), k), f)
    if kind == 'wild':
        return G(signed(good(r, w, t, serial, after=r.choice([0, t]), before=r.choice([0, t, 2**32 - 1]) if r.random() < .5 else t), k), f)
    if kind == 'version':
        g = G(signed(b, k), f)
        g.ver = r.choice([0, 2, -1, 255, 2**31])
        return g
    if kind == 'format':
        g = G(signed(b, k), f)
        g.fmt = r.choice([1, 2, 5, -1, 99])
        return g
    if kind == 'wrongformat':                    # said to be in another format than it is
        g = G(signed(b, k), f)
        g.fmt = r.choice([x for x in (0, 3, 4) if x != f])
        return g
    if kind == 'empty':
        return G(b'', r.choice([0, 3, 4]))
    if kind == 'junk':
        return G(bytes(r.randrange(256) for _ in range(r.choice([1, 60, 400]))), f)
    if kind == 'inner':                          # another version inside
        return G(signed(good(r, w, t, serial, ver=r.choice([0, 2, 255])), k), f)
    if kind == 'nokey':
        return G(signed(good(r, w, t, serial, shown=r.choice([b'', b'x', pem(k)[:-30], der(k)[1:]])), k), f)
    if kind == 'keyless':
        return G(signed(good(r, w, t, serial, named='urn:keyless'), k), f)
    if kind == 'unsigned':
        return G(r.choice([b, b + b'\0\0\0\0', signed(b, k, b'')]), f)
    if kind == 'distrusted':
        return G(signed(good(r, w, t, serial, named='urn:zero', shown=der(k)), k), f)
    if kind == 'negative':
        return G(signed(good(r, w, t, serial, named='urn:minus', shown=der(k)), k), f)


def fine(r, w, t, serial):
    u = r.choice([0, 1])
    kw = {}
    if r.random() < .2:
        kw['after'], kw['before'] = t - 1, t + 1
    if r.random() < .1:
        kw['after'], kw['before'] = 0, 2**32 - 1
    if r.random() < .1:
        kw['issued'] = r.choice([0, t + 5, 2**32 - 1])          # the moment of issue does not matter
    return G(signed(good(r, w, t, serial, k=u + 1, uid=u, **kw), w.ks[u], r.choice([LABEL, b'x'])), r.choice([0, 3, 4]))


def sets(ck, r, kinds):
    """Sets of fine certificates with one bad among them, at every place; alternating with fine ones."""
    w = World(r)
    t = w.t0 + r.randrange(1000)
    reg = w.registry() + [entry('urn:zero', w.ks[0], 0), entry('urn:minus', w.ks[0], -r.choice([1, 5])), entry('urn:keyless', 0, 7)]
    r.shuffle(reg)
    if r.random() < .3:
        for e in reg:
            e['pub'] += '\n'
    p = PA(ck, reg, ASP, level=r.choice(['DEBUG', 'ERROR']), clock=t)
    n = [100]

    def serial():
        n[0] += 1
        return r.getrandbits(150) * 1000 + n[0]
    for kind in kinds:
        m = r.choice([0, 0, 1, 1, 2, 3])
        gs = [fine(r, w, t, serial()) for _ in range(m)]
        gs.insert(r.randrange(m + 1), bad(r, w, t, serial(), kind))
        CLOCK.now = t + r.choice([0, .4, .99])
        p.start(gs, r.choice(SVCS), r.choice(ADDRS))
        if r.random() < .4:
            p.start([fine(r, w, t, serial()) for _ in range(r.choice([1, 2, 4]))], r.choice(SVCS), r.choice(ADDRS))
        if r.random() < .1:
            p.start([], 'x')
        if r.random() < .1:
            p.start(None, 'x')
        if r.random() < .1:
            p.start([], 'x', whole=True)
    return p.case()


def edges(ck, r):
    """One certificate around the edges of its window, second by second, on a standing or a moving clock."""
    w = World(r)
    t = w.t0
    p = PA(ck, w.registry(), ASP, clock=t)
    a, b = t + r.choice([0, 1, 3]), t + r.choice([3, 4, 5])
    g = G(signed(good(r, w, t, 77, after=a, before=b), w.ks[0]), r.choice([0, 3, 4]))
    g2 = fine(r, w, t + 3, 78)
    for s in sorted({a - 1, a, a + 1, b - 1, b, b + 1}):
        for d in (0, .5, .999):
            CLOCK.now = s + d
            q = [g] if r.random() < .6 else r.sample([g, g2], 2)
            p.start(q, tick=r.choice([0, 0, 0, .01, .3]))
    return p.case()


def trust(ck, r):
    """Trust and keys changing between, and while, requests are made."""
    w = World(r)
    t = w.t0
    p = PA(ck, w.registry(), ASP, clock=t)
    gs = [fine(r, w, t, 1000 + i) for i in range(4)]
    for _ in range(r.choice([4, 7])):
        def change():
            k = r.random()
            e = p.reg[r.randrange(2)]
            if k < .5:
                e['trust'] = r.choice([0, -1, 1, 2, 10**6])
            elif k < .8:
                n = r.choice(w.ks)
                f = r.choice([lambda n: pem(n).decode(), lambda n: pem(n).decode() + '\n', lambda n: 'x' + pem(n).decode()])
                e.update(pub=f(n))
                e['key'] = 0 if e['pub'][0] == 'x' else n
            elif k < .9:
                p.reg.reverse()
            else:
                e['uid'] = r.choice([u for u in w.uid + ['urn:q'] if u not in [x['uid'] for x in p.reg]])
            p.registry()
        q = r.sample(gs, r.choice([1, 1, 2, 3]))
        if r.random() < .3:
            p.start(q, meanwhile=(r.randrange(len(q)), change))
        else:
            change()
            p.start(q)
        if r.random() < .2:
            p.restart()
    return p.case()


def run(ck):
    r = ck.rng
    histories(ck, ASP, 150, 120, 80, 25)
    cases = []
    for _ in range(ck.pick(10, 400)):
        ks = BAD[:]
        r.shuffle(ks)
        cases += [sets(ck, r, ks[i:i + 5]) for i in range(0, len(ks), 5)]
    for i in range(0, len(cases), 1000):
        ck.validate('TraceSession', cases[i:i + 1000], describe, what='one bad certificate among fine ones, of every kind, at every place')
    ck.validate('TraceSession', [edges(ck, r) for _ in range(ck.pick(12, 400))], describe, what='around the edges of validity, second by second')
    ck.validate('TraceSession', [trust(ck, r) for _ in range(ck.pick(40, 1200))], describe, what='trust and keys changing between and during requests')
