"""P24: one serial stands for one certificate for good."""
import base64
from session import *
from p22 import good, fine
ASP = ['serial']


def family(r, w, t, serial):
    """Genuine certificates with one serial, none of them the same as another."""
    out = []
    a, b = t - 50, t + 10**6
    base = dict(after=a, before=b, issued=a)
    at = [('/a', 3, 'v', 'n')]
    for kw, k, u in [(dict(base), 1, 0), (dict(base, before=b + 1), 1, 0), (dict(base, issued=a + 1), 1, 0), (dict(base), 2, 1), (dict(base, rurl='http://other'), 1, 0),
                     (dict(base, holder=(b'HK2', 'RSA[1024]', 'urn:u', 'u')), 1, 0), (dict(base, dele=b'x'), 1, 0), (dict(base, exts=(('e', b''),)), 1, 0), (dict(base, iname='bb'), 1, 0)]:
        out.append(signed(good(r, w, t, serial, k=k, uid=u, atts=at, **kw), w.ks[u]))
    out.append(signed(good(r, w, t, serial, atts=[('/a', 3, 'w', 'n')], **base), w.ks[0]))
    out.append(signed(good(r, w, t, serial, atts=at, **base), w.ks[0], b'another label'))
    return out


def swapped(ser):
    """A serial that differs only in the case of its base64 form."""
    b = base64.b64encode(ser.to_bytes(20, 'little'))
    return int.from_bytes(base64.b64decode(b[:24].swapcase() + b[24:]), 'little')


def shared(ck, r):
    """A serial taken, and everything else with that serial tried, also across restarts and long after."""
    w = World(r)
    t = w.t0
    p = PA(ck, w.registry(), ASP, level=r.choice(['DEBUG', 'ERROR']), clock=t)
    ser = r.choice([0, 1, 2**160 - 1, 2**159, r.getrandbits(160), 255, 256])
    fam = family(r, w, t, ser)
    near = [G(signed(good(r, w, t, s, after=t - 9, before=t + 10**6), w.ks[0]), 0) for s in {(ser + 1) % 2**160, ser ^ 2**159, ser ^ 128, (ser * 256) % 2**160, ser ^ 2**155, swapped(ser)} - {ser}]
    f = r.choice([0, 0, 3, 4])
    gs = [G(d, f if r.random() < .8 else r.choice([0, 3, 4])) for d in r.sample(fam, 5)]
    pool = gs + near
    for i in range(r.choice([4, 7])):
        k = r.random()
        if k < .45:
            q = [r.choice(gs)]
        elif k < .8:
            q = r.choices(pool, k=r.choice([2, 2, 3, 4]))
        else:
            q = [gs[0], r.choice(near), gs[0]]
        if r.random() < .25:
            o = r.choices(pool, k=r.choice([1, 2]))
            p.start(q, meanwhile=(r.randrange(len(q)), lambda: p.start(o)))
        else:
            p.start(q, fail=r.choice([None] * 5 + [3, 4]))
        if r.random() < .25:
            p.restart()
        if r.random() < .2:
            CLOCK.now += r.choice([1, 1000, 90000])
            if r.random() < .5:
                p.purge()
    return p.case()


def renewed(ck, r):
    """A serial used again by later certificates, when the first has expired, its sessions have ended, or years later."""
    w = World(r)
    t = w.t0
    p = PA(ck, w.registry(), ASP, clock=t)
    gs, ends = [], []
    a, b = t - r.choice([1, 100]), t + r.choice([2, 10, 5000])
    for i in range(r.choice([2, 3, 4])):
        u = r.choice([0, 0, 1])
        gs.append(G(signed(good(r, w, t, 4242, after=a, before=b, issued=a, uid=u, k=u + 1), w.ks[u]), r.choice([0, 0, 3, 4])))
        ends.append(b)
        if r.random() < .5:
            a = r.choice([a, b - 1, b, b + 1])
        b += r.choice([0, 1, 100, 90000, 10**6, 10**7])
    other = G(signed(good(r, w, t, 4243, after=t - 9, before=t + 10**8), w.ks[0]), 0)
    for i, g in enumerate(gs):
        p.start([g])
        if r.random() < .3:
            p.start(r.sample([g, other, gs[0]], 2))
        if r.random() < .3:
            p.restart()
        if i + 1 < len(gs):
            CLOCK.now = max(CLOCK.now, ends[i] + r.choice([-1, 0, 1, 2, 3000, 90000]))
            if r.random() < .5:
                p.purge()
            if r.random() < .5:
                p.start([g])
    p.start([other])
    p.start(gs)
    return p.case()


def again(ck, r):
    """The same certificates over and over, alone, together and twice in a set: all share their records."""
    w = World(r)
    p = PA(ck, w.registry(), ASP, clock=w.t0)
    gs = [fine(r, w, w.t0, 800 + i) for i in range(4)]
    for i in range(6):
        p.start(r.choices(gs, k=r.choice([1, 2, 4, 6])))
        if r.random() < .3:
            p.restart()
    return p.case()


def run(ck):
    r = ck.rng
    histories(ck, ASP, 120, 150, 120, 30)
    cases = [shared(ck, r) for _ in range(ck.pick(90, 3000))]
    for i in range(0, len(cases), 1000):
        ck.validate('TraceSession', cases[i:i + 1000], describe, what='certificates sharing a serial')
    ck.validate('TraceSession', [renewed(ck, r) for _ in range(ck.pick(60, 2000))], describe, what='a serial used again later')
    ck.validate('TraceSession', [again(ck, r) for _ in range(ck.pick(15, 400))], describe, what='the same certificates over and over')
