"""P25: a refused or failed session request leaves no trace."""
from session import *
from p22 import good, fine, bad, BAD
import gc
ASP = ['trace', 'accept', 'record', 'serial']


def world(ck, r):
    w = World(r)
    t = w.t0
    reg = w.registry() + [entry('urn:zero', w.ks[0], 0), entry('urn:minus', w.ks[0], -1), entry('urn:keyless', 0, 7)]
    p = PA(ck, reg, ASP, level=r.choice(['DEBUG', 'ERROR']), clock=t)
    n = [0]

    def serial():
        n[0] += 1
        return r.getrandbits(140) * 1000 + n[0]
    return w, t, p, serial


def refused(ck, r, kinds):
    """Every reason to refuse, at the first, a middle and the last place of the set; then the fine ones alone."""
    w, t, p, serial = world(ck, r)
    if r.random() < .5:
        p.start([fine(r, w, t, serial()) for _ in range(2)])
    for kind in kinds:
        gs = [fine(r, w, t, serial()) for _ in range(2)]
        b = bad(r, w, t, serial(), kind)
        for q in r.sample([[b] + gs, [gs[0], b, gs[1]], gs + [b]], r.choice([1, 2])):
            p.start(q, r.choice(SVCS), r.choice(ADDRS))
        if r.random() < .6:
            p.start(gs, r.choice(SVCS), r.choice(ADDRS))
    return p.case()


def failing(ck, r, n):
    """The database failing at every single statement of a request, with fresh and known certificates."""
    w, t, p, serial = world(ck, r)
    known = [fine(r, w, t, serial()) for _ in range(2)]
    p.start(known)
    gs = [fine(r, w, t, serial()) for _ in range(n)]
    if r.random() < .5:
        gs.insert(r.randrange(n + 1), r.choice(known))
    k = 1
    while k < 40:
        e = p.start(gs, r.choice(SVCS), r.choice(ADDRS), fail=k)
        if not e['hit']:
            break
        if r.random() < .3:
            p.start(known)
        k += 1
    p.start(gs)
    return p.case()


def within(ck, r):
    """Another request taking effect while one is being read, at every certificate, with common serials and certificates."""
    w, t, p, serial = world(ck, r)
    s = serial()
    twins = [G(signed(good(r, w, t, s, after=t - 9, before=t + 100 + i), w.ks[0]), 0) for i in range(2)]
    pool = twins + [fine(r, w, t, serial()) for _ in range(3)]
    for _ in range(4):
        q = r.sample(pool, r.choice([1, 2, 3]))
        o = r.sample(pool, r.choice([1, 1, 2]))
        f = r.choice([None, None, None, 2, 3])
        i = r.randrange(len(q))
        if r.random() < .15:
            third = r.sample(pool, 1)
            p.start(q, meanwhile=(i, lambda: p.start(o, meanwhile=(0, lambda: p.start(third)))))
        elif r.random() < .2:
            b = bad(r, w, t, serial(), r.choice(BAD))
            p.start(q + [b], meanwhile=(i, lambda: p.start(o, fail=f)))
        else:
            p.start(q, meanwhile=(i, lambda: p.start(o, fail=f)))
    return p.case()


def lasting(ck, r):
    """Many refused requests in a row: the authority keeps serving."""
    w, t, p, serial = world(ck, r)
    ks = [fine(r, w, t, serial()) for _ in range(2)]
    bs = [bad(r, w, t, serial(), k) for k in BAD]
    gc.collect()
    gc.disable()                     # nothing the garbage collector happens to do in time can be relied on
    for i in range(26):
        k = r.random()
        if k < .1:
            p.start([])
        elif k < .3:
            p.start(ks, fail=r.choice([1, 2, 3, 5, 6]))
        else:
            p.start([ks[0], r.choice(bs)])
    p.start(ks)
    gc.enable()
    return p.case()


def run(ck):
    r = ck.rng
    histories(ck, ASP, 60, 100, 150, 25)
    cases = []
    for _ in range(ck.pick(5, 200)):
        ks = BAD[:]
        r.shuffle(ks)
        cases += [refused(ck, r, ks[i:i + 3]) for i in range(0, len(ks), 3)]
    for i in range(0, len(cases), 1000):
        ck.validate('TraceSession', cases[i:i + 1000], describe, what='every reason to refuse, at every place in the set')
    ck.validate('TraceSession', [failing(ck, r, n) for n in (1, 2, 3) * ck.pick(5, 100)], describe, what='the database failing at every statement')
    ck.exhaustive_parts.append('every single statement of the requests made fails once (sets of 1 to 4 certificates)')
    ck.validate('TraceSession', [within(ck, r) for _ in range(ck.pick(50, 1500))], describe, what='requests inside requests')
    ck.validate('TraceSession', [lasting(ck, r) for _ in range(ck.pick(2, 30))], describe, what='many refused requests in a row')
