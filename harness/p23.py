"""P23: sessions never outlive certificates or the maximum length, and are recorded so."""
from session import *
from p22 import good, fine
ASP = ['record']
MAX = 86400


def windows(ck, r):
    """Sets of certificates in any order, their ends around each other and around the maximum length."""
    w = World(r)
    t = w.t0
    p = PA(ck, w.registry(), ASP, level=r.choice(['DEBUG', 'ERROR']), clock=t)
    n = 0
    kept = []
    for _ in range(r.choice([2, 3, 5])):
        t += r.choice([0, 0, 1, 100, MAX])
        CLOCK.now = t + r.choice([0, .5, .999])
        ends = r.choice([[1, 2, 3], [MAX - 1, MAX, MAX + 1], [MAX, 2 * MAX, 10], [2 * MAX, 3 * MAX, 10**8], [5, 5, 5], [MAX, MAX, MAX], [2**32 - 1 - t, 2**32 - 1 - t, 7]])
        gs = []
        for e in r.sample(ends, r.choice([1, 2, 3, 3])):
            n += 1
            u = r.choice([0, 1])
            a = t - r.choice([1, 2, 50, 10**6])
            iss = r.choice([a, a, t, t + 1, 0, a - 5, 2**32 - 1, 1])
            gs.append(G(signed(good(r, w, t, r.getrandbits(140) * 1000 + n, k=u + 1, uid=u, after=a, before=t + e, issued=iss), w.ks[u]), r.choice([0, 3, 4])))
        if kept and r.random() < .4:
            gs.insert(r.randrange(len(gs) + 1), r.choice(kept))          # one used before
        if r.random() < .3:
            gs.insert(r.randrange(len(gs) + 1), r.choice(gs))            # one twice
        p.start(gs, r.choice(SVCS), r.choice(ADDRS), tick=r.choice([0, 0, 0, .05, .3]))
        kept += gs
        if r.random() < .2:
            p.restart()
        if r.random() < .2:
            p.start(gs, r.choice(SVCS), r.choice(ADDRS), fail=r.choice([2, 3, 4]))
    return p.case()


def many(ck, r, n):
    """Many sessions on the same certificates in one second: every identifier is new, nothing earlier changes."""
    w = World(r)
    p = PA(ck, w.registry(), ASP, clock=w.t0)
    gs = [fine(r, w, w.t0, 5000 + i) for i in range(3)]
    for i in range(n):
        p.start(r.sample(gs, r.choice([1, 2, 3])), r.choice(SVCS), r.choice(ADDRS))
        if i == n // 2:
            p.restart()
    return p.case()


def inside(ck, r):
    """A session opened while another is being opened, the clock moving on in between."""
    w = World(r)
    t = w.t0
    p = PA(ck, w.registry(), ASP, clock=t)
    gs = [G(signed(good(r, w, t, 700 + i, after=t - 5, before=t + r.choice([30, 50, MAX + 3, MAX + 10])), w.ks[0]), r.choice([0, 3, 4])) for i in range(5)]

    def other():
        CLOCK.now += r.choice([0, 1, 3])
        p.start(r.sample(gs, r.choice([1, 2])), 'other', '10.9.9.9')
        CLOCK.now += r.choice([0, 1, 3])
    for _ in range(3):
        q = r.sample(gs, r.choice([1, 2, 3]))
        p.start(q, 'first', '10.1.1.1', meanwhile=(r.randrange(len(q)), other))
    return p.case()


def run(ck):
    r = ck.rng
    histories(ck, ASP, 80, 120, 80, 25)
    cases = [windows(ck, r) for _ in range(ck.pick(110, 4000))]
    for i in range(0, len(cases), 1000):
        ck.validate('TraceSession', cases[i:i + 1000], describe, what='certificates in any order, with any windows, over days')
    ck.validate('TraceSession', [many(ck, r, ck.pick(20, 60)) for _ in range(ck.pick(3, 40))], describe, what='many sessions on the same certificates')
    ck.validate('TraceSession', [inside(ck, r) for _ in range(ck.pick(20, 500))], describe, what='sessions opened within sessions on a moving clock')
