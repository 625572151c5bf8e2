"""P30: certificates work end to end, from issue to session, and only as issued."""
from e2e import *


def replay(ck, r, hist):
    uid = r.sample(UIDS, 2)
    ks = r.sample([1, 2, 3, 4, 5, 6], 5) if r.random() < .85 else r.sample([1, 2, 3, 7, 8], 5)
    kn = {1: ks[0], 2: ks[1], 3: ks[2], 4: ks[3], 9: ks[4]}
    unit = r.choice([1, 1, 10, 3600, 100000])
    t0 = r.choice([1500000000, 1400000000 + r.randrange(10**8), 2**31 - 10**7])
    reg = [{1: 1, 2: 2}, {1: 1}]

    def table(p):
        out = [entry(uid[a - 1], kn[k], r.choice([1, 2, 100])) for a, k in reg[p].items() if k]
        out += [entry(uid[a - 1], kn[k or 1], r.choice([0, -1])) for a, k in reg[p].items() if not k and r.random() < .5]
        if 'extra' in reg[p]:
            out.append(entry('urn:extra', kn[9], 5))
        return out
    w = Earth(ck, r, [(uid[0], kn[1]), (uid[1], kn[2])], [[entry(uid[0], kn[1], 1), entry(uid[1], kn[2], 3)], [entry(uid[0], kn[1], 7)]], t0, 3 * unit)
    pool = []

    def put(d, fmt=None):
        pool.append(G(d, r.choice([0, 0, 3, 4]) if fmt is None else fmt) if d else None)
    for k, x, y in hist:
        if k == 'request':
            if y == [1]:
                put(w.request(x - 1))
            else:
                w.request(x - 1, good=False)
        elif k == 'tick':
            CLOCK.now += x * unit
        elif k == 'trust':
            reg[x - 1][y[0]] = y[1]
            w.trust(x - 1, table(x - 1))
        elif k == 'rekey':
            w.rekey(x - 1, kn[y[0]])
        elif k == 'restart':
            w.restart_pa(x - 1)
        elif k == 'present':
            gs = [pool[n - 1] for n in y]
            if None not in gs:
                w.present(x - 1, gs)
        elif pool[x - 1] is None:
            pool.append(None)
        elif k == 'alter':
            g = pool[x - 1]
            o = r.choice([h for h in pool if h is not None and h is not g] or [g])
            put(alter(r, raw(g.data, g.fmt), y[0], raw(o.data, o.fmt)))
        elif k == 'resign':
            g = pool[x - 1]
            c = content(raw(g.data, g.fmt))
            put(w.forge(rekeyed(c, kn[9]) if y == [2] else c, kn[9]))
        elif k == 'convert':
            g = pool[x - 1]
            pool.append(w.convert(g, r.choice([f for f in (0, 3, 4) if f != g.fmt])))
    for g in pool:
        if g is not None and r.random() < .3:
            w.verify(g)
    return w.case()


def wild(ck, r, n):
    """Anything: up to three authorities of each kind, several users, moving clocks, edges of validity, any alteration."""
    na, np = r.choice([1, 2, 3]), r.choice([1, 2, 3])
    uid = r.sample(UIDS, na)
    ks = r.sample([1, 2, 3, 4, 5, 6, 7, 8], 8)
    adv = ks[7]
    life = r.choice([2, 60, 3600, 86400, 10**6])
    t0 = r.choice([1500000000, 2**31 - 10**7, r.randrange(10**8, 2 * 10**9)])
    keys = ks[:na]

    def table():
        out = []
        for i in range(na):
            if r.random() < .75:
                out.append(entry(uid[i], keys[i] if r.random() < .8 else r.choice(ks), r.choice([1, 1, 5, 100, 0, -3])))
        if r.random() < .3:
            out.append(entry('urn:evil', adv, 50))
        return out
    w = Earth(ck, r, list(zip(uid, keys)), [table() for _ in range(np)], t0, life)
    pool, ends = [], [t0]
    for _ in range(n):
        x = r.random()
        if x < .22 or not pool:
            i = r.randrange(na)
            a = w.aas[i]
            user = r.choice(a.accounts)
            names = [r.choice(a.atts)[1]] if r.random() < .3 else []
            d = w.request(i, r.random() < .85, (), names, user, tick=r.choice([0, 0, 0, .4]))
            if d:
                pool.append(G(d, r.choice([0, 0, 3, 4])))
                ends += [int(CLOCK.now), int(CLOCK.now) + life]
        elif x < .52:
            w.present(r.randrange(np), r.choices(pool, k=r.choice([1, 1, 1, 2, 3])), tick=r.choice([0, 0, 0, .3]))
        elif x < .6:
            CLOCK.now = max(CLOCK.now, r.choice(ends + [int(CLOCK.now)]) + r.choice([-1, 0, 1, 2]))
        elif x < .7:
            g = r.choice(pool)
            d = raw(g.data, g.fmt)
            k = r.random()
            if d is None:
                continue
            if k < .6:
                o = r.choice(pool)
                d = alter(r, d, r.randrange(1, 7), raw(o.data, o.fmt))
            elif k < .8:
                d = flip(d, r.randrange(len(d)), 1 << r.randrange(8))
            elif k < .9:
                d = d[:r.randrange(len(d))] if r.random() < .5 else d + bytes([r.randrange(256)])
            else:
                i = r.randrange(len(d))
                d = d[:i] + bytes([r.randrange(256)]) + d[i:]
            pool.append(G(d, r.choice([0, 0, 3, 4])))
        elif x < .8:
            g = r.choice(pool)
            d = raw(g.data, g.fmt)
            if d is None:
                continue
            c = content(d)
            if r.random() < .4:
                c = content(alter(r, d, r.choice([1, 2, 5, 6])))
            if r.random() < .6:
                c = rekeyed(c, r.choice([adv, adv] + keys))
            if r.random() < .3:
                c = renamed(c, r.choice(uid + ['urn:evil']))
            pool.append(G(w.forge(c, adv), r.choice([0, 3, 4])))
        elif x < .86:
            g = w.convert(r.choice(pool), r.choice([0, 3, 4]))
            if g is not None:
                pool.append(g)
        elif x < .9:
            w.trust(r.randrange(np), table())
        elif x < .93:
            i = r.randrange(na)
            keys[i] = r.choice(ks[:7])
            w.rekey(i, keys[i])
        elif x < .96:
            i = r.randrange(na)
            a = w.aas[i]
            a.assign = [(u + 1, t[0], r.choice(VALUES)) for u in (0, 1) for t in a.atts if r.random() < .7]
            if r.random() < .3:
                a.accounts = [a.accounts[0], (a.accounts[1][0], r.choice(['new', 'changed']))]
            w.changed(i)
        elif x < .98:
            w.verify(r.choice(pool))
        else:
            r.choice([w.restart_aa, lambda i: w.restart_pa(i % np)])(r.randrange(na))
        if len(pool) > 8:
            pool.pop(r.randrange(len(pool)))
    return w.case()


def edges(ck, r, i):
    """One certificate in every form, at every interesting instant, at authorities that trust its issuer or do not."""
    life = r.choice([2, 3, 3600, 86400 * 2])
    k = r.sample([1, 2, 3, 4, 5, 6], 3)
    uid = r.sample(UIDS, 2)
    t0 = 1500000000 + r.randrange(10**8)
    w = Earth(ck, r, [(uid[0], k[0])], [[entry(uid[0], k[0], 1)], [entry(uid[1], k[0], 1), entry(uid[0], k[1], 9)], [], [entry(uid[0], k[0], 0)]], t0, life)
    d = w.request(0)
    if d:
        g0 = G(d, 0)
        gs = [g0] + [w.convert(g0, f) or G(d, f) for f in (0, 3, 4)]
        gs += [w.convert(g, f) or g for g in gs[2:] for f in (0, 3, 4)]
        f = r.choice(gs)
        for t in (t0 - 1, t0, t0 + 1, t0 + life - 1, t0 + life, t0 + life + 1, t0 + 10 * life):
            CLOCK.now = float(t)
            for p in range(4):
                w.present(p, [f])
        for g in gs:
            w.verify(g)
    return w.case()


def forms(ck, r, i):
    """The same certificate in every form, each at an authority of its own."""
    life = r.choice([60, 86400 * 2])
    k = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
    w = Earth(ck, r, [('urn:aa', k)], [[entry('urn:aa', k, 1)] for _ in range(4)], 1500000000, life)
    d = w.request(0)
    CLOCK.now += r.choice([1, life - 1])
    if d:
        a = G(d, 0)
        b, c = w.convert(a, 3), w.convert(a, 4)
        e = w.convert(c, 0) if c else None
        for p, g in enumerate((a, b, c, e)):
            if g is not None:
                w.present(p, [g])
                w.verify(g)
    return w.case()


def run(ck):
    ck.design('GenWorld', ck.pick('MCWorld.cfg', 'MCWorldDeep.cfg'))
    ck.exhaustive_parts.append('GenWorld: all histories of %d actions of two attribute and two policy authorities and an adversary (invariants Sound, NoForgery, NoTrust)' % ck.pick(4, 5))
    r = ck.rng

    def go(fn, items, what, size=600):
        for i in range(0, len(items), size):
            ck.validate('TraceWorld', ck.pmap(lambda rr, x: fn(ck, rr, x), items[i:i + size]), describe, what=what)
    two = sorted(ck.generate('GenWorld', 'GenWorld2.cfg', workers=4), key=str)
    three = sorted(ck.generate('GenWorld', 'GenWorld3.cfg', workers=8), key=str)
    go(replay, r.sample(two, ck.pick(120, len(two))), 'short histories')
    go(replay, r.sample(three, ck.pick(200, 8000)), 'histories of three actions')
    long = ck.generate('GenWorld', 'GenWorldLong.cfg', args=['-simulate', 'num=%d' % ck.pick(80, 2500), '-depth', '15', '-seed', str(ck.seed + 5)])
    go(replay, long, 'long histories')
    go(wild, [r.choice([15, 30]) for _ in range(ck.pick(150, 4000))], 'any histories')
    go(edges, list(range(ck.pick(16, 400))), 'every form and instant')
    go(forms, list(range(ck.pick(16, 400))), 'every form')
