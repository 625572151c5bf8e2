"""P15: valid strictly inside the window only."""
from cert import *


def run(ck):
    r = ck.rng
    ck.design('MCCert', 'MCCert.cfg', min_states=50)
    cases = []
    pts = [0, 1, 2, 255, 256, 65535, 65536, 2**24, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1]
    pairs = [(a, b) for a in pts for b in pts]
    if ck.quick:
        pairs = r.sample(pairs, 90)
    for a, b in pairs + [(x, x + d) for x in (r.randrange(2**32 - 10) for _ in range(ck.pick(40, 2000))) for d in (0, 1, 2, 3)]:
        c = rcert(r, natts=0)
        c['after'], c['before'] = le(a, 4), le(b, 4)
        t = Certs()
        h = t.new(c)
        hs = [h]
        if r.random() < .4:
            f = r.choice(FMTS)
            d = t.export(h, f)
            g = t.imp(d, f) if d is not None else None
            hs += [g] if g else []
        for h in hs:
            for n in sorted({0, a - 1, a, a + 1, (a + b) // 2, b - 1, b, b + 1, -1, -a, 2**32, 2**33 + a + 1, r.randrange(2**33)}):
                t.time(h, n)
            for n in {a + .5, a - .5, b - .5, b + .5, a + .25, b - .125, -.5, .5}:
                t.time(h, n)
            t.timenow(h)
        cases.append(t.case())
    # around the present, and with the defaults
    for _ in range(ck.pick(60, 400)):
        t = Certs()
        now = int(time.time())
        c = rcert(r, natts=0)
        c['after'], c['before'] = le(now + r.choice([-2, -1, 0, 1, -100, 100]), 4), le(now + r.choice([-2, -1, 0, 1, 2, 100, -100]), 4)
        h = t.new(c)
        t.timenow(h)
        f = t.fresh(c)
        t.timenow(f)
        iss = t.ac(f).info.issued
        va, vb = t.ac(f).rev_rules.valid_after, t.ac(f).rev_rules.valid_before
        for n in (va - 1, va, va + 1, vb - 1, vb, vb + 1):
            t.time(f, n)
        t.fresh(c)
        x = r.choice([0, 1, now, now - 1, now + 1, 2**32 - 1, r.randrange(2**32)])
        for g in (t.part(c, x, None), t.part(c, None, x)):
            t.timenow(g)
            rr = t.ac(g).rev_rules
            for n in (rr.valid_after, rr.valid_after + 1, rr.valid_before - 1, rr.valid_before):
                t.time(g, n)
        t.timenow(h)
        cases.append(t.case())
    ck.validate('TraceCert', cases, describe, what='windows and moments')
