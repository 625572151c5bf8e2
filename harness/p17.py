"""P17: the text form."""
from cert import *


def run(ck):
    r = ck.rng
    gen = sorted(ck.generate('MCCert', 'GenCert2.cfg', workers=4), key=repr)
    if ck.quick:
        gen = [g for i, g in enumerate(gen) if i % 4 == ck.seed % 4]
    else:
        ck.exhaustive_parts.append('all certificates that differ from a plain one in up to two fields over covering values')
    cases = []
    tw = []
    for k in range(len(TWISTS)):
        c = plain(r)
        for n, f in enumerate(TEXTS):
            c = with_(c, f, codes(TWISTS[(k + n) % len(TWISTS)](PLAIN)))
        for n, f in enumerate(BYTES_):
            c = with_(c, f, BTWISTS[(k + n) % len(BTWISTS)](PLAINB))
        tw.append(c)
    for c in gen + tw + [rcert(r, sig=r.random() < .5) for _ in range(ck.pick(250, 6000))]:
        t = Certs()
        h = t.new(c, r.random() < .7)
        t.export(h, 'TEXT')
        k = r.randrange(6)
        if k == 0:
            t.export(h, 'TEXT', 'sign', r.choice([1, 2]))
        elif k == 1:
            t.export(h, 'TEXT', 'nokey')
        elif k == 2:
            d = t.export(h, 'BYTES')
            g = t.imp(d, 'BYTES') if d is not None else None
            if g:
                t.export(g, 'TEXT')
        elif k == 3:
            d = t.export(h, 'TEXT')
            if d is not None:
                t.imp(d, 'TEXT')
        t.look(h)
        cases.append(t.case())
    ck.validate('TraceCert', cases, describe, what='text exports')
