"""P16: equality of certificates."""
from cert import *
import copy

FIELDS = ['ikey', 'ialgo', 'iuid', 'iname', 'iurl', 'hkey', 'halgo', 'huid', 'hname', 'ver', 'serial', 'issued', 'after', 'before', 'rurl', 'rex', 'del', 'salgo', 'sval']


def other(c, f, r):
    c = copy.deepcopy(c)
    v = c[f]
    if f == 'ver':
        c[f] = (v + 1) % 256
    elif f in ('issued', 'after', 'before'):
        i = r.randrange(4)
        v[i] ^= 1 << r.randrange(8)
    elif f == 'serial':
        c[f] = strip((v + [0] * (20 - len(v)))[:19] + [(v[19] if len(v) == 20 else 0) ^ 1])
    elif f in ('ikey', 'hkey', 'rex', 'del', 'sval'):
        i = r.randrange(len(v)) if v else 0
        c[f] = v[:i] + [v[i] ^ (1 << r.randrange(8))] + v[i + 1:] if v and r.random() < .5 else r.choice([v + [1], v[:-1] + [v[-1] ^ 1] if v else [9], [] if v and f in ('rex', 'del') else v + [2]])
    elif v and r.random() < .4:
        i = r.randrange(len(v))
        w = ''.join(map(chr, v))
        w = [w[:i] + ('x' if w[i] != 'x' else 'y') + w[i + 1:], w.swapcase(), w + ' ', ' ' + w][r.randrange(4)]
        c[f] = codes(w) if codes(w) != v else v + [120]
    elif not v and r.random() < .4:
        c[f] = codes(r.choice(['None', ' ', '0', 'null']))
    else:
        c[f] = r.choice([v + [120], (v[:-1] + [v[-1] + 1 if v[-1] != 0xd7ff else 65]) if v else [65]])
    if f == 'sval' and not c['salgo']:
        c['salgo'] = [88]
    if f == 'salgo' and not c['sval']:
        c['sval'] = [1]
    return c


def variant(c, r):
    """The same or nearly the same certificate."""
    k = r.randrange(9)
    c = copy.deepcopy(c)
    if k == 0:
        return c
    if k == 1:
        r.shuffle(c['atts'])
        r.shuffle(c['exts'])
        return c
    if k == 2:
        return other(c, r.choice(FIELDS), r)
    xs = c[r.choice(['atts', 'exts'])]
    if k == 3 and xs:
        xs.append(copy.deepcopy(r.choice(xs)))
    elif k == 4 and xs:
        xs.pop(r.randrange(len(xs)))
    elif k == 5 and len(xs) > 1:
        xs[r.randrange(len(xs))] = copy.deepcopy(r.choice(xs))
    elif k == 6 and xs:
        a = r.choice(xs)
        f = r.choice(list(a))
        if f == 'ty':
            a[f] = TYPES[(TYPES.index(a[f]) + 1) % 6]
        else:
            a[f] = codes('None') if f != 'ex' and not a[f] and r.random() < .5 else a[f] + [65] if r.random() < .5 or not a[f] else a[f][:-1]
    elif k == 7:
        c['salgo'], c['sval'] = r.choice([([], []), ([88], [1, 2]), (c['salgo'] or [89], (c['sval'] or []) + [1])])
    else:
        c['atts'], c['exts'] = [], []
    return c


def run(ck):
    r = ck.rng
    ck.design('MCCert', 'MCCert.cfg', min_states=50)
    gen = sorted(ck.generate('MCCert', 'GenCert2.cfg', workers=4), key=repr)
    cases = []
    for i in range(ck.pick(60, 600)):                     # enumerated certificates against each other
        t = Certs()
        for c in r.sample(gen, 4):
            t.new(c, r.random() < .5)
        t.new(copy.deepcopy(gen[r.randrange(len(gen))]))
        hs = range(1, len(t.acs) + 1)
        for a in hs:
            for b in hs:
                if a <= b:
                    t.eq(a, b)
        cases.append(t.case())
    for i in range(ck.pick(60, 600)):                     # each field for itself
        c = rcert(r, sig=r.random() < .6)
        for f in FIELDS:
            t = Certs()
            a = t.new(c)
            b = t.new(other(c, f, r))
            t.eq(a, b)
            t.eq(a, a)
            cases.append(t.case())
            if ck.quick and i % 5:
                break
    # every field against everything near it
    for f in TEXTS + BYTES_:
        tw, base = (TWISTS, PLAIN) if f in TEXTS else (BTWISTS, PLAINB)
        t = Certs()
        a = t.new(plain(r))
        for w in tw:
            v = w(base)
            g = t.new(with_(plain(r), f, codes(v) if isinstance(v, str) else v))
            t.eq(a, g)
            if r.random() < .3:
                t.eq(g, r.randrange(1, g + 1))
        cases.append(t.case())
    for i in range(ck.pick(400, 8000)):
        c = rcert(r, sig=r.random() < .6)
        t = Certs()
        hs = [t.new(c, r.random() < .5)] + [t.new(variant(variant(c, r) if r.random() < .3 else c, r), r.random() < .5) for _ in range(3)]
        if r.random() < .5 and hs[0]:
            f = r.choice(FMTS)
            d = t.export(hs[0], f)
            if d is not None:
                g = t.imp(d, f)
                if g:
                    hs.append(g)
        for a in hs:
            t.eq(hs[0], a)
        t.eq(hs[1], hs[2])
        t.eq(hs[2], hs[3])
        for h in hs:
            t.look(h)
        cases.append(t.case())
    ck.validate('TraceCert', cases, describe, what='pairs of certificates')
