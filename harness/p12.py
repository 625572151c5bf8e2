"""P12: export and import keep every field; the bytes are those of the layout."""
from cert import *


def roundtrip(c, r, absent=True):
    t = Certs()
    h = t.new(c, absent)
    if h is None:
        return t.case()
    for f in r.sample(FMTS, 3):
        d = t.export(h, f)
        if d is not None:
            if f != 'BYTES' and r.random() < .5:
                d = d.encode() if isinstance(d, str) else d.decode()
            elif f == 'BYTES' and r.random() < .5:
                d = bytes(d)
            g = t.imp(d, f)
            if g is not None:
                f2 = r.choice(FMTS)
                d2 = t.export(g, f2)
                if d2 is not None:
                    t.imp(d2, f2)
                t.look(g)
    t.look(h)
    return t.case()


def big(c, field, n, ch=120):
    c = dict(c)
    c['atts'] = [dict(a) for a in c['atts']]
    c['exts'] = [dict(a) for a in c['exts']]
    v = [ch] * n
    if '.' in field:
        a, b = field.split('.')
        c[a][0][b] = v
    else:
        c[field] = v
    return c


def run(ck):
    r = ck.rng
    ck.design('MCCert', ck.pick('MCCert.cfg', 'MCCertDeep.cfg'), min_states=50)
    gen = ck.generate('MCCert', 'GenCert2.cfg', workers=4)
    gen = sorted(gen, key=repr)
    ck.exhaustive_parts.append('all certificates that differ from a plain one in up to two fields over covering values')
    if ck.quick:
        gen = [g for i, g in enumerate(gen) if i % 4 == ck.seed % 4]
    ck.validate('TraceCert', [roundtrip(c, r) for c in gen], describe, what='certificates enumerated from the specification')
    cases = [roundtrip(rcert(r, sig=r.random() < .5), r, r.random() < .6) for _ in range(ck.pick(250, 6000))]
    ck.validate('TraceCert', cases, describe, what='random certificates')
    # every field with everything near a plain value: all fields at once, each with another twist
    cases = []
    for k in range(len(TWISTS)):
        c = plain(r)
        for n, f in enumerate(TEXTS):
            c = with_(c, f, codes(TWISTS[(k + n) % len(TWISTS)](PLAIN)))
        for n, f in enumerate(BYTES_):
            c = with_(c, f, BTWISTS[(k + n) % len(BTWISTS)](PLAINB))
        cases.append(roundtrip(c, r))
    ck.validate('TraceCert', cases, describe, what='every field with values that careless code trims, folds or normalises')
    # at and over the limits of the layout
    base = rcert(r, natts=1, sig=True)
    base['exts'] = [{'eid': [101], 'ex': [1]}]
    cases = []
    fields = ['ikey', 'iuid', 'iname', 'hname', 'rurl', 'rex', 'del', 'atts.val', 'atts.ex', 'atts.name', 'exts.ex', 'exts.eid', 'ialgo', 'iurl', 'hkey', 'halgo', 'huid',
              'atts.id']
    for f in ck.pick(fields[:6] + r.sample(fields[6:], 3), fields):
        for n in (65535, 65536):
            c = big(base, f, n)
            t = Certs()
            h = t.new(c)
            d = t.export(h, 'BYTES')
            if d is not None:
                t.imp(d, 'BYTES')
            cases.append(t.case())
        if f not in ('ikey', 'rex', 'del', 'atts.ex', 'exts.ex', 'hkey'):
            t = Certs()
            h = t.new(big(base, f, 32768, 233))           # fits in characters, not in bytes
            t.export(h, 'BYTES')
            cases.append(t.case())

    for f in fields:                                      # sizes in between
        for n in r.sample([1025, 1500, 2049, 4097], ck.pick(1, 4)) + ck.pick([], [16385, 32768]):
            t = Certs()
            h = t.new(big(base, f, n))
            d = t.export(h, 'BYTES')
            if d is not None:
                t.imp(d, 'BYTES')
            cases.append(t.case())

    def odd(fn):
        t = Certs()
        h = t.new(base)
        t.set(h, fn)
        d = t.export(h, 'BYTES')
        t.export(h, 'BASE64')
        if d is not None:
            t.imp(d, 'BYTES')
        cases.append(t.case())
    for n in (-1, 2**32, 2**40):
        odd(lambda a: setattr(a.info, 'issued', n))
        odd(lambda a: setattr(a.rev_rules, 'valid_after', n))
        odd(lambda a: setattr(a.rev_rules, 'valid_before', n))
    for n in (-1, 256, 1000):
        odd(lambda a: setattr(a.info, 'version', n))
    for n in (-1, 2**160, 2**200):
        odd(lambda a: setattr(a.info, 'serial', n))
    for n in (2**160 - 1, 0, 2**159):
        odd(lambda a: setattr(a.info, 'serial', n))
    odd(lambda a: setattr(a.issuer, 'uid', 'x\ud800'))
    odd(lambda a: setattr(a, 'extensions', [ACExtensions('e', None)] * 65536))
    odd(lambda a: setattr(a, 'extensions', [ACExtensions('e%d' % i, None) for i in range(300)]))
    odd(lambda a: setattr(a, 'att_set', [ACAttribute('a%d' % i, AttributeType.INT, str(i)) for i in range(300)]))
    odd(lambda a: setattr(a, 'att_set', tuple(a.att_set)))
    t = Certs()
    h = t.new(base)
    for f in ('XML',):
        t.export(h, f)
    t.imp(b'x', 'XML')
    t.imp('x', 'TEXT')
    cases.append(t.case())
    ck.validate('TraceCert', cases, describe, what='values at and beyond the limits of the layout')
