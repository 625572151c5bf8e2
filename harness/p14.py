"""P14: malformed data is rejected, never misread."""
from cert import *
import struct


def give(t, d, r, fmt=None):
    f = fmt or r.choice(['BYTES', 'BYTES', 'BYTES', 'BASE64', 'BASE64FULL'])
    if f == 'BYTES':
        x = r.choice([bytes, bytearray])(d)
    else:
        x = base64.b64encode(bytes(d)).decode()
        if f == 'BASE64FULL':
            x = '---- BEGIN ATTRIBUTE CERTIFICATE ----\nFORMAT: BASE64\nVERSION: 0\n' + x + '\n---- END ATTRIBUTE CERTIFICATE ----'
        if r.random() < .3:
            x = x.encode()
    return t.imp(x, f)


def data(c):
    """The bytes of a certificate, by an encoder of our own."""
    def s16(*xs):
        return b''.join(struct.pack('<H', len(x)) for x in xs)
    u = lambda x: t_(x).encode()
    i = [bytes(c['ikey']), u(c['ialgo']), u(c['iuid']), u(c['iname']), u(c['iurl'])]
    h = [bytes(c['hkey']), u(c['halgo']), u(c['huid']), u(c['hname'])]
    parts = [('issuer sizes', s16(*i))] + [('issuer', x) for x in i] + [('holder sizes', s16(*h))] + [('holder', x) for x in h]
    parts += [('info', bytes([c['ver'], 20]) + bytes(c['serial']).ljust(20, b'\0') + bytes(c['issued']))]
    parts += [('count', struct.pack('<H', len(c['atts'])))]
    for a in c['atts']:
        f = [u(a['id']), u(a['val']), u(a['name']), bytes(a['ex'])]
        parts += [('att sizes', s16(*f)), ('type', bytes([TYPES.index(a['ty'])]))] + [('att', x) for x in f]
    f = [u(c['rurl']), bytes(c['rex'])]
    parts += [('rev sizes', s16(*f)), ('times', bytes(c['after']) + bytes(c['before']))] + [('rev', x) for x in f]
    parts += [('del size', s16(bytes(c['del']))), ('del', bytes(c['del']))]
    parts += [('count', struct.pack('<H', len(c['exts'])))]
    for e in c['exts']:
        f = [u(e['eid']), bytes(e['ex'])]
        parts += [('ext sizes', s16(*f))] + [('ext', x) for x in f]
    f = [u(c['salgo']), bytes(c['sval'])]
    parts += [('sig sizes', s16(*f))] + [('sig', x) for x in f]
    return parts


def small(r):
    c = rcert(r, sig=r.random() < .7, natts=r.choice([0, 1, 2]))
    for k in ('ikey', 'hkey', 'rex', 'del', 'sval'):
        c[k] = c[k][:r.randrange(1, 6)]
    return c


def run(ck):
    r = ck.rng
    ck.design('MCCert', ck.pick('MCCert.cfg', 'MCCertDeep.cfg'), min_states=50)
    cases = []
    for n in range(ck.pick(6, 60)):                      # cut off everywhere, extra bytes, every byte changed
        c = small(r)
        d = b''.join(x for _, x in data(c))
        t = Certs()
        g = give(t, d, r)
        step = 1 if n < 2 or not ck.quick else 3
        for i in range(n % step, len(d), step):
            give(t, d[:i], r)
        cases.append(t.case())
        t = Certs()
        for x in (b'\0', b'\0\0\0\0', b'x', d[-1:], d):
            give(t, d + x, r)
            give(t, x + d, r)
        cases.append(t.case())
        t = Certs()
        for i in range(n % step, len(d), step):
            x = bytearray(d)
            x[i] = r.choice([0, 255, x[i] ^ 1, x[i] ^ 128, (x[i] + 1) % 256, r.randrange(256)])
            give(t, x, r)
        cases.append(t.case())
        t = Certs()
        for i in range(0, len(d), 2 * step):                # bytes lost or doubled in the middle
            give(t, d[:i] + d[i + 1:], r)
            give(t, d[:i] + d[i:i + 1] + d[i:], r)
        cases.append(t.case())
    ck.validate('TraceCert', cases, describe, what='cut, lengthened and changed encodings')
    cases = []
    BADT = [b'\xff', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xe2\x82', b'a\x80', b'\xf8\x88\x80\x80\x80', b'\xc3', b'\xe0\x80\x80', b'\xf0\x80\x80\x80']
    for n in range(ck.pick(25, 400)):                     # sizes, counts, types and texts that do not fit
        c = small(r)
        ps = data(c)
        t = Certs()
        d = b''.join(x for _, x in ps)
        give(t, d, r)
        for i, (k, x) in enumerate(ps):
            j = lambda y: give(t, b''.join(y if m == i else z for m, (_, z) in enumerate(ps)), r)
            if 'size' in k or k == 'count':
                for q in range(0, len(x), 2):
                    v = struct.unpack('<H', x[q:q + 2])[0]
                    w = r.choice([v + 1, max(0, v - 1), 0, 65535, v + 256, r.randrange(65536)]) % 65536
                    j(x[:q] + struct.pack('<H', w) + x[q + 2:])
            elif k == 'type':
                j(bytes([r.choice([6, 7, 128, 255])]))
                j(bytes([r.randrange(256)]))
        cases.append(t.case())
        # invalid text in each text field, sizes being right
        t = Certs()
        for i, (k, x) in enumerate(ps):
            if k in ('issuer', 'holder', 'att', 'rev', 'ext', 'sig') and r.random() < .6:
                b = r.choice(BADT)
                c2 = [list(p) for p in ps]
                hdr = max(m for m in range(i) if 'sizes' in ps[m][0])
                q = 2 * (sum(1 for m in range(hdr + 1, i) if ps[m][0] == k))
                s = bytearray(ps[hdr][1])
                if q + 2 <= len(s):
                    s[q:q + 2] = struct.pack('<H', len(b))
                    c2[hdr][1], c2[i][1] = bytes(s), b
                    give(t, b''.join(z for _, z in c2), r)
        cases.append(t.case())
    ck.validate('TraceCert', cases, describe, what='sizes, counts, types and texts that do not fit')
    cases = []
    for n in range(ck.pick(120, 3000)):                    # not certificates at all, and other armours
        t = Certs()
        for _ in range(6):
            k = r.randrange(6)
            c = small(r)
            d = b''.join(x for _, x in data(c))
            if k == 0:
                give(t, r.randbytes(r.randrange(0, 80)), r)
            elif k == 1:
                give(t, bytes(r.randrange(0, 60)), r)
            elif k == 2:
                i, j = sorted((r.randrange(len(d)), r.randrange(len(d))))
                give(t, d[:i] + d[j:], r)
            elif k == 3:
                b = base64.b64encode(d).decode()
                i = r.randrange(len(b))
                t.imp(r.choice([b[:i], b[:i] + b[i + 1:], b[:i] + r.choice('!-_= \n') + b[i:], b + '=', b.rstrip('='), b + b]), 'BASE64')
            elif k == 4:
                b = base64.b64encode(d).decode()
                ls = ['---- BEGIN ATTRIBUTE CERTIFICATE ----', 'FORMAT: BASE64', 'VERSION: %d' % c['ver'], b, '---- END ATTRIBUTE CERTIFICATE ----']
                q = r.randrange(6)
                if q < 5:
                    del ls[q]
                t.imp('\n'.join(ls), 'BASE64FULL')
                ls[-1:] = []
                t.imp('\n'.join(ls[:r.randrange(1, 5)]), 'BASE64FULL')
            else:
                t.imp(r.choice(['', 'abc', '\n\n\n\n', '\n\n\nAAAA\n', 'x\n' * 7]), r.choice(['BASE64', 'BASE64FULL']))
        cases.append(t.case())
    ck.validate('TraceCert', cases, describe, what='data that is no certificate')
