"""P13: a certificate verifies exactly when its issuer's key signed exactly its content."""
import cert as C
from cert import *

FIELDS = ['issuer.key_algo', 'issuer.uid', 'issuer.name', 'issuer.url', 'holder.pub_key', 'holder.key_algo', 'holder.uid', 'holder.name', 'info.version',
          'info.serial', 'info.issued', 'att0.att_id', 'att0.att_type', 'att0.att_value', 'att0.att_name', 'att0.extra_bytes', 'rev_rules.valid_after',
          'rev_rules.valid_before', 'rev_rules.url', 'rev_rules.extra_bytes', 'del_rules.extra_bytes', 'ext0.eid']


def plain(r):
    c = rcert(r, ikey=list(pub(1)), natts=r.choice([1, 2]))
    c['exts'] = c['exts'] or [{'eid': [101], 'ex': [1, 2]}]
    c['del'] = c['del'] or [5]
    return c


class Change:
    """Changing a field and changing it back."""
    def __init__(self):
        self.old = {}

    def at(self, h, f, r):
        def fn(ac):
            k = (h, f)
            o, n = FIELDS[f - 1].split('.')
            obj = ac.att_set[0] if o == 'att0' else ac.extensions[0] if o == 'ext0' else getattr(ac, o)
            if k in self.old:
                setattr(obj, n, self.old.pop(k))
                return
            v = getattr(obj, n)
            self.old[k] = v
            if n == 'att_type':
                new = AttributeType((v.value + 1) % 6)
            elif isinstance(v, int):
                new = v ^ 1
            elif n in ('pub_key', 'extra_bytes'):
                v = bytes(v or b'')
                new = v + b'x' if not v or r.random() < .3 else v[:-1] + bytes([v[-1] ^ 1])
            else:
                new = (v or '') + 'x' if not v or r.random() < .5 else (v[:-1] or 'y')
            setattr(obj, n, new)
        return fn

    def copy(self, a, b):
        for (h, f), v in list(self.old.items()):
            if h == a:
                self.old[(b, f)] = v


def replay(hist, r, fields=None):
    t = Certs()
    t.new(plain(r))
    ch = Change()
    pick = {}
    for k, h, x in hist:
        if h > len(t.acs):
            break
        if k == 'sign':
            if r.random() < .5:
                t.sign(h, x)
            else:
                t.export(h, r.choice(FMTS), 'sign', x)
        elif k == 'foreign':
            t.foreign(h, x)
        elif k == 'change':
            f = pick.setdefault(x, r.randrange(1, len(FIELDS) + 1)) if fields is None else x
            t.set(h, ch.at(h, f, r))
        elif k == 'rekey':
            t.set(h, lambda ac: setattr(ac.issuer, 'pub_key', pub(x)))
        elif k == 'move':
            s = t.ac(h).signature
            t.set(x, lambda ac: setattr(ac, 'signature', s if s is None else ACSignature(s.sig_algo, bytes(s.sig_value))))
        elif k == 'drop':
            t.set(h, lambda ac: setattr(ac, 'signature', None))
        elif k == 'flip':
            def fl(ac):
                old = bytes(ac.signature.sig_value)
                v = bytearray(old)
                i = r.randrange(len(v))
                v[i] ^= 1 << r.randrange(8)
                ac.signature = ACSignature(ac.signature.sig_algo, r.choice([bytes(v), bytes(v), bytes(v), bytes(v)[:-1], old[:-1], old + b'\0', old + b'x', b'\0' + old, old[1:], old * 2]))
            if t.ac(h).signature is not None:
                t.set(h, fl)
        elif k == 'pass':
            f = FMTS[x - 1]
            d = t.export(h, f)
            if d is None:
                break
            g = t.imp(d, f)
            if g is None:
                break
            ch.copy(h, g)
    for h in range(1, len(t.acs) + 1):
        t.verify(h)
        f = r.choice(FMTS)
        d = t.export(h, f)
        if d is not None:
            g = t.imp(d, f, True)
            if g is not None:
                t.verify(g)
                t.timenow(g) if False else None
    t.export(1, r.choice(FMTS + ['TEXT']), 'nokey')
    t.verify(1)
    return t.case()


def everybyte(r, stride, off, kn=1):
    """Every byte of a signed certificate, changed."""
    t = Certs()
    c = plain(r)
    c['ikey'] = list(pub(kn))
    h = t.new(c)
    d = bytes(t.export(h, 'BYTES', 'sign', kn))
    t.imp(d, 'BYTES', True)
    for i in range(off, len(d), stride):
        x = bytearray(d)
        x[i] ^= r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
        g = t.imp(x, 'BYTES', r.random() < .6)
        if g is not None:
            t.verify(g)
    return t.case()


OBJ = {'ialgo': ('issuer', 'key_algo'), 'iuid': ('issuer', 'uid'), 'iname': ('issuer', 'name'), 'iurl': ('issuer', 'url'), 'halgo': ('holder', 'key_algo'),
       'huid': ('holder', 'uid'), 'hname': ('holder', 'name'), 'rurl': ('rev_rules', 'url'), 'atts.id': ('att0', 'att_id'), 'atts.val': ('att0', 'att_value'),
       'atts.name': ('att0', 'att_name'), 'exts.eid': ('ext0', 'eid'), 'hkey': ('holder', 'pub_key'), 'rex': ('rev_rules', 'extra_bytes'),
       'del': ('del_rules', 'extra_bytes'), 'atts.ex': ('att0', 'extra_bytes'), 'exts.ex': ('ext0', 'extra_bytes')}


def nearly(r, field, part=None):
    """One field of a signed certificate replaced by nearly the same text or bytes: never verifies, and does again once the field is back."""
    t = Certs()
    c = C.plain(r)
    c['ikey'] = list(pub(1))
    h = t.new(c)
    t.sign(h, 1)
    t.verify(h)
    o, n = OBJ[field]
    ac = t.ac(h)
    obj = ac.att_set[0] if o == 'att0' else ac.extensions[0] if o == 'ext0' else getattr(ac, o)
    old = getattr(obj, n)
    text = field in C.TEXTS
    vals = [f(C.PLAIN) for f in C.TWISTS] if text else [bytes(f(C.PLAINB)) for f in C.BTWISTS]
    vals = [v for v in vals if len(v) < 1000]
    if part:
        vals = r.sample(vals, min(len(vals), part))
    for v in vals:
        t.set(h, lambda a: setattr(obj, n, v))
        t.verify(h)
    t.set(h, lambda a: setattr(obj, n, old))
    t.verify(h)
    return t.case()


def large(r, n):
    """Beyond 65535 bytes: the start, the middle and the end changed."""
    t = Certs()
    c = plain(r)
    c['iuid'] = codes('urn:aa')
    c['exts'][-1]['eid'] = codes('ext')
    c['atts'] = [{'id': [97, 48 + i], 'ty': 'STRING', 'val': [120] * 35000, 'name': [110, 48 + i], 'ex': [1, 2, 3]} for i in range(n)]
    h = t.new(c)
    t.sign(h, 1)
    t.verify(h)
    ac = t.ac(h)
    for obj, f in r.sample([(ac.issuer, 'uid'), (ac.att_set[0], 'att_value'), (ac.att_set[-1], 'att_value')], 2) + \
            [(ac.att_set[-1], 'att_name'), (ac.extensions[-1], 'eid'), (ac.att_set[-1], 'extra_bytes')]:
        old = getattr(obj, f)
        new = bytes([9, 9, 9]) if f == 'extra_bytes' else old[:-1] + ('y' if old[-1] != 'y' else 'z')
        t.set(h, lambda a: setattr(obj, f, new))
        t.verify(h)
        t.set(h, lambda a: setattr(obj, f, old))
    t.verify(h)
    return t.case()


def run(ck):
    r = ck.rng
    g = ck.generate('GenSign', ck.pick('GenSign3.cfg', 'GenSign4.cfg'), workers=4)
    g.sort()
    ck.exhaustive_parts.append('all histories of %d actions over signing, changing, moving, passing on' % ck.pick(3, 4))
    if ck.quick:
        g = [x for i, x in enumerate(g) if i % 7 == ck.seed % 7]
    else:
        g = [x for i, x in enumerate(g) if i % 3 == ck.seed % 3]
    ck.validate('TraceCert', [replay(x, r) for x in g], describe, what='short histories enumerated from the specification')
    n = ck.pick(120, 4000)
    g = ck.generate('GenSign', 'GenSignLong.cfg', args=['-simulate', 'num=%d' % n, '-depth', '10', '-seed', str(ck.seed + 3)])
    ck.validate('TraceCert', [replay(x, r, True) for x in g], describe, what='long histories simulated from the specification')
    # each field for itself, changed after signing and after passing on
    cases = []
    for f in range(1, len(FIELDS) + 1):
        for mk in ck.pick(('sign', 'foreign'), ('sign', 'foreign') * 4):
            cases.append(replay([[mk, 1, 1], ['pass', 1, r.randrange(1, 4)], ['change', 2, f], ['change', 1, f], ['move', 1, 2]], r, True))
            cases.append(replay([['change', 1, f], [mk, 1, 1], ['change', 1, f], ['pass', 1, 1], ['change', 2, f]], r, True))
    # attributes and extensions added, taken away, swapped
    for what in ('att_set', 'extensions'):
        for how in ('add', 'drop', 'swap', 'dup', 'none'):
            t = Certs()
            c = plain(r)
            c['atts'] = (c['atts'] * 3)[:3]
            c['atts'][1] = dict(c['atts'][1], id=[98])
            c['exts'] = [{'eid': [101], 'ex': []}, {'eid': [102], 'ex': [3]}, {'eid': [103], 'ex': [4]}]
            h = t.new(c)
            t.sign(h, 1)
            t.verify(h)

            def fn(ac):
                xs = list(getattr(ac, what))
                xs = {'add': xs + [ACAttribute('z', AttributeType.INT, '1') if what == 'att_set' else ACExtensions('z')], 'drop': xs[:-1], 'swap': xs[::-1],
                      'dup': xs + xs[:1], 'none': None}[how]
                setattr(ac, what, xs)
            t.set(h, fn)
            t.verify(h)
            d = t.export(h, 'BASE64')
            t.imp(d, 'BASE64', True)
            cases.append(t.case())
    ck.validate('TraceCert', cases, describe, what='each field changed after signing')
    ck.validate('TraceCert', ck.pmap(lambda g, f: nearly(g, f, ck.pick(24, None)), sorted(OBJ)), describe, what='each field replaced by nearly the same after signing')
    ck.validate('TraceCert', [large(r, n) for n in ck.pick((2,), (2, 3, 5) * 3)], describe, what='large certificates')
    st = ck.pick(4, 1)
    cases = [everybyte(r, st * 4, st * o + r.randrange(st), kn) for kn in ck.pick((1,), (1, 7, 8)) for o in range(4)]
    ck.validate('TraceCert', cases, describe, what='bytes of a signed certificate changed on the way')
