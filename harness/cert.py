"""Recording histories of attribute certificates for TraceCert."""
import base64, os, random, time
from Crypto.PublicKey import RSA
from Crypto.Signature import pkcs1_15
from Crypto.Hash import SHA256
from common import call, codes, HERE
from hgaa.attcert import AttributeCertificate, ACIssuer, ACHolder, ACInformation, ACAttribute, ACRevocationRules, ACDelegationRules, \
    ACExtensions, ACSignature, AttributeType, ExportFormat

LABEL = 'RSASSA-PKCS1-v1_5:SHA256'
TYPES = ['NULL', 'INT', 'FLOAT', 'STRING', 'BOOL', 'SET']
FMTS = ['BYTES', 'BASE64', 'BASE64FULL']
_keys = {}


def key(n):
    if n not in _keys:
        _keys[n] = RSA.import_key(open(os.path.join(HERE, 'keys', 'k%d.pem' % n)).read())
    return _keys[n]


def pub(n):
    return key(n).publickey().export_key('DER')


def le(n, size):
    """A number as bytes, least first; what does not fit is marked so that the specification sees it."""
    if not isinstance(n, int) or n < 0:
        return [-1]
    b = list(n.to_bytes(max(size, (n.bit_length() + 7) // 8), 'little'))
    return b


def strip(b):
    while b and b[-1] == 0:
        b = b[:-1]
    return b


def txt(s):
    return [] if s is None else codes(s) if isinstance(s, str) else [-7]


def byt(b):
    return [] if b is None else list(b) if isinstance(b, (bytes, bytearray)) else [-7]


def rec(ac):
    """The content of a certificate as the specification writes it."""
    i, h, f, r, s = ac.issuer, ac.holder, ac.info, ac.rev_rules, ac.signature
    return {'ikey': byt(i.pub_key), 'ialgo': txt(i.key_algo), 'iuid': txt(i.uid), 'iname': txt(i.name), 'iurl': txt(i.url),
            'hkey': byt(h.pub_key), 'halgo': txt(h.key_algo), 'huid': txt(h.uid), 'hname': txt(h.name),
            'ver': f.version if isinstance(f.version, int) else -7, 'serial': strip(le(f.serial, 0)), 'issued': le(f.issued, 4),
            'atts': [{'id': txt(a.att_id), 'ty': a.att_type.name if isinstance(a.att_type, AttributeType) else '?', 'val': txt(a.att_value),
                      'name': txt(a.att_name), 'ex': byt(a.extra_bytes)} for a in ac.att_set or []],
            'after': le(r.valid_after, 4), 'before': le(r.valid_before, 4), 'rurl': txt(r.url), 'rex': byt(r.extra_bytes),
            'del': byt(ac.del_rules.extra_bytes) if ac.del_rules is not None else [],
            'exts': [{'eid': txt(e.eid), 'ex': byt(e.extra_bytes)} for e in ac.extensions or []],
            'salgo': txt(s.sig_algo) if s is not None else [], 'sval': byt(s.sig_value) if s is not None else []}


def safe(ac):
    k, v = call(rec, ac)
    return v if k == 'ok' else {'broken': type(v).__name__}


def t_(x):
    return ''.join(map(chr, x))


def build(c, absent=True):
    """A certificate with the given content; empty optional fields absent, or empty where that is possible."""
    o = (lambda x: t_(x) or None) if absent else t_
    ob = (lambda x: bytes(x) or None) if absent else bytes
    n = lambda b: int.from_bytes(bytes(b), 'little')
    return AttributeCertificate(
        ACIssuer(bytes(c['ikey']), t_(c['ialgo']), t_(c['iuid']), o(c['iname']), o(c['iurl'])),
        ACHolder(bytes(c['hkey']), t_(c['halgo']), t_(c['huid']), o(c['hname'])),
        ACInformation(c['ver'], n(c['serial']), n(c['issued'])),
        [ACAttribute(t_(a['id']), AttributeType[a['ty']], o(a['val']), o(a['name']), ob(a['ex'])) for a in c['atts']] or (None if absent else []),
        ACRevocationRules(n(c['after']), n(c['before']), o(c['rurl']), ob(c['rex'])),
        ACDelegationRules(bytes(c['del'])) if c['del'] else (None if absent else ACDelegationRules()),
        [ACExtensions(t_(e['eid']), ob(e['ex'])) for e in c['exts']] or (None if absent else []),
        ACSignature(t_(c['salgo']), bytes(c['sval'])) if c['salgo'] or c['sval'] else None)


def now8(n):
    i = int(n // 1)
    return [1 if i < 0 else 0, list(abs(i).to_bytes(8, 'little')), n != i]


class Certs:
    def __init__(self):
        self.acs, self.ev = [], []

    def case(self):
        return {'ev': self.ev}

    def _add(self, ac):
        self.acs.append(ac)
        return len(self.acs)

    def ac(self, h):
        return self.acs[h - 1]

    def new(self, c, absent=True):
        k, ac = call(build, c, absent)
        if k != 'ok':
            self.ev.append({'op': 'new', 'c': {'broken': str(ac)}, 'want': c})
            return None
        self.ev.append({'op': 'new', 'c': safe(ac), 'want': c})
        return self._add(ac)

    def fresh(self, c, parts='all'):
        """A certificate that leaves serial and times to the defaults."""
        lo = int(time.time())
        k, ac = call(build, c)
        k, v = call(lambda: (ACInformation(), ACRevocationRules()))
        hi = int(time.time())
        if k == 'ok':
            ac.info, ac.rev_rules = v
        self.ev.append({'op': 'fresh', 'c': safe(ac), 'lo': le(lo, 4), 'hi': le(hi, 4)})
        return self._add(ac)

    def part(self, c, after, before):
        """Revocation rules that leave one of the limits to the default."""
        k, ac = call(build, c)
        lo = int(time.time())
        k, v = call(lambda: ACRevocationRules(**({'valid_after': after} if before is None else {'valid_before': before})))
        hi = int(time.time())
        if k == 'ok':
            ac.rev_rules = v
        self.ev.append({'op': 'part', 'c': safe(ac), 'lo': le(lo, 4), 'hi': le(hi, 4), 'given': 'after' if before is None else 'before',
                        'at': le(after if before is None else before, 4)})
        return self._add(ac)

    def set(self, h, fn):
        fn(self.ac(h))
        self.ev.append({'op': 'set', 'h': h, 'c': safe(self.ac(h))})

    def _signed(self, e, ac, kn):
        """What was signed, looked at with an independent implementation."""
        e['pub'], e['label'], e['body'], e['valid'] = list(pub(kn)), codes(LABEL), [], False
        k, out = call(lambda: bytes(ac.export_ac(ExportFormat.BYTES)))
        if k == 'ok' and ac.signature is not None and ac.signature.sig_value is not None:
            n = 4 + len(ac.signature.sig_algo.encode()) + len(ac.signature.sig_value)
            body = out[:-n]
            e['body'] = list(body)
            try:
                pkcs1_15.new(key(kn).publickey()).verify(SHA256.new(body), bytes(ac.signature.sig_value))
                e['valid'] = True
            except Exception:
                pass

    def sign(self, h, kn):
        e = {'op': 'sign', 'h': h}
        k, v = call(self.ac(h).sign, key(kn))
        e['got'] = 'ok' if k == 'ok' else 'fail'
        e['c'] = safe(self.ac(h))
        self._signed(e, self.ac(h), kn)
        self.ev.append(e)

    def foreign(self, h, kn):
        """Another implementation signs the content."""
        ac = self.ac(h)
        old, ac.signature = ac.signature, None
        k, out = call(lambda: bytes(ac.export_ac(ExportFormat.BYTES)))
        if k != 'ok' or out[-4:] != bytes(4):
            ac.signature = old
            self.ev.append({'op': 'foreign', 'h': h, 'pub': list(pub(kn)), 'body': [-1], 'c': safe(ac)})
            return
        body = out[:-4]
        ac.signature = ACSignature(LABEL, pkcs1_15.new(key(kn)).sign(SHA256.new(body)))
        self.ev.append({'op': 'foreign', 'h': h, 'pub': list(pub(kn)), 'body': list(body), 'c': safe(ac)})

    def verify(self, h):
        k, v = call(self.ac(h).verify_signature)
        self.ev.append({'op': 'verify', 'h': h, 'got': ('T' if v is True else 'F' if v is False else '?') if k == 'ok' else 'X', 'c': safe(self.ac(h))})

    def time(self, h, now):
        k, v = call(self.ac(h).verify_time, now)
        self.ev.append({'op': 'time', 'h': h, 'now': now8(now), 'got': ('T' if v is True else 'F' if v is False else '?') if k == 'ok' else 'X', 'c': safe(self.ac(h))})

    def timenow(self, h):
        lo = int(time.time())
        k, v = call(self.ac(h).verify_time)
        hi = int(time.time())
        self.ev.append({'op': 'timenow', 'h': h, 'lo': now8(lo), 'hi': now8(hi), 'got': ('T' if v is True else 'F' if v is False else '?') if k == 'ok' else 'X'})

    def eq(self, a, b):
        def b_(fn):
            k, v = call(fn)
            return ('T' if v is True else 'F' if v is False else '?') if k == 'ok' else 'X'
        x, y = self.ac(a), self.ac(b)
        self.ev.append({'op': 'eq', 'a': a, 'b': b, 'ab': b_(lambda: x == y), 'ba': b_(lambda: y == x), 'ne': b_(lambda: x != y)})

    def export(self, h, fmt, mode='plain', kn=1):
        ac = self.ac(h)
        e = {'op': 'export', 'h': h, 'fmt': fmt, 'mode': mode, 'out': [], 'pub': [], 'body': [], 'valid': False, 'label': []}
        if mode == 'plain':
            k, v = call(ac.export_ac, ExportFormat[fmt])
        elif mode == 'nokey':
            k, v = call(ac.export_ac, ExportFormat[fmt], sign=True)
        else:
            k, v = call(ac.export_ac, ExportFormat[fmt], True, key(kn))
        e['got'] = 'ok' if k == 'ok' and isinstance(v, (bytes, bytearray, str)) else 'fail' if k == 'exc' else '?'
        e['c'] = safe(ac)
        if e['got'] == 'ok':
            e['out'] = codes(v) if isinstance(v, str) else list(v)
        else:
            v = None
        if mode == 'sign':
            self._signed(e, ac, kn)
        self.ev.append(e)
        return v

    def imp(self, data, fmt, verify=False, h=None):
        keep = type(data)(data)
        e = {'op': 'import', 'fmt': fmt, 'verify': verify, 'data': codes(data) if isinstance(data, str) else list(data)}
        k, v = call(AttributeCertificate.import_ac, data, ExportFormat[fmt], verify)
        e['same'] = data == keep
        e['got'] = 'ok' if k == 'ok' and isinstance(v, AttributeCertificate) else 'fail' if k == 'exc' else '?'
        e['c'] = safe(v) if e['got'] == 'ok' else []
        self.ev.append(e)
        return self._add(v) if e['got'] == 'ok' else None

    def look(self, h):
        self.ev.append({'op': 'look', 'h': h, 'c': safe(self.ac(h))})


def describe(cs):
    return [e['op'] + ((' ' + e['fmt']) if 'fmt' in e else '') + ' ' + str(e.get('got', '')) for e in cs['ev']][:12]


# ---------------------------------------------------------------- random content
def rtext(r, empty=True, n=None):
    k = r.randrange(10)
    if k == 0 and empty:
        return []
    if k == 8:                               # characters that careless code trims, folds or normalises
        x = r.choice(['a', '', 'Name', 'b c'])
        e = r.choice(['\0', ' ', '\n', '\r\n', '\t', '\ufeff', '\u00a0', 'e\u0301', '\u212b', '\u2028', '"', '\\', '%s', '{}', '\x7f', '\x1f', '\u00df', '\u0130', '=', ':'])
        return codes(r.choice([e + x, x + e, e + x + e, x + e + x, e]))
    if k == 9:
        return codes(r.choice(['long', 'l\u00e9', '\u4e2d']) * r.choice([30, 64, 100, 128, 200])) if r.random() < .4 else codes('Mixed Case ID')
    if k < 5:
        return codes(r.choice(['a', 'urn:hgabac:user', 'http://x.org/a?b=c', 'Name With Space', 'x' * r.randrange(1, 60), 'line\nbreak', '0']))
    return [r.choice([r.randrange(1, 128), r.randrange(128, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)])
            for _ in range(r.randrange(1, 8))]


# What careless code folds, trims, cuts, decodes or normalises: near the plain value, and different from it.
PLAIN = 'http://Host:80/a b?c=%41&d=05.0'
TWISTS = [lambda w: w + '/', lambda w: w + ' ', lambda w: ' ' + w, lambda w: w + '\n', lambda w: '\n' + w, lambda w: w + '\r\n', lambda w: w + '\t', lambda w: w + '\0',
          lambda w: '\0' + w, lambda w: w.replace('/', '/\0', 1), lambda w: w.upper(), lambda w: w.lower(), lambda w: w.swapcase(), lambda w: w + '.', lambda w: w + ',', lambda w: w + ';',
          lambda w: '"%s"' % w, lambda w: "'%s'" % w, lambda w: w.replace(' ', '  '), lambda w: w.replace(' ', ''), lambda w: w.replace(' ', '+'), lambda w: w.replace(' ', '%20'),
          lambda w: w.replace('%41', 'A'), lambda w: w.replace('05', '5'), lambda w: w.replace('5.0', '5'), lambda w: w.replace(':80', ''), lambda w: w.replace('http:', 'https:'),
          lambda w: w.replace('http://', ''), lambda w: w.replace('/', '\\'), lambda w: w + '\u00a0', lambda w: '\ufeff' + w, lambda w: w + '\u200b', lambda w: w.replace('a', '\u0430', 1),
          lambda w: w.replace('o', '\u00f6', 1), lambda w: w.replace('o', 'o\u0308', 1), lambda w: w.replace('b', '\u212b', 1), lambda w: w.replace('b', '\u00c5', 1), lambda w: w[:-1], lambda w: w[1:],
          lambda w: w[:-1] + chr(ord(w[-1]) + 1), lambda w: w + w, lambda w: w[::-1], lambda w: w * 8 + 'x', lambda w: w * 8 + 'y', lambda w: w * 40 + 'x', lambda w: w * 40 + 'y', lambda w: w * 40 + 'yz',
          lambda w: '0', lambda w: '00', lambda w: '-0', lambda w: 'None', lambda w: 'null', lambda w: 'False', lambda w: ' ', lambda w: '\n', lambda w: '\0', lambda w: '%s', lambda w: '%d%', lambda w: '{}',
          lambda w: w + '#', lambda w: w.replace('?', '#'), lambda w: '==== END ISSUER ====\n', lambda w: '\u0130', lambda w: '\u00df', lambda w: 'ss', lambda w: 'i', lambda w: w.replace('&', '&amp;'),
          lambda w: w.replace('=', ':'), lambda w: w]
TEXTS = ['ialgo', 'iuid', 'iname', 'iurl', 'halgo', 'huid', 'hname', 'rurl', 'salgo', 'atts.id', 'atts.val', 'atts.name', 'exts.eid']
BTWISTS = [lambda b: b + [0], lambda b: [0] + b, lambda b: b + [0] * 4, lambda b: b[:-1], lambda b: b[1:], lambda b: b[::-1], lambda b: b + b, lambda b: [b[0] ^ 1] + b[1:], lambda b: [b[0] ^ 128] + b[1:],
           lambda b: b[:-1] + [b[-1] ^ 1], lambda b: b[:-1] + [b[-1] ^ 128], lambda b: b[:len(b) // 2] + [b[len(b) // 2] ^ 4] + b[len(b) // 2 + 1:], lambda b: [0], lambda b: [0, 0], lambda b: [32], lambda b: [10], lambda b: b + [10],
           lambda b: b + [32], lambda b: [61] * 4, lambda b: b * 9 + [1], lambda b: b * 9 + [2], lambda b: b * 30 + [1], lambda b: b * 30 + [2], lambda b: [x | 32 for x in b], lambda b: [x & 127 for x in b], lambda b: [255],
           lambda b: list(b'None'), lambda b: b]
BYTES_ = ['ikey', 'hkey', 'rex', 'del', 'sval', 'atts.ex', 'exts.ex']
PLAINB = [0x30, 0x81, 0x41, 0x61, 0x00, 0xff, 0x7f, 0x20, 0x0a, 0x99, 0x41, 0x5a, 0xfe]


def plain(r):
    """A certificate with every part present."""
    w, b = codes(PLAIN), PLAINB
    return {'ikey': b, 'ialgo': w, 'iuid': w, 'iname': w, 'iurl': w, 'hkey': b, 'halgo': w, 'huid': w, 'hname': w, 'ver': 0, 'serial': [7], 'issued': le(1700000000, 4),
            'atts': [{'id': w, 'ty': 'STRING', 'val': w, 'name': w, 'ex': b}], 'after': le(1700000000, 4), 'before': le(1700003600, 4), 'rurl': w, 'rex': b, 'del': b,
            'exts': [{'eid': w, 'ex': b}], 'salgo': w, 'sval': b}


def with_(c, field, v):
    c = dict(c, atts=[dict(a) for a in c['atts']], exts=[dict(a) for a in c['exts']])
    if '.' in field:
        a, b = field.split('.')
        c[a][0][b] = v
    else:
        c[field] = v
    return c


def rbytes(r, empty=True, n=40):
    k = r.randrange(12)
    if k == 0:                               # as long as keys and signatures are
        return list(r.randbytes(r.choice([128, 256, 257, 270, 384, 512, 600])))
    if k == 1:
        return r.choice([[0], [0, 0], [10], [32], [0, 1], [1, 0], [255], [61, 61], [48, 0, 48]])
    return list(r.randbytes(r.randrange(0 if empty else 1, n)))


def rtime(r):
    return list(r.choice([r.randrange(2**32), r.randrange(2**31, 2**32), 0, 2**32 - 1, 1600000000]).to_bytes(4, 'little'))


def rcert(r, ikey=None, natts=None, sig=False):
    c = {'ikey': ikey if ikey is not None else rbytes(r), 'ialgo': rtext(r), 'iuid': rtext(r), 'iname': rtext(r), 'iurl': rtext(r),
         'hkey': rbytes(r), 'halgo': rtext(r), 'huid': rtext(r), 'hname': rtext(r), 'ver': r.choice([0, 0, 1, 255, r.randrange(256)]),
         'serial': strip(list(r.randbytes(r.choice([20, 20, 20, 1, 0])))), 'issued': rtime(r),
         'atts': [{'id': rtext(r), 'ty': r.choice(TYPES), 'val': rtext(r), 'name': rtext(r), 'ex': r.choice([[], rbytes(r)])}
                  for _ in range(natts if natts is not None else r.choice([0, 1, 2, 3, 6]))],
         'after': rtime(r), 'before': rtime(r), 'rurl': rtext(r), 'rex': r.choice([[], rbytes(r)]), 'del': r.choice([[], rbytes(r)]),
         'exts': [{'eid': rtext(r), 'ex': r.choice([[], rbytes(r)])} for _ in range(r.choice([0, 0, 1, 2]))], 'salgo': [], 'sval': []}
    if sig:
        c['salgo'], c['sval'] = rtext(r, False), rbytes(r, False)
    return c
