"""Several attribute and policy authorities, their users and an adversary, recorded for TraceWorld."""
import aa as A
import pa as P
from pa import key, pem, signed, form, raw, G, entry, le, LABEL
from world import *

FMT = {0: 'BYTES', 3: 'BASE64', 4: 'BASE64FULL'}
UIDS = ['urn:aa', 'urn:bb', 'http://a.example/x', 'URN:AA', 'urn:aa#', 'a\xe9', 'x', '\u4e16\u754c', 'urn:aa/']
ATTS = [('/att/age', 'age', 'INT'), ('/att/name', 'name', 'STRING'), ('/att/w', 'weight', 'FLOAT'), ('/att/on', 'on', 'BOOL'), ('/att/set', 'groups', 'SET'), ('/att/nul', 'nothing', 'NULL'),
        ('urn:x/\xe9', 'caf\xe9', 'STRING')]
VALUES = ['31', '0', 'False', '', 'Eve', '\u4e16\u754c', '{1, 2}', 'v' * 80, "it's", None]
USERS = [('dan', 'admin'), ('eve', 'x y'), ('jos\xe9', ''), ('x', 'p' * 40)]


class Earth:
    def __init__(self, ck, r, aas, pas, clock, life):
        """aas: [(uid, key number)]; pas: [registry]."""
        self.ck, self.r, self.ev, self.used = ck, r, [], set()
        self.aas, self.keys, self.pas, self.toks, self.no = [], [], [], [], {}
        for uid, k in aas:
            users = r.sample(USERS, 2)
            atts = r.sample(ATTS, 3)
            asg = [(u + 1, a[0], r.choice(VALUES)) for u in (0, 1) for a in atts if r.random() < .7]
            self.aas.append(A.AA(ck, {'uri': uid, 'name': r.choice(['authority', 'A B', '\u4e16']), 'len': life, 'key': k}, users, atts, asg, [], pepper=r.choice(['pepper', '']),
                                 level=r.choice(['DEBUG', 'ERROR'])))
            self.keys.append(k)
            self.used.add(k)
        for reg in pas:
            self.pas.append(P.PA(ck, reg, [], level=r.choice(['DEBUG', 'ERROR'])))
            self.used |= {x['key'] for x in reg}
        self.user = Modules({})              # what users and adversaries have of the code
        self.user.attcert
        CLOCK.now, CLOCK.tick = float(clock), 0.0
        self.t0 = clock
        self.start0 = {'aas': [self._aa(i) for i in range(len(self.aas))], 'pas': [self._reg(i) for i in range(len(self.pas))]}

    def _aa(self, i):
        a = self.aas[i]
        return {'conf': a._conf(), 'accounts': a._accounts(), 'atts': a._atts(), 'assign': a._assign(), 'key': self.keys[i]}

    def _reg(self, i):
        return [{'uid': codes(x['uid']), 'key': x['key'], 'trust': x['trust']} for x in self.pas[i].reg]

    def tok(self, data, ver, fmt):
        k = (bytes(data), ver, fmt)
        if k not in self.no:
            self.toks.append({'data': list(data), 'ver': ver, 'fmt': fmt})
            self.no[k] = len(self.toks)
        return self.no[k]

    # ---- what happens ----
    def request(self, i, good=True, ids=(), names=(), user=None, tick=0.0):
        a, r = self.aas[i], self.r
        n, p = user or r.choice(a.accounts)
        if not good:
            p = r.choice([p + 'x', 'wrong', p.upper() + ' ', ''.join(reversed(p)) + '1'])
        e = a.request(n, p, ids, names, key=r.choice([b'KEY', pem(r.choice([1, 5])), pem(7)]), bits=r.choice([1024, 2048]), tick=tick,
                      remote={'remote_addr': r.choice(['10.0.0.1', '::1', 'unix'])})
        CLOCK.tick = 0.0
        self.ev.append({'op': 'request', 'a': i + 1, 'rq': e['rq'], 'got': e['got'], 't': self.tok(e['data'], 1, 0), 'lo': e['lo'], 'hi': e['hi']})
        return bytes(e['data']) if e['got'] == 'ok' and e['data'] else None

    def changed(self, i):
        """Accounts, attributes or assignments of authority i have changed (in self.aas[i])."""
        self.aas[i]._write()
        self.ev.append({'op': 'aa', 'a': i + 1, 'now': self._aa(i)})

    def rekey(self, i, k):
        self.keys[i] = k
        self.used.add(k)
        self.aas[i].restart(key=k)
        self.ev.append({'op': 'aa', 'a': i + 1, 'now': self._aa(i)})

    def restart_aa(self, i):
        self.aas[i].restart()

    def restart_pa(self, i):
        self.pas[i].restart()

    def trust(self, i, reg):
        self.pas[i].reg = [dict(x) for x in reg]
        self.pas[i]._write()
        self.used |= {x['key'] for x in reg}
        self.ev.append({'op': 'pa', 'p': i + 1, 'reg': self._reg(i)})

    def forge(self, content, k):
        """The adversary signs content with key k, which it holds."""
        d = signed(content, k)
        self.used.add(k)
        self.ev.append({'op': 'forged', 'k': k, 't': self.tok(d, 1, 0)})
        return d

    def convert(self, g, fmt):
        """Some user reads a certificate with the code and writes it in another form: what comes out, or None."""
        m = self.user.attcert
        cls, ef = m.AttributeCertificate, m.ExportFormat
        k, v = call(lambda: cls.import_ac(bytearray(g.data) if g.fmt == 0 else g.data, ef[FMT[g.fmt]]).export_ac(ef[FMT[fmt]]))
        if k == 'ok' and isinstance(v, str):
            v = v.encode()
        ok = k == 'ok' and isinstance(v, (bytes, bytearray))
        d = bytes(v) if ok else b''
        self.ev.append({'op': 'convert', 'from': self._g(g), 'to': self.tok(d, 1, fmt), 'got': 'ok' if ok else 'fail'})
        if not ok:
            return None
        out = G(b'', 0)
        out.data, out.fmt, out.ver = d, fmt, 1
        return out

    def verify(self, g):
        m = self.user.attcert
        k, v = call(lambda: m.AttributeCertificate.import_ac(bytearray(g.data) if g.fmt == 0 else g.data, m.ExportFormat[FMT[g.fmt]]).verify_signature())
        self.ev.append({'op': 'verify', 'from': self._g(g), 'got': 'yes' if k == 'ok' and v is True else 'no'})

    def _g(self, g):
        return self.tok(g.data, g.ver, g.fmt)

    def present(self, i, gs, tick=0.0, meanwhile=None):
        p = self.pas[i]
        e = p.start(gs, self.r.choice(['urn:s', '', 'caf\xe9']), self.r.choice(['10.0.0.1', '::1']), tick=tick, meanwhile=meanwhile)
        given = [self._g(g) for g in gs]
        kept = [{'serial': w['serial'], 't': self.tok(p.toks[w['tok'] - 1]['data'], w['ver'], w['fmt'])} for w in e['db']['certs']] if e['got'] == 'ok' else []
        self.ev.append({'op': 'start', 'p': i + 1, 'given': given, 'lo': e['lo'], 'hi': e['hi'], 'got': e['got'], 'kept': kept, 'said': ''.join(map(chr, e['said']))})
        return e['got'] == 'ok'

    def case(self):
        for x in self.aas + self.pas:
            shutil.rmtree(x.dir, ignore_errors=True)
        ks = [{'b': list(pem(n)), 'k': n} for n in sorted(self.used) if n]
        return dict(self.start0, keys=ks, toks=self.toks, ev=self.ev)


# ---- what an adversary does to a certificate in the wire format ----
def content(d):
    """The part that is signed."""
    for n in range(1, 9):
        m = key(n).size_in_bytes()
        if d[:-m].endswith(LABEL) and d[-m - len(LABEL) - 4:-m - len(LABEL)] == len(LABEL).to_bytes(2, 'little') + m.to_bytes(2, 'little'):
            return d[:-m - len(LABEL) - 4]
    return d


def flip(d, i, bit=1):
    d = bytearray(d)
    d[i] ^= bit
    return bytes(d)


def swap(d, a, b):
    """One occurrence of a replaced by b of the same length."""
    i = d.find(a)
    return d if i < 0 or not a else d[:i] + b + d[i + len(a):]


def fields(d):
    """Offset and length of the five fields of the issuer and the four of the holder."""
    out, i = [], 0
    for n in (5, 4):
        ls = [int.from_bytes(d[i + 2 * j:i + 2 * j + 2], 'little') for j in range(n)]
        i += 2 * n
        for x in ls:
            out.append((i, x))
            i += x
    return out, i


def alter(r, d, how, other=None):
    c = content(d)
    sig = d[len(c):]
    fs, end = fields(c)
    if how == 1:                                              # an attribute
        i = r.randrange(end + 26, max(end + 27, len(c) - 16))
        for _ in range(40):                                   # rather a letter or digit of a value than the size of a field
            if 48 <= c[i] <= 122:
                break
            i = r.randrange(end + 26, len(c) - 16)
        return flip(c, i) + sig
    if how == 2:                                              # later end or earlier start of the validity
        i = len(c) - 4
        for j in range(len(c) - 4, end, -1):
            t = int.from_bytes(c[j:j + 4], 'little')
            if 10**8 < t < 2**31:
                i = j
                break
        t = int.from_bytes(c[i:i + 4], 'little')
        return c[:i] + ((t + r.choice([1, 60, 86400, 10**6])) % 2**32).to_bytes(4, 'little') + c[i + 4:] + sig
    if how == 3:                                              # the signature
        n = len(sig) - 4 - len(LABEL)
        return c + flip(sig, len(sig) - 1 - r.randrange(n), 1 << r.randrange(8))
    if how == 4:                                              # the signature of another
        return c + (other or d)[len(content(other or d)):]
    i, n = fs[r.choice([2, 3]) if how == 5 else r.choice([5, 7, 8])]
    return flip(c, i + r.randrange(n)) + sig if n else flip(c, 0) + sig


def rekeyed(c, k):
    """Content c with the issuer's key replaced by key k."""
    n = int.from_bytes(c[:2], 'little')
    b = pem(k)
    return len(b).to_bytes(2, 'little') + c[2:10] + b + c[10 + n:]


def renamed(c, uid):
    (i, n) = fields(c)[0][2]
    b = uid.encode()
    return c[:4] + len(b).to_bytes(2, 'little') + c[6:i] + b + c[i + n:]


def describe(cs):
    out = []
    for e in cs['ev'][:20]:
        if e['op'] == 'start':
            out.append('at %d: %s -> %s %s' % (e['p'], ['#%d' % g for g in e['given']], e['got'], e['said'][:80]))
        elif e['op'] == 'request':
            out.append('request %d -> %s' % (e['a'], e['got']))
        else:
            out.append('%s %s' % (e['op'], {k: v for k, v in e.items() if k in ('a', 'p', 'k', 'got')}))
    return out
