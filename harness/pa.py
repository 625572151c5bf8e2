"""Recording histories of the policy authority for TraceSession. Certificates are made here, independently of the code."""
import base64, random
from Crypto.PublicKey import RSA
from Crypto.Signature import pkcs1_15
from Crypto.Hash import SHA256
from world import *

LABEL = b'RSASSA-PKCS1-v1_5:SHA256'
_keys = {}


def key(n):
    if n not in _keys:
        _keys[n] = RSA.import_key(open(os.path.join(HERE, 'keys', 'k%d.pem' % n)).read())
    return _keys[n]


def pem(n):
    return key(n).publickey().export_key()


def der(n):
    return key(n).publickey().export_key('DER')


def le(n, size=4):
    try:
        return list(int(n).to_bytes(size, 'little'))
    except (OverflowError, ValueError, TypeError):
        return [-1]


def _f(*fields):
    fields = [x.encode() if isinstance(x, str) else bytes(x or b'') for x in fields]
    return b''.join(len(x).to_bytes(2, 'little') for x in fields), b''.join(fields)


def body(serial, uid, ikey, issued, after, before, atts=(), ver=1, holder=(b'HK', 'RSA[1024]', 'urn:u', 'u'), algo='RSA[1024]', iname='aa', iurl='http://aa', rurl='', rex=b'', dele=b'', exts=()):
    """The content of a certificate in the wire format."""
    out = b''.join(_f(ikey, algo, uid, iname, iurl)) + b''.join(_f(*holder))
    out += bytes([ver, 20]) + serial.to_bytes(20, 'little') + issued.to_bytes(4, 'little')
    out += len(atts).to_bytes(2, 'little')
    for i, ty, v, n in atts:
        s, d = _f(i, v, n, b'')
        out += s + bytes([ty]) + d
    s, d = _f(rurl, rex)
    out += s + after.to_bytes(4, 'little') + before.to_bytes(4, 'little') + d
    out += b''.join(_f(dele)) + len(exts).to_bytes(2, 'little')
    for e in exts:
        out += b''.join(_f(*e))
    return out


def signed(b, n, label=LABEL):
    v = pkcs1_15.new(key(n)).sign(SHA256.new(b))
    return b + b''.join(_f(label, v))


def form(data, fmt, ver=1):
    if fmt == 0:
        return data
    b = base64.b64encode(data)
    if fmt == 3:
        return b
    return b'---- BEGIN ATTRIBUTE CERTIFICATE ----\nFORMAT: BASE64\nVERSION: %d\n' % ver + b + b'\n---- END ATTRIBUTE CERTIFICATE ----'


def raw(data, fmt):
    """The bytes behind data in a format, or None."""
    try:
        if fmt == 0:
            return data
        if fmt == 3:
            return base64.b64decode(data, validate=True)
        return base64.b64decode(data.split(b'\n')[3], validate=True)
    except Exception:
        return None


def verifies(data, fmt, ns=range(1, 9)):
    """The keys that verify the signature at the end (label and value) over all before it."""
    d = raw(data, fmt)
    out = []
    if d is None:
        return out
    for n in ns:
        m = key(n).size_in_bytes()
        for i in range(max(0, len(d) - m - 80), len(d) - m - 3):       # where the two sizes of the signature can be
            a, b = int.from_bytes(d[i:i + 2], 'little'), int.from_bytes(d[i + 2:i + 4], 'little')
            if i + 4 + a + b == len(d) and b == m:
                try:
                    pkcs1_15.new(key(n).publickey()).verify(SHA256.new(d[:i]), d[-m:])
                    out.append(n)
                except Exception:
                    pass
    return out


_ver = {}


class G:
    """A certificate to be given: data, version, format."""
    def __init__(self, data, fmt=0, ver=1):
        self.data, self.fmt, self.ver = form(data, fmt) if fmt in (3, 4) else data, fmt, ver

    def sigs(self):
        k = (self.data, self.fmt)
        if k not in _ver:
            _ver[k] = verifies(self.data, self.fmt) if self.fmt in (0, 3, 4) else []
        return _ver[k]


class PA:
    TABLES = {'sess': 'pauth_sessions', 'certs': 'pauth_attribute_certificates', 'asg': 'pauth_attribute_certificate_assignments'}

    def __init__(self, ck, reg, asp, conf=None, level='ERROR', clock=1500000000, shared=None):
        self.dir = tempfile.mkdtemp(dir=ck.scratch, prefix='pa')
        self.asp, self.level, self.reg = asp, level, [dict(x) for x in reg]
        self.conf = dict({'name': 'pa', 'uid': 'urn:pa', 'host': '', 'port': '8888'}, **(conf or {}))
        CLOCK.now, CLOCK.tick = float(clock), 0.0
        self.base = os.path.join(self.dir, 'db')
        self.db = DB(self.base + '.db')
        self.tokens, self.toks, self.ev = {}, [], []
        self._load()
        self.m.schema.ServiceBases['pauth'].metadata.create_all(self.m.database.get_engine('PAUTH'))
        self._write()
        self.start0 = {'conf': self._conf(), 'reg': self._reg(), 'db': self.rows(), 'asp': asp}

    def _load(self):
        c = self.conf
        self.m = Modules({'DEFAULT': {'LOG_LEVEL': self.level, 'DB_TYPE': 'sqlite', 'DB_NAME': self.base},
                          'LADON': {'LOG_FILE': 'ladon.log', 'SERVICE_HOST': c['host'], 'SERVICE_PORT': c['port']},
                          'PAUTH': {'PAUTH_NAME': c['name'], 'PAUTH_UID': c['uid'], 'LOG_NAME': 'pauth', 'LOG_FILE': 'None'}})
        self.pa = self.m.services__pauth.PolicyAuthority()

    def _conf(self):
        c = self.conf
        host = c['host'] if c['host'].strip() else 'localhost'
        return {'name': codes(c['name']), 'uid': codes(c['uid']), 'url': codes('http://%s:%s/PolicyAuthority/jsonwsp/' % (host, c['port'])), 'version': 1, 'acver': 1, 'plver': 1}

    def _write(self):
        st = [('DELETE FROM pauth_attribute_authorities', ())]
        for x in self.reg:
            st.append(('INSERT INTO pauth_attribute_authorities (uid, name, url, key_cipher, key_size, pub_key, trust_level) VALUES (?,?,?,?,?,?,?)',
                       (x['uid'], x['name'], x['url'], x['cipher'], x['size'], x['pub'], x['trust'])))
        self.db.many(st)

    def _reg(self):
        return [{'uid': codes(x['uid']), 'key': x['key'], 'trust': x['trust'], 'name': codes(x['name']), 'url': codes(x['url']), 'cipher': codes(x['cipher']),
                 'size': x['size'], 'pub': codes(x['pub'])} for x in self.reg]

    def tok(self, data):
        if data not in self.tokens:
            self.toks.append({'data': list(data), 'ver': -1, 'fmt': -1})
            self.tokens[data] = len(self.toks)
        return self.tokens[data]

    def rows(self):
        out = {'sess': [], 'certs': [], 'asg': []}
        con = sqlite3.connect(self.base + '.db')
        try:
            for r in con.execute('SELECT id, cert_start, cert_valid_till, session_start, initial_service_ip, name, session_valid_till FROM pauth_sessions'):
                out['sess'].append({'id': codes(r[0]), 'cs': le(r[1]), 'cv': le(r[2]), 'st': le(r[3]), 'ip': codes(r[4]), 'uid': codes(r[5]), 'till': le(r[6])})
            for r in con.execute('SELECT serial, certificate, format, version, valid_till, hash FROM pauth_attribute_certificates'):
                out['certs'].append({'serial': codes(r[0]), 'tok': self.tok(bytes(r[1]) if not isinstance(r[1], str) else r[1].encode()), 'fmt': r[2], 'ver': r[3], 'till': le(r[4]), 'hash': codes(r[5])})
            for r in con.execute('SELECT ac_serial, session_id FROM pauth_attribute_certificate_assignments'):
                out['asg'].append({'serial': codes(r[0]), 'id': codes(r[1])})
        finally:
            con.close()
        return out

    def start(self, certs, svc='urn:s', addr='10.0.0.1', tick=0.0, fail=None, meanwhile=None, whole=False):
        """certs: list of G (or None for no list at all); meanwhile: (index, action) run while that certificate is read."""
        A = self.m.services__pauth
        e = {'op': 'start', 'svc': codes(svc), 'addr': codes(addr), 'given': [], 'reg0': self._reg(), 'had': [c['serial'] for c in self.rows()['certs']]}
        objs = []
        for i, g in enumerate(certs or []):
            t = self.tok(g.data)
            if self.toks[t - 1]['fmt'] < 0:
                self.toks[t - 1].update(ver=g.ver, fmt=g.fmt)
            e['given'].append({'data': list(g.data), 'ver': g.ver, 'fmt': g.fmt, 'tok': t, 'hash': list(base64.b64encode(SHA256.new(g.data).digest())), 'sigs': list(g.sigs())})
            o = A.AttributeCertificateType()
            o.data = Data(g.data, meanwhile[1] if meanwhile and meanwhile[0] == i else None)
            o.version, o.format = g.ver, g.fmt
            objs.append(o)
        if certs is None:
            arg = None
        else:
            arg = A.AttributeCertificateSet()
            arg.attribute_certificates = None if whole else objs
        CLOCK.tick = tick
        lo = int(CLOCK.now)
        FAULT.update(at=fail, n=0, log=[])
        out = outcome(self.pa.start_session, svc, arg, REMOTE_ADDR=addr)
        e['hit'] = fail is not None and FAULT['n'] >= fail
        e['stmts'] = FAULT['n']
        FAULT.update(at=None)
        CLOCK.tick = 0.0
        e['lo'], e['hi'] = le(lo), le(int(CLOCK.now))
        e.update(sid=[], start=[], till=[], said=[])
        if out[0] == 'ok':
            v = out[1]
            e.update(got='ok' if v is not None else 'nothing', sid=le(getattr(v, 'session_id', None), 20), start=le(getattr(v, 'start', None)), till=le(getattr(v, 'valid_till', None)))
        elif out[0] == 'timeout':
            e['got'] = 'timeout'
        else:
            e.update(got='refused', said=codes(out[1] + ': ' + out[2][:100]))
        e['db'] = self.rows()
        self.ev.append(e)
        return e

    def registry(self):
        """self.reg has been changed by the administrator."""
        self._write()
        self.ev.append({'op': 'registry', 'reg': self._reg()})

    def purge(self):
        """The administrator removes the sessions that have ended."""
        self.db.many([('DELETE FROM pauth_attribute_certificate_assignments WHERE session_id IN (SELECT id FROM pauth_sessions WHERE session_valid_till <= ?)', (int(CLOCK.now),)),
                      ('DELETE FROM pauth_sessions WHERE session_valid_till <= ?', (int(CLOCK.now),))])
        self.ev.append({'op': 'purge', 'db': self.rows()})

    def restart(self, **conf):
        self.conf.update(conf)
        self._load()
        self.ev.append({'op': 'restart', 'db': self.rows(), 'conf': self._conf()})

    def list(self):
        out = outcome(self.pa.trusted_attribute_authorities, REMOTE_ADDR='10.0.0.1')
        got = []
        if out[0] == 'ok':
            s = lambda x: codes(x) if isinstance(x, str) else list(x) if isinstance(x, bytes) else [-1]
            for a in out[1].attribute_authorities:
                k, v = call(lambda: {'uid': s(a.uid), 'name': s(a.name), 'url': s(a.url), 'cipher': s(a.key_algorithm.cipher), 'size': a.key_algorithm.key_size, 'pub': s(a.public_key), 'trust': a.trust_level})
                got.append(v if k == 'ok' else {'uid': [-1]})
        else:
            got = [{'failed': codes(out[1])}] * (len(self.reg) + 1)
        self.ev.append({'op': 'list', 'list': got})

    def info(self):
        out = outcome(self.pa.info, REMOTE_ADDR='10.0.0.1')
        if out[0] == 'ok':
            i = out[1]
            k, v = call(lambda: {'name': codes(i.name), 'uid': codes(i.uid), 'url': codes(i.url), 'version': i.version, 'acver': i.attribute_certificate_version, 'plver': i.policy_language_version})
            if k != 'ok':
                v = {}
        else:
            v = {}
        self.ev.append({'op': 'info', 'info': v})

    def case(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        ks = sorted({k for n in range(1, 9) for k in ((pem(n), n), (der(n), n))})
        used = [{'b': list(b), 'k': n} for b, n in ks if any(b in (raw(bytes(t['data']), t['fmt']) or b'') for t in self.toks)]
        return dict(self.start0, ev=self.ev, keys=used, toks=self.toks)


def entry(uid, k, trust, **more):
    return dict({'uid': uid, 'name': 'name of ' + uid, 'url': 'http://x/' + uid, 'cipher': 'RSA', 'size': key(k).size_in_bits() if k else 1024, 'pub': pem(k).decode() if k else 'not a key',
                 'trust': trust, 'key': k}, **more)


def describe(cs):
    out = []
    t = lambda x: ''.join(map(chr, x))
    for e in cs['ev'][:14]:
        if e['op'] == 'start':
            out.append('start %s by %s -> %s %s' % (['cert#%d v%d f%d sigs%r' % (g['tok'], g['ver'], g['fmt'], g['sigs']) for g in e['given']], t(e['svc']), e['got'], t(e['said'])))
        else:
            out.append(e['op'])
    return out
