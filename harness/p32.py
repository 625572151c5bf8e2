"""P32: passwords, peppers, passphrases and private keys show up nowhere they are not meant to."""
import base64, contextlib, hashlib, random, urllib.parse
import p35
import client as _client
from pa import PA, G, body, signed, entry, pem, der
from p35 import *
from p35 import _pool, _generate

ALPHA = 'abcdefghkmnprstuvwxyzABCDEFGHKLMNPRSTUVWXYZ23456789'


def word(r, n=14, odd=True):
    w = ''.join(r.choice(ALPHA) for _ in range(n))
    return w[:4] + r.choice(['', '@', '%', ' ', "'", '\u00e9', '/', ':']) + w[4:] if odd else w


def forms(v):
    """A text or bytes in the ways it can be written down so that it can be had back, or tested for without effort."""
    b = v.encode() if isinstance(v, str) else v
    out = {b, b.hex().encode(), b.hex().upper().encode(), urllib.parse.quote(b).encode(), urllib.parse.quote_plus(b).encode(), b[::-1]}
    if isinstance(v, str):
        out |= {repr(v)[1:-1].encode(), ascii(v)[1:-1].encode(), v.swapcase().encode(), v.lower().encode(), v.upper().encode()}
    for i in range(3):                         # base64, wherever in a longer text it starts
        e = base64.b64encode(b'x' * i + b)
        lo = {0: 0, 1: 2, 2: 3}[i]
        hi = len(e) - {0: 0, 1: 3, 2: 2}[(len(b) + i) % 3] if (len(b) + i) % 3 else len(e)
        out |= {e[lo:hi], e[lo:hi].replace(b'+', b'-').replace(b'/', b'_')}
    for h in ('md5', 'sha1', 'sha256', 'sha512'):
        d = hashlib.new(h, b)
        out |= {d.hexdigest().encode(), d.digest(), base64.b64encode(d.digest())}
    return {x for x in out if len(x) >= 8}


def numbers(k):
    """The private numbers of a key."""
    out = set()
    for n in (k.d, k.p, k.q):
        h = '%x' % n
        out |= {str(n).encode(), h.encode(), h.upper().encode(), n.to_bytes((n.bit_length() + 7) // 8, 'big'), n.to_bytes((n.bit_length() + 7) // 8, 'little')}
    for fmt in ('PEM', 'DER'):
        for p in (1, 8):
            e = k.export_key(fmt, pkcs=p)
            out.add(e)
            if fmt == 'PEM':
                out |= {x for x in e.split(b'\n')[4:-2]}       # any line of the private part of it
            else:
                e = base64.b64encode(e)
                out |= {e[i:i + 60] for i in range(len(e) // 2, len(e) - 60, 60)}
    return out


def bare(k):
    """The private numbers behind the public ones: what an encoding has of the public key is not secret."""
    pub = b''.join(k.publickey().export_key(f) for f in ('PEM', 'DER')) + k.publickey().export_key().replace(b'\n', b'')
    return {x for x in numbers(k) if x not in pub}


_bare = {}


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.text = []

    def emit(self, rec):
        try:
            t = rec.getMessage()
        except Exception:
            t = repr((rec.msg, rec.args))
        self.text.append(t)
        if rec.exc_info:
            self.text.append(logging.Formatter().formatException(rec.exc_info))
        if rec.args:
            self.text.append(repr(rec.args))


def walk(x, deep=0, seen=None):
    """Everything a value shows: texts, bytes, numbers, and what is in it."""
    seen = set() if seen is None else seen
    if id(x) in seen or deep > 6:
        return
    seen.add(id(x))
    if isinstance(x, (bytes, bytearray)):
        yield bytes(x)
    elif isinstance(x, (str, int, float)):
        yield str(x).encode('utf-8', 'replace')
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from walk(k, deep + 1, seen)
            yield from walk(v, deep + 1, seen)
    elif isinstance(x, (list, tuple, set)):
        for v in x:
            yield from walk(v, deep + 1, seen)
    elif hasattr(x, 'read'):
        k, d = call(x.read)
        call(x.close)
        if k == 'ok':
            yield from walk(d, deep + 1, seen)
    elif isinstance(x, BaseException):
        yield (str(x) + repr(x.args)).encode('utf-8', 'replace')
    elif hasattr(x, '__dict__'):
        yield from walk(vars(x), deep + 1, seen)
        for n in dir(type(x)):
            if not n.startswith('_') and not callable(getattr(x, n, None)):
                yield from walk(getattr(x, n), deep + 1, seen)


class House(Tools):
    """One installation with secrets of its own."""
    def __init__(self, ck, r):
        self.ck, self.r, self.real, self.ev, self.tokens, self.sums = ck, r, False, [], {}, {}
        p35._pbes.scrypt = p35._quick
        self.dir = tempfile.mkdtemp(dir=ck.scratch, prefix='house')
        os.mkdir(os.path.join(self.dir, 'certs'))
        self.secret = {'pepper': word(r), 'passphrase': word(r), 'dbpass': word(r)}
        self.files = [os.path.join(self.dir, 'key.bin')]
        self.c = {'pass': self.secret['passphrase'], 'file': self.files[0], 'AAUTH': self.secret['pepper'], 'PAUTH': word(r)}
        self.where = r.choice(['sect', 'default'])
        self.pws = {'dan': word(r), 'eve': word(r)}
        self.needles = [(s, f) for s, v in self.secret.items() for f in forms(v)]
        self.n = r.choice([1, 2, 3])
        self.key = _pool[self.n - 1]
        with open(self.files[0], 'wb') as f:
            f.write(self.key.export_key(passphrase=self.c['pass'], pkcs=8, protection='scryptAndAES128-CBC'))
        for i in range(len(_pool)):
            if i not in _bare:
                _bare[i] = bare(_pool[i])
        self.needles += [('private', x) for x in _bare[self.n - 1]]
        self.aa = self.papi = self.cli_ = None
        self.cap = Capture()
        self.next = iter([_pool[5]] * 50)
        self.load()
        self.m.schema.ServiceBases['aauth'].metadata.create_all(self.m.database.get_engine('AAUTH'))
        self.db = DB(os.path.join(self.dir, 'db.db'))
        self.db.many([('INSERT INTO aauth_users (id, username, password) VALUES (?, ?, ?)', (i + 1, u, hashed(p, self.c['AAUTH']))) for i, (u, p) in enumerate(self.pws.items())]
                     + [('INSERT INTO aauth_attributes (id, name, type) VALUES (?, ?, ?)', ('/a/1', 'a', 'INT')), ('INSERT INTO aauth_attribute_assignments (user_id, att_id, value) VALUES (1, ?, ?)', ('/a/1', '5'))])

    def load(self):
        c = self.c
        self.level = self.r.choice(['ALL', 'DEBUG', 'INFO'])
        d = {'LOG_LEVEL': self.level, 'SQL_LOG_LEVEL': self.r.choice(['ALL', 'INFO', 'CRITICAL']), 'DB_TYPE': 'sqlite', 'DB_NAME': os.path.join(self.dir, 'db'), 'DB_USER': 'apps', 'DB_PASS': self.secret['dbpass']}
        a = {'AAUTH_ID': 'aa', 'A_URI': 'urn:aa', 'REV_URL': '', 'AC_EXPIRE_LENGTH': '60', 'LOG_NAME': 'aauth', 'LOG_FILE': 'None'}
        for k, v in (('PASS_PEPPER', c['AAUTH']), ('KEY_PASS', c['pass']), ('KEY_FILE', c['file'])):
            (a if self.where == 'sect' else d)[k] = v
        cli = {'AAUTH': {'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': 'http://h/x', 'LOG_FILE': 'None', 'LOG_LEVEL': 'ALL', 'KEY_SIZE': '1024', 'CRED_TYPE': '0', 'CRED_USER': 'dan', 'CRED_PASS': self.pws['dan']},
               'PAUTH': {'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': 'http://h/y', 'LOG_FILE': 'None', 'LOG_LEVEL': 'ALL'}}
        self.m = Modules({'DEFAULT': d, 'AAUTH': a, 'PAUTH': {'PAUTH_NAME': 'p', 'PAUTH_UID': 'urn:p', 'LOG_NAME': 'pauth'}, 'BIG': {'DB_TYPE': 'mysql', 'DB_NAME': 'x', 'LOG_NAME': 'big'},
                          'LADON': {'LOG_FILE': 'ladon.log', 'SERVICE_PORT': '8888', 'SERVICE_HOST': ''}}, cli)

    def op(self, name, fn, needles=()):
        """Do it, and look for secrets in everything it shows."""
        root, con = logging.getLogger(), io.StringIO()
        self.cap.text = []
        root.addHandler(self.cap)
        _client.J.CALLS.clear()
        try:
            with contextlib.redirect_stdout(con), contextlib.redirect_stderr(con):
                k, v = call(fn)
                reply = list(walk(v))
                if k != 'ok':
                    x, seen = v, 0
                    while isinstance(x, BaseException) and seen < 5:
                        reply += list(walk(x))
                        x, seen = x.__cause__ or x.__context__, seen + 1
        finally:
            root.removeHandler(self.cap)
        where = {'log': [t.encode('utf-8', 'replace') for t in self.cap.text], 'reply': reply, 'console': [con.getvalue().encode()],
                 'wire': [x for q in _client.J.CALLS if q[0] != 'open' for x in walk(list(q[2].values()))], 'rows': [], 'files': []}
        if isinstance(v, str) and name in ('hash', 'genkey', 'build', 'genatts'):      # what the command printed
            where['console'], where['reply'] = where['console'] + [v.encode()], []
        for t in self.db.tables():
            where['rows'] += list(walk(self.db.rows(t)))
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                if not f.startswith('db.db'):
                    where['files'].append(open(os.path.join(d, f), 'rb').read())
        shown = {}
        for o, xs in where.items():
            blob = b'\x00\x01'.join(xs)
            flat = blob.replace(b'\\n', b'').replace(b'\n', b'')
            shown[o] = sorted({s for s, f in self.needles + list(needles) if f in blob or f in flat})
        self.ev.append({'op': name, 'shown': shown, 'got': k})
        if k != 'ok' and isinstance(v, BaseException):
            v.__traceback__ = None
        return v if k == 'ok' else None

    def service(self):
        if self.aa is None:
            k, v = call(lambda: self.m.services__aauth.AttributeAuthority())
            if k != 'ok':
                return None
            self.aa = v
            self.m.services__aauth.AttributeAuthority.AC_DIR = os.path.join(self.dir, 'certs') + '/'
        return self.aa

    def ask(self, name, user, pw, type=0, ids=(), fault=None, key=b'KEY', bits=1024):
        A = self.m.services__aauth
        aa = self.service()
        c, k, a, l = A.Credentials(), A.PublicKey(), A.KeyAlgorithm(), A.AttributeList()
        c.type, c.username, c.password = type, user, pw
        a.cipher, a.key_size = 'RSA', bits
        k.public_key, k.key_algorithm = key, a
        l.attribute_ids, l.attribute_names = list(ids), []
        FAULT.update(at=fault, n=0, log=[])
        try:
            self.op(name, lambda: aa.attribute_request(c, k, l, REMOTE_ADDR='10.0.0.1'), [('password', f) for f in forms(pw) | forms(pw + self.c['AAUTH'])])
        finally:
            FAULT.update(at=None, n=0)

    def do(self, name):
        r = self.r
        u = r.choice(list(self.pws))
        pw = self.pws[u]
        if name == 'start':
            self.aa = None
            self.op(name, lambda: (self.service(), None)[1])
        elif name == 'info':
            aa = self.service()
            self.op(name, lambda: aa.info(REMOTE_ADDR='10.0.0.1'))
        elif name == 'right':
            self.ask(name, r.choice([u, u.upper()]), pw, ids=r.choice([(), ('/a/1',)]) if u == 'dan' else ())
        elif name == 'wrong':
            self.ask(name, u, r.choice([word(r), pw + 'x', pw[:-1], pw.swapcase()]))
        elif name == 'unknown':
            self.ask(name, 'nobody', r.choice([word(r), pw]))
        elif name == 'long':
            self.ask(name, u, r.choice([pw * 6, word(r, 80)]))
        elif name == 'badtype':
            self.ask(name, u, pw, type=r.choice([1, 2, 99, -1, None, '0']))
        elif name == 'badatt':
            self.ask(name, u, pw, ids=['/no/such'])
        elif name == 'badargs':
            self.ask(name, u, pw, key=r.choice([None, 'text', b'x' * 70000]), bits=r.choice([1024, -1, None, 'x']))
        elif name == 'fault':
            self.ask(name, u, pw, fault=r.choice([1, 2, 3]))
        elif name in ('pastart', 'list', 'session', 'refused'):
            if self.papi is None:
                self.m.schema.ServiceBases['pauth'].metadata.create_all(self.m.database.get_engine('PAUTH'))
                self.papi = self.m.services__pauth.PolicyAuthority()
                self.db.run('DELETE FROM pauth_attribute_authorities')
                self.db.run('INSERT INTO pauth_attribute_authorities (uid, name, url, key_cipher, key_size, pub_key, trust_level) VALUES (?, ?, ?, ?, ?, ?, ?)', 'urn:aa', 'aa', 'u', 'RSA', 1024, pem(1).decode(), 50)
            P = self.m.services__pauth
            if name == 'pastart':
                self.op(name, lambda: (self.m.services__pauth.PolicyAuthority(), None)[1])
            elif name == 'list':
                self.op(name, lambda: self.papi.trusted_attribute_authorities(REMOTE_ADDR='10.0.0.1'))
            else:
                now = int(CLOCK.now)
                data = signed(body(r.randrange(1, 2**60), 'urn:aa', pem(1), now - 5, now - 5, now + 500), 1 if name == 'session' else 2)

                def go():
                    t = P.AttributeCertificateSet() if hasattr(P, 'AttributeCertificateSet') else types.SimpleNamespace()
                    x = types.SimpleNamespace(data=Data(data), version=1, format=0)
                    t.attribute_certificates = [x]
                    return self.papi.start_session('urn:s', t, REMOTE_ADDR='10.0.0.1')
                self.op(name, go)
        elif name in ('ask', 'askinfo'):
            def reply(method, kw):
                how = r.randrange(4)
                if how == 0:
                    raise OSError('no connection')
                return _client.J.Response(r.choice([200, 200, 500]), r.choice([{'result': {'a': 1}}, {'fault': {'code': 'client', 'string': 'Invalid credentials.', 'detail': []}}, {}]))
            _client.J.REPLY[0] = reply
            n = r.randrange(len(_pool))
            RSA.generate = lambda *a, **kw: _pool[n]
            try:
                def go():
                    if r.random() < .3:
                        self.cli_ = None
                    if self.cli_ is None:
                        self.cli_ = self.m.clients__aauth.AttributeAuthorityClient(*r.choice([[], [{'type': 0, 'username': 'dan', 'password': self.pws['dan']}]]))
                    return self.cli_.info() if name == 'askinfo' else self.cli_.attribute_request(**r.choice([{}, {'key': _pool[n]}, {'attribute_names': ['a']}]))
                self.op(name, go, [('password', f) for f in forms(self.pws['dan'])] + [('clientkey', f) for f in _bare[n]])
            finally:
                RSA.generate = _generate
        elif name == 'mysql':
            def go():
                with self.m.database.get_engine('BIG').connect():
                    pass
            self.op(name, go)
        elif name == 'genkey':
            self.op(name, lambda: self.cli('genkey', 'aauth'), [('private', x) for x in _bare[5]])
            self.needles += [('private', x) for x in _bare[5]]
            self.aa = None
        elif name == 'hash':
            w = word(r)
            self.op(name, lambda: self.cli('password', 'aauth', w), [('password', f) for f in forms(w) | forms(w + self.c['AAUTH'])])
        elif name == 'build':
            self.op(name, lambda: self.cli('build', r.choice(['all', 'pauth'])))
        elif name == 'genatts':
            self.op(name, lambda: self.cli('genatts', '2'))

    def case(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'ev': self.ev}


def replay(ck):
    def go(r, hist):
        h = House(ck, r)
        for op in hist:
            h.do(op)
        return h.case()
    return go


def describe(cs):
    return [{'op': e['op'], 'got': e['got'], 'shown': {o: s for o, s in e['shown'].items() if s}} for e in cs['ev']]


@sqlalchemy.event.listens_for(Engine, 'do_connect')
def _none(dialect, rec, cargs, cparams):
    if dialect.name == 'mysql':
        raise OSError('no such server')


def run(ck):
    g = sorted(ck.generate('GenSecrets', 'GenSecrets3.cfg', workers=4), key=str)
    ck.validate('TraceSecrets', ck.pmap(replay(ck), g if not ck.quick else ck.rng.sample(g, 500)), describe, what='histories of three operations')
    long = ck.generate('GenSecrets', 'GenSecretsLong.cfg', args=['-simulate', 'num=%d' % ck.pick(120, 3000), '-depth', '14', '-seed', str(ck.seed)])
    ck.validate('TraceSecrets', ck.pmap(replay(ck), long), describe, what='longer histories')
