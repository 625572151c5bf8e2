"""P35: keys and password hashes made by the tools work with the services, and only as they were made."""
import runpy
from aa import *
import db as _db

PASSES = ['secret', 'PUTYOURPASSWORDHERE', 'a b', 'p%s', '\u00e9t\u00e9', 'x' * 60, '#pass', 'None', "q'uo\"te", '0']
PWS = ['admin', 'Admin', 'admin ', ' admin', 'pa ss', '%s', '%', 'x' * 30, '\u4e16\u754c', 'None', '0', 'a', '$2b$12$abc', 'admin\u00a0', 'ADMIN', '-x', '"admin"', "it's", 'admin\t', 'a\\nb', 'PUTYOURPEPPERHERE', 'adminPUT']
PEPPERS = ['PUTYOURPEPPERHERE', 'x', 'p%r', '\u00fcber', 'admin', '0', 'y' * 20]


def odd(r):
    """Any text a setting can have: not empty, no blanks at the ends."""
    mark = '"\'`#;=:[](){}<>%$\\/@!?*,.~^|&-+_'
    w = ''.join(r.choice(['a', 'B', '3', ' ', '\u00e9', '\u4e16', r.choice(mark)]) for _ in range(r.choice([0, 3, 8]))).strip()
    return r.choice(['', r.choice(mark)]) + w + r.choice(['x', r.choice(mark)])


_generate, _gensalt = RSA.generate, bcrypt.gensalt
_pool = [RSA.import_key(open(keyfile(n)).read()) for n in range(1, 9)]


# deriving keys from passphrases is slow on purpose: something quick takes its place, except where keys are really made
import hashlib
import Crypto.IO._PBES as _pbes
_scrypt = _pbes.scrypt


def _quick(password, salt, key_len, *a, **kw):
    return hashlib.pbkdf2_hmac('sha256', password.encode() if isinstance(password, str) else bytes(password), bytes(salt), 2, key_len)


class Tools:
    def __init__(self, ck, r, real=False, conf=None):
        _pbes.scrypt = _scrypt if real else _quick
        self.r, self.real, self.ev, self.tokens, self.sums = r, real, [], {}, {}
        self.dir = tempfile.mkdtemp(dir=ck.scratch, prefix='tools')
        os.mkdir(os.path.join(self.dir, 'certs'))
        self.files = [os.path.join(self.dir, r.choice(['key.bin', 'a b.pem', 'aauth_rsa_key.bin'])), os.path.join(self.dir, 'other.bin')]
        self.passes = r.sample(PASSES, 2)
        self.pw = r.sample(PWS, 2)
        self.peppers = r.sample(PEPPERS, 3)
        for q in (self.passes, self.pw, self.peppers):
            for i in range(len(q)):
                w = odd(r) if q is not self.passes else odd(r).replace('\u4e16', 'z')     # passphrases of key files are Latin-1
                if r.random() < .4 and w not in q:
                    q[i] = w
        self.users = ['dan', 'eve']
        self.c = {'pass': self.passes[0], 'file': self.files[0], 'AAUTH': self.peppers[0], 'PAUTH': self.peppers[1]}
        self.where = r.choice(['sect', 'default', 'both'])
        keys = list(_pool)
        r.shuffle(keys)
        self.next = iter(keys * 4)
        self.load()
        self.start0 = self.conf()
        self.rest = None
        self.cli('build', 'aauth')

    def tok(self, x):
        return self.tokens.setdefault(x, len(self.tokens) + 1)

    def conf(self):
        return {'pass': codes(self.c['pass']), 'file': codes(os.path.basename(self.c['file'])), 'peppers': {s: codes(self.c[s]) for s in ('AAUTH', 'PAUTH')}}

    def load(self):
        c = self.c
        d = {'LOG_LEVEL': 'INFO', 'DB_TYPE': 'sqlite', 'DB_NAME': os.path.join(self.dir, 'db')}
        a = {'AAUTH_ID': 'aa', 'A_URI': 'urn:aa', 'REV_URL': '', 'AC_EXPIRE_LENGTH': '60', 'LOG_NAME': 'aauth', 'LOG_FILE': 'None'}
        p = {'LOG_NAME': 'pauth', 'PASS_PEPPER': c['PAUTH']}
        for k, v in (('PASS_PEPPER', c['AAUTH']), ('KEY_PASS', c['pass']), ('KEY_FILE', c['file'])):
            if self.where != 'default':
                a[k] = v
            if self.where != 'sect':
                d[k] = v if self.where == 'default' else 'not this'
        self.m = Modules({'DEFAULT': d, 'AAUTH': a, 'PAUTH': p, 'LADON': {'LOG_FILE': 'ladon.log', 'SERVICE_PORT': '8888', 'SERVICE_HOST': ''}})
        self.db = DB(os.path.join(self.dir, 'db.db'))

    def settle(self, **kw):
        self.c.update(kw)
        self.load()
        self.ev.append({'op': 'conf', 'conf': self.conf()})

    def cli(self, *a):
        def gen(bits, *x, **y):
            self.bits = bits
            return next(self.next)
        if not self.real:
            RSA.generate = gen
        bcrypt.gensalt = lambda rounds=12, prefix=b'2b': _gensalt(4, prefix)
        try:
            return _db.Tracer.cli(self, *a)
        finally:
            RSA.generate, bcrypt.gensalt = _generate, _gensalt

    def changed(self):
        """Files next to the database that are not as they were at the last look."""
        now = {}
        for f in sorted(os.listdir(self.dir)):
            p = os.path.join(self.dir, f)
            if os.path.isfile(p) and not f.startswith('db.db'):
                now[f] = open(p, 'rb').read()
        out = [codes(f) for f in sorted(set(now) | set(self.sums)) if now.get(f) != self.sums.get(f)]
        self.sums = now
        return out

    def genkey(self, kind='aauth'):
        self.bits = 0
        out = outcome(self.cli, self.r.choice(['genkey', 'GENKEY', 'genKey']), self.r.choice([kind, kind.upper()]))
        e = {'op': 'genkey', 'kind': kind, 'ok': out[0] == 'ok', 'changed': self.changed(), 'opens': False, 'plain': False, 'other': False, 'key': 0, 'bits': self.bits, 'real': True}
        data = self.sums.get(os.path.basename(self.c['file']), b'')

        def opens(p):
            try:
                return RSA.import_key(data, passphrase=p)
            except (ValueError, IndexError, TypeError):
                return None
        k = opens(self.c['pass'])
        if k is not None and k.has_private():
            e.update(opens=True, key=self.tok(k.publickey().export_key()))
            if self.real:
                e['bits'] = k.size_in_bits()
        for x in (None, ''):
            e['plain'] = e['plain'] or opens(x) is not None
        for x in [p for p in self.passes if p != self.c['pass']] + ([] if self.real else [self.c['pass'] + ' ', self.c['pass'][:-1], 'PASS', self.c['pass'].swapcase()]):
            e['other'] = e['other'] or (x != self.c['pass'] and opens(x) is not None)
        self.ev.append(e)

    def start(self):
        out = outcome(lambda: self.m.services__aauth.AttributeAuthority())
        e = {'op': 'start', 'ok': out[0] == 'ok', 'key': 0, 'changed': self.changed()}
        self.aa = None
        if e['ok']:
            self.aa = out[1]
            self.m.services__aauth.AttributeAuthority.AC_DIR = os.path.join(self.dir, 'certs') + '/'
            i = outcome(self.aa.info, REMOTE_ADDR='10.0.0.1')
            try:
                e['key'] = self.tok(RSA.import_key(i[1].public_key).export_key())
            except Exception:
                e['key'] = -1
        self.ev.append(e)
        return self.aa

    def password(self, pw, svc='AAUTH'):
        out = outcome(self.cli, self.r.choice(['password', 'pass', 'PASS']), self.r.choice([svc, svc.lower()]), pw)
        e = {'op': 'password', 'svc': svc, 'pw': codes(pw), 'ok': out[0] == 'ok', 'hash': 0, 'fits': [], 'changed': self.changed()}
        h = None
        if out[0] == 'ok':
            for line in out[1].splitlines():
                for w in line.split():
                    if w.startswith('$2'):
                        h = w
            if h is None:
                e['ok'] = False
            else:
                e['hash'] = self.tok(h)
                for t in [p + q for p in {pw, pw.lower(), pw.strip(), pw + ' ', pw[:-1], '', self.pw[0], self.pw[1]} for q in {self.c['AAUTH'], self.c['PAUTH'], '', self.c['AAUTH'].upper()}]:
                    if len(t.encode()) <= 72:
                        e['fits'].append({'t': codes(t), 'fits': bcrypt.checkpw(t.encode(), h.encode())})
        self.ev.append(e)
        return h if e['ok'] else None

    def account(self, user, h):
        self.db.many([('DELETE FROM aauth_users WHERE username = ?', (user,)), ('INSERT INTO aauth_users (username, password) VALUES (?, ?)', (user, h))])
        self.ev.append({'op': 'account', 'user': codes(user), 'hash': self.tok(h)})

    def login(self, user, pw):
        A = self.m.services__aauth
        c, k, a, l = A.Credentials(), A.PublicKey(), A.KeyAlgorithm(), A.AttributeList()
        c.type, c.username, c.password = 0, user, pw
        a.cipher, a.key_size = 'RSA', 1024
        k.public_key, k.key_algorithm = b'K', a
        l.attribute_ids, l.attribute_names = [], []
        out = outcome(self.aa.attribute_request, c, k, l, REMOTE_ADDR='10.0.0.1')
        if out[0] == 'ok':
            call(lambda: out[1].data.close())
        self.ev.append({'op': 'login', 'user': codes(user), 'pw': codes(pw), 'ok': out[0] == 'ok'})

    def logins(self):
        for u in self.users:
            for pw in set(self.pw) | {self.pw[0] + 'x', ''}:
                self.login(u, pw)

    def nonsense(self, *a):
        out = outcome(self.cli, *a)
        self.ev.append({'op': 'nonsense', 'ok': out[0] == 'ok', 'changed': self.changed()})

    def case(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'conf': self.start0, 'ev': self.ev}


def replay(ck, real=False):
    def go(r, hist):
        t = Tools(ck, r, real)
        for op, a, b in hist:
            if op == 'pass':
                t.settle(**{'pass': t.passes[a - 1]})
            elif op == 'file':
                t.settle(file=t.files[a - 1])
            elif op == 'pepper':
                t.settle(AAUTH=t.peppers[0 if a == 1 else 2])
            elif op == 'genkey':
                t.genkey()
            elif op == 'start':
                if t.start():
                    t.logins()
            else:
                h = t.password(t.pw[b - 1])
                if h:
                    t.account(t.users[a - 1], h)
        if r.random() < .2:
            t.nonsense(*r.choice([['genkey'], ['genkey', 'aauth', 'x'], ['password'], ['password', 'aauth'], ['password', 'aauth', 'a', 'b'], []]))
        if r.random() < .3:
            t.genkey(r.choice(['pauth', 'rsa', 'aauth2', 'all']))
        if r.random() < .3:
            t.password(r.choice(PWS), 'PAUTH')
        if t.start():
            t.logins()
        return t.case()
    return go


def full(ck, real):
    """The whole way: key, passwords of any kind, service, logins."""
    def go(r, i):
        t = Tools(ck, r, real)
        t.pw = r.sample(PWS, 2) if i % 3 == 1 else [odd(r) + 'a', odd(r) + 'b'] if i % 3 == 2 else [''.join(r.choice('aB3 %\u00e9\u4e16$"\'') for _ in range(n)) for n in (r.choice([1, 8, 30]), r.choice([45, 60, 66, 72]))]
        t.genkey()
        for _ in range(2):
            for u in t.users:
                h = t.password(r.choice(t.pw))
                if h:
                    t.account(u, h)
            if t.start():
                t.logins()
            if r.random() < .5:
                t.genkey()
        return t.case()
    return go


def describe(cs):
    t = lambda x: ''.join(map(chr, x))
    out = []
    for e in cs['ev']:
        d = {k: t(v) if k in ('pw', 'user') else [t(x) for x in v] if k == 'changed' else v for k, v in e.items() if k not in ('fits', 'conf')}
        if 'fits' in e:
            d['fits'] = [t(x['t']) for x in e['fits'] if x['fits']]
        out.append(d)
    return {'conf': {k: t(v) if isinstance(v, list) else {a: t(b) for a, b in v.items()} for k, v in cs['conf'].items()}, 'events': out[:30]}


def run(ck):
    g = sorted(ck.generate('GenTools', 'GenTools4.cfg', workers=4), key=str)
    ck.exhaustive_parts.append('all %d histories of four steps' % len(g))
    ck.validate('TraceTools', ck.pmap(replay(ck), ck.rng.sample(g, ck.pick(500, len(g)))), describe, what='histories of four steps')
    long = ck.generate('GenTools', 'GenToolsLong.cfg', args=['-simulate', 'num=%d' % ck.pick(150, 2000), '-depth', '12', '-seed', str(ck.seed)])
    ck.validate('TraceTools', ck.pmap(replay(ck), long), describe, what='longer histories')
    ck.validate('TraceTools', ck.pmap(full(ck, False), range(ck.pick(160, 3000))), describe, what='any passwords')
    ck.validate('TraceTools', ck.pmap(full(ck, True), range(ck.pick(16, 200))), describe, what='with keys as they are really made')
