"""P37: serials, session identifiers, keys and salts cannot be guessed."""
import pickle
import client as _client
from p32 import *
from p35 import _generate, _gensalt

B64 = './ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'


def bits(n, width):
    return [(n >> i) & 1 for i in range(width)] if isinstance(n, int) and 0 <= n < 2 ** width else []


def keybits(k):
    """The inner part of the modulus, for its ends are not random."""
    return bits((k.n >> 32) & (2 ** 160 - 1), 160)


def salt(h):
    n = 0
    for ch in h.split('$')[3][:21]:
        n = n * 64 + B64.index(ch)
    return bits(n, 126)


class World(House):
    """An installation whose keys are really made, of a size that does not take long."""
    def cli(self, *a):
        RSA.generate = lambda n, *x, **y: _generate(1024, *x, **y)
        try:
            return super().cli(*a)
        finally:
            RSA.generate = _generate

    def draw(self, kind):
        fn = {'serial': self.serial, 'session': self.session, 'clientkey': self.clientkey, 'aakey': self.aakey, 'salt': self.salt}[kind]
        k, v = call(fn)
        return v if k == 'ok' else []

    def serial(self):
        A = self.m.services__aauth
        c, k, a, l = A.Credentials(), A.PublicKey(), A.KeyAlgorithm(), A.AttributeList()
        c.type, c.username, c.password = 0, 'dan', self.pws['dan']
        a.cipher, a.key_size = 'RSA', 1024
        k.public_key, k.key_algorithm = b'KEY', a
        l.attribute_ids, l.attribute_names = [], []
        v = self.service().attribute_request(c, k, l, REMOTE_ADDR='10.0.0.1')
        d = v.data.read()
        v.data.close()
        return bits(self.m.attcert.AttributeCertificate.import_ac(bytearray(d)).info.serial, 160)

    def pastart(self):
        if self.papi is None:
            self.m.schema.ServiceBases['pauth'].metadata.create_all(self.m.database.get_engine('PAUTH'))
            self.papi = self.m.services__pauth.PolicyAuthority()
            self.db.run('DELETE FROM pauth_attribute_authorities')
            self.db.run('INSERT INTO pauth_attribute_authorities (uid, name, url, key_cipher, key_size, pub_key, trust_level) VALUES (?, ?, ?, ?, ?, ?, ?)', 'urn:aa', 'aa', 'u', 'RSA', 1024, pem(1).decode(), 50)

    def session(self):
        self.pastart()
        now = int(CLOCK.now)
        self.nth = getattr(self, 'nth', 0) + 1
        data = signed(body(self.nth, 'urn:aa', pem(1), now - 5, now - 5, now + 500), 1)
        x = types.SimpleNamespace(data=Data(data), version=1, format=0)
        t = types.SimpleNamespace(attribute_certificates=[x])
        return bits(self.papi.start_session('urn:s', t, REMOTE_ADDR='10.0.0.1').session_id, 160)

    def clientkey(self):
        _client.J.REPLY[0] = lambda method, kw: _client.J.Response(200, {'result': {'a': 1}})
        if self.cli_ is None:
            self.cli_ = self.m.clients__aauth.AttributeAuthorityClient()
        self.cli_.attribute_request()
        return keybits(self.cli_.last_key)

    def aakey(self):
        self.cli('genkey', 'aauth')
        self.aa = None
        return keybits(RSA.import_key(open(self.c['file'], 'rb').read(), passphrase=self.c['pass']))

    def salt(self):
        out = self.cli('password', 'aauth', 'the same')
        h = [w for line in out.splitlines() for w in line.split() if w.startswith('$2')][0]
        return salt(h)

    def other(self, op):
        if op == 'second':
            CLOCK.now += 1
        elif op == 'restart':
            self.aa = self.papi = self.cli_ = None
            self.load()
            self.db = DB(os.path.join(self.dir, 'db.db'))


def fork(fn):
    """What fn() returns in a process of its own, with the same random state, clock, everything as here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d)


def twins(ck):
    def go(r, hist):
        seed = r.getrandbits(64)
        keep = []

        def world():
            random.seed(seed)
            q = random.Random(seed)
            CLOCK.now, CLOCK.tick = 1500000000.25, 0.0
            h = World(ck, q)
            h.real = True
            out = []
            last = 'serial'
            for op in hist:
                if op == 'again':
                    op = last
                if op in ('second', 'restart'):
                    h.other(op)
                else:
                    last = op
                    out.append([op, h.draw(op)])
            shutil.rmtree(h.dir, ignore_errors=True)
            return out
        # one after the other: the second world must not find anything of the first
        a = fork(world)
        b = fork(world)
        return {'ev': [{'kind': x[0], 'a': x[1], 'b': y[1]} for x, y in zip(a, b)]}
    return go


def describe(cs):
    h = lambda q: '%x' % sum(x << i for i, x in enumerate(q))
    return [{'kind': e['kind'], 'drawn': h(e['a']), 'guessed': h(e['b'])} for e in cs['ev'][:20]]


def run(ck):
    g = sorted(ck.generate('GenFresh', 'GenFresh4.cfg', workers=4), key=str)
    g = [x for x in g if any(y not in ('second', 'restart', 'again') for y in x)]
    ck.exhaustive_parts.append('all %d histories of four steps in which something is drawn' % len(g))
    ck.validate('TraceFresh', ck.pmap(twins(ck), g if not ck.quick else ck.rng.sample(g, 240)), describe, what='histories of four steps in two worlds that share all that can be known')
    many = [[k] * 40 + ['restart', 'second'] + [k] * 5 for k in ('serial', 'session', 'salt')] * ck.pick(2, 20) + [[k] * ck.pick(6, 40) for k in ('clientkey', 'aakey')]
    ck.validate('TraceFresh', ck.pmap(twins(ck), many), describe, what='many of one kind')
