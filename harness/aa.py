"""Recording histories of the attribute authority for TraceIssue."""
import bcrypt, random
from Crypto.PublicKey import RSA
from Crypto.Signature import pkcs1_15
from Crypto.Hash import SHA256
from world import *

LABEL = b'RSASSA-PKCS1-v1_5:SHA256'
_hash = {}


def hashed(pw, pepper):
    k = (pw, pepper)
    if k not in _hash:
        _hash[k] = bcrypt.hashpw((pw + pepper).encode(), bcrypt.gensalt(4)).decode()
    return _hash[k]


def keyfile(n):
    return os.path.join(HERE, 'keys', 'k%d.pem' % n)


def text(s):
    return [] if s is None else codes(s)


class Hooked:
    """An argument of a request during whose reading something else happens."""
    def __init__(self, fields, at=None, meanwhile=None):
        self.__dict__['_f'], self.__dict__['_at'], self.__dict__['_m'] = dict(fields), at, meanwhile

    def __getattr__(self, n):
        f = self.__dict__['_f']
        if n not in f:
            raise AttributeError(n)
        if n == self.__dict__['_at'] and self.__dict__['_m'] is not None:
            m, self.__dict__['_m'] = self.__dict__['_m'], None
            m()
        return f[n]

    def __setattr__(self, n, v):
        self.__dict__['_f'][n] = v


class AA:
    def __init__(self, ck, conf, accounts, atts, assign, asp, pepper='pepper', level='INFO', clock=1500000000):
        self.dir = tempfile.mkdtemp(dir=ck.scratch, prefix='aa')
        self.certs = os.path.join(self.dir, 'certs')
        os.mkdir(self.certs)
        self.tokens, self.ev = {}, []
        self.pepper, self.level, self.asp = pepper, level, asp
        self.accounts, self.atts, self.assign = list(accounts), list(atts), list(assign)
        self.conf = dict(conf)
        CLOCK.now, CLOCK.tick = float(clock), 0.0
        self.base = os.path.join(self.dir, 'db')
        self.db = DB(self.base + '.db')
        self._load()
        self.m.schema.ServiceBases['aauth'].metadata.create_all(self.m.database.get_engine('AAUTH'))
        self._write()
        self.start = {'conf': self._conf(), 'accounts': self._accounts(), 'atts': self._atts(), 'assign': self._assign(), 'db': self._db(), 'asp': asp}

    def _load(self):
        c = self.conf
        self.m = Modules({'DEFAULT': {'LOG_LEVEL': self.level, 'DB_TYPE': 'sqlite', 'DB_NAME': self.base},
                          'LADON': {'LOG_FILE': 'ladon.log', 'SERVICE_HOST': c.get('host', ''), 'SERVICE_PORT': c.get('port', '8888')},
                          'AAUTH': {'AAUTH_ID': c['name'], 'A_URI': c['uri'], 'REV_URL': c.get('rev', ''), 'AC_EXPIRE_LENGTH': c['len'], 'PASS_PEPPER': self.pepper,
                                    'KEY_FILE': keyfile(c['key']), 'KEY_PASS': '', 'LOG_NAME': 'aauth', 'LOG_FILE': 'None'}})
        self.m.services__aauth.AttributeAuthority.AC_DIR = self.certs + '/'
        self.key = RSA.import_key(open(keyfile(c['key'])).read())
        self.aa = self.m.services__aauth.AttributeAuthority()

    def _write(self):
        st = [('DELETE FROM aauth_attribute_assignments', ()), ('DELETE FROM aauth_users', ()), ('DELETE FROM aauth_attributes', ())]
        for i, (n, p) in enumerate(self.accounts):
            st.append(('INSERT INTO aauth_users (id, username, password) VALUES (?, ?, ?)', (i + 1, n, hashed(p, self.pepper))))
        for i, n, t in self.atts:
            st.append(('INSERT INTO aauth_attributes (id, name, type) VALUES (?, ?, ?)', (i, n, t)))
        for u, i, v in self.assign:
            st.append(('INSERT INTO aauth_attribute_assignments (user_id, att_id, value) VALUES (?, ?, ?)', (u, i, v)))
        self.db.many(st)

    def tok(self, x):
        return self.tokens.setdefault(x, len(self.tokens) + 1)

    def _db(self):
        return self.tok(repr([self.db.rows(t) for t in self.db.tables()]))

    def _conf(self):
        c = self.conf
        return {'uri': codes(c['uri']), 'name': codes(c['name']), 'host': codes(c.get('host', '')), 'port': codes(c.get('port', '8888')), 'rev': codes(c.get('rev', '')),
                'len': c['len'], 'pem': list(self.key.publickey().export_key()), 'bits': self.key.size_in_bits()}

    def _accounts(self):
        return [{'n': codes(n), 'p': codes(p)} for n, p in self.accounts]

    def _atts(self):
        return [{'id': codes(i), 'name': codes(n), 'ty': t} for i, n, t in self.atts]

    def _assign(self):
        return [{'u': u, 'id': codes(i), 'val': text(v), 'has': v is not None} for u, i, v in self.assign]

    def files(self):
        return [self.tok(open(os.path.join(self.certs, f), 'rb').read()) for f in sorted(os.listdir(self.certs))]

    def request(self, user, pw, ids=(), names=(), type=0, key=b'KEY', cipher='RSA', bits=2048, remote=None, tick=0.0, at=None, meanwhile=None):
        remote = {'remote_addr': '10.0.0.1'} if remote is None else remote
        A = self.m.services__aauth
        rq = {'type': type, 'user': [] if user is None else [codes(user)], 'pass': [] if pw is None else [codes(pw)],
              'ids': [[-1] if x is None else codes(x) for x in ids], 'names': [[-1] if x is None else codes(x) for x in names],
              'key': list(key), 'cipher': codes(cipher), 'bits': bits,
              'remote': {f: [codes(remote[f])] if f in remote else [] for f in ('remote_addr', 'remote_host', 'remote_ident', 'remote_user')}}

        def obj(cls, **f):
            if at in f and meanwhile is not None:
                return Hooked(f, at, meanwhile)
            o = cls()
            for k, v in f.items():
                setattr(o, k, v)
            return o
        alg = obj(A.KeyAlgorithm, cipher=cipher, key_size=bits)
        pk = obj(A.PublicKey, public_key=key, key_algorithm=alg)
        cr = obj(A.Credentials, type=type, username=user, password=pw)
        al = obj(A.AttributeList, attribute_ids=list(ids), attribute_names=list(names))
        CLOCK.tick = tick
        lo = int(CLOCK.now)
        out = outcome(self.aa.attribute_request, cr, pk, al, **{k.upper(): v for k, v in remote.items()})
        hi = int(CLOCK.now)
        e = {'op': 'request', 'rq': rq, 'lo': lo, 'hi': hi, 'data': [], 'file': 0, 'valid': False, 'ver': -1, 'fmt': -1, 'said': []}
        if out[0] == 'ok':
            k, d = call(lambda: out[1].data.read())
            call(lambda: out[1].data.close())
            if k == 'ok' and isinstance(d, bytes):
                n = 4 + len(LABEL) + self.key.size_in_bytes()
                e.update(got='ok', data=list(d), file=self.tok(d), ver=getattr(out[1], 'version', -1), fmt=getattr(out[1], 'format', -1))
                try:
                    pkcs1_15.new(self.key.publickey()).verify(SHA256.new(d[:-n]), d[-self.key.size_in_bytes():])
                    e['valid'] = True
                except Exception:
                    pass
            else:
                e['got'] = 'nothing'
        elif out[0] == 'timeout':
            e['got'] = 'timeout'
        else:
            e['got'] = 'refused'
            said = out[1] + ': ' + out[2]
            if user:
                said = said.replace(user, '<user>').replace(user.lower(), '<user>')
            e['said'] = codes(said)
        e['files'], e['db'] = self.files(), self._db()
        self.ev.append(e)
        return e

    def change(self):
        """The administrator changed accounts, attributes or assignments (self.accounts, ...)."""
        self._write()
        self.ev.append({'op': 'change', 'accounts': self._accounts(), 'atts': self._atts(), 'assign': self._assign(), 'db': self._db()})

    def restart(self, **conf):
        self.conf.update(conf)
        self._load()
        self.ev.append({'op': 'restart', 'conf': self._conf(), 'files': self.files(), 'db': self._db()})

    def info(self):
        """What the authority tells about itself."""
        out = outcome(self.aa.info, REMOTE_ADDR='10.0.0.1')
        s = lambda x: codes(x) if isinstance(x, str) else list(x) if isinstance(x, bytes) else [-1]
        v = {}
        if out[0] == 'ok':
            i = out[1]
            k, v = call(lambda: {'name': s(i.aauth_id), 'ver': i.attribute_authority_version, 'acver': i.attribute_certificate_version, 'uri': s(i.attribute_uri), 'rev': s(i.revocation_url),
                                 'pem': s(i.public_key), 'cipher': s(i.key_algorithm.cipher), 'bits': i.key_algorithm.key_size, 'hash': s(i.signature_type.hash_algorithm),
                                 'sig': s(i.signature_type.signature_algorithm), 'creds': [{'v': c.value, 'n': s(c.name)} for c in i.credential_types]})
            if k != 'ok':
                v = {}
        self.ev.append({'op': 'info', 'info': v})

    def case(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        return dict(self.start, ev=self.ev)


def describe(cs):
    out = []
    for e in cs['ev'][:12]:
        if e['op'] == 'request':
            q = e['rq']
            t = lambda x: ''.join(map(chr, x)) if x != [-1] else None
            out.append('request type %s user %r pass %r ids %r names %r from %r -> %s %s' % (q['type'], [t(x) for x in q['user']], [t(x) for x in q['pass']],
                       [t(x) for x in q['ids']], [t(x) for x in q['names']], {k: t(v[0]) for k, v in q['remote'].items() if v}, e['got'], t(e['said'])))
        else:
            out.append(e['op'])
    return out


CONF = {'uri': 'urn:aa', 'name': 'authority', 'len': 3600, 'key': 1}
TYPES = ['INT', 'STRING', 'FLOAT', 'BOOL', 'SET', 'NULL']
