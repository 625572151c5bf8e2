"""P33: services connect to exactly the database they are configured for."""
import threading
from aa import *
from sqlalchemy import event

SEEN = []
WORDS = ['apps', 'p@ss', 'a:b', 'a/b', 'x?y=z', 'x#y', '%41', '100%', '%s', 'a b', '[x]', '\u4e16\u754c', 'q"u\'o', 'back\\slash', '@', ':', '/', 'a+b', 'a&b', 'None', '0', 'x;y', 'p@h:1/d', "it's", '{user}', '{0}', '$HOME', 'a=b']
HOSTS = ['localhost', 'db.example.org', '10.0.0.1', 'db-1', 'DB.Example', '::1', '2001:db8::5']
PORTS = ['3306', '1', '65535', '3307']


def cut(v):
    """A place in the directory we are in, as seen from there."""
    d = os.getcwd() + '/'
    return v[len(d):] if v.startswith(d) else v


class NoConnection(Exception):
    pass


@event.listens_for(Engine, 'do_connect')
def _do_connect(dialect, rec, cargs, cparams):
    """What the driver is told. MySQL itself is not there: the connection fails."""
    name = dialect.name
    t = lambda v: [] if v is None or v == '' else [codes(cut(str(v)))]
    e = {'kind': name, 'user': [], 'pass': [], 'host': [], 'port': [], 'db': []}
    if name == 'mysql':
        p = dict(cparams)
        e.update({'user': t(p.get('user', p.get('username'))), 'pass': t(p.get('password', p.get('passwd'))), 'host': t(p.get('host')), 'port': t(p.get('port')), 'db': t(p.get('database', p.get('db')))})
    else:
        f = cargs[0] if cargs else cparams.get('database')
        if f in (':memory:', '', None):
            e['kind'] = 'memory'
        else:
            e.update(kind='sqlite', db=[codes(cut(str(f)))])
    SEEN.append(e)
    if name == 'mysql':
        raise NoConnection('no such server')


class Conn:
    def __init__(self, r, conf, dir):
        self.r, self.dir, self.ev = r, dir, []
        for s in ('AAUTH',):
            conf.setdefault(s, {}).update({'AAUTH_ID': 'a', 'A_URI': 'urn:a', 'AC_EXPIRE_LENGTH': '10', 'KEY_FILE': keyfile(1), 'KEY_PASS': '', 'PASS_PEPPER': 'p', 'LOG_NAME': 'aauth'})
        conf.setdefault('PAUTH', {}).update({'PAUTH_NAME': 'p', 'PAUTH_UID': 'urn:p', 'LOG_NAME': 'pauth'})
        conf.setdefault('DEFAULT', {})
        self.conf = conf
        self.m = Modules(conf)
        d = dict(conf, DEFAULT=dict(LOGGING, **conf['DEFAULT']))
        self.start = {'service': [{'sect': codes(s), 'name': codes(k), 'val': codes(cut(v))} for s, x in d.items() for k, v in x.items() if k.startswith('DB_')]}

    def use(self, sect, fn):
        SEEN.clear()
        outcome(fn)
        self.ev.append({'sect': codes(sect), 'got': [dict(x) for x in SEEN]})

    def way(self, sect):
        """Some way to have a service connect."""
        r, m = self.r, self.m
        svc = sect.lower().replace('_test', '')
        ways = ['engine', 'session']
        if sect in ('AAUTH', 'PAUTH'):
            ways += ['populate', 'build', svc]
        elif sect.endswith('_TEST'):
            ways += ['test'] * 4
        w = r.choice(ways)
        name = r.choice([sect, sect, sect.lower()])

        def engine():
            with m.database.get_engine(name).connect():
                pass

        def session():
            s = m.database.get_session(name)()
            try:
                s.execute(sqlalchemy.text('SELECT 1'))
            finally:
                s.close()

        def aauth():
            A = m.services__aauth
            aa = A.AttributeAuthority()
            c, k, a, l = A.Credentials(), A.PublicKey(), A.KeyAlgorithm(), A.AttributeList()
            c.type, c.username, c.password = 0, 'u', 'p'
            a.cipher, a.key_size = 'RSA', 1024
            k.public_key, k.key_algorithm = b'K', a
            l.attribute_ids, l.attribute_names = [], []
            aa.attribute_request(c, k, l, REMOTE_ADDR='10.0.0.1')

        def pauth():
            m.services__pauth.PolicyAuthority().trusted_attribute_authorities(REMOTE_ADDR='10.0.0.1')
        self.use(sect, {'engine': engine, 'session': session, 'aauth': aauth, 'pauth': pauth, 'build': lambda: m.tools.build_database([svc]),
                        'populate': lambda: m.database.populate_db(name, [], wipe_first=True), 'test': lambda: m.database.populate_db(name[:5], [], wipe_first=True, use_test_db=True)}[w])

    def case(self):
        return dict(self.start, ev=self.ev)


def place(r, dir, kind):
    d = {}
    if kind != 'unset':
        d['DB_TYPE'] = r.choice({'mysql': ['mysql', 'MySQL', 'MYSQL'], 'sqlite': ['sqlite', 'SQLite'], 'memory': ['memory', 'MEMORY'], 'other': ['oracle', 'sqlite3', 'mysqld', 'None', 'postgresql']}[kind])
    return d


def filename(r):
    return r.choice(['db', 'a b', 'x?y', 'x#y', '%41', '100%', '\u4e16', 'a@b', 'a:b', "it's", 'x?mode=ro', 'x&y', 'x.y', 'None', '{dbname}', 'a;b', 'x=y'])


def build(r, p):
    dir = tempfile.mkdtemp(prefix='verif-conn-')
    old = os.getcwd()
    os.chdir(dir)                        # whatever a wrong name leads to stays here
    try:
        conf = {'DEFAULT': place(r, dir, p['d'])}
        for x, s in (('a', 'AAUTH'), ('b', 'PAUTH')):
            conf[s] = place(r, dir, p[x])
        if r.random() < .3:
            conf['AAUTH_TEST'] = place(r, dir, r.choice(['unset', 'mysql', 'sqlite', 'memory']))
            conf['PAUTH_TEST'] = place(r, dir, r.choice(['unset', 'mysql', 'sqlite', 'memory']))
        for k, w in (('DB_USER', p['user']), ('DB_PASS', p['pass'])):
            v, u = r.sample(WORDS + [''], 2)
            if w & 1:
                conf['DEFAULT'][k] = v
            if w & 2:
                for s in [z for z in conf if z != 'DEFAULT']:
                    conf[s][k] = r.choice(WORDS)
        for s in conf:
            if r.random() < .6:
                conf[s]['DB_HOST'] = r.choice(HOSTS)
            if r.random() < .6:
                conf[s]['DB_PORT'] = r.choice(PORTS)
            if s == 'DEFAULT' or r.random() < .8:
                conf[s]['DB_NAME'] = os.path.join(dir, filename(r)) if r.random() < .6 else filename(r)
        t = Conn(r, conf, dir)
        for _ in range(5):
            t.way(r.choice(['AAUTH', 'PAUTH', 'AAUTH', 'PAUTH', 'LADON', 'OTHER'] + [s for s in conf if s.endswith('_TEST')] * 2))
        return t.case()
    finally:
        os.chdir(old)
        shutil.rmtree(dir, ignore_errors=True)


def describe(cs):
    t = lambda x: ''.join(map(chr, x))
    return {'configuration': ['[%s] %s=%r' % (t(x['sect']), t(x['name']), t(x['val'])) for x in cs['service']],
            'connections': ['%s -> %s' % (t(e['sect']), [{k: v if k == 'kind' else [t(z) for z in v] for k, v in g.items()} for g in e['got']]) for e in cs['ev']]}


def run(ck):
    g = sorted(ck.generate('GenConn', 'GenConn.cfg', workers=4), key=str)
    ck.exhaustive_parts.append('all %d ways kinds of database and accounts can be set for two services and by default' % len(g))
    some = g if not ck.quick else ck.rng.sample(g, 1000)
    for _ in range(ck.pick(1, 8)):
        ck.validate('TraceConn', ck.pmap(build, some), describe, what='every way the databases can be configured')
