"""Databases of the services as seen from outside, and the operations of hgaa.database and hgaa.tools on them (P29)."""
import runpy
from world import *
from world import _create_engine

SVC_TABLES = {'aauth': ['aauth_users', 'aauth_attributes', 'aauth_attribute_assignments'],
              'pauth': ['pauth_attribute_authorities', 'pauth_attributes', 'pauth_policies', 'pauth_attribute_certificates', 'pauth_attribute_certificate_assignments', 'pauth_sessions']}
CLASSES = {'aauth_users': ('aauth', 'User', ['id']), 'aauth_attributes': ('aauth', 'Attribute', ['id']), 'aauth_attribute_assignments': ('aauth', 'AttributeAssignment', ['user_id', 'att_id']),
           'pauth_attribute_authorities': ('pauth', 'AttributeAuthority', ['uid']), 'pauth_attributes': ('pauth', 'Attribute', ['uid']), 'pauth_policies': ('pauth', 'Policy', ['uid']),
           'pauth_attribute_certificates': ('pauth', 'AttributeCertificate', ['serial']), 'pauth_attribute_certificate_assignments': ('pauth', 'AttributeCertificateAssignment', ['ac_serial', 'session_id']),
           'pauth_sessions': ('pauth', 'Session', ['id'])}
TYPES = ['INT', 'FLOAT', 'BOOL', 'STRING', 'SET', 'NULL']
PASS = '$2b$12$QN689kLXzZ.wCmCr8ykOr.lPSoepRtvBZdPHioZYtPTQ9K6ZkWvWq'
TEXTS = ['', 'x', 'a b', "q'uo\"te", '\u4e16\u754c', 'x' * 90, '%s', 'NULL', '0', '; DROP TABLE aauth_users', 'line\nline', '1.0']


def record(r, t, n):
    """Record number n (as key) of table t, as the fields of its class."""
    s = r.choice(TEXTS)
    if t == 'aauth_users':
        return {'id': n, 'username': r.choice(TEXTS)[:25], 'password': s}
    if t == 'aauth_attributes':
        return {'id': '/a/%d' % n, 'name': s, 'type': r.choice(TYPES + [None])}
    if t == 'aauth_attribute_assignments':
        return {'user_id': n % 7, 'att_id': '/a/%d' % n, 'value': r.choice(TEXTS + [None])}
    if t == 'pauth_attribute_authorities':
        return {'uid': 'hgabac://%d' % n, 'name': s, 'url': r.choice(TEXTS), 'key_cipher': 'RSA', 'key_size': r.randrange(4096), 'pub_key': s * 20, 'trust_level': r.randrange(-5, 100)}
    if t == 'pauth_attributes':
        return {'uid': '/e/%d' % n, 'name': r.choice(TEXTS + [None]), 'type': r.choice(TYPES), 'value': r.choice(TEXTS + [None])}
    if t == 'pauth_policies':
        return {'uid': '/p/%d' % n, 'name': r.choice(TEXTS + [None]), 'policy': s, 'ast': r.choice([None, b'', b'\0\xff', b'{}'])}
    if t == 'pauth_attribute_certificates':
        return {'serial': '%040x' % n, 'certificate': bytes([n % 256]) * r.choice([0, 1, 500]), 'format': r.randrange(3), 'version': 1, 'valid_till': r.randrange(2**31), 'hash': s}
    if t == 'pauth_attribute_certificate_assignments':
        return {'ac_serial': '%040x' % (n % 5), 'session_id': 's%d' % n}
    return {'id': 's%d' % n, 'cert_start': 1, 'cert_valid_till': r.randrange(2**31), 'session_start': r.randrange(2**31), 'initial_service_ip': s, 'service_uid': r.choice(TEXTS), 'session_valid_till': 5}


REQUIRED = {'aauth_users': ['username', 'password'], 'aauth_attributes': ['name', 'id'], 'aauth_attribute_assignments': ['att_id'],
            'pauth_attribute_authorities': ['name', 'pub_key', 'trust_level', 'uid'], 'pauth_attributes': ['type', 'uid'], 'pauth_policies': ['policy', 'uid'],
            'pauth_attribute_certificates': ['certificate', 'hash', 'serial'], 'pauth_attribute_certificate_assignments': ['ac_serial'], 'pauth_sessions': ['cert_start', 'service_uid', 'id']}
COLUMN = {'service_uid': 'name'}


def norm(v):
    return v if v is None else 'b' + v.hex() if isinstance(v, bytes) else str(v)


class Tracer:
    """One history. files: names of the database files; places: {'AAUTH': 0, 'PAUTH': 0, 'AAUTH_TEST': 1, 'DEFAULT': 2, ...};
    a service whose place is None has an unsupported type of database; memory: services with a database in memory."""
    def __init__(self, r, n, places, memory=()):
        self.r, self.dir, self.places, self.memory = r, tempfile.mkdtemp(prefix='verif-db-'), dict(places), list(memory)
        self.files = [os.path.join(self.dir, 'd%d.db' % i) for i in range(n)]
        conf = {}
        for s, at in places.items():
            typ = r.choice(['oracle', 'sqlite3', '']) if at is None else r.choice(['sqlite', 'SQLITE', 'SQLite'])
            conf[s] = {'DB_TYPE': typ, 'DB_NAME': self.files[at or 0][:-3], 'LOG_NAME': s.lower()}
            if not conf[s]['DB_TYPE']:
                conf[s]['DB_TYPE'] = 'none'
        for i, s in enumerate(memory):
            conf[s] = {'DB_TYPE': r.choice(['memory', 'MEMORY']), 'DB_NAME': 'mem', 'LOG_NAME': s.lower()}
            self.places[s] = n + i
        self.n = n + len(memory)
        conf.setdefault('DEFAULT', {})
        self.m = Modules(conf)
        self.ids, self.ev, self.serial, self.must = {}, [], 0, {}
        self.m.schema
        self.database = self.m.database

    def intern(self, *x):
        return self.ids.setdefault(x, len(self.ids) + 1)

    def row(self, t, d):
        """A record as TLC sees it, from its columns."""
        d = {k: norm(v) for k, v in d.items()}
        key = CLASSES[t][2] if t in CLASSES else sorted(d)
        return {'t': t, 'k': self.intern('k', t, tuple(d.get(k) for k in key)), 'v': self.intern('v', t, tuple(sorted(d.items(), key=str)))}

    def given(self, t, d):
        return self.row(t, {COLUMN.get(k, k): v for k, v in d.items()})

    def obj(self, t, d):
        svc, cls, _ = CLASSES[t]
        mod = getattr(self.m, 'schema__' + svc)
        d = dict(d)
        if d.get('type') in TYPES:
            d['type'] = self.m.attcert.AttributeType[d['type']]
        return getattr(mod, cls)(**d)

    def connect(self, i):
        if i < len(self.files):
            return sqlite3.connect(self.files[i])
        return self.database.get_engine(self.memory[i - len(self.files)]).raw_connection()

    def look(self):
        out = []
        for i in range(self.n):
            con = self.connect(i)
            try:
                cur = con.cursor()
                tabs = sorted(x[0] for x in cur.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall())
                rows = []
                for t in tabs:
                    cur.execute('SELECT * FROM "%s"' % t)
                    names = [x[0] for x in cur.description]
                    rows += [self.row(t, dict(zip(names, x))) for x in cur.fetchall()]
                out.append({'tables': tabs, 'rows': rows})
            finally:
                con.close()
        return out

    def prepare(self, i, svcs, records, other=False):
        """Tables and records that are there from the start, put there without the code under test."""
        if i < len(self.files):
            e = _create_engine('sqlite:///' + self.files[i])
        else:
            e = self.database.get_engine(self.memory[i - len(self.files)])
        def put():
            for s in svcs:
                self.m.schema.ServiceBases[s].metadata.create_all(e)
            S = sqlalchemy.orm.sessionmaker(bind=e)()
            try:
                S.add_all([self.obj(t, d) for t, d in records])
                S.commit()
            finally:
                S.close()
        if i < len(self.files):
            put()
        else:                            # the engine is of the code under test: what has to be there is known, whether it is will show
            call(put)
            other = False
            self.must[i] = {'tables': sorted(t for s in svcs for t in SVC_TABLES[s]), 'rows': [self.given(t, d) for t, d in records]}
        if other:
            con = self.connect(i)
            con.cursor().execute('CREATE TABLE zz_other (a TEXT, b TEXT)')
            con.cursor().execute("INSERT INTO zz_other VALUES ('1', 'x'), ('2', 'y')")
            con.commit()
            con.close()
        if i < len(self.files):
            e.dispose()

    def start(self):
        self.first = self.look()
        for i, x in self.must.items():
            self.first[i] = x

    def at(self, name):
        """Which database the configuration gives a name: 1.., or 0."""
        p = self.places.get(name.upper(), self.places.get('DEFAULT'))
        return 0 if p is None else p + 1

    def _do(self, fn, fault):
        FAULT.update(at=fault, n=0, log=[])
        out = outcome(fn)
        hit = fault is not None and FAULT['n'] >= fault
        self.steps = FAULT['n']
        FAULT.update(at=None, n=0)
        return ('ok' if out[0] == 'ok' else 'timeout' if out[0] == 'timeout' else 'fail'), hit, out

    def populate(self, name, recs, wipe=False, test=False, fault=None, fn=None, short=False):
        """recs: (table, fields, how) with how None, or what makes the record impossible."""
        known = name.lower() in SVC_TABLES and self.at(name + '_TEST' if test else name) > 0
        at = self.at(name + '_TEST' if test else name)
        given = []
        for t, d, how in recs:
            given.append(dict(self.given(t, d), bad=how is not None) if how != 'junk' else {'t': 'none', 'k': 0, 'v': 0, 'bad': True})
        if fn is None:
            objs = [self.obj(t, d) if how != 'junk' else self.r.choice(['x', None, 5, {}]) for t, d, how in recs]
            objs = self.r.choice([list, tuple])(objs)
            if short and not wipe and not test:
                fn = lambda: self.database.populate_db(name, objs)
            else:
                fn = lambda: self.database.populate_db(name, objs, wipe_first=wipe, use_test_db=test)
        got, hit, out = self._do(fn, fault)
        if known and not given and not wipe and got == 'ok' and not hit:
            pass
        self.ev.append({'op': 'populate', 'known': known, 'nodb': name.lower() in SVC_TABLES and not known, 'at': at if known else 1, 'svc': name.lower() if known else 'aauth', 'given': given, 'wipe': wipe, 'got': got, 'hit': hit, 'dbs': self.look(),
                        'what': name, 'said': str(out[1:])[:200]})
        return got

    def build(self, names, fault=None, fn=None):
        got, hit, out = self._do(fn or (lambda: self.m.tools.build_database(self.r.choice([list, tuple])(names))), fault)
        svcs = [{'svc': s if s in SVC_TABLES else 'aauth', 'known': s in SVC_TABLES and self.at(s) > 0, 'at': self.at(s)} for s in names]
        self.ev.append({'op': 'build', 'svcs': svcs, 'got': got, 'hit': hit, 'dbs': self.look(), 'what': list(names), 'said': str(out[1:])[:200]})

    def read(self, name):
        """What a service finds through a session of its own."""
        svc = name.lower().replace('_test', '')
        at = self.at(name)
        there = self.look()[at - 1]['tables']
        def fn():
            S = self.database.get_session(name)()
            rows = []
            for t in SVC_TABLES[svc]:
                if t in there:
                    cls = getattr(getattr(self.m, 'schema__' + svc), CLASSES[t][1])
                    for o in S.query(cls).all():
                        d = {c.key: getattr(o, c.key) for c in sqlalchemy.inspect(cls).mapper.column_attrs}
                        if d.get('type') is not None:
                            d['type'] = d['type'].name
                        rows.append(self.given(t, d))
            S.close()
            return rows
        out = outcome(fn)
        self.ev.append({'op': 'read', 'svc': svc, 'at': at, 'rows': out[1] if out[0] == 'ok' else [{'t': 'failed', 'k': 0, 'v': 0}], 'dbs': self.look(), 'what': name, 'said': '' if out[0] == 'ok' else str(out[1:])[:200]})

    def genatts(self, n, fault=None, cli=False):
        recs = []
        for i in range(n):
            recs.append(('aauth_attributes', {'id': '/attribute/user/a%d' % i, 'name': 'a%d' % i, 'type': 'INT'}, None))
            recs.append(('aauth_attribute_assignments', {'user_id': 1, 'att_id': '/attribute/user/a%d' % i, 'value': '%d' % i}, None))
        self.populate('AAUTH', recs, fault=fault, fn=(lambda: self.cli('genatts', str(n))) if cli else (lambda: self.m.tools.gen_atts(n)))

    def popgen(self, n):
        recs = [('aauth_users', {'id': 1, 'username': 'dan', 'password': PASS}, None)]
        for i in range(n):
            recs.append(('aauth_attributes', {'id': '/attribute/user/a%d' % i, 'name': 'a%d' % i, 'type': 'INT'}, None))
            recs.append(('aauth_attribute_assignments', {'user_id': 1, 'att_id': '/attribute/user/a%d' % i, 'value': '%d' % i}, None))
        self.populate('AAUTH', recs, wipe=True, fn=lambda: self.m.tools.pop_and_gen(n))

    def cli(self, *args):
        """hgaa.tools as a command, in a process of its own as far as the code can tell."""
        kept = {k: v for k, v in sys.modules.items() if k == 'hgaa' or k.startswith('hgaa.')}
        argv, out = sys.argv, sys.stdout
        for k in kept:
            del sys.modules[k]
        sys.argv, sys.stdout = ['tools.py'] + list(args), io.StringIO()
        try:
            runpy.run_module('hgaa.tools', run_name='__main__', alter_sys=False)
            return sys.stdout.getvalue()
        finally:
            sys.argv, sys.stdout = argv, out
            for k in [k for k in sys.modules if k == 'hgaa' or k.startswith('hgaa.')]:
                del sys.modules[k]
            sys.modules.update(kept)

    def testset(self, svc):
        """The records of the test set of a service, from the code."""
        mod = importlib_module(self.m, 'schema__test__test_' + svc)
        recs = []
        for o in mod.DB_TEST_SET:
            t = o.__tablename__
            d = {c.key: getattr(o, c.key) for c in sqlalchemy.inspect(type(o)).mapper.column_attrs}
            if d.get('type') is not None:
                d['type'] = d['type'].name
            recs.append((t, d, None))
        return recs

    def case(self):
        case = {'dbs': self.first, 'ev': self.ev}
        for e in list(self.database.ACTIVE_ENGINES.values()) if hasattr(self.database, 'ACTIVE_ENGINES') else []:
            e.dispose()
        shutil.rmtree(self.dir, ignore_errors=True)
        return case


def importlib_module(m, name):
    return getattr(m, name)


def spoil(r, t, d):
    """A record of table t that no database takes, and why."""
    how = r.choice(['null', 'null', 'junk', 'type'])
    d = dict(d)
    if how == 'type':                    # nothing a database could store
        d[r.choice(sorted(d))] = object()
        return t, d, how
    if how == 'junk':
        return t, d, how
    d[r.choice(REQUIRED[t])] = None
    return t, d, 'null'


def describe(cs):
    out = []
    for e in cs['ev']:
        rows = [len(d['rows']) for d in e['dbs']]
        if e['op'] == 'populate':
            out.append('populate %s %s%s -> %s%s %s rows now %s' % (e['what'], ['%s%d%s' % (g['t'], g['k'], '!' if g['bad'] else '') for g in e['given']][:8], ' wiped' if e['wipe'] else '', e['got'], ' (fault)' if e['hit'] else '', e['said'], rows))
        else:
            out.append('%s %s -> %s %s rows now %s' % (e['op'], e['what'], e.get('got', [x['t'] for x in e.get('rows', [])][:8]), e['said'], rows))
    return {'start': [[d['tables'], len(d['rows'])] for d in cs['dbs']], 'history': out}
