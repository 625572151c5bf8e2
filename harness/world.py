"""Running the services of hgaa for real, in a scratch directory: configuration, clock, database and web framework
are ours, the code is the one in /repo. Every load() is a fresh process as far as the code can tell."""
import configparser, datetime, hashlib, importlib, io, logging, os, shutil, sqlite3, sys, tempfile, time, types, warnings
from common import call, codes, HERE, REPO

sys.path.insert(0, os.path.join(HERE, 'stubs'))
warnings.simplefilter('ignore')

# ---------------------------------------------------------------- clock
_real = {n: getattr(time, n) for n in ('time', 'time_ns', 'gmtime', 'localtime', 'strftime', 'ctime', 'asctime')}
_rdt, _rd = datetime.datetime, datetime.date


class Clock:
    """The time the code sees: stands still, or moves by `tick` at every look."""
    def __init__(self):
        self.now, self.tick = 1500000000.0, 0.0

    def read(self):
        t = self.now
        self.now += self.tick
        return t


CLOCK = Clock()


class _DT(_rdt):
    @classmethod
    def now(cls, tz=None):
        return _rdt.fromtimestamp(CLOCK.read(), tz)

    @classmethod
    def utcnow(cls):
        return _rdt.fromtimestamp(CLOCK.read(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _rdt.fromtimestamp(CLOCK.read())


class _D(_rd):
    @classmethod
    def today(cls):
        return _rdt.fromtimestamp(CLOCK.read()).date()


def _patch_clock():
    time.time = lambda: CLOCK.read()
    time.time_ns = lambda: int(CLOCK.read() * 10**9)
    time.gmtime = lambda s=None: _real['gmtime'](CLOCK.read() if s is None else s)
    time.localtime = lambda s=None: _real['localtime'](CLOCK.read() if s is None else s)
    time.strftime = lambda f, t=None: _real['strftime'](f, time.localtime() if t is None else t)
    time.ctime = lambda s=None: _real['ctime'](CLOCK.read() if s is None else s)
    time.asctime = lambda t=None: _real['asctime'](time.localtime() if t is None else t)
    datetime.datetime, datetime.date = _DT, _D


import sqlalchemy, sqlalchemy.orm, sqlalchemy.event, sqlalchemy.exc
from sqlalchemy.engine import Engine
import sqlalchemy.ext.declarative, sqlalchemy.dialects.sqlite
_patch_clock()
os.environ['TZ'] = 'XST7:30XDT'          # far from GMT, so that local time shows
time.tzset()

# ---------------------------------------------------------------- files the code opens by itself
logging.FileHandler._open = lambda self: open(os.devnull, 'a')
logging.raiseExceptions = False
logging.lastResort = None
_CONF = {'services.ini': None, 'clients.ini': None}
_read = configparser.RawConfigParser.read


def _read_conf(self, filenames, encoding=None):
    names = [filenames] if isinstance(filenames, (str, bytes, os.PathLike)) else list(filenames)
    out = []
    for n in names:
        t = _CONF.get(os.path.basename(str(n)))
        if t is None:
            out += _read(self, n, encoding)
        else:
            self.read_string(t)
            out.append(n)
    return out


configparser.RawConfigParser.read = _read_conf

LOGGING = {'LOG_STDOUT': 'False', 'SQL_LOG_STDOUT': 'False', 'SQL_LOG_LEVEL': 'CRITICAL', 'CLEAN_LOG_ON_START': 'False'}


def ini(sections):
    out = []
    for name, d in sections.items():
        out.append('[%s]' % name)
        out += ['%s=%s' % (k, str(v).replace('%', '%%')) for k, v in d.items()]
    return '\n'.join(out) + '\n'


# faults of the database, at chosen statements
FAULT = {'at': None, 'n': 0, 'log': []}


class DBFault(sqlalchemy.exc.OperationalError):
    def __init__(self):
        super().__init__('injected', {}, Exception('disk I/O error'))


def _hit(what, error=None):
    FAULT['log'].append(what)
    FAULT['n'] += 1
    if FAULT['at'] is not None and FAULT['n'] == FAULT['at']:
        raise error or DBFault()


@sqlalchemy.event.listens_for(Engine, 'before_cursor_execute')
def _before(conn, cursor, statement, parameters, context, executemany):
    _hit(statement.split()[0].upper())


_do_commit = sqlalchemy.engine.default.DefaultDialect.do_commit


def _commit(self, con):
    """Fails as a busy or full database does: nothing is committed, the transaction is still there."""
    _hit('COMMIT', sqlite3.OperationalError('database is locked'))
    _do_commit(self, con)


sqlalchemy.engine.default.DefaultDialect.do_commit = _commit


@sqlalchemy.event.listens_for(Engine, 'connect')
def _connect(con, rec):
    con.execute('PRAGMA synchronous=OFF')
    con.execute('PRAGMA journal_mode=MEMORY')


_create_engine = sqlalchemy.create_engine


def _engine(url, *a, **kw):
    """Running out of connections shows at once."""
    if str(url).startswith('sqlite:///') and 'pool_timeout' not in kw and 'poolclass' not in kw:
        kw['pool_timeout'] = 1
    return _create_engine(url, *a, **kw)


sqlalchemy.create_engine = _engine


class Modules:
    """A fresh set of the modules of hgaa, as after a start of the process."""
    def __init__(self, services, clients=None):
        for n in [n for n in sys.modules if n == 'hgaa' or n.startswith('hgaa.')]:
            del sys.modules[n]
        for n in list(logging.Logger.manager.loggerDict):
            if n.startswith('hgaa') or n == 'ladonlogger':
                lg = logging.Logger.manager.loggerDict[n]
                if isinstance(lg, logging.Logger):
                    lg.handlers.clear()
        logging.getLogger('sqlalchemy').handlers.clear()
        d = dict(services)
        d['DEFAULT'] = dict(LOGGING, **d.get('DEFAULT', {}))
        d.setdefault('LADON', {'LOG_FILE': 'ladon.log', 'SERVICE_PORT': '8888', 'SERVICE_HOST': ''})
        _CONF['services.ini'] = ini(d)
        c = dict(clients or {})
        c['DEFAULT'] = dict({'LOG_STDOUT': 'False'}, **c.get('DEFAULT', {}))
        _CONF['clients.ini'] = ini(c)
        self.kept = {}

    def __getattr__(self, n):
        """aauth, pauth, attcert, ... by their name below hgaa, with __ for a dot."""
        name = 'hgaa.' + n.replace('__', '.')
        for m in [m for m in sys.modules if m == 'hgaa' or m.startswith('hgaa.')]:
            del sys.modules[m]
        sys.modules.update(self.__dict__['kept'])
        mod = importlib.import_module(name)
        self.__dict__['kept'] = {m: v for m, v in sys.modules.items() if m == 'hgaa' or m.startswith('hgaa.')}
        setattr(self, n, mod)
        return mod


def outcome(fn, *a, **kw):
    """('ok', value) or ('fault'|'fail'|'timeout', class name, text); nothing of a failure is kept alive."""
    k, v = call(fn, *a, **kw)
    if k == 'ok':
        return 'ok', v
    if k == 'timeout':
        return 'timeout', '', ''
    out = ('fault' if type(v).__name__ in ('ClientFault', 'ServerFault') else 'fail', type(v).__name__, str(v))
    v.__traceback__ = None
    c, v.__context__, v.__cause__ = v.__context__, None, None
    del v, c
    return out


class Data:
    """What a client attaches: bytes, possibly with something happening while they are read."""
    def __init__(self, data, meanwhile=None):
        self.data, self.meanwhile, self.pos = data, meanwhile, 0

    def read(self, size=None):
        if self.meanwhile is not None:
            m, self.meanwhile = self.meanwhile, None
            m()
        if size is None:
            out, self.pos = self.data[self.pos:], len(self.data)
        else:
            out, self.pos = self.data[self.pos:self.pos + size], self.pos + size
        return out

    def seek(self, pos, *a):
        self.pos = pos

    def close(self):
        pass


class DB:
    """The database of a service, looked at and changed from outside."""
    def __init__(self, path):
        self.path = path

    def rows(self, table):
        con = sqlite3.connect(self.path)
        try:
            return con.execute('SELECT * FROM %s ORDER BY 1, 2' % table).fetchall()
        finally:
            con.close()

    def run(self, sql, *args):
        con = sqlite3.connect(self.path)
        try:
            con.execute(sql, args)
            con.commit()
        finally:
            con.close()

    def many(self, stmts):
        con = sqlite3.connect(self.path)
        try:
            for s, a in stmts:
                con.execute(s, a)
            con.commit()
        finally:
            con.close()

    def tables(self):
        con = sqlite3.connect(self.path)
        try:
            return sorted(r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'"))
        finally:
            con.close()
