"""The logging of hgaa, run for real in a scratch copy of its package: configuration files, log files and the console are real."""
import contextlib, importlib, io, logging, os, shutil, sys, tempfile
from common import call, codes, REPO

logging.raiseExceptions = False
logging.lastResort = None
TEXT = ['', 'None', 'none', 'NONE', 'False', 'false', 'FALSE']


def package():
    """A scratch copy of the part of hgaa that has to do with configuration and logging."""
    d = tempfile.mkdtemp(prefix='verif-log-')
    shutil.copytree(os.path.join(REPO, 'hgaa'), os.path.join(d, 'hgaa'), ignore=shutil.ignore_patterns('logs', 'confs', 'test', '__pycache__', 'attribute_certificates', '*.bin'))
    for x in ('logs', 'confs'):
        os.mkdir(os.path.join(d, 'hgaa', x))
    return d


def forget(d):
    for n in [n for n in sys.modules if n == 'hgaa' or n.startswith('hgaa.')]:
        del sys.modules[n]
    man = logging.Logger.manager
    for n in list(man.loggerDict):
        if n.split('.')[0] in ('hgaa', 'sqlalchemy', 'ladonlogger'):
            lg = man.loggerDict.pop(n)
            for h in getattr(lg, 'handlers', []):
                h.close()
    logging.root.handlers.clear()
    logging.root.setLevel(logging.WARNING)
    for f in os.listdir(os.path.join(d, 'hgaa', 'logs')):
        os.remove(os.path.join(d, 'hgaa', 'logs', f))


def ini(conf):
    out = []
    for s, x in conf.items():
        out.append('[%s]' % s)
        out += ['%s=%s' % (k, v.replace('%', '%%')) for k, v in x.items()]
    return '\n'.join(out) + '\n'


class Logs:
    def __init__(self, d, service, client, files=()):
        """files: those that are there before, with something in them."""
        self.d = os.path.join(d, 'hgaa')
        forget(d)
        for n, c in (('services', service), ('clients', client)):
            with open(os.path.join(self.d, 'confs', n + '.ini'), 'w') as f:
                f.write(ini(c))
        for f in files:
            with open(os.path.join(self.d, 'logs', f), 'w') as g:
                g.write('OLD\n')
        flat = lambda c: [{'sect': codes(s), 'name': codes(k), 'val': codes(v)} for s, x in c.items() for k, v in x.items()]
        self.start_ = {'service': flat(service), 'client': flat(client), 'files': [codes(f) for f in files]}
        self.pos, self.ev, self.n, self.loggers = {}, [], 0, {}
        self.con = io.StringIO()                  # the console, as handlers made now keep it
        sys.path.insert(0, d)
        try:
            with self.console():
                k, v = call(importlib.import_module, 'hgaa.log')
                self.log = v if k == 'ok' else None
        finally:
            sys.path.remove(d)
        top = []
        if self.log:
            top = [codes(self.log.SERVICE_LOG.name), codes(self.log.CLIENT_LOG.name)]
            for x in (self.log.SERVICE_LOG, self.log.CLIENT_LOG):
                self.loggers[x.name] = x
        self.look()
        self.ev.append({'op': 'start', 'ok': self.log is not None, 'kept': self.kept(), 'top': top})

    def console(self):
        s = contextlib.ExitStack()
        s.enter_context(contextlib.redirect_stderr(self.con))
        s.enter_context(contextlib.redirect_stdout(self.con))
        return s

    def flush(self):
        for lg in list(logging.Logger.manager.loggerDict.values()):
            for h in getattr(lg, 'handlers', []):
                h.flush()

    def kept(self):
        out = []
        for f in sorted(os.listdir(os.path.join(self.d, 'logs'))):
            with open(os.path.join(self.d, 'logs', f), errors='replace') as g:
                if g.read().startswith('OLD\n'):
                    out.append(codes(f))
        return out

    def look(self):
        """The lines added since the last look, by file, '' the console."""
        self.flush()
        out = {'': self.con.getvalue()}
        self.con.seek(0)
        self.con.truncate()
        for f in sorted(os.listdir(os.path.join(self.d, 'logs'))):
            p = os.path.join(self.d, 'logs', f)
            if not os.path.isfile(p):
                continue
            with open(p, errors='replace') as g:
                t = g.read()
            at = self.pos.get(f, 0)
            out[f] = t[at if at <= len(t) else 0:]
            self.pos[f] = len(t)
        return {f: t.splitlines() for f, t in out.items()}

    def make(self, sect, side, parent=None):
        if not self.log:
            return None
        with self.console():
            k, v = call(self.log.make_logger, sect, side, *([] if parent is None else [self.loggers[parent]]))
        self.look()
        ok = k == 'ok' and isinstance(v, logging.Logger)
        if ok:
            self.loggers[v.name] = v
        self.ev.append({'op': 'make', 'sect': codes(sect), 'side': side, 'parent': codes(parent or ''), 'ok': ok, 'name': codes(v.name) if ok else [], 'kept': self.kept()})
        return v.name if ok else None

    def record(self, name, level, how=0):
        """A record through a logger: one we were given, or one asked for by its name."""
        self.n += 1
        msg = 'record %d' % self.n
        lg = self.loggers.get(name) or {'sqlalchemy': getattr(self.log, 'SQL_LOG', None), 'ladonlogger': getattr(self.log, 'LADON_LOG', None)}.get(name) or logging.getLogger(name)
        with self.console():
            if how == 0:
                lg.log(level, msg)
            elif how == 1:
                lg.log(level, 'record %d', self.n)
            else:
                {10: lg.debug, 20: lg.info, 30: lg.warning, 40: lg.error, 50: lg.critical}[level]('%s %d', 'record', self.n)
        out = self.look()
        self.ev.append({'op': 'log', 'name': codes(name), 'level': level, 'msg': codes(msg), 'out': [{'at': codes(f), 'lines': [codes(x) for x in ls]} for f, ls in sorted(out.items())]})

    def case(self):
        return dict(self.start_, ev=self.ev)
