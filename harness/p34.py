"""P34: log records reach exactly the places configured for them, from the level configured on."""
from logs import *

LEVELS = {0: ['nonsense', '', 'FATAL', 'OFF', '10', 'NOTSET', 'DEBUGGING'], 10: ['ALL', 'all', 'DEBUG', 'debug', 'Debug'], 20: ['INFO', 'info', 'INFORMATION', 'Information'],
          30: ['WARN', 'WARNING', 'warn', 'Warning'], 40: ['ERROR', 'error'], 50: ['CRITICAL', 'critical']}
FORMATS = ['%(message)s', '%(levelname)s|%(name)s|%(message)s', '%(asctime)s:    [%(levelname)s: %(name)s]    %(message)s', '[%(asctime)s] %(message)s (%(levelname)s)', 'x %(name)s %(name)s %(message)s']
DATES = ['DATE', 'at some time', '2020-01-01', 'D:M:Y']
ALL = [10, 20, 30, 40, 50]


def yes(r):
    return r.choice(['True', 'true', 'TRUE', 'tRuE'])


def no(r):
    return r.choice(['False', 'false', '', 'no', '1', 'yes', 'on', 'None', 'Truely'])


def section(r, level, file, con, clean, name=None):
    d = {'LOG_LEVEL': r.choice(LEVELS[level]), 'LOG_FILE': file if file else r.choice(TEXT), 'LOG_STDOUT': yes(r) if con else no(r), 'CLEAN_LOG_ON_START': yes(r) if clean else no(r),
         'LOG_FORMAT': r.choice(FORMATS), 'LOG_DATE_FORMAT': r.choice(DATES)}
    if name:
        d['LOG_NAME'] = name
    return d


def pair(ck_dir, r, p):
    """As told by GenLog: a service or client logger below the one of its side, or the log of SQL or the web layer."""
    side = r.choice([True, False])
    t, s = p['top'], p['sub']
    top = section(r, t['level'], 'top.log' if t['file'] else None, t['con'], t['clean'], r.choice(['services', 'clients', 'x', 'a b']))
    sub = section(r, s['level'], {0: None, 1: 'sub.log', 2: 'top.log'}[s['file']], s['con'], s['clean'], r.choice(['aauth', 'sub', 'x', 'y-1']))
    other = section(r, r.choice(list(LEVELS)), r.choice([None, 'other.log']), r.random() < .3, r.random() < .5, 'other')
    sect = r.choice(['AAUTH', 'PAUTH', 'TOOLS', 'NEW ONE'])
    mine, yours = {'DEFAULT': top, sect: sub}, {'DEFAULT': other}
    quiet = {'LOG_FILE': 'ladon.log', 'LOG_STDOUT': 'False'}
    svc = mine if side else yours
    svc['LADON'] = quiet
    svc['DEFAULT'].update({'SQL_LOG_FILE': 'sql.log', 'SQL_LOG_STDOUT': 'False'})
    lg = Logs(ck_dir, svc, yours if side else mine, r.sample(['top.log', 'sub.log', 'other.log', 'ladon.log', 'sql.log', 'nothing.log'], r.choice([0, 2, 6])))
    if not lg.log:
        return lg.case()
    one = (lg.log.SERVICE_LOG if side else lg.log.CLIENT_LOG).name
    two = lg.make(r.choice([sect, sect.lower(), sect.title()]), side, r.choice([None, one]))
    if two:
        for n in ALL:
            lg.record(one, n, r.randrange(3))
            lg.record(two, n, r.randrange(3))
        lg.record(two + '.deep', r.choice(ALL))
    return lg.case()


def layers(ck_dir, r, p):
    """The logs of SQL and of the web layer, set up as told for the upper one; the lower one is the other of the two."""
    t, s = p['top'], p['sub']
    a = section(r, t['level'], 'a.log' if t['file'] else None, t['con'], False)
    b = section(r, s['level'], 'b.log' if s['file'] else None, s['con'], False)
    d = section(r, r.choice(list(LEVELS)), r.choice([None, 'd.log']), r.random() < .5, t['clean'], 'srv')
    d.update({'SQL_' + k: v for k, v in a.items() if k not in ('CLEAN_LOG_ON_START',)})
    b.pop('CLEAN_LOG_ON_START')
    lg = Logs(ck_dir, {'DEFAULT': d, 'LADON': b}, {'DEFAULT': section(r, 0, None, False, False, 'cli')}, r.sample(['a.log', 'b.log', 'd.log'], r.choice([0, 1, 3])))
    if lg.log:
        for n in ALL:
            lg.record('sqlalchemy', n, r.randrange(3))
            lg.record(r.choice(['sqlalchemy.engine', 'sqlalchemy.pool.x']), n)
            lg.record('ladonlogger', n, r.randrange(3))
        lg.record('hgaa', 40)
    return lg.case()


def anything(ck_dir, r, n):
    """Any configuration, several loggers, some settings left to the default section or the built-in defaults."""
    files = ['f%d.log' % i for i in range(6)]
    r.shuffle(files)
    def some(full, name):
        d = section(r, r.choice(list(LEVELS)), r.choice([None, files.pop()]) if files else None, r.random() < .4, r.random() < .5, name)
        if not full:
            for k in list(d):
                if r.random() < .4 and k not in ('LOG_FILE', 'LOG_DATE_FORMAT', 'LOG_NAME'):
                    del d[k]
        return d
    svc = {'DEFAULT': some(r.random() < .5, r.choice(['services', 's']))}
    cli = {'DEFAULT': some(r.random() < .5, r.choice(['clients', 'c', 'services']))}
    svc['DEFAULT'].update({'SQL_LOG_FILE': r.choice(TEXT + ['q.log']), 'SQL_LOG_DATE_FORMAT': 'sqldate', 'SQL_LOG_STDOUT': 'no'})
    svc['LADON'] = {'LOG_FILE': r.choice(TEXT + ['w.log']), 'LOG_STDOUT': r.choice(['true', 'no'])}
    names = ['aauth', 'pauth', 'tools', 'x', 'aauth']
    for conf in (svc, cli):
        for z in r.sample(['AAUTH', 'PAUTH', 'TOOLS', 'X Y'], r.choice([0, 2, 3])):
            conf[z] = some(False, r.choice(names))
    # a file used twice is never emptied
    used = [x.get('LOG_FILE') for c in (svc, cli) for x in c.values()]
    lg = Logs(ck_dir, svc, cli, r.sample(['f%d.log' % i for i in range(6)] + ['q.log', 'w.log'], r.choice([0, 3, 8])))
    if not lg.log:
        return lg.case()
    have = [lg.log.SERVICE_LOG.name, lg.log.CLIENT_LOG.name]
    made = set()
    for _ in range(n):
        x = r.random()
        if x < .3:
            side = r.choice([True, False])
            z = r.choice(['AAUTH', 'PAUTH', 'TOOLS', 'X Y'])
            if (side, z) in made or z not in (svc if side else cli):
                continue
            made.add((side, z))
            got = lg.make(r.choice([z, z.lower()]), side, r.choice([None, r.choice(have)]))
            if got is None:
                break
            have.append(got)
        else:
            lg.record(r.choice(have + ['sqlalchemy', 'ladonlogger', 'hgaa', r.choice(have) + '.z', 'sqlalchemy.orm']), r.choice(ALL), r.randrange(3))
    return lg.case()


def describe(cs):
    t = lambda x: ''.join(map(chr, x))
    f = lambda d: ['[%s] %s=%r' % (t(x['sect']), t(x['name']), t(x['val'])) for x in d]
    ev = []
    for e in cs['ev']:
        if e['op'] == 'log':
            ev.append('%s %d %s -> %s' % (t(e['name']), e['level'], t(e['msg']), {t(o['at']) or 'console': [t(z) for z in o['lines']] for o in e['out'] if o['lines']}))
        else:
            ev.append('%s %s kept %s' % (e['op'], t(e.get('sect', [])), [t(k) for k in e['kept']]))
    return {'service': f(cs['service']), 'client': f(cs['client']), 'before': [t(x) for x in cs['files']], 'events': ev[:40]}


def run(ck):
    g = sorted(ck.generate('GenLog', 'GenLog.cfg', workers=4), key=str)
    ck.exhaustive_parts.append('all %d ways two loggers, one above the other, can be set up (level, file, console, emptied or not)' % len(g))
    base = package()
    try:
        def each(fn):
            dirs = {}
            def go(r, x):
                pid = os.getpid()
                if pid not in dirs:
                    dirs[pid] = os.path.join(base, str(pid))
                    shutil.copytree(os.path.join(base, 'hgaa'), os.path.join(dirs[pid], 'hgaa'))
                return fn(dirs[pid], r, x)
            return go
        some = g if not ck.quick else ck.rng.sample(g, 900)
        for _ in range(ck.pick(1, 6)):
            ck.validate('TraceLog', ck.pmap(each(pair), some), describe, what='two loggers, one above the other')
        ck.validate('TraceLog', ck.pmap(each(layers), ck.rng.sample(g, ck.pick(300, 1500))), describe, what='the logs of SQL and the web layer')
        ck.validate('TraceLog', ck.pmap(each(anything), [8, 20] * ck.pick(250, 4000)), describe, what='any configurations and loggers')
    finally:
        shutil.rmtree(base, ignore_errors=True)
