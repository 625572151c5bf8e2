"""P29: populating or wiping a service's database touches that service's data only."""
from db import *

PLACES = [(2, {'AAUTH': 0, 'PAUTH': 0, 'DEFAULT': 1}), (3, {'AAUTH': 0, 'PAUTH': 1, 'DEFAULT': 2}), (4, {'AAUTH': 0, 'PAUTH': 0, 'AAUTH_TEST': 1, 'PAUTH_TEST': 2, 'DEFAULT': 3}),
          (3, {'AAUTH': 0, 'PAUTH': 1, 'AAUTH_TEST': 1, 'PAUTH_TEST': 1, 'DEFAULT': 2}), (1, {'DEFAULT': 0}), (2, {'AAUTH': 0, 'PAUTH': 0, 'AAUTH_TEST': 0, 'DEFAULT': 1}),
          (2, {'AAUTH': 0, 'PAUTH': None, 'DEFAULT': 1}), (2, {'AAUTH': None, 'PAUTH': 0, 'DEFAULT': 1}), (2, {'AAUTH': 0, 'PAUTH': 0, 'LADON': 1, 'X': 1, 'DEFAULT': 1})]
UNKNOWN = ['X', 'LADON', 'aauth2', '', 'TOOLS', 'AAUTH_TEST_TEST', 'PAUTHS', 'DEFAULT', 'users', 'AAUTH ']


def cased(r, s):
    return r.choice([s.upper(), s.upper(), s.lower(), s.title()])


def new_records(t, svc, n, first=1):
    r = t.r
    out, seen = [], set()
    for _ in range(n):
        tab = r.choice(SVC_TABLES[svc])
        k = r.randrange(first, first + max(12, n))
        if (tab, k) not in seen:
            seen.add((tab, k))
            out.append((tab, record(r, tab, k), None))
    return out


def replayed(r, hist):
    """A history chosen by TLC: records 1 and 2 of each service, and 3, which cannot be added."""
    n, places = r.choice(PLACES[:4] + PLACES[5:6])
    t = Tracer(r, n, places)
    tab = {s: r.choice(SVC_TABLES[s]) for s in SVC_TABLES}
    t.prepare(n - 1, ['aauth', 'pauth'], [(tab['aauth'], record(r, tab['aauth'], 9), None)[:2]])
    t.start()
    for op, s, q, w in hist:
        recs = [spoil(r, tab[s], record(r, tab[s], 3)) if i == 3 else (tab[s], record(r, tab[s], i), None) for i in q]
        if op == 'build':
            t.build([s])
        elif op == 'populate':
            t.populate(cased(r, s), recs, wipe=w == 1, short=r.random() < .5)
        else:
            t.populate(cased(r, s), recs, wipe=w % 2 == 1, fault=w // 2)
    return t.case()


def history(r, n):
    k, places = r.choice(PLACES)
    memory = [s for s in r.sample(['AAUTH', 'PAUTH', 'AAUTH_TEST'], r.choice([1, 2])) if places.get(s, 0) is not None] if r.random() < .2 else []
    t = Tracer(r, k, {s: p for s, p in places.items() if s not in memory}, memory)
    for i in range(t.n):
        svcs = ['aauth', 'pauth'] if i == t.n - 1 or i >= k else r.sample(['aauth', 'pauth'], r.choice([0, 1, 2, 2]))
        t.prepare(i, svcs, [(a, b) for s in svcs for a, b, c in new_records(t, s, r.choice([0, 2, 6]))], other=r.random() < .3)
    t.start()
    real = [s for s in ('aauth', 'pauth') if t.at(s)]
    build = [s for s in ('aauth', 'pauth') if s.upper() not in memory]
    for _ in range(n):
        x = r.random()
        svc = r.choice(['aauth', 'pauth'])
        name = svc.upper() if memory else cased(r, svc)
        test = r.random() < .2
        if x < .14 and build:
            t.build(r.choice([[r.choice(build)], build, build[::-1], [build[0]] * 2, [build[0], r.choice(UNKNOWN)], [r.choice(UNKNOWN)], []]))
        elif x < .2 and build:
            t.build([r.choice(build)], fault=r.choice([1, 2, 3, 5]))
        elif x < .5:
            recs = new_records(t, svc, r.choice([0, 1, 3, 10]), r.choice([1, 1, 20]))
            if r.random() < .1:
                recs += new_records(t, 'pauth' if svc == 'aauth' else 'aauth', 2, 40)
            r.shuffle(recs)
            t.populate(name, recs, wipe=r.random() < .4, test=test, short=r.random() < .5)
        elif x < .62:
            recs = new_records(t, svc, r.choice([0, 1, 3, 10]), r.choice([1, 30]))
            tab = r.choice(SVC_TABLES[svc])
            recs.insert(r.randrange(len(recs) + 1), spoil(r, tab, record(r, tab, 77)))
            t.populate(name, recs, wipe=r.random() < .4, test=test)
        elif x < .7:
            t.populate(r.choice(UNKNOWN), new_records(t, svc, r.choice([0, 1, 3]), 50), wipe=r.random() < .3, test=r.random() < .3)
        elif x < .82:
            t.populate(name, new_records(t, svc, r.choice([1, 3]), 60), wipe=r.random() < .5, test=test, fault=r.choice([1, 2, 3, 4, 5, 6, 8, 10]))
        elif x < .9 and real:
            s = r.choice(real)
            t.read((s.upper() if memory else cased(r, s)))
        elif x < .96 and 'aauth' in real:
            t.genatts(r.choice([0, 1, 3]), fault=r.choice([None, None, 1, 3]))
        elif 'aauth' in real and all(z in t.look()[t.at('AAUTH') - 1]['tables'] for z in SVC_TABLES['aauth']):
            t.popgen(r.choice([0, 2]))
    return t.case()


def command(r, _):
    """hgaa.tools as a command."""
    k, places = r.choice(PLACES[:5])
    t = Tracer(r, k, places)
    for i in range(k):
        svcs = r.sample(['aauth', 'pauth'], r.choice([0, 1, 2]))
        t.prepare(i, svcs, [(a, b) for s in svcs for a, b, c in new_records(t, s, 4)])
    t.start()
    tests = {s: t.testset(s) for s in SVC_TABLES}
    for _ in range(5):
        x = r.randrange(9)
        svc = r.choice(['aauth', 'pauth'])
        if x == 0:
            t.build(['aauth', 'pauth'], fn=lambda: t.cli('build', 'all'))
        elif x < 4:
            names = r.choice([[svc], ['aauth', 'pauth'], [svc, 'nope'], ['nope'], ['pauth', 'aauth', 'pauth']])
            t.build(names, fn=lambda: t.cli(r.choice(['build', 'BUILD']), *[cased(r, n) for n in names]))
        elif x < 7:
            t.populate(svc.upper(), tests[svc], wipe=True, fn=lambda: t.cli(r.choice(['pop', 'populate', 'POP']), cased(r, svc)))
        elif x < 8:
            t.populate('nope', [], wipe=True, fn=lambda: t.cli('pop', 'nope'))
        else:
            t.genatts(r.choice([0, 1, 4]), cli=True)
        t.read(svc.upper())
    return t.case()


def faults(r, i):
    """The same operation failing at each of its steps."""
    out, seed = [], r.random()
    k, places = PLACES[i % 4]
    for wipe in (False, True):
        at, more = 1, True
        while more and at < 40:
            rr = __import__('random').Random('f%d%s%s' % (i, wipe, seed))
            t = Tracer(rr, k, places)
            for j in range(k):
                t.prepare(j, ['aauth', 'pauth'], [(a, b) for s in SVC_TABLES for a, b, c in new_records(t, s, 3)])
            t.start()
            svc = rr.choice(list(SVC_TABLES))
            recs = new_records(t, svc, 4, 30)
            t.populate(svc.upper(), recs, wipe=wipe, fault=at)
            more = t.ev[-1]['hit']
            t.read(svc.upper())
            t.populate(svc.upper(), recs, wipe=wipe)
            t.read(svc.upper())
            out.append(t.case())
            at += 1
    return out


def many(r, n):
    """Large populations, good or with a record that cannot be added at the start, the end or anywhere."""
    k, places = r.choice(PLACES[:4])
    t = Tracer(r, k, places)
    for i in range(k):
        t.prepare(i, ['aauth', 'pauth'], [(a, b) for s in SVC_TABLES for a, b, c in new_records(t, s, 4)])
    t.start()
    for i in range(3):
        svc = r.choice(['aauth', 'pauth'])
        recs = new_records(t, svc, n, 100 + 1000 * i)
        if r.random() < .6:
            tab = r.choice(SVC_TABLES[svc])
            at = r.choice([0, len(recs), len(recs), r.randrange(len(recs) + 1)])
            if r.random() < .3:
                a, b, c = r.choice(recs)
                recs.insert(at, (a, dict(b), None))
            else:
                recs.insert(at, spoil(r, tab, record(r, tab, 99)))
        t.populate(svc.upper(), recs, wipe=r.random() < .4, fault=r.choice([None, None, None, 3, 5, 12]))
        t.read(svc.upper())
    return t.case()


def run(ck):
    gen = sorted(ck.generate('GenDb', 'GenDb3.cfg', workers=8), key=str)
    r = ck.rng
    some = gen if not ck.quick else r.sample(gen, 2000)
    for i in range(0, len(some), 20000):
        ck.validate('TraceDb', ck.pmap(replayed, some[i:i + 20000]), describe, what='histories of three operations')
    long = ck.generate('GenDb', 'GenDbLong.cfg', args=['-simulate', 'num=%d' % ck.pick(300, 4000), '-depth', '14', '-seed', str(ck.seed)])
    ck.validate('TraceDb', ck.pmap(replayed, long), describe, what='longer histories')
    ck.validate('TraceDb', sum(ck.pmap(faults, range(ck.pick(16, 200))), []), describe, what='failing at every step')
    ck.validate('TraceDb', ck.pmap(history, [4, 12] * ck.pick(250, 5000)), describe, what='any histories')
    ck.validate('TraceDb', ck.pmap(command, range(ck.pick(80, 1600))), describe, what='the command')
    ck.validate('TraceDb', ck.pmap(many, [40, 75, 120, 300] * ck.pick(6, 60) + [1200] * ck.pick(2, 16)), describe, what='large populations')
