"""P07: warnings of evaluations."""
from policy import *
from p04 import pairs

LV = ['-', 'NONE', 'INFO', 'WARN', 'ERROR', 'CRIT']


def run(ck):
    r = ck.rng
    ck.design('MCCompare', ck.pick('MCCompare.cfg', 'MCCompareDeep.cfg'), min_states=900)
    gen = ck.generate('GenCompare', workers=4)
    gen.sort(key=repr)
    if ck.quick:
        gen = [g for i, g in enumerate(gen) if i % 6 == ck.seed % 6]
    else:
        ck.exhaustive_parts.append('warnings of all pairs of 57 operands under all 8 relations')
    ck.validate('TracePolicy', pairs(ck, gen, 'all'), describe, what='warnings of comparisons generated from the specification')
    cases = []
    for n in range(ck.pick(400, 8000)):
        h = History()
        es = rtable(r, r.choice([0, 3, 6]))
        t = h.table(es)
        t2 = h.table(rtable(r, 4))
        txt = rformula(r, es, r.randrange(4))
        if r.random() < .15:
            txt = '\n  ' + txt
        p = h.policy(txt)
        q = h.policy(rformula(r, es, 1))
        if h.ok(p) and h.ok(q):
            i, j = h.interp(p, r.choice(['ast', 'parser'])), h.interp(q)
            for lvl in (LV if n % 4 == 0 else r.sample(LV, 3)):
                h.eval(i, r.choice([t, t, t, t2, 0]), lvl, 'all')
                if r.random() < .3:
                    h.eval(j, t, r.choice(LV), 'all')
        cases.append(h.case())
    # the same attribute several times, attributes far into the text, clean policies under every threshold
    for lvl in LV:
        h = History()
        t = h.table([('USR_ATT', 'a', 'INT', 1), ('USR_ATT', 'n', 'INT', None), ('USR_ATT', 'm', 'INT', 'x'), ('USR_ATT', 'b', 'BOOL', True)])
        for txt in ['user.a = 1', 'user.a > 1 AND user.b', 'user.n = user.n', 'user.n = 1 OR user.n = 2 OR user.a = 1', 'user.zz', 'user.zz AND user.m = 1',
                    ' ' * 300 + 'user.zz', 'TRUE AND ' * 40 + 'user.zz', 'user.a = "x"', '1 = "a"', '"a" < "b"', 'user.a = "x" AND user.zz', 'user.b = 1',
                    'FALSE AND user.zz', 'TRUE OR 1 = "a"', 'user.zz = UNDEFd.a' if False else 'user.zz = 1', 'TRUE', 'UNDEF', 'user.a = {1}', 'NULL IN {NULL}']:
            p = h.policy(txt)
            if h.ok(p):
                i = h.interp(p)
                h.eval(i, t, lvl, 'all')
                h.eval(i, 0, lvl, 'all')
                h.eval(i, t, lvl, 'all')
        cases.append(h.case())
    ck.validate('TracePolicy', cases, describe, what='warnings and thresholds over histories of evaluations')
