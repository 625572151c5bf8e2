"""P08: type checking."""
from policy import *

LV = ['-', 'NONE', 'INFO', 'WARN', 'ERROR', 'CRIT']
CONST = ['1', '2.5', '"a"', 'NULL', '{1}', '{}', '{"a", NULL}']
AT = ['user.a', 'user.b', 'object.a', 'env.a', 'admin.a', 'connect.A', 'USER.A']


def one(h, txt, lvl, via='ast'):
    p = h.policy(txt)
    if h.ok(p):
        h.check(p, lvl, via)


def run(ck):
    r = ck.rng
    ck.design('MCTypes', ck.pick('MCTypes.cfg', 'MCTypesDeep.cfg'), min_states=200)
    cases = []
    # every relation between every two kinds of operands
    h = History()
    for a in CONST + AT[:3]:
        for b in CONST + AT[:3]:
            for op in OPS:
                one(h, '%s %s %s' % (a, rcase(r, op), b), r.choice(LV))
            if len(h.ev) > 60:
                cases.append(h.case())
                h = History()
    cases.append(h.case())
    ck.exhaustive_parts.append('all relations between all pairs of operand kinds')
    # every two comparisons that meet in an attribute, in either order, joined by AND, OR and NOT
    gen = ck.generate('GenTypes', ck.pick('GenTypes.cfg', 'GenTypesDeep.cfg'), workers=4)
    gen.sort()
    h = History()
    for i, g in enumerate(gen):
        txt = [' '.join(x) for x in g]
        k = r.randrange(4)
        if k == 0:
            t = ' AND '.join(txt)
        elif k == 1:
            t = ' OR '.join('(%s)' % x for x in txt)
        elif k == 2:
            t = ' AND '.join('NOT (%s)' % x for x in txt)
        else:
            t = txt[0] + ''.join(r.choice([' AND ', ' OR ']) + x for x in txt[1:])
        one(h, t, r.choice(LV), r.choice(['ast', 'parser']))
        if len(h.ev) > 40:
            cases.append(h.case())
            h = History()
    if h.ev:
        cases.append(h.case())
    ck.validate('TracePolicy', cases, describe, what='sequences of comparisons generated from the specification')
    cases = []
    for _ in range(ck.pick(300, 8000)):
        h = History()
        for _ in range(3):
            es = [(c, n, 'INT', 1) for c in r.sample(list(PRE), 2) for n in ATTS[:2]]
            one(h, rformula(r, es, r.randrange(4)), r.choice(LV), r.choice(['ast', 'parser']))
        cases.append(h.case())
    for n in ck.pick((30, 100), (30, 100, 200)):
        h = History()
        one(h, ' AND '.join('user.a%d = %s' % (i % 7, r.choice(CONST)) for i in range(n)), '-')
        one(h, ' OR '.join('user.a%d = user.a%d' % (i, i + 1) for i in range(n)) + ' AND user.a0 = 1', '-')
        one(h, ' AND '.join('%d %s %s' % (i, r.choice(OPS), r.choice(CONST)) for i in range(n)), '-')
        cases.append(h.case())
    ck.validate('TracePolicy', cases, describe, what='random policies, all levels')
