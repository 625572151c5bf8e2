"""P04: comparisons."""
from policy import *


def operand(o, r, name):
    """text, entries of one operand from the specification"""
    if o['k'] == 'c':
        flt = o['v'][0] == 'n' and not o['v'][3] and r.random() < .3
        return literal(o['v'], flt), []
    if o['ty'] == 'none':
        return 'user.' + name, []
    v = unvalue(o['v'], flt=r.random() < .3, aset=r.random() < .5)
    if o['v'][0] == 'b' and o['v'][1] in 'TF' and r.random() < .5:
        v = o['v'][1] == 'T'
    return 'user.' + name, [('USR_ATT', name, o['ty'], v)]


def pairs(ck, gen, judge, per=12):
    """Every pair of operands under every relation."""
    r, cases = ck.rng, []
    for g in range(0, len(gen), per):
        h = History()
        for x, y in gen[g:g + per]:
            a, ea = operand(x, r, 'l')
            b, eb = operand(y, r, 'r')
            t = h.table(ea + eb)
            for op in OPS:
                p = h.policy('%s %s %s' % (a, op, b))
                if h.ok(p):
                    h.eval(h.interp(p), t, judge=judge)
        cases.append(h.case())
    return cases


def run(ck):
    r = ck.rng
    ck.design('MCCompare', ck.pick('MCCompare.cfg', 'MCCompareDeep.cfg'), min_states=900)
    gen = ck.generate('GenCompare', workers=4)
    usable = lambda o: o['k'] == 'c' or [o['ty'], o['v'][0]] in (['INT', 'n'], ['FLOAT', 'n'], ['STRING', 's'], ['SET', 'L'], ['BOOL', 'b'])
    gen = [g for g in gen if usable(g[0]) and usable(g[1])]
    gen.sort(key=repr)
    if ck.quick:
        gen = [g for i, g in enumerate(gen) if i % 2 == ck.seed % 2]
    else:
        ck.exhaustive_parts.append('all pairs of 43 operands (constants and usable attributes) under all 8 relations')
    ck.validate('TracePolicy', pairs(ck, gen, 'dec'), describe, what='pairs of operands generated from the specification, 8 relations each')
    cases = []
    # numbers: neighbours, signs, sizes, integer against float
    nums = [0, 1, -1, 2, 9, 10, 11, 99, 100, -10, 127, 128, 255, 256, 2**31 - 1, 2**31, -2**31, 2**32, 2**53, 2**53 + 1, 2**63, 2**64, 10**30, 10**30 + 1,
            0.0, 0.5, -0.5, 1.0, 1.5, 0.1, 0.25, 10.0, 9.5, 99.99, 100.01, -0.1, 1e-7, 123456.789, 2147483648.0, 4294967296.5]
    for _ in range(ck.pick(150, 4000)):
        h = History()
        t = None
        es = []
        for n in 'abc':
            v = r.choice(nums) if r.random() < .8 else r.randrange(-10**r.randrange(1, 25), 10**r.randrange(1, 25))
            es.append((r.choice(list(PRE)), n, r.choice(['INT', 'FLOAT']), v))
        t = h.table(es)
        for _ in range(8):
            def oper():
                if r.random() < .5:
                    c, n = r.choice(es)[:2]
                    return PRE[c] + '.' + n
                v = r.choice(nums + [e[3] for e in es])
                lit = literal(value(v))
                return lit
            p = h.policy('%s %s %s' % (oper(), r.choice(OPS[:6]), oper()))
            if h.ok(p):
                h.eval(h.interp(p), t)
        cases.append(h.case())
    # numbers next to each other: however large they are and however little they differ
    near = []
    for b in [0, 1, 10, 2**24, 2**31, 2**53, 2**63, 10**17, 10**22, 10**30]:
        near += [(b, b + 1), (-b, -b - 1), (b, b)]
    for b in ['0.1', '1.0', '7.25', '0.5', '123.5']:
        for d in (6, 9, 11):
            c = b + '0' * (d - len(b.split('.')[1])) + '1'
            near += [(float(b), float(c)), (-float(c), -float(b))]
    near += [(0.0, 1e-12), (0, 1e-14), (1, 1.000000001), (2, 1.9999999999), (10**6, 1000000.000001), (-1e-13, 0)]
    if ck.quick:
        near = r.sample(near, 34)
    for x, y in near:
        h = History()
        if r.random() < .5:
            x, y = y, x
        t = h.table([('USR_ATT', 'x', 'INT' if isinstance(x, int) else 'FLOAT', x), ('OBJ_ATT', 'y', 'INT' if isinstance(y, int) else 'FLOAT', y)])
        a, b = literal(value(x)), literal(value(y))
        for op in OPS[:6]:
            for l, g in [('user.x', 'object.y'), ('object.y', 'user.x'), ('user.x', b), (a, 'object.y'), (a, b), (b, a)]:
                p = h.policy('%s %s %s' % (l, op, g))
                if h.ok(p):
                    h.eval(h.interp(p), t)
        for txt in ('user.x IN {%s}' % b, '%s IN {5, %s}' % (a, b), 'user.x SUBSET {%s}' % b):
            p = h.policy(txt)
            if h.ok(p):
                h.eval(h.interp(p), t)
        cases.append(h.case())
    # large sets that differ in one element or none
    for n in (ck.pick([66, 130, 300], [33, 66, 130, 200, 260, 300, 520]) * ck.pick(1, 4)):
        h = History()
        xs = [7 * i - 50 for i in range(n)]
        r.shuffle(xs)
        k = r.randrange(n // 2, n)
        ys = xs[:k] + [-10**6] + xs[k + 1:]
        zs = [10**7 + i for i in range(n - 1)] + [xs[-1]]
        t = h.table([('USR_ATT', 'x', 'SET', xs), ('USR_ATT', 'y', 'SET', ys), ('USR_ATT', 'z', 'SET', zs if r.random() < .5 else set(zs)), ('USR_ATT', 'p', 'SET', [xs[-1]]), ('USR_ATT', 'e', 'INT', xs[-1])])
        for txt in ('user.x = user.y', 'user.y SUBSET user.x', 'user.x SUBSET user.y', 'user.p SUBSET user.x', 'user.e IN user.x', 'user.x IN user.z', 'user.z IN user.x', '%d IN user.x' % xs[-1],
                    '%d IN user.y' % xs[k], 'user.x IN {-1000001, -1000000}', 'user.y IN {-1000001, -1000000}', 'user.e IN ' + literal(value(xs)), literal(value(xs)) + ' = user.x', literal(value(xs)) + ' SUBSET user.y'):
            p = h.policy(txt)
            if h.ok(p):
                h.eval(h.interp(p), t)
        cases.append(h.case())
    # sets: order, repetition, size, mixed kinds, attributes on both sides
    pool = [0, 1, 1.0, 2, -1, 0.5, '', 'a', 'A', 'b', '1', ASTNullVal(), 10**20, 'x y']
    for _ in range(ck.pick(200, 5000)):
        h = History()
        es = []
        for n in 'abcd':
            k = r.randrange(5)
            if k < 3:
                xs = [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
                es.append(('USR_ATT', n, 'SET', set(xs) if r.random() < .5 else xs))
            elif k == 3:
                es.append(('USR_ATT', n, 'INT', r.choice([0, 1, 2, -1, 10**20])))
            else:
                es.append(('USR_ATT', n, 'STRING', r.choice(['', 'a', 'A', 'b', '1'])))
        t = h.table(es)
        for _ in range(8):
            def oper():
                k = r.randrange(6)
                if k < 3:
                    return 'user.' + r.choice('abcd')
                if k == 3:
                    return literal(value(r.choice(pool)))
                if k == 4:
                    e = r.choice(es)
                    xs = list(e[3]) if isinstance(e[3], (set, list)) else [e[3]]
                    r.shuffle(xs)
                    xs = xs + xs[:1]
                    if xs and r.random() < .4:
                        xs[r.randrange(len(xs))] = r.choice(pool)
                    return literal(['L', [value(x) for x in xs]])
                return literal(['L', [value(r.choice(pool)) for _ in range(r.randrange(5))]])
            p = h.policy('%s %s %s' % (oper(), rcase(r, r.choice(['=', '!=', 'IN', 'IN', 'SUBSET', 'SUBSET', '<'])), oper()))
            if h.ok(p):
                h.eval(h.interp(p), t)
        cases.append(h.case())
    # texts: any printable characters, equal but for one character, case, space
    for _ in range(ck.pick(100, 2000)):
        h = History()
        a = rstr(r)[1:-1]
        k = r.randrange(5)
        b = a if k == 0 else a.swapcase() if k == 1 else a + ' ' if k == 2 else a[:-1] if k == 3 else rstr(r)[1:-1]
        t = h.table([('USR_ATT', 'a', 'STRING', a), ('OBJ_ATT', 'a', 'STRING', b)])
        for txt in ('user.a = object.a', 'user.a = "%s"' % b, '"%s" != "%s"' % (a, b), '"%s" = object.a' % a, 'user.a IN {"%s", "q"}' % b,
                    '"%s" < "%s"' % (a, b), '{"%s"} = {"%s", "%s"}' % (a, b, a), 'user.a SUBSET {"%s"}' % b):
            p = h.policy(txt)
            if h.ok(p):
                h.eval(h.interp(p), t)
        cases.append(h.case())
    ck.validate('TracePolicy', cases, describe, what='numbers, sets and texts at random')
    ck.notes.append('floats of magnitude below 1e15 with at most 15 significant digits, integers of any size; set elements are numbers, texts and NULL')
