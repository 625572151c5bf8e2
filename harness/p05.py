"""P05: unusable attributes."""
from policy import *
from p04 import pairs

BADS = [('INT', 'a'), ('INT', None), ('INT', True), ('INT', [1]), ('INT', ASTNullVal()), ('INT', ASTResult.TRUE), ('INT', ''),
        ('FLOAT', '1.0'), ('FLOAT', None), ('FLOAT', False), ('FLOAT', {1.0}),
        ('STRING', 1), ('STRING', None), ('STRING', ['a']), ('STRING', True), ('STRING', ASTNullVal()), ('STRING', 0),
        ('SET', 1), ('SET', 'a'), ('SET', None), ('SET', (1, 2)), ('SET', frozenset([1])), ('SET', {'a': 1}), ('SET', True), ('SET', ''),
        ('BOOL', 1), ('BOOL', 0), ('BOOL', 'TRUE'), ('BOOL', None), ('BOOL', [True]), ('BOOL', 'a'), ('BOOL', ''), ('BOOL', 1.0),
        ('UNKNOWN', 1), ('UNKNOWN', 'a'), ('UNKNOWN', None), ('UNKNOWN', True), ('UNKNOWN', ASTResult.TRUE), ('UNKNOWN', [1]),
        ('CUSTOM', 1), ('CUSTOM', True), ('CUSTOM', None), ('none', 1), ('none', True), ('none', 'a'), ('none', None),
        ('INT', '5'), ('INT', '0'), ('INT', '-1'), ('FLOAT', '5'), ('FLOAT', '2.5'), ('INT', [5]), ('INT', set()), ('INT', []), ('FLOAT', []), ('STRING', 5), ('STRING', 2.5),
        ('STRING', []), ('STRING', {'a'}), ('STRING', False), ('SET', 5), ('SET', '{1}'), ('SET', '1,2'), ('SET', 0), ('SET', ASTNullVal()), ('BOOL', 'true'), ('BOOL', 'T'), ('BOOL', 'yes'),
        ('BOOL', 'FALSE'), ('BOOL', '1'), ('BOOL', {True}), ('BOOL', ASTNullVal()), ('UNKNOWN', 0), ('UNKNOWN', ''), ('UNKNOWN', {1}), ('UNKNOWN', ASTNullVal()), ('UNKNOWN', False),
        ('CUSTOM', 'a'), ('CUSTOM', [1]), ('CUSTOM', ASTResult.TRUE), ('none', [1]), ('none', ASTResult.TRUE), ('none', 2.5),
        ('INT', object()), ('BOOL', object()), ('STRING', b'a'), ('SET', range(2))]
FINE = [('INT', 1), ('INT', 0), ('FLOAT', 0.5), ('STRING', 'a'), ('STRING', ''), ('SET', [1]), ('SET', set()), ('SET', []), ('INT', 0.0)]


def run(ck):
    r = ck.rng
    ck.design('MCCompare', ck.pick('MCCompare.cfg', 'MCCompareDeep.cfg'), min_states=900)
    gen = ck.generate('GenCompare', workers=4)
    usable = lambda o: o['k'] == 'c' or [o['ty'], o['v'][0]] in (['INT', 'n'], ['FLOAT', 'n'], ['STRING', 's'], ['SET', 'L'], ['BOOL', 'b'])
    gen = [g for g in gen if not usable(g[0]) or not usable(g[1])]
    gen.sort(key=repr)
    if ck.quick:
        gen = [g for i, g in enumerate(gen) if i % 3 == ck.seed % 3]
    else:
        ck.exhaustive_parts.append('all pairs of 57 operands of which one is an unusable attribute, under all 8 relations')
    ck.validate('TracePolicy', pairs(ck, gen, 'dec'), describe, what='comparisons with unusable attributes generated from the specification')
    cases = []
    others = ['1', '0', '"a"', '""', 'NULL', '{}', '{1}', '{"a", NULL}', '0.5', 'user.q', 'user.ok', 'user.st', 'user.bt', 'object.miss']
    def own(v):
        """Constants that an attribute with this value would equal, or be in, if its type were not looked at."""
        x = value(v)
        if x[0] in 'nsz':
            out = [literal(x), '{%s, 77}' % literal(x), '{%s}' % literal(x)]
            if x[0] == 's' and unvalue(x).lstrip('-').replace('.', '', 1).isdigit():
                out += [unvalue(x), '{%s}' % unvalue(x)]
            if x[0] == 'n':
                out += ['"%s"' % literal(x)]
            return out
        if x[0] == 'L' and all(y[0] in 'nsz' for y in x[1]):
            return [literal(x)] + [literal(y) for y in x[1][:1]]
        return ['TRUE = TRUE'][:0]
    for ty, v in BADS:
        for cat in (list(PRE) if not ck.quick else [r.choice(list(PRE))]):
            h = History()
            mine = own(v)
            at = PRE[cat] + '.q'
            t = h.table([(cat, 'q', ty, v), ('USR_ATT', 'ok', 'INT', 1), ('USR_ATT', 'st', 'SET', [1, 'a']), ('USR_ATT', 'bt', 'BOOL', True),
                         ('USR_ATT', 'bf', 'BOOL', False)], r.choice(['define', 'define', 'builder', 'mixed']))
            for txt in [at, 'NOT ' + at, at + ' AND TRUE', at + ' OR FALSE', 'TRUE AND ' + at, at + ' OR TRUE', at + ' AND FALSE', 'FALSE OR ' + at,
                        'NOT (NOT (%s))' % at, at + ' AND user.bt', 'user.bf OR ' + at, at + ' OR NOT ' + at] + \
                       ['%s %s %s' % (at, r.choice(OPS), o) for o in others] + ['%s %s %s' % (o, r.choice(OPS), at) for o in others] + \
                       ['%s %s %s' % (at, op, o) for o in mine for op in OPS] + ['%s %s %s' % (o, op, at) for o in mine for op in OPS]:
                p = h.policy(txt)
                if h.ok(p):
                    h.eval(h.interp(p), t)
            cases.append(h.case())
    # no table at all, an empty one, an attribute of the same name in another category, a similar name
    h = History()
    t = h.table([])
    t2 = h.table([('USR_ATT', 'a', 'BOOL', True), ('OBJ_ATT', 'aa', 'BOOL', True), ('ENV_ATT', 'b', 'INT', 1)])
    for txt in ['user.a', 'object.a', 'env.a', 'admin.a', 'connect.a', 'user.aa', 'USER.A', 'user.a_', 'user.b = 1', 'env.B = 1', 'object.b = 1', 'NOT object.a',
                'object.a = object.a', 'user.b != 1', 'user.b IN {1}', 'connect.b <= 1']:
        p = h.policy(txt)
        if h.ok(p):
            for tt in (0, t, t2):
                h.eval(h.interp(p), tt)
    cases.append(h.case())
    # something that is no truth value where one is needed
    for ty, v in FINE:
        h = History()
        t = h.table([('ENV_ATT', 'n', ty, v), ('USR_ATT', 'bt', 'BOOL', True), ('USR_ATT', 'bf', 'BOOL', False)])
        for txt in ['env.n', 'NOT env.n', 'env.n AND TRUE', 'TRUE AND env.n', 'env.n OR user.bt', 'user.bt OR env.n', 'user.bf AND env.n', 'env.n AND user.bf',
                    'NOT (env.n)', '(env.n)', 'TRUE OR (FALSE AND (NOT env.n))', 'env.n AND env.n', 'UNDEF OR env.n', 'user.nope AND env.n',
                    '1 = 1 OR env.n', '(TRUE AND TRUE) AND (TRUE AND env.n)']:
            p = h.policy(txt)
            if h.ok(p):
                h.eval(h.interp(p, r.choice(['ast', 'parser'])), t)
        cases.append(h.case())
    # everything at random
    for _ in range(ck.pick(300, 8000)):
        h = History()
        es = [(r.choice(list(PRE)), n) + (r.choice(BADS) if r.random() < .4 else rval(r)) for n in ATTS[:5]]
        t = h.table(es, r.choice(['define', 'builder', 'mixed']) if not any(e[2] == 'none' for e in es) else 'define')
        for _ in range(4):
            p = h.policy(rformula(r, es, r.randrange(3)))
            if h.ok(p):
                h.eval(h.interp(p), t)
        cases.append(h.case())
    ck.validate('TracePolicy', cases, describe, what='unusable and misused attributes in every position')
