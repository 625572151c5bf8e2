"""P06: a decision depends on the policy and the given attribute values only."""
from policy import *

POOLS = [
    # policies, attributes (cat, name, [(type, value)...]) whose values matter
    (['user.a = 1 AND NOT user.b', 'user.a > 0 OR user.b', 'user.b'],
     [('USR_ATT', 'a', [('INT', 1), ('INT', 0), ('INT', None), ('INT', 'x')]), ('USR_ATT', 'b', [('BOOL', True), ('BOOL', False), ('BOOL', None), ('INT', 3)])]),
    (['user.s = {1, "a"} OR object.s SUBSET user.s', '1 IN user.s AND user.s != object.s', 'user.s IN object.s'],
     [('USR_ATT', 's', [('SET', [1, 'a']), ('SET', {1}), ('SET', []), ('SET', None)]), ('OBJ_ATT', 's', [('SET', {1, 'a'}), ('INT', 1), ('STRING', 'a'), ('SET', ['b', 1, 'b'])])]),
    (['env.n <= 5 AND (connect.t OR UNDEF)', 'NOT (env.n != 5) OR connect.t', 'env.n IN {1, 2, NULL} OR connect.t = connect.t'],
     [('ENV_ATT', 'n', [('FLOAT', 5.0), ('INT', 5), ('STRING', '5'), ('FLOAT', 0.0)]), ('CON_ATT', 't', [('BOOL', ASTResult.UNDEF), ('BOOL', True), ('BOOL', False), ('STRING', '')])]),
    (['admin.x = user.x', 'admin.x = "q" OR user.x = ""', '(admin.x IN {"q", ""} AND user.x = "q") OR FALSE'],
     [('ADM_ATT', 'x', [('STRING', 'q'), ('STRING', ''), ('INT', 0), ('STRING', None)]), ('USR_ATT', 'x', [('STRING', ''), ('STRING', 'q'), ('SET', ['q']), ('STRING', 5)])]),
]
TYPES = ['INT', 'BOOL', 'STRING', 'SET']


def replay(hist, r, pool):
    pols, atts = pool
    pols = r.sample(pols, len(pols))
    h = History()
    ps = [h.policy(t) for t in pols]
    if not all(h.ok(p) for p in ps):
        return h.case()
    vals = lambda a, v: atts[(a - 1) % len(atts)][2][(v + a) % 4]
    name = lambda a: atts[(a - 1) % len(atts)][1] if a <= len(atts) else 'extra%d' % a
    cat = lambda a: atts[(a - 1) % len(atts)][0]
    for n in range(3):
        es = []
        for i, (c, nm, vs) in enumerate(atts):
            if n == 2 and i == 1:
                continue
            es.append((c, nm) + vs[(n + i) % 4])
        h.table(es, r.choice(['define', 'builder', 'mixed']))
    # evaluators: one per policy, and a second one of the first policy that shares its tree
    its = [h.interp(ps[0]), h.interp(ps[0]), h.interp(ps[1], 'parser'), h.interp(ps[2])]
    for act in hist:
        k, x, y, z = act
        if k == 'eval':
            h.eval(its[x - 1], y, z, 'all')
            if y:
                h.obs(y)
        elif k == 'set':
            h.setval(x, cat(y), name(y), vals(y, z)[1])
        elif k == 'switch':
            h.switch(x, cat(y), name(y), TYPES[z - 1] if z > 1 else vals(y, z)[0])
        elif k == 'define':
            h.define(x, cat(y), name(y), *vals(y, z))
        elif k == 'check':
            h.check(ps[x - 1])
        elif k == 'codec':
            b = h.encode(h.asts[x - 1])
            if b is not None:
                h.decode(b)
        elif k == 'tree':
            h.tree(ps[x - 1])
        elif k == 'interp':
            its[x] = h.interp(its and h.interps[its[x]][0])
        elif k == 'reparse':
            k2, v = call(lambda: Parser(Lexer(h.texts[x - 1])).parse())
            if k2 == 'ok':
                h.asts[x - 1] = v
                its[x] = h.interp(ps[x - 1])
    for p in ps:
        h.tree(p)
    for n, i in enumerate(its):
        h.eval(i, 1 + n % 3, '-', 'all')
        h.eval(i, 2, '-', 'all')
    for t in (1, 2, 3):
        h.obs(t)
    return h.case()


def run(ck):
    r = ck.rng
    short = ck.generate('GenHistory', 'GenHistory3.cfg', workers=4)
    short.sort()
    if ck.quick:
        short = [g for i, g in enumerate(short) if i % 4 == ck.seed % 4]
    else:
        ck.exhaustive_parts.append('all histories of 3 actions ending in an evaluation over 2 evaluators and 2 tables')
    cases = [replay(g, r, POOLS[i % len(POOLS)]) for i, g in enumerate(short)]
    ck.validate('TracePolicy', cases, describe, what='short histories enumerated from the specification')
    n = ck.pick(250, 6000)
    long = ck.generate('GenHistory', 'GenHistoryLong.cfg', args=['-simulate', 'num=%d' % n, '-depth', '17', '-seed', str(ck.seed + 7)])
    ck.validate('TracePolicy', [replay(g, r, r.choice(POOLS)) for g in long], describe, what='long histories simulated from the specification')
    # random policies and tables, evaluated in turn, with failures in between
    cases = []
    for _ in range(ck.pick(120, 3000)):
        h = History()
        tabs = [h.table(rtable(r, 5)) for _ in range(3)]
        es = [(c, n, 'INT', 1) for c in PRE for n in ATTS[:2]]
        ps = [h.policy(rformula(r, es, 2)) for _ in range(3)]
        if all(h.ok(p) for p in ps):
            its = [h.interp(p) for p in ps] + [h.interp(ps[0])]
            for _ in range(12):
                h.eval(r.choice(its), r.choice(tabs + [0]), r.choice(['-', '-', 'WARN']), 'all')
            for t in tabs:
                h.obs(t)
            for p in ps:
                h.tree(p)
        cases.append(h.case())
    ck.validate('TracePolicy', cases, describe, what='random policies evaluated in turn over shared trees and tables')
