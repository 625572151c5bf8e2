"""P03: three-valued logic."""
from policy import *

NM = {120: 'x', 121: 'y', 122: 'z'}


def text(n, r, up=None):
    c = n['c']
    if c == 'BoolValNode':
        return n['v'][1]
    if c == 'UsrAttNode':
        return 'user.' + chr(n['v'][1][0])
    if c == 'NotNode':
        k = n['k'][0]
        t = text(k, r)
        return 'NOT ' + (t if k['c'] in ('BoolValNode', 'UsrAttNode') and r.random() < .7 else '(' + t + ')')
    out = []
    for i, k in enumerate(n['k']):
        t = text(k, r)
        if k['c'] == 'BoolOpNode' and not (i == 0 and k['v'] == n['v']) and not (k['v'][1] == 'AND' and n['v'][1] == 'OR' and i == 0):
            t = '(' + t + ')'
        elif k['c'] != 'BoolValNode' and r.random() < .1:
            t = '(' + t + ')'
        out.append(t)
    return '%s %s %s' % (out[0], n['v'][1], out[1])


# ways to give a truth-valued leaf each value: (policy text, entries)
def leaf(r, name, v):
    k = r.randrange(5)
    if k == 0:
        return [('USR_ATT', name, 'BOOL', {'T': True, 'F': False, 'U': ASTResult.UNDEF}[v])]
    if k == 1 and v == 'U':
        return []
    if k == 2 and v == 'U':
        return [('USR_ATT', name, 'BOOL', None)]
    if k == 3 and v == 'U':
        return [('USR_ATT', name, r.choice(['INT', 'BOOL', 'UNKNOWN']), 'q')]
    return [('USR_ATT', name, 'BOOL', TRI[v])]


def run(ck):
    r = ck.rng
    ck.design('MCLogic', ck.pick('MCLogic.cfg', 'MCLogicDeep.cfg'), min_states=1000)
    gen = ck.generate('GenLogic', ck.pick('GenLogic.cfg', 'GenLogicDeep.cfg'))
    cases = []
    h = History()
    for a in 'TFU':
        for b in 'TFU':
            x, y = TRI[a], TRI[b]
            e = {'op': 'kleene', 'a': a, 'b': b}
            for key, fn in (('nt', lambda: ASTResult.tri_not(x)), ('nd', lambda: ASTResult.tri_and(x, y)), ('r', lambda: ASTResult.tri_or(x, y))):
                k, v = call(fn)
                e[key] = tri(v) if k == 'ok' else 'fail'
            for key, fn in (('eq', lambda: ASTResult.tri_eq(x, y)), ('ne', lambda: ASTResult.tri_ne(x, y)), ('truth', lambda: x.truth())):
                k, v = call(fn)
                e[key] = v if k == 'ok' else 'fail'
            h.ev.append(e)
            e = dict(e)
            for key, fn in (('nd', lambda: x & y), ('r', lambda: x | y)):
                k, v = call(fn)
                e[key] = tri(v) if k == 'ok' else 'fail'
            for key, fn in (('eq', lambda: x == y), ('ne', lambda: x != y), ('truth', lambda: True if x else False)):
                k, v = call(fn)
                e[key] = v if k == 'ok' else 'fail'
            h.ev.append(e)
            for form, va, vb in (('%s AND %s', a, b), ('%s OR %s', a, b), ('NOT (%s AND NOT %s)', a, b)):
                w = {'T': 'TRUE', 'F': 'FALSE', 'U': 'UNDEF'}
                p = h.policy(form % (w[va], w[vb]))
                if h.ok(p):
                    h.eval(h.interp(p), 0)
    cases.append(h.case())
    ck.exhaustive_parts.append('operator tables; all formulas of two operators with NOTs over 3 attributes and constants, all 27 assignments'
                               if ck.quick else 'operator tables; all formulas of three operators and NOTs, all 27 assignments (sampled for three operators)')
    if not ck.quick:
        small = [g for g in gen if g['c'] != 'BoolOpNode' or all(k['c'] != 'BoolOpNode' for k in g['k'])]
        gen = small + r.sample(gen, 4000)
    for g in gen:
        h = History()
        p = h.policy(text(g, r))
        if h.ok(p):
            i = h.interp(p)
            for n in range(27):
                es = []
                for k in range(3):
                    es += leaf(r, 'xyz'[k], 'TFU'[n // 3 ** k % 3])
                h.eval(i, h.table(es))
        cases.append(h.case())
    ck.validate('TracePolicy', cases, describe, what='formulas generated from the specification, every assignment')
    cases = []
    # deeper and wider formulas, leaves also comparisons
    leaves = ['user.x', 'user.y', 'user.z', 'TRUE', 'FALSE', 'UNDEF', '1 = 1', '1 = 2', 'user.nope = 1', '1 = "a"', '2 > 1', '"a" IN {"a"}', '{1} SUBSET {2}',
              'user.n > 3', 'user.n = 5', 'user.n IN {1, 2}']

    def deep(d, w):
        def one():
            if d == 0 or r.random() < .3:
                x = r.choice(leaves)
                return 'NOT ' + x if ' ' not in x and r.random() < .3 else x
            return r.choice(['(%s)', 'NOT (%s)', 'NOT (NOT (%s))', '((%s))']) % deep(d - 1, w)
        return ''.join(one() + r.choice([' AND ', ' OR ', ' and ', '  Or\n']) for _ in range(r.randrange(w))) + one()
    for _ in range(ck.pick(250, 6000)):
        h = History()
        p = h.policy(deep(r.randrange(1, 5), r.choice([2, 3, 4, 6])))
        if not h.ok(p):
            cases.append(h.case())
            continue
        i = h.interp(p, r.choice(['ast', 'parser']))
        for _ in range(4):
            es = []
            for n in 'xyz':
                es += leaf(r, n, r.choice('TFU'))
            h.eval(i, h.table(es + [('USR_ATT', 'n', 'INT', r.choice([1, 5, None]))]))
        cases.append(h.case())
    for n in ck.pick((40, 150), (40, 150, 220)):
        for op in ('AND', 'OR'):
            for v in ('TRUE', 'FALSE', 'UNDEF'):
                for pos in (0, n // 2, n - 1):
                    h = History()
                    base = {'AND': 'TRUE', 'OR': 'FALSE'}[op]
                    xs = [base] * n
                    xs[pos] = v
                    p = h.policy((' %s ' % op).join(xs))
                    if h.ok(p):
                        h.eval(h.interp(p), 0)
                    cases.append(h.case())
        h = History()
        p = h.policy('NOT (' * n + 'user.x' + ')' * n)
        if h.ok(p):
            for v in 'TFU':
                h.eval(h.interp(p), h.table([('USR_ATT', 'x', 'BOOL', TRI[v])]))
        cases.append(h.case())
    ck.validate('TracePolicy', cases, describe, what='deep and wide formulas')
