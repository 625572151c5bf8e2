"""P10: symbol tables."""
from policy import *

CATSEQ = ['USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT']
NAMES = ['a', 'A', 'aa', 'b']
TYPES = ['INT', 'STRING', 'BOOL']
VALS = [1, 'x', True]


def replay(hist, r, every):
    h = History()
    names = NAMES if r.random() < .5 else r.choice([['Role_1', 'ROLE_1', 'role_', 'idx'], ['stra\u00dfe', 'STRA\u00dfE', 'strasse', 'stra\u017fe'], ['a.b', 'A.B', 'b', 'a'],
                                                    ['\u00b5', '\u00b5x', '\u03bc', 's'], ['\ufb01n', '\ufb01N', 'fin', '\u0131']])
    h.table([])
    h.table([])
    vals = [r.choice([1, 0, 'x', '', None, True, False, [1], ASTResult.UNDEF, 2.5]) for _ in range(3)]
    for op, t, ci, n, v in hist:
        c, nm = CATSEQ[ci - 1], names[n - 1]
        how = r.choice(['str', 'up', 'sym'])
        if op == 'define':
            h.define(t, c, nm, TYPES[v - 1], vals[v - 1])
        elif op == 'set':
            h.setval(t, c, nm, vals[v - 1], how)
        else:
            h.switch(t, c, nm, TYPES[v - 1], how)
        if every or r.random() < .3:
            h.look(t, c, r.choice(names), r.choice(['str', 'up', 'sym']))
        if r.random() < .2:
            h.obs(r.choice([1, 2]))
    for t in (1, 2):
        h.obs(t)
    for c in CATSEQ[:r.choice([1, 2, 5])]:
        for nm in names:
            h.look(1, c, nm, r.choice(['str', 'up', 'sym']))
    return h.case()


def run(ck):
    r = ck.rng
    gen = ck.generate('GenSymbols', ck.pick('GenSymbols3.cfg', 'GenSymbols4.cfg'), workers=4)
    gen.sort()
    ck.exhaustive_parts.append('all histories of %d changes to a table over 2 names that differ in case and 2 categories%s'
                               % ((3, ' (sampled)') if ck.quick else (4, ' (sampled)')))
    gen = r.sample(gen, min(len(gen), ck.pick(900, 20000)))
    ck.validate('TracePolicy', [replay(g, r, i % 3 == 0) for i, g in enumerate(gen)], lambda cs: cs['ev'][:8],
                what='histories of changes enumerated from the specification')
    n = ck.pick(200, 5000)
    gen = ck.generate('GenSymbols', 'GenSymbolsLong.cfg', args=['-simulate', 'num=%d' % n, '-depth', '18', '-seed', str(ck.seed + 3)])
    cases = [replay(g, r, True) for g in gen]
    # tables built from attribute values
    for _ in range(ck.pick(250, 5000)):
        h = History()
        for _ in range(2):
            es = []
            for _ in range(r.choice([0, 1, 3, 6, 12])):
                ty, v = rval(r)
                es.append((r.choice(CATSEQ), r.choice(ATTS + NAMES + ['n%d' % r.randrange(5), 'a.b', 'x.a', 'a.a.b', 'stra\u00dfe', 'strasse', '\u017f', 's']), ty, v))
            # a dictionary holds one value per spelling, the last; types are declared once per attribute
            seen, types = {}, {}
            for c, n, ty, v in es:
                types.setdefault((c, n.lower()), ty)
                seen[(c, n)] = v
            es = [(c, n, types[(c, n.lower())], v) for (c, n), v in seen.items()]
            h.table(es, r.choice(['builder', 'mixed']))
        for t in (1, 2):
            for c, n, ty, v in es[:4]:
                h.look(t, c, n, r.choice(['str', 'up', 'sym']))
                h.setval(t, c, n, r.choice([1, True, 'q', None]))
            h.obs(3 - t)
            h.obs(t)
        cases.append(h.case())
    # one builder used again: what was built before stays
    for _ in range(ck.pick(60, 600)):
        h = History()
        types = {'user.a': SymbolType.INT, 'object.a': SymbolType.STRING, 'env.b': SymbolType.BOOL}
        b = SymbolTableBuilder(types)
        loads = []
        for rnd in range(3):
            vals = {}
            for k in r.sample(['user.a', 'object.a', 'env.b', 'user.A', 'connect.c', 'admin.a'], r.randrange(5)):
                vals[k] = r.choice([1, 'x', True, None, [1]])
            if rnd and r.random() < .7:
                call(b.reset_values)
                loads = []
            loads.append(dict(vals))
            call(lambda: b.load_mixed_att_val_dict(vals))
            merged = {}
            for d in loads:
                merged.update(d)
            back = {v: k for k, v in PRE.items()}
            es = [(back[k.split('.')[0]], k.split('.')[1], types[k.lower()].name if k.lower() in types else 'none', v) for k, v in merged.items()]
            k, t = call(b.build)
            h.tabs.append(t if k == 'ok' else SymbolTable())
            h.ev.append({'op': 'table', 'env': [{'cat': c, 'name': codes(n), 'ty': 'UNKNOWN' if ty == 'none' else ty, 'v': value(v)} for c, n, ty, v in es],
                         'got': 'ok' if k == 'ok' else 'fail', 'obs': table_obs(h.tabs[-1])})
            for n in range(len(h.tabs)):
                h.obs(n + 1)
        cases.append(h.case())
    ck.validate('TracePolicy', cases, lambda cs: cs['ev'][:8], what='long histories, and tables built from attribute values')
