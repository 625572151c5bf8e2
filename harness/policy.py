"""Recording histories of the policy language for TracePolicy: tables, evaluations, type checks, encodings."""
import base64, struct
from common import call, codes
from hg import *

TT = {'USR_ATT': TokenType.USR_ATT, 'OBJ_ATT': TokenType.OBJ_ATT, 'ENV_ATT': TokenType.ENV_ATT, 'ADM_ATT': TokenType.ADM_ATT,
      'CON_ATT': TokenType.CON_ATT}
PRE = {'USR_ATT': 'user', 'OBJ_ATT': 'object', 'ENV_ATT': 'env', 'ADM_ATT': 'admin', 'CON_ATT': 'connect'}
TRI = {'T': ASTResult.TRUE, 'F': ASTResult.FALSE, 'U': ASTResult.UNDEF}
IRT = {'TRUE': 'T', 'FALSE': 'F', 'UNDEF': 'U'}


def tri(x):
    return IRT.get(x.name, '?') if isinstance(x, ASTResult) else '?' + type(x).__name__


def value(v):
    """A Python attribute value as the specification writes it."""
    if v is None:
        return ['none']
    if isinstance(v, bool):
        return ['b', 'T' if v else 'F']
    if isinstance(v, ASTResult):
        return ['b', tri(v)]
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return ['s', codes(v)]
    if isinstance(v, ASTNullVal):
        return ['z']
    if isinstance(v, (list, set)):
        return ['L', sorted((value(x) for x in v), key=repr) if isinstance(v, set) else [value(x) for x in v]]
    return ['?', type(v).__name__]


def unvalue(v, flt=False, aset=False):
    k = v[0]
    if k == 'none':
        return None
    if k == 'b':
        return TRI[v[1]]
    if k == 'n':
        txt = ('-' if v[1] else '') + (''.join(map(str, v[2])) or '0') + ('.' + ''.join(map(str, v[3])) if v[3] else '')
        return float(txt) if v[3] or flt else int(txt)
    if k == 's':
        return ''.join(map(chr, v[1]))
    if k == 'z':
        return ASTNullVal()
    if k == 'L':
        xs = [unvalue(x) for x in v[1]]
        return set(xs) if aset else xs
    raise ValueError(v)


def literal(v, flt=False):
    """A constant in policy text."""
    k = v[0]
    if k == 'n':
        x = ('-' if v[1] else '') + (''.join(map(str, v[2])) or '0')
        return x + '.' + (''.join(map(str, v[3])) or '0') if v[3] or flt else x
    if k == 's':
        return '"' + ''.join(map(chr, v[1])) + '"'
    if k == 'z':
        return 'NULL'
    return '{' + ', '.join(literal(x) for x in v[1]) + '}'


def stype(name):
    return None if name == 'none' else SymbolType[name]


def symname(s):
    return s.type.name if isinstance(s.type, SymbolType) else '?%r' % (s.type,)


def entry(s):
    n = s.name
    cat = s.att_type.name if isinstance(s.att_type, TokenType) else '?'
    pre = PRE.get(cat, '?') + '.'
    v = ['?', 'bool'] if isinstance(s.value, bool) else value(s.value)      # truth values are kept as such, not as numbers
    return {'cat': cat, 'name': codes(n[len(pre):] if n.startswith(pre) else '?' + n), 'ty': symname(s), 'v': v}


def table_obs(t):
    """What a table holds, as it tells itself, with every way of asking agreeing."""
    k, v = call(lambda: sorted((entry(s) for s in t.symbols()), key=repr))
    k2, v2 = call(lambda: sorted(t.names()) == sorted(s.name for s in t.symbols()))
    if k != 'ok' or k2 != 'ok' or not v2:
        return [{'cat': '?', 'name': [], 'ty': '?', 'v': ['?', str(v)]}]
    return v


def exact(t):
    """The contents of a table to the letter: kinds of values and order of lists, too."""
    def one(v):
        return [type(v).__name__, [one(x) for x in v] if isinstance(v, (list, tuple)) else sorted((one(x) for x in v), key=repr) if isinstance(v, (set, frozenset)) else value(v)]
    k, v = call(lambda: sorted([repr([s.name, symname(s), s.att_type.name, one(s.value)]) for s in t.symbols()]))
    return v if k == 'ok' else ['?']


def rawtok(n):
    t, v = n.ttype().name, n.tvalue()
    if v is None:
        return ['-']
    if t == 'INT' and isinstance(v, int):
        return ['i', 1 if v < 0 else 0, [int(d) for d in str(abs(v))]]
    if t == 'FLOAT' and isinstance(v, float):
        return ['f', list(struct.pack('<d', v))]
    if isinstance(v, str):
        return ['t', list(v.encode('utf-8', 'surrogatepass'))]
    return ['?', type(v).__name__]


def rawflat(n, limit=100000):
    out, todo = [], [n]
    while todo and len(out) < limit:
        n = todo.pop()
        if not isinstance(n, ASTNode):
            out.append({'c': '?' + type(n).__name__, 't': '?', 'p': -2, 'v': ['-'], 'k': 0})
            continue
        kids = list(n.children())
        out.append({'c': type(n).__name__, 't': n.ttype().name, 'p': n.tpos(), 'v': rawtok(n), 'k': len(kids)})
        todo.extend(reversed(kids))
    return out


class History:
    def __init__(self, note=None):
        self.pols, self.texts, self.asts, self.tabs, self.ev = [], [], [], [], []
        self.interps = []
        self.given = []
        self.kept = []
        self.note = note

    def own(self, v):
        """A value to hand over: a copy of this history's own, to see whether it is left alone."""
        if isinstance(v, (list, set)):
            v = type(v)(v)
            self.given.append((v, type(v).__name__, value(v)))
        return v

    def untouched(self):
        self.ev.append({'op': 'same', 'what': 'the values handed over', 'a': [g[1:] for g in self.given],
                        'b': [[type(g[0]).__name__, value(g[0])] for g in self.given]})

    def case(self):
        return {'pols': self.pols, 'ev': self.ev}

    def policy(self, text):
        """Parse a valid policy; its number."""
        self.pols.append(codes(text))
        self.texts.append(text)
        k, v = call(lambda: Parser(Lexer(text)).parse())
        if k != 'ok' or not isinstance(v, ASTNode):
            self.ev.append({'op': 'same', 'what': 'valid policy is parsed', 'a': 'parsed', 'b': repr(v)})
            v = None
        self.asts.append(v)
        return len(self.pols)

    def ok(self, p):
        return self.asts[p - 1] is not None

    # ---- tables ----
    def table(self, entries, via='define', order=None):
        """entries: list of (cat, name, type name, python value)."""
        entries = [(c, n, t, self.own(v)) for c, n, t, v in entries]
        env = [{'cat': c, 'name': codes(n), 'ty': 'UNKNOWN' if t in ('none',) else t, 'v': value(v)} for c, n, t, v in entries]
        ev = {'op': 'table', 'env': env, 'via': via}

        def go():
            if via == 'define':
                st = SymbolTable()
                for c, n, t, v in entries:
                    st.define(Symbol(n, TT[c], stype(t), v))
                return st
            types = {PRE[c] + '.' + n.lower(): SymbolType[t] for c, n, t, v in entries if t not in ('none',)}
            types.update({n.lower(): SymbolType.STRING if t == 'INT' else SymbolType.INT for c, n, t, v in entries if '.' not in n})      # says nothing about any attribute
            if via == 'builder':
                d = {k: {} for k in PRE}
                for c, n, t, v in entries:
                    d[c][n] = v
                keep = {k: dict(x) for k, x in d.items()}
                b = SymbolTableBuilder(types, d['USR_ATT'], d['ENV_ATT'], d['OBJ_ATT'], d['ADM_ATT'], d['CON_ATT'])
                st = b.build()
                if any(d[k] != keep[k] for k in d):
                    raise RuntimeError('builder changed its input')
                return st
            b = SymbolTableBuilder(types)
            b.load_mixed_att_val_dict({PRE[c] + '.' + n: v for c, n, t, v in entries})
            return b.build()
        k, t = call(go)
        if k == 'ok':
            self.tabs.append(t)
            ev['got'], ev['obs'] = 'ok', table_obs(t)
        else:
            self.tabs.append(SymbolTable())
            ev['got'], ev['obs'] = 'fail', []
        self.ev.append(ev)
        return len(self.tabs)

    def define(self, t, cat, name, ty, v):
        v = self.own(v)
        k, r = call(lambda: self.tabs[t - 1].define(Symbol(name, TT[cat], stype(ty), v)))
        self.ev.append({'op': 'define', 't': t, 'cat': cat, 'name': codes(name), 'ty': 'UNKNOWN' if ty == 'none' else ty, 'v': value(v),
                        'got': 'fail' if k != 'ok' else 'yes' if r is True else 'no' if r is False else '?'})

    def _ref(self, t, cat, name, how):
        full = PRE[cat] + '.' + name
        return Symbol(name, TT[cat]) if how == 'sym' else ''.join(x.upper() if x.isascii() else x for x in full) if how == 'up' else full

    def setval(self, t, cat, name, v, how='str'):
        v = self.own(v)
        k, r = call(lambda: self.tabs[t - 1].set_value(self._ref(t, cat, name, how), v))
        self.ev.append({'op': 'setval', 't': t, 'cat': cat, 'name': codes(name), 'v': value(v), 'got': 'ok' if k == 'ok' else 'fail'})

    def switch(self, t, cat, name, ty, how='str'):
        k, r = call(lambda: self.tabs[t - 1].switch_type(self._ref(t, cat, name, how), SymbolType[ty]))
        self.ev.append({'op': 'switch', 't': t, 'cat': cat, 'name': codes(name), 'ty': ty, 'got': 'ok' if k == 'ok' else 'fail',
                        'old': r.name if k == 'ok' and isinstance(r, SymbolType) else '-'})

    def look(self, t, cat, name, how='str'):
        tab, ref = self.tabs[t - 1], self._ref(t, cat, name, how)
        e = {'op': 'look', 't': t, 'cat': cat, 'name': codes(name)}
        k, s = call(tab.lookup, ref)
        e['sym'] = ['none'] if k == 'ok' and s is None else ['is'] + [entry(s)[x] for x in ('cat', 'name', 'ty')] if k == 'ok' else ['fail']
        k, v = call(tab.lookup_value, ref)
        e['val'] = ['val', value(v)] if k == 'ok' else ['fail']
        k, v = call(tab.exists, ref)
        e['exists'] = v if k == 'ok' and isinstance(v, bool) else '?'
        k, v = call(tab.lookup_type, ref)
        e['ty'] = '-' if v is None and k == 'ok' else v.name if k == 'ok' and isinstance(v, SymbolType) else '?'
        k, v = call(tab.lookup_att_type, ref)
        e['aty'] = '-' if v is None and k == 'ok' else v.name if k == 'ok' and isinstance(v, TokenType) else '?'
        k, v = call(tab.lookup_att_name, ref)
        e['aname'] = [] if v is None and k == 'ok' else codes(v) if k == 'ok' and isinstance(v, str) else [-1]
        self.ev.append(e)

    def obs(self, t):
        self.ev.append({'op': 'obs', 't': t, 'env': table_obs(self.tabs[t - 1])})
        if self.given:
            self.untouched()

    # ---- evaluation ----
    def interp(self, p, via='ast'):
        if via == 'parser':
            k, i = call(lambda: Interpreter(Parser(Lexer(self.texts[p - 1]))))
        else:
            k, i = call(lambda: Interpreter(self.asts[p - 1], self.texts[p - 1]))
        self.interps.append((p, i if k == 'ok' else None))
        return len(self.interps) - 1

    def eval(self, i, t, lvl='-', judge='dec'):
        p, it = self.interps[i]
        e = {'op': 'eval', 'p': p, 't': t, 'lvl': lvl, 'judge': judge, 'warns': [], 'rpos': -9, 'truth': False}
        args = [] if t == 0 else [self.tabs[t - 1]]
        if lvl != '-':
            args = [self.tabs[t - 1] if t else None, ErrorType[lvl]]
        before = exact(self.tabs[t - 1]) if t else []
        k, r = call(lambda: it.evaluate(*args))
        after = exact(self.tabs[t - 1]) if t else []
        if k == 'ok':
            e['got'] = tri(r)
            e['truth'] = bool(r) if isinstance(r, ASTResult) else True
        elif isinstance(r, InterpreterWarning):
            e['got'], e['rpos'] = 'warn', r.pos
        elif isinstance(r, InterpreterError):
            e['got'] = 'err'
        else:
            e['got'] = 'other ' + (type(r).__name__ if r is not None else k)
        k, ws = call(it.get_warnings)
        k, w = call(lambda: [x.pos for x in ws]) if k == 'ok' else (k, None)
        e['warns'] = w if k == 'ok' else [-99]
        self.ev.append(e)
        if judge == 'all':
            self.ev.append({'op': 'same', 'what': 'the table is as it was before the evaluation', 'a': before, 'b': after})
            if k == 'ok':
                self.kept.append((ws, list(w)))
            self.same('the warnings of earlier evaluations, as they were given', [b for a, b in self.kept[-3:]], [call(lambda: [x.pos for x in a])[1] for a, b in self.kept[-3:]])
        return e['got']

    def run(self, text, entries, lvl='-', judge='dec', via='define', ivia='ast'):
        p = self.policy(text)
        t = self.table(entries, via)
        if self.ok(p):
            return self.eval(self.interp(p, ivia), t, lvl, judge)

    def tree(self, p):
        self.ev.append({'op': 'tree', 'p': p, 'nodes': flat(self.asts[p - 1])})

    # ---- type checks ----
    def check(self, p, lvl='-', via='ast'):
        def mk():
            return TypeChecker(Parser(Lexer(self.texts[p - 1]))) if via == 'parser' else TypeChecker(self.asts[p - 1], self.texts[p - 1])

        def iss(x):
            return {'ty': x.type.name if isinstance(x.type, ErrorType) else '?', 'p': x.pos if isinstance(x.pos, int) else -5}
        e = {'op': 'check', 'p': p, 'lvl': 'CRIT' if lvl == '-' else lvl, 'raised': {'ty': '-', 'p': -9}, 'issues': [], 'result': '?',
             'nerr': -1, 'nwarn': -1, 'syms': []}
        k, tc = call(mk)
        if k != 'ok':
            e['got'] = 'other'
            self.ev.append(e)
            return
        k, r = call(lambda: tc.check() if lvl == '-' else tc.check(ErrorType[lvl]))
        e['got'] = 'ok' if k == 'ok' else 'raised' if isinstance(r, TypeCheckerError) else 'other'
        if e['got'] == 'raised':
            e['raised'] = iss(r)

        def fill():
            is_ = tc.get_issues()
            e['issues'] = [iss(x) for x in is_]
            if k == 'ok' and [iss(x) for x in r] != e['issues']:
                e['got'] = 'other list returned'
            e['result'] = tc.get_result().name
            e['nerr'] = len({iss(x)['p'] for x in tc.get_errors()})
            e['nwarn'] = len({iss(x)['p'] for x in tc.get_warnings()})
            e['syms'] = table_obs(tc.get_symbol_table())
        call(fill)
        self.ev.append(e)

    # ---- encoding ----
    def encode(self, ast):
        e = {'op': 'enc', 'nodes': rawflat(ast), 'bytes': [], 'b64': []}

        def go():
            b = ASTEncoder.encode(ast)
            return b, ASTEncoder.encode(ast, True)
        k, v = call(go)
        if k == 'ok' and isinstance(v[0], bytes) and isinstance(v[1], bytes):
            e['got'], e['bytes'], e['b64'] = 'ok', list(v[0]), list(v[1])
        else:
            e['got'] = 'fail %s' % type(v).__name__
        self.ev.append(e)
        return v[0] if e['got'] == 'ok' else None

    def decode(self, data, b64=False):
        e = {'op': 'dec', 'bytes': list(data), 'nodes': []}
        k, v = call(lambda: ASTEncoder.decode(base64.b64encode(data), True) if b64 else ASTEncoder.decode(data))
        if k == 'ok' and isinstance(v, ASTNode):
            e['got'] = 'ok'
            e['nodes'] = rawflat(v)
        else:
            e['got'], v = ('fail' if k == 'exc' else 'other'), None
        self.ev.append(e)
        return v

    def same(self, what, a, b):
        self.ev.append({'op': 'same', 'what': what, 'a': a, 'b': b})


def describe(cs):
    return {'policies': [''.join(map(chr, p)) for p in cs['pols']][:6]}


# ---------------------------------------------------------------- random attributes and policies over them
ATTS = ['a', 'b', 'id', 'age', 'Role', 'X_1']


def ratomval(r):
    k = r.randrange(10)
    if k < 3:
        return r.choice([0, 1, 2, -1, 10, 5])
    if k < 5:
        return r.choice([0.0, 1.0, 0.5, -1.0, 2.5, 10.0])
    if k < 8:
        return r.choice(['', 'a', 'A', 'x y', '1', 'doctor'])
    if k == 8:
        return r.randrange(-10**9, 10**9)
    return ASTNullVal()


def rval(r):
    """(type, value) of an attribute, mostly fitting."""
    k = r.randrange(14)
    if k < 3:
        return 'INT', r.choice([0, 1, 2, -1, 10, 5, 2**31, -2**40, 1.0, 0.5])
    if k == 3:
        return 'FLOAT', r.choice([0.0, 1.0, 0.5, -1.0, 2.5, 10.0, 1, 0])
    if k < 6:
        return 'STRING', r.choice(['', 'a', 'A', 'x y', '1', 'doctor'])
    if k < 8:
        xs = [ratomval(r) for _ in range(r.randrange(4))]
        return 'SET', set(xs) if r.random() < .5 else xs
    if k < 11:
        return 'BOOL', r.choice([True, False, ASTResult.TRUE, ASTResult.FALSE, ASTResult.UNDEF])
    if k == 11:
        return r.choice(['INT', 'STRING', 'SET', 'BOOL', 'FLOAT', 'UNKNOWN']), None
    return r.choice(['INT', 'FLOAT', 'STRING', 'SET', 'BOOL', 'UNKNOWN', 'CUSTOM', 'none']), \
        r.choice([0, 1.5, 'a', True, [1], {'a'}, ASTNullVal(), (1,), frozenset(), ASTResult.TRUE, ''])


def rtable(r, n=6):
    es, seen = [], set()
    for _ in range(n):
        c, nm = r.choice(list(PRE)), r.choice(ATTS)
        if (c, nm.lower()) in seen:
            continue
        seen.add((c, nm.lower()))
        es.append((c, nm) + rval(r))
    return es


def rattref(r, es, wide=.15):
    if not es or r.random() < wide:
        return rcase(r, r.choice(CATS)) + '.' + r.choice(ATTS)
    c, n = r.choice(es)[:2]
    return rcase(r, PRE[c]) + '.' + rcase(r, n)


def roperand(r, es):
    k = r.randrange(10)
    if k < 6:
        return rattref(r, es)
    if k < 9:
        return literal(value(ratomval(r)))
    return literal(['L', [value(ratomval(r)) for _ in range(r.randrange(4))]])


def rcond(r, es, depth, bools):
    k = r.randrange(12)
    if depth <= 0 or k < 4:
        if k % 3 == 0 or not bools:
            return '%s %s %s' % (roperand(r, es), rcase(r, r.choice(OPS)), roperand(r, es))
        return r.choice(bools + ['TRUE', 'FALSE', 'UNDEF'])
    if k == 4:
        return 'NOT ' + r.choice(bools + ['TRUE', 'FALSE', 'undef'])
    if k < 7:
        return 'NOT (' + rformula(r, es, depth - 1, bools) + ')'
    return '(' + rformula(r, es, depth - 1, bools) + ')'


def rformula(r, es, depth, bools=None):
    if bools is None:
        bools = [PRE[c] + '.' + n for c, n, t, v in es if t == 'BOOL' and not isinstance(v, (int, str, float)) or t == 'BOOL'] + \
                (['user.nope'] if r.random() < .2 else [])
        if r.random() < .05:
            bools = bools + [PRE[e[0]] + '.' + e[1] for e in es]
    out = rcond(r, es, depth, bools)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        out += ' ' + rcase(r, r.choice(['and', 'or'])) + ' ' + rcond(r, es, depth, bools)
    return out
