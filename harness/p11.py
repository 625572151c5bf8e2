"""P11: every text ends in a decision or a located error of the language."""
import itertools
from policy import *
from p01 import texts as lextexts, UNI

NEAR = [0, 1, 3, 10, 25, 1000]


def record(text, r, deep=False):
    ev = []
    table = SymbolTable()
    for c, n, t, v in rtable(r, 4):
        table.define(Symbol(n, TT[c], stype(t), v))

    def stage(name, fn):
        e = {'stage': name, 'got': 'ok', 'pos': -1, 'near': [], 'text': True, 'shown': True}
        k, v = call(fn, limit=60)
        if k == 'ok':
            if name == 'eval' and not isinstance(v, ASTResult):
                e['got'] = 'other'
        elif isinstance(v, HGPLError):
            e['got'] = 'err'
            e['pos'] = v.pos if isinstance(v.pos, int) else -5
            e['text'] = v.policy_text == text
            for n in (NEAR if len(text) < 400 else NEAR[:4]):
                k2, x = call(v.near, n)
                e['near'].append([n, [-1] if k2 == 'ok' and x is None else codes(x) if k2 == 'ok' and isinstance(x, str) else [-2]])
            k2, s = call(str, v)
            e['shown'] = k2 == 'ok' and isinstance(s, str) and ('char %d' % v.pos in s)
        else:
            e['got'], e['exc'] = 'other', type(v).__name__ if v is not None else k
        ev.append(e)
        return v if k == 'ok' else None
    if stage('lex', lambda: Lexer(text).tokenize() or True) is not None:
        ast = stage('parse', lambda: Parser(Lexer(text)).parse())
        if ast is not None:
            stage('check', lambda: TypeChecker(Parser(Lexer(text))).check(r.choice([ErrorType.CRIT, ErrorType.ERROR, ErrorType.WARN])))
            stage('eval', lambda: Interpreter(Parser(Lexer(text))).evaluate(table))
            stage('eval', lambda: Interpreter(ast, text).evaluate())
    return {'text': codes(text), 'ascii': text.isascii() and not any(ch in text for ch in '\x1c\x1d\x1e\x1f'), 'deep': deep, 'ev': ev}


def run(ck):
    r = ck.rng
    ck.design('MCLexer', 'MCLexer.cfg', min_states=1000)
    ck.design('MCGrammar', 'MCGrammar.cfg', min_states=1000)
    ts = []
    lt = lextexts(ck)
    ts += r.sample(lt, ck.pick(800, min(12000, len(lt))))
    words = ['user.a', 'object.b', 'TRUE', 'UNDEF', 'AND', 'OR', 'NOT', '=', '<', 'IN', 'SUBSET', '1', '2.5', '"s"', 'NULL', '{', '}', ',', '(', ')', '', ' ', '\n',
             'user.', '.', '"', '-', '!', '@', 'x']
    for n in ck.pick((1, 2), (1, 2, 3)):
        for t in itertools.product(words, repeat=n):
            ts.append(' '.join(t))
    for _ in range(ck.pick(600, 12000)):
        ts.append(' '.join(r.choice(words) for _ in range(r.randrange(3, 12))))
    for _ in range(ck.pick(400, 8000)):
        es = [(c, n, 'INT', 1) for c in r.sample(list(PRE), 2) for n in ATTS[:2]]
        t = rformula(r, es, r.randrange(4))
        ts.append(t)
        k = r.randrange(len(t) + 1)
        ts.append(r.choice([t[:k], t[k:], t[:k] + r.choice('"(){},.=@ ') + t[k:], t + ' ' + t, t + ' AND', t + ' )', '( ' + t]))
    for _ in range(ck.pick(300, 6000)):                # any characters at all
        ts.append(''.join(chr(r.choice([r.randrange(128), r.randrange(32, 127), r.randrange(256), r.randrange(0x3000)])) for _ in range(r.randrange(1, 20))))
    for u in UNI:
        for t in ('user.%s', '%s', '"%s" = user.a', 'user.a = 1%s', '1%s = 1', 'TRUE %s', 'NOT%sTRUE', 'user.a%s AND TRUE', 'us%ser.a', '-%s1 = 1', '1.%s = 2', 'TRUE AND user.b%s'):
            ts.append(t % u)
    cases = [record(t, r) for t in dict.fromkeys(ts)]
    ck.validate('TraceText', cases, lambda cs: repr(''.join(map(chr, cs['text'])))[:300], what='texts through lexing, parsing, type checking and evaluation')
    deep = []
    for n in ck.pick((900, 3000), (300, 500, 900, 1100, 3000, 20000)):
        deep += ['(' * n + 'TRUE' + ')' * n, 'NOT (' * n + 'TRUE' + ')' * n, 'TRUE OR (' * n + 'user.a' + ')' * n, '(' * n, 'TRUE AND ' * n + 'user.a', ')' * n,
                 'NOT ' * n, '{' * n, 'user.a = {' + '1,' * n, '1' * n + ' = user.a', '"' + 'a' * n, 'user.' + 'b' * n, '-' * n, '=' * n]
    # outcome and excerpt only: the specification reads such texts without looking for the tree
    cases = []
    for t in deep:
        cs = record(t, r, True)
        cs['ascii'] = False
        cases.append(cs)
    ck.validate('TraceText', cases, lambda cs: repr(''.join(map(chr, cs['text'])))[:100], what='very long and deeply nested texts')
