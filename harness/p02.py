"""P02: parsing."""
from common import call, codes
from hg import *


def parse_event(mk):
    e = {'op': 'parse', 'pos': -1}

    def go():
        return mk().parse()
    k, v = call(go)
    if k == 'ok':
        e['got'] = 'ok'
        k2, v2 = call(flat, v)
        e['tree'] = v2 if k2 == 'ok' else flat(None)
    elif isinstance(v, LexerError):
        e['got'], e['pos'] = 'lexerr', v.pos
    elif isinstance(v, ParserError):
        e['got'], e['pos'] = 'err', v.pos if isinstance(v.pos, int) else -5
    else:
        e['got'], e['exc'] = 'other', type(v).__name__
    return e


def from_text(text):
    return {'from': 'text', 'text': codes(text), 'ev': [parse_event(lambda: Parser(Lexer(text)))]}


def mktok(kind, val, pos):
    k = val[0]
    if k == '-':
        v = None
    elif k == 'w':
        v = val[1]
    elif k in ('id', 's'):
        v = ''.join(map(chr, val[1]))
    else:
        txt = ('-' if val[1] else '') + (''.join(map(str, val[2])) or '0') + ('.' + (''.join(map(str, val[3])) or '0') if kind == 'FLOAT' else '')
        v = float(txt) if kind == 'FLOAT' else int(txt)
    return Token(TokenType[kind], pos, v)


def from_tokens(spec, step=1):
    """spec: list of [kind, value] between START and END."""
    ts = [Token(TokenType.START, 0)]
    for i, (k, v) in enumerate(spec):
        ts.append(mktok(k, v, (i + 1) * step))
    ts.append(Token(TokenType.END, (len(spec) + 1) * step))
    before = toks(ts)
    e = parse_event(lambda: Parser(ts, 'x' * ((len(spec) + 2) * step)))
    return {'from': 'toks', 'toks': before, 'ev': [e]}


def describe(cs):
    if cs['from'] == 'text':
        return ''.join(map(chr, cs['text']))
    return ' '.join(t['t'] + (':' + str(t['v'][1]) if t['t'] in ('BOOL_OP',) else '') for t in cs['toks'])


KINDS = ['OP', 'BOOL_OP', 'NOT_OP', 'USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT', 'NULL', 'BOOL', 'INT', 'FLOAT', 'STRING', 'LSET',
         'RSET', 'LPARN', 'RPARN', 'COMMA']


def rtok(r, kind):
    if kind == 'OP':
        return [kind, ['w', r.choice(OPS)]]
    if kind == 'BOOL_OP':
        return [kind, ['w', r.choice(['AND', 'OR'])]]
    if kind == 'NOT_OP':
        return [kind, ['w', 'NOT']]
    if kind == 'NULL':
        return [kind, ['w', 'NULL']]
    if kind == 'BOOL':
        return [kind, ['w', r.choice(['TRUE', 'FALSE', 'UNDEF'])]]
    if kind in ATT:
        return [kind, ['id', codes(rid(r))]]
    if kind == 'INT':
        return [kind, num(int(rint(r)))]
    if kind == 'FLOAT':
        return [kind, num(float(rfloat(r)))]
    if kind == 'STRING':
        return [kind, ['s', codes(rstr(r)[1:-1])]]
    return [kind, ['-']]


def run(ck):
    r = ck.rng
    ck.design('MCGrammar', ck.pick('MCGrammar.cfg', 'MCGrammarDeep.cfg'), min_states=1000)
    gen = ck.generate('GenGrammar', ck.pick('GenGrammar5.cfg', 'GenGrammar7.cfg'), workers=4)
    cases = [from_tokens(g) for g in gen]
    if not ck.quick:
        ck.exhaustive_parts.append('all token sequences of at most 7 tokens up to their first token that does not fit')
    # the same with other kinds of operands and attributes
    alt = {'USR_ATT': ATT, 'INT': ('INT', 'FLOAT', 'STRING', 'NULL')}
    for g in r.sample(gen, min(len(gen), ck.pick(1500, 20000))):
        cases.append(from_tokens([rtok(r, r.choice(alt.get(k, (k,)))) if k not in ('BOOL_OP',) else [k, v] for k, v in g], r.choice([1, 3])))
    ck.validate('TraceParser', cases, describe, what='token sequences enumerated from the specification')
    cases = []
    for i in range(ck.pick(500, 10000)):
        p = rpolicy(r, r.choice([1, 2, 3, 4, 5]), r.choice([2, 3, 6]))
        if len(p) > 400:
            continue
        cases.append(from_text(join(r, p, r.choice([0, .5, 1]))))
        # one lexeme dropped, doubled, swapped or replaced; or cut off
        q = list(p)
        k = r.randrange(len(q))
        m = r.randrange(5)
        if m == 0:
            del q[k]
        elif m == 1:
            q.insert(k, q[k])
        elif m == 2:
            q[k] = rlexeme(r)
        elif m == 3:
            q = q[:k]
        else:
            j = r.randrange(len(q))
            q[k], q[j] = q[j], q[k]
        cases.append(from_text(join(r, q, .3) if q else ''))
    for i in range(ck.pick(200, 4000)):
        cases.append(from_tokens([rtok(r, r.choice(KINDS)) for _ in range(r.randrange(0, 9))]))
    # long chains and deep nesting
    for n in ck.pick((30, 120), (30, 120, 250)):
        for ops in (['AND'], ['OR'], ['AND', 'OR'], ['OR', 'AND', 'AND']):
            lx = ['user.a0']
            for i in range(n):
                lx += [ops[i % len(ops)], r.choice(['user.a%d' % i, 'TRUE', 'NOT env.x'])]
            cases.append(from_text(' '.join(lx)))
        d = min(n, 80)
        cases.append(from_text('(' * d + 'TRUE' + ')' * d))
        cases.append(from_text('NOT (' * d + 'user.x' + ')' * d))
        cases.append(from_text('(' * d + 'TRUE' + ')' * (d - 1)))
        cases.append(from_text('(' * d + 'TRUE' + ')' * (d + 1)))
        cases.append(from_text('(TRUE AND ' * d + 'FALSE' + ' OR UNDEF)' * d))
        cases.append(from_text('user.a IN {' + ', '.join(str(i) for i in range(n * 2)) + '}'))
        cases.append(from_text('user.a IN {' + ', '.join(str(i) for i in range(n)) + ',}'))
    ck.validate('TraceParser', cases, describe, what='policy texts, valid and disturbed')
