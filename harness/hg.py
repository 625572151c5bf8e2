"""Encoding of the policy language's objects for the specification, and policy generators."""
from decimal import Decimal
import math
from common import call, codes

from hgpl.lexing import Lexer, Token, TokenType
from hgpl.parsing import Parser
from hgpl.errors import HGPLError, LexerError, ParserError, InterpreterError, InterpreterWarning, \
    TypeCheckerError, TypeCheckerWarning, ErrorType
from hgpl import ast as A
from hgpl.ast import ASTNode, ASTResult, ASTNullVal, ASTEncoder
from hgpl.interpreting import Interpreter
from hgpl.semantics import TypeChecker, TypeCheckerResult
from hgpl.symbols import Symbol, SymbolTable, SymbolTableBuilder, SymbolType


def num(x):
    """Exact decimal as the specification writes it: ['n', sign, digits before, digits after the point]."""
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return ['?', 'float']
        d = Decimal(repr(x))
    else:
        d = Decimal(x)
    sign, digits, exp = d.as_tuple()
    digits = list(digits)
    if exp >= 0:
        i, f = digits + [0] * exp, []
    elif -exp >= len(digits):
        i, f = [], [0] * (-exp - len(digits)) + digits
    else:
        i, f = digits[:exp], digits[exp:]
    while i and i[0] == 0:
        i = i[1:]
    while f and f[-1] == 0:
        f = f[:-1]
    if not i and not f:
        sign = 0
    return ['n', sign, i, f]


ATT = ('USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT')


def tokval(ttype, v):
    if v is None:
        return ['-']
    if isinstance(v, bool):
        return ['?', 'bool']
    if ttype == 'INT':
        return num(v) if isinstance(v, int) else ['?', type(v).__name__]
    if ttype == 'FLOAT':
        return num(v) if isinstance(v, float) else ['?', type(v).__name__]
    if not isinstance(v, str):
        return ['?', type(v).__name__]
    if ttype in ATT:
        return ['id', codes(v)]
    if ttype == 'STRING':
        return ['s', codes(v)]
    return ['w', v]


def tok(t):
    if not isinstance(t, Token):
        return {'t': '?' + type(t).__name__, 'p': -2, 'v': ['-']}
    n = t.type.name if isinstance(t.type, TokenType) else '?'
    return {'t': n, 'p': t.pos if isinstance(t.pos, int) else -2, 'v': tokval(n, t.value)}


def toks(ts):
    return [tok(t) for t in ts]


def flat(n, limit=100000):
    """A tree as the list of its nodes, each before its children (k: how many)."""
    out, todo = [], [n]
    while todo and len(out) < limit:
        n = todo.pop()
        if not isinstance(n, ASTNode):
            out.append({'c': '?' + type(n).__name__, 't': '?', 'p': -2, 'v': ['-'], 'k': 0})
            continue
        t = tok(n.token)
        kids = list(n.children())
        out.append({'c': type(n).__name__, 't': t['t'], 'p': t['p'], 'v': t['v'], 'k': len(kids)})
        todo.extend(reversed(kids))
    return out


# ------------------------------------------------------------------ generators
IDS = ['a', 'b', 'id', 'age', 'role', 'Name', 'x1', '_u', 'dept_no', '9z', 'A', 'a_b_c', 'user', 'and', 'TRUE', '0', '__']
CATS = ['user', 'object', 'env', 'admin', 'connect']
OPS = ['=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET']
WS = [' ', ' ', ' ', '  ', '\t', '\n', '\r\n', ' \n ', '\x0b', '\x0c']


def rcase(r, w):
    k = r.randrange(5)
    if k == 0:
        return w.lower()
    if k == 1:
        return w.title()
    if k == 2:
        return ''.join(ch.upper() if r.random() < .5 else ch.lower() for ch in w)
    return w.upper()


def rint(r):
    k = r.randrange(12)
    if k < 4:
        return str(r.randrange(10))
    if k == 4:
        return str(r.randrange(1000))
    if k == 5:
        return str(-r.randrange(1000))
    if k == 6:
        return str(r.choice([0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32, 2**63, -2**31,
                             -2**31 - 1, -2**63, -1, -128, -129, -32768, -32769]) + r.choice([0, 0, 1, -1]))
    if k == 7:
        return '0' * r.randrange(1, 4) + str(r.randrange(100))
    if k == 8:
        return str(r.randrange(10 ** r.randrange(1, 40)))
    if k == 9:
        return '-0'
    return str(r.randrange(10, 100))


def rfloat(r):
    k = r.randrange(9)
    if k == 8:
        return '%s%s.%s' % (r.choice(['', '-']), r.choice(['0', '1', '7']), '0' * r.randrange(6, 13) + str(r.randrange(1, 100))) if r.random() < .6 else '0.' + '0' * r.randrange(14, 40) + str(r.randrange(1, 100))
    if k == 0:
        return '%d.0' % r.randrange(100)
    if k == 1:
        return '0.%s' % ('0' * r.randrange(8) + str(r.randrange(1, 1000)))
    if k == 2:
        return '-%d.%d' % (r.randrange(50), r.randrange(1000))
    if k == 3:
        return '%d.%s0' % (r.randrange(10**9), r.randrange(1000))
    if k == 4:
        return '00%d.50' % r.randrange(10)
    if k == 5:
        return r.choice(['0.1', '-0.0', '0.0', '16777217.5', '1.00', '9999999.25', '123456789.125', '0.30', '2147483648.0'])
    return '%d.%d' % (r.randrange(100), r.randrange(100))


STRCH = ''.join(chr(i) for i in list(range(32, 34)) + list(range(35, 127)))


def rstr(r):
    k = r.randrange(7)
    if k == 0:
        return '""'
    if k == 1:
        return '"%s"' % r.choice(['a', 'A', 'doctor', 'Doctor', ' ', ' a ', 'AND', 'user.a', '{1,2}', '(x)', '5', '!', '~', '\\', "it's", '#'])
    if k == 2:
        return '"%s"' % ''.join(r.choice(STRCH) for _ in range(r.randrange(1, 30)))
    return '"%s"' % ''.join(r.choice(STRCH) for _ in range(r.randrange(1, 6)))


def rid(r):
    k = r.randrange(6)
    if k == 0:
        return ''.join(r.choice('abcXYZ019_') for _ in range(r.randrange(1, 12)))
    return r.choice(IDS)


def ratt(r):
    return rcase(r, r.choice(CATS)) + '.' + rid(r)


def ratom(r):
    k = r.randrange(8)
    if k < 3:
        return rint(r)
    if k < 5:
        return rfloat(r)
    if k < 7:
        return rstr(r)
    return rcase(r, 'null')


def rset(r, atom=ratom):
    n = r.choice([0, 1, 1, 2, 2, 3, 5, 9])
    out = ['{']
    for i in range(n):
        if i:
            out.append(',')
        out.append(atom(r))
    return out + ['}']


def rlexeme(r):
    k = r.randrange(20)
    if k < 3:
        return ratt(r)
    if k == 3:
        return rint(r)
    if k == 4:
        return rfloat(r)
    if k == 5:
        return rstr(r)
    if k < 8:
        return r.choice(['=', '!=', '<', '>', '<=', '>='])
    if k == 8:
        return rcase(r, r.choice(['in', 'subset']))
    if k < 11:
        return rcase(r, r.choice(['and', 'or']))
    if k < 13:
        return rcase(r, r.choice(['true', 'false', 'undef']))
    if k == 13:
        return rcase(r, 'not')
    if k == 14:
        return rcase(r, 'null')
    return r.choice('{}(),')


def wordy(ch):
    return ch.isalnum() or ch in '_."' or ch == '-'


def join(r, lexemes, tight=.5):
    """Lexemes to text, with the least or with more space between them."""
    out = ''
    for x in lexemes:
        need = bool(out) and ((wordy(out[-1]) and wordy(x[0])) or (out[-1] in '<>!=' and x[0] == '='))
        if need or r.random() > tight:
            out += ''.join(r.choice(WS) for _ in range(r.choice([1, 1, 1, 2])))
        out += x
    if r.random() < .2:
        out = r.choice(WS) + out
    if r.random() < .2:
        out += r.choice(WS)
    return out


def rvar(r):
    k = r.randrange(10)
    if k < 5:
        return [ratt(r)]
    if k < 8:
        return [ratom(r)]
    return rset(r)


def rexp(r, depth):
    k = r.randrange(12)
    if k < 5 or depth <= 0:
        if k % 3 == 0:
            return [r.choice([ratt(r), rcase(r, r.choice(['true', 'false', 'undef']))])]
        op = r.choice(OPS)
        return rvar(r) + [rcase(r, op)] + rvar(r)
    if k == 5:
        return [rcase(r, 'not'), r.choice([ratt(r), rcase(r, r.choice(['true', 'false', 'undef']))])]
    if k == 6 or k == 7:
        return [rcase(r, 'not'), '('] + rpolicy(r, depth - 1) + [')']
    return ['('] + rpolicy(r, depth - 1) + [')']


def rpolicy(r, depth=3, width=3):
    out = rexp(r, depth)
    for _ in range(r.choice([0, 0, 1, 1, 2, width])):
        out += [rcase(r, r.choice(['and', 'or']))] + rexp(r, depth)
    return out
