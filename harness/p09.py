"""P09: encoding of policy trees."""
from policy import *

NT = {'OpNode': 11, 'BoolOpNode': 12, 'NotNode': 13, 'BoolValNode': 21, 'IntValNode': 31, 'FloatValNode': 32, 'StringValNode': 33, 'NullValNode': 35,
      'SetNode': 41, 'UsrAttNode': 51, 'ObjAttNode': 52, 'AdmAttNode': 53, 'ConAttNode': 54, 'EnvAttNode': 55}
TKN = {n: i + 1 for i, n in enumerate(['OP', 'BOOL_OP', 'NOT_OP', 'USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT', 'UNK_ATT', 'UNK_ID', 'NULL', 'BOOL',
                                       'INT', 'FLOAT', 'STRING', 'LSET', 'RSET', 'LPARN', 'RPARN', 'COMMA', 'START', 'END'])}


def foreign(ast, r, legacy):
    """The same tree written by another encoder: other ids, other order, other sizes of numbers."""
    nodes, todo = [], [ast]
    while todo:
        n = todo.pop()
        nodes.append(n)
        todo.extend(n.children())
    ids = r.sample(range(65536), len(nodes)) if r.random() < .5 else r.sample(range(len(nodes) + 3), len(nodes))
    num_ = {id(n): i for n, i in zip(nodes, ids)}
    root = num_[id(ast)]
    r.shuffle(nodes)
    out = struct.pack('<BHH', 1, len(nodes), root)
    for n in nodes:
        t, v = n.ttype().name, n.tvalue()
        if t == 'INT':
            size = r.choice([4, 8, 16]) if v.bit_length() < 31 else v.bit_length() // 8 + r.choice([1, 2, 5])
            raw = v.to_bytes(size, 'little', signed=True)
        elif t == 'FLOAT':
            raw = struct.pack('<f', v) if legacy else struct.pack('<d', v)
        elif v is None:
            raw = b''
        else:
            raw = v.encode()
        out += struct.pack('<HBBHHH', num_[id(n)], NT[type(n).__name__], TKN[t], n.tpos(), len(raw), len(n.children())) + raw
        for c in n.children():
            out += struct.pack('<H', num_[id(c)])
    return out


def textcase(text, ck, tables=2, trunc=False, frgn=True):
    r = ck.rng
    h = History()
    p = h.policy(text)
    if not h.ok(p):
        return h.case()
    ast = h.asts[0]
    before = flat(ast)
    data = h.encode(ast)
    h.same('tree unchanged by encoding', before == flat(ast), True)
    if data is None:
        return h.case()
    back = h.decode(data, r.random() < .4)
    if back is not None:
        # the decoded tree is the same policy in everything one does with it
        h.pols.append(codes(text))
        h.texts.append(text)
        h.asts.append(back)
        h.tree(2)
        h.same('equal to the original', call(lambda: back == ast)[1], True)
        h.same('and not unequal', call(lambda: back != ast)[1], False)
        again = h.encode(back)
        h.same('same encoding again', list(again or b''), list(data))
        h.check(2)
        i, j = h.interp(1), h.interp(2)
        es = rtable(r, 8)
        for _ in range(tables):
            t = h.table(rtable(r, 8))
            h.eval(i, t, '-', 'all')
            h.eval(j, t, '-', 'all')
        h.encode(back)
    if trunc:
        ks = range(len(data)) if len(data) < 150 or not ck.quick else sorted(r.sample(range(len(data)), 60))
        for k in ks:
            h.decode(data[:k])
    if frgn:
        legacy = r.random() < .5 and all(n['t'] != 'FLOAT' or flt32(n) for n in rawflat(ast))
        d = h.decode(foreign(ast, r, legacy))
        if d is not None:
            b = h.encode(d)
            if b is not None:
                h.decode(b)
    return h.case()


def flt32(n):
    x = struct.unpack('<d', bytes(n['v'][1]))[0]
    return abs(x) < 1e30 and (x == 0 or abs(x) > 1e-30) and struct.unpack('<f', struct.pack('<f', x))[0] == x


def run(ck):
    r = ck.rng
    cases = []
    fixed = ['TRUE', 'user.a', 'NOT user.a', 'user.a = ""', '"" = user.a', 'NULL = NULL', '{} SUBSET {}', 'user.a IN {NULL, "", 0, 0.0}', 'undef',
             'user.a = 0.1 AND object.b = -0.1', 'env.x > 2147483647 OR env.x > 2147483648 OR env.x < -2147483648 OR env.x < -2147483649',
             'admin.x = 9999999999999999999999999999 AND connect.Y = -9999999999999999999999', 'user.a = 127 OR user.a = 128 OR user.a = -128 OR user.a = -129',
             'user.a = 255 OR user.a = 256 OR user.a = -255 OR user.a = -256 OR user.a = 32768 OR user.a = -32769 OR user.a = 65535 OR user.a = 65536',
             'user.a = 3.141592653589793 OR user.a = 123456789.123456', 'user.a = 0.5 AND user.a = 1.5 AND user.a = -0.0',
             '   \n user.long_name_with_Case_09 SUBSET {1, 1, 1}', 'TRUE' + ' ' * 300 + 'AND user.z', 'user.a = "' + 'x' * 300 + '"',
             'user.a = "AND" AND user.b = "user.b" OR NOT (user.c OR NOT false)', '(' * 20 + 'user.a' + ')' * 20, 'user.' + 'n' * 260]
    for t in fixed:
        cases.append(textcase(t, ck, trunc=len(t) < 120))
    for _ in range(ck.pick(160, 4000)):
        es = [(c, n, 'INT', 1) for c in PRE for n in ATTS]
        cases.append(textcase(rformula(r, es, r.randrange(3)), ck, trunc=r.random() < .15))
    for _ in range(ck.pick(120, 3000)):
        p = rpolicy(r, r.choice([1, 2, 3]))
        if len(p) < 120:
            cases.append(textcase(join(r, p), ck, tables=1, trunc=r.random() < .1))
    for n in ck.pick((60,), (60, 150)):
        cases.append(textcase(' AND '.join('user.a%d = %d' % (i, i) for i in range(n)), ck))
        cases.append(textcase('user.a IN {' + ', '.join(rint(r) for i in range(n * 3)) + '}', ck))
        cases.append(textcase('NOT (' * n + 'user.a' + ')' * n, ck))
    ck.validate('TracePolicy', cases, describe, what='round trips, foreign encodings and cut encodings')
    # names outside ASCII (accepted by the lexer), texts beyond 16 bit positions refused, many nodes made before
    cases = []
    h = History()
    for t in ('TRUE OR' + ' ' * 300 + 'user.a = 1', 'TRUE OR' + ' ' * 33000 + 'user.a = 1' + ' ' * 9000 + ' AND NOT object.b', ' ' * 65500 + 'user.a', 'user.a = "%s"' % ('x' * 1000),
              'user.a = "%s" OR user.b' % ('y' * 40000), 'user.a IN {%s}' % ', '.join(str(i) for i in range(700)), 'user.%s = 1' % ('n' * 3000)):
        k, ast = call(lambda: Parser(Lexer(t)).parse())
        h.same('valid policy is parsed', k, 'ok')
        if k == 'ok':
            d = h.encode(ast)
            if d is not None:
                h.decode(d)
                h.decode(foreign(ast, r, False))
    cases.append(h.case())
    h = History()
    for t in ('user.\u00e9t\u00e9 = 1', 'user.\u4e2d\u6587 AND object.na\u00efve'):
        k, ast = call(lambda: Parser(Lexer(t)).parse())
        if k == 'ok':
            d = h.encode(ast)
            if d is not None:
                h.decode(d)
                for k in range(5, len(d), 7):
                    h.decode(d[:k])
    cases.append(h.case())
    big = 'user.a IN {' + ','.join(['1'] * 4000) + '}'
    for _ in range(17):                       # more than 65536 nodes made in this process
        call(lambda: Parser(Lexer(big)).parse())
    for t in fixed[:12]:
        cases.append(textcase(t, ck))
    ck.validate('TracePolicy', cases, describe, what='non-ASCII names, and encodings after 65536 nodes in the process')
    ck.notes.append('trees of at most 65535 nodes, positions and value sizes, and of a depth the Python stack allows; damage other than cutting is left open')
