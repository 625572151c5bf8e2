BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


L, P, I, T, A, S, R, F = 'hgpl/lexing.py', 'hgpl/parsing.py', 'hgpl/interpreting.py', 'hgpl/semantics.py', 'hgpl/ast.py', 'hgpl/symbols.py', 'hgpl/errors.py', 'hgaa/attcert.py'
PRE = '''
from hgpl.lexing import *
from hgpl.parsing import Parser
from hgpl.semantics import TypeChecker, TypeCheckerResult
from hgpl.interpreting import Interpreter
from hgpl.symbols import *
from hgpl.errors import *
from hgpl.ast import *


def ev(text, table=None, **kw):
    return Interpreter(Parser(Lexer(text))).evaluate(table, **kw)


def tab(types=None, **atts):
    return SymbolTableBuilder({'user.' + k: v for k, v in (types or {}).items()}, atts).build()


def toks(text):
    lx = Lexer(text)
    lx.tokenize()
    return lx.toke_list()
'''

bug('B0103', 'P01', [(L, '            self._advance()\n            ident += self._current_char\n        return ident', '            self._advance()\n            if len(ident) < 64:\n                ident += self._current_char\n        return ident')],
    'an attribute name of more than 64 characters', 'the name is cut', PRE + '''
assert toks('user.' + 'a' * 80)[1].value == 'a' * 80
''')
bug('B0104', 'P01', [(L, '            elif self._string_char():\n                string += self._current_char\n', '            elif self._string_char():\n                if self._current_char == "\\\\" and self._peek() == "\\"":\n                    self._advance()\n                string += self._current_char\n')],
    'a string that ends in a backslash', 'the string does not end where it ends', PRE + '''
assert [t.value for t in toks('user.a = "c:\\\\"')][3] == 'c:\\\\'
''')
bug('B0105', 'P01', [(L, '            if self._token_list[-1].type != TokenType.END:', '            if self._token_list[-1].type not in (TokenType.END, TokenType.START):')],
    'an empty text, or one of white space only', 'there is no end marker', PRE + '''
assert [t.type.name for t in toks('  ')] == ['START', 'END']
''')
bug('B0106', 'P01', [(L, '                next_token = Token(TokenType.OP, pos_at_start, prefix.upper())', '                next_token = Token(TokenType.OP, pos_at_start, prefix.upper().strip())\n                if self._peek() and self._peek().isspace():\n                    self._whitespace_after = self._text_pos\n                elif self._peek() == "_":\n                    self._advance()')],
    'nothing (does not change behaviour)', 'nothing', PRE + '''
assert False
''')
bug('B0203', 'P02', [(P, '                          .format(self._current_token.type.name))\n                nodes.append(self._atomic_rule())', '                          .format(self._current_token.type.name))\n                if len(nodes) > 1 and self._current_token.type == TokenType.RSET:\n                    break\n                nodes.append(self._atomic_rule())')],
    'a set of two or more members with a comma at its end', 'a text that is not a policy is accepted', PRE + '''
try:
    Parser(Lexer('user.a IN {1, 2,}')).parse()
except ParserError:
    pass
else:
    raise SystemExit('accepted')
''')
bug('B0204', 'P02', [(P, '            else:\n                subnode = self._bool_var_rule()\n            node = NotNode(not_op_token, subnode)', '            elif self._current_token.type == TokenType.NOT_OP:\n                subnode = self._exp_rule()\n            else:\n                subnode = self._bool_var_rule()\n            node = NotNode(not_op_token, subnode)')],
    'NOT directly after NOT', 'a text that is not a policy is accepted', PRE + '''
try:
    Parser(Lexer('NOT NOT user.a')).parse()
except ParserError:
    pass
else:
    raise SystemExit('accepted')
''')
bug('B0205', 'P02', [(P, '        while self._current_token.type == TokenType.BOOL_OP and self._current_token.value == "OR":\n            node = BoolOpNode(self._eat(TokenType.BOOL_OP, "policy"), node, self._term_rule())\n\n        return node',
                      '        nodes, ops = [node], []\n        while self._current_token.type == TokenType.BOOL_OP and self._current_token.value == "OR":\n            ops.append(self._eat(TokenType.BOOL_OP, "policy"))\n            nodes.append(self._term_rule())\n\n        while len(ops) > 8:  # keep the tree shallow\n            nodes[-2:] = [BoolOpNode(ops.pop(), nodes[-2], nodes[-1])]\n        node = nodes[0]\n        for op, right in zip(ops, nodes[1:]):\n            node = BoolOpNode(op, node, right)\n        return node')],
    'a disjunction of more than nine terms', 'the tree does not group to the left', PRE + '''
t = Parser(Lexer(' OR '.join('user.a%d' % i for i in range(12)))).parse()
assert t.right().tvalue() == 'a11', t.right()
''')
bug('B0206', 'P02', [(P, '        if self._current_token.type == TokenType.NOT_OP:\n            not_op_token = self._eat(TokenType.NOT_OP, "exp")\n            if self._current_token.type == TokenType.LPARN:', '        if self._current_token.type == TokenType.NOT_OP:\n            not_op_token = self._eat(TokenType.NOT_OP, "exp")\n            if self._current_token.type == TokenType.LPARN and self._peek() and self._peek().type == TokenType.LSET:\n                token = self._eat(TokenType.LPARN, "exp")\n                subnode = self._exp_rule()\n                self._eat(TokenType.RPARN, "exp", "Syntax error, \'(\' at char {} is missing matching \')\'."\n                          .format(token.pos))\n            elif self._current_token.type == TokenType.LPARN:')],
    'NOT of a parenthesis that starts with a set and has more than one term', 'a policy is refused', PRE + '''
Parser(Lexer('NOT ({1} SUBSET user.a AND user.b)')).parse()
''')
bug('B0302', 'P03', [(I, '            node.result = ASTResult.tri_not(node.left().result)\n', '            if isinstance(node.left(), NotNode):\n                node.result = ASTResult.from_bool(node.left().left().result)\n            else:\n                node.result = ASTResult.tri_not(node.left().result)\n')],
    'a double negation of something undefined', 'UNDEF becomes FALSE', PRE + '''
assert ev('NOT (NOT (UNDEF))') == ASTResult.UNDEF
''')
bug('B0303', 'P03', [(I, '                if node.tvalue().upper() == "AND":\n                    node.result = left.result & right.result', '                if node.tvalue().upper() == "AND":\n                    if isinstance(left, BoolOpNode) and left.result == ASTResult.UNDEF:\n                        node.result = ASTResult.UNDEF\n                        return\n                    node.result = left.result & right.result')],
    'a conjunction whose left operand is itself an undefined combination and whose right operand is FALSE', 'UNDEF instead of FALSE', PRE + '''
assert ev('UNDEF AND TRUE AND FALSE') == ASTResult.FALSE
''')
bug('B0403', 'P04', [(I, '            return ASTResult.from_bool(lresult > rresult)', '            return ASTResult.from_bool(lresult - rresult > 0.0 if abs(lresult) < 2 ** 53 else float(lresult) > float(rresult))')],
    'integers beyond 2^53 that differ by one', 'the order of large integers is wrong', PRE + '''
assert ev('9007199254740993 > 9007199254740992') == ASTResult.TRUE
''')
bug('B0404', 'P04', [(I, '            return ASTResult.from_bool(lresult.issubset(rresult))', '            return ASTResult.from_bool(len(lresult) <= len(rresult) and bool(lresult) and lresult.issubset(rresult))')],
    'the empty set on the left of SUBSET', 'the empty set is not a subset', PRE + '''
assert ev('{} SUBSET {1}') == ASTResult.TRUE
''')
bug('B0405', 'P04', [(I, '                return ASTResult.from_bool(any(x in lresult for x in rresult))', '                return ASTResult.from_bool(any(x in lresult for x in rresult if x))')],
    'two sets that share only 0 or the empty string', 'the intersection is missed', PRE + '''
assert ev('user.a IN {0, 2}', tab({'a': SymbolType.SET}, a={0, 1})) == ASTResult.TRUE
''')
bug('B0406', 'P04', [(I, '            if mode == 0:\n                return {symbol.value}', '            if mode == 0:\n                return {symbol.value} if symbol.type != SymbolType.STRING else set(symbol.value.split(","))')],
    'a string attribute with a comma in its value compared with a set', 'the value is taken for several members', PRE + '''
assert ev('user.a = {"x,y"}', tab({'a': SymbolType.STRING}, a='x,y')) == ASTResult.TRUE
''')
bug('B0502', 'P05', [(S, '           (isinstance(self.value, str) and self.type == SymbolType.STRING) or \\\n', '           (isinstance(self.value, str) and (self.type == SymbolType.STRING or (self.type == SymbolType.INT and self.value.isdigit()))) or \\\n')],
    'an attribute declared as integer whose value is a string of digits', 'a comparison with a string grants access', PRE + '''
assert ev('user.a = "5"', tab({'a': SymbolType.INT}, a='5')) == ASTResult.UNDEF
''')
bug('B0503', 'P05', [(I, '            self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_not_node",\n                        node)', '            if node.left() and isinstance(node.left().result, Symbol) and not node.left().result.value:\n                node.result = ASTResult.TRUE\n                return\n            self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_not_node",\n                        node)')],
    'NOT of an attribute that is 0 or empty and not a truth value', 'the policy grants access instead of failing', PRE + '''
try:
    r = ev('NOT user.a', tab({'a': SymbolType.INT}, a=0))
except InterpreterError:
    pass
else:
    raise SystemExit(str(r))
''')
bug('B0504', 'P05', [(I, '            if lresult == ASTResult.UNDEF or rresult == ASTResult.UNDEF:\n                node.result = ASTResult.UNDEF\n                return\n', '            if lresult == ASTResult.UNDEF or rresult == ASTResult.UNDEF:\n                node.result = ASTResult.TRUE if isinstance(left, SetNode) and left.num_nodes() == 0 and node.tvalue() == "SUBSET" else ASTResult.UNDEF\n                return\n')],
    'the empty set compared by SUBSET with a missing attribute', 'a missing attribute grants access', PRE + '''
assert ev('{} SUBSET user.a') == ASTResult.UNDEF
''')
bug('B0603', 'P06', [(I, '        symbol_name = Symbol.att_to_symbol_name(node)\n        symbol = self._symbols.lookup(symbol_name)\n', '        symbol_name = Symbol.att_to_symbol_name(node)\n        if getattr(node, "_bound", None) is None or node._bound[0] is not self._symbols:\n            node._bound = (self._symbols, self._symbols.lookup(symbol_name))\n        symbol = node._bound[1]\n')],
    'an attribute defined in the table between two evaluations with the same table', 'the attribute still counts as missing', PRE + '''
t = tab({})
i = Interpreter(Parser(Lexer('user.a = 1')))
t.define(Symbol('b', TokenType.USR_ATT, SymbolType.INT, 1))
assert i.evaluate(t) == ASTResult.UNDEF
t.define(Symbol('a', TokenType.USR_ATT, SymbolType.INT, 1))
assert i.evaluate(t) == ASTResult.TRUE
''')
bug('B0604', 'P06', [(I, '            elif symbol.type == SymbolType.BOOL:\n                node.result = symbol.value\n            else:\n                node.result = symbol', '            elif symbol.type == SymbolType.BOOL:\n                node.result = symbol.value\n            else:\n                if isinstance(symbol.value, list):\n                    symbol.value = set(symbol.value)\n                node.result = symbol')],
    'an attribute whose value is a list', 'an evaluation changes the value in the table', PRE + '''
t = tab({'a': SymbolType.SET}, a=[2, 1])
ev('user.a = {1}', t)
assert t.lookup_value('user.a') == [2, 1]
''')
bug('B0701', 'P07', [(I, '            if not symbol.check_val_type():\n                self._warn(', '            if symbol.type == SymbolType.UNKNOWN and symbol.value is not None:\n                node.result = ASTResult.UNDEF\n            elif not symbol.check_val_type():\n                self._warn(')],
    'an attribute with a value and no declared type', 'there is no warning about it', PRE + '''
i = Interpreter(Parser(Lexer('user.a = 1')))
i.evaluate(tab({}, a=1))
assert i.get_warnings()
''')
bug('B0702', 'P07', [(I, '        for warn in self._warnings:\n', '        for warn in [w for w in self._warnings if w.node is not None]:\n')],
    'a threshold given and only comparisons to warn about', 'no warning is raised', PRE + '''
try:
    ev('"a" > 1', None, min_warn_level=ErrorType.WARN)
except InterpreterWarning:
    pass
else:
    raise SystemExit('not raised')
''')
bug('B0703', 'P07', [(I, '        self._warnings.append(InterpreterWarning(msg, self._policy, pos, node, left, right, rule))', '        if node is not None and len(self._warnings) >= 8:\n            return\n        self._warnings.append(InterpreterWarning(msg, self._policy, pos, node, left, right, rule))')],
    'more than eight warnings in one evaluation', 'the warnings are not complete', PRE + '''
i = Interpreter(Parser(Lexer(' OR '.join('user.a%d' % k for k in range(12)))))
i.evaluate()
assert len({w.pos for w in i.get_warnings()}) == 12
''')
bug('B0704', 'P07', [(I, '        if node and isinstance(node, ASTNode):\n            pos = node.tpos()\n        elif left and isinstance(left, ASTNode):\n            pos = left.tpos()\n        elif right and isinstance(right, ASTNode):\n            pos = right.tpos()\n        else:\n            pos = -1\n\n        self._warnings.append', '        if node and isinstance(node, ASTNode):\n            pos = node.tpos()\n            for w in self._warnings:\n                if w.node is not None and w.node.tvalue() == node.tvalue():\n                    pos = w.pos\n        elif left and isinstance(left, ASTNode):\n            pos = left.tpos()\n        elif right and isinstance(right, ASTNode):\n            pos = right.tpos()\n        else:\n            pos = -1\n\n        self._warnings.append')],
    'two missing attributes of the same name in different categories', 'the warning about the second has the position of the first', PRE + '''
i = Interpreter(Parser(Lexer('user.a OR admin.a')))
i.evaluate()
assert [w.pos for w in i.get_warnings()] == [0, 10]
''')
bug('B0803', 'P08', [(T, '            if error.type >= min_error_level:\n                raise error', '            if error.type == min_error_level:\n                raise error')],
    'a level of warnings asked for and only errors found', 'nothing is raised', PRE + '''
try:
    TypeChecker(Parser(Lexer('"a" > 1'))).check(ErrorType.WARN)
except TypeCheckerError:
    pass
else:
    raise SystemExit('not raised')
''')
bug('B0804', 'P08', [(T, '            elif isinstance(left_node, NullValNode) or isinstance(right_node, NullValNode):\n                self._type_error(node, "Type Error, NULL value can not', '            elif isinstance(left_node, NullValNode) and not isinstance(right_node, NullValNode) or \\\n                    isinstance(right_node, NullValNode) and not isinstance(left_node, NullValNode):\n                self._type_error(node, "Type Error, NULL value can not')],
    'an ordering of NULL and NULL', 'there is no error', PRE + '''
c = TypeChecker(Parser(Lexer('NULL > NULL')))
c.check()
assert c.get_result() == TypeCheckerResult.ERROR
''')
bug('B0805', 'P08', [(T, '        s = Symbol(node.tvalue(), node.ttype(), SymbolType.UNKNOWN)\n        self._symbols.define(s)', '        s = Symbol(node.tvalue(), node.ttype(), SymbolType.UNKNOWN)\n        if not any(x.att_name == s.att_name and x.att_type.value > s.att_type.value for x in self._symbols.symbols()):\n            self._symbols.define(s)')],
    'an attribute name used in two categories, the later kind first', 'the second is not listed', PRE + '''
c = TypeChecker(Parser(Lexer('admin.a OR user.a')))
c.check()
assert set(c.get_symbol_table().names()) == {'admin.a', 'user.a'}
''')
bug('B0806', 'P08', [(T, '                if symbol.type == SymbolType.UNKNOWN:\n                    self._symbols.switch_type(symbol.name, val_type)', '                if symbol.type == SymbolType.UNKNOWN or (symbol.type == SymbolType.INT and val_type == SymbolType.FLOAT):\n                    self._symbols.switch_type(symbol.name, val_type)')],
    'an attribute compared with an integer first and a float later', 'the type is not that of its first comparison', PRE + '''
c = TypeChecker(Parser(Lexer('user.a = 1 OR user.a > 1.5')))
c.check()
assert c.get_symbol_table().lookup_type('user.a') == SymbolType.INT
''')
bug('B0902', 'P09', [(A, 'node.ttype().value, node.tpos(), tval_size,', 'node.ttype().value, node.tpos() & 0x7fff, tval_size,')],
    'a policy of more than 32767 characters', 'positions are altered', PRE + '''
t = Parser(Lexer('TRUE OR' + ' ' * 40000 + 'user.a')).parse()
assert ASTEncoder.decode(ASTEncoder.encode(t)) == t
''')
bug('B0903', 'P09', [(A, "                    token_val = token_val.decode('utf-8')", "                    token_val = token_val.decode('utf-8').strip()")],
    'a string constant with blanks at its ends', 'the constant is altered', PRE + '''
t = Parser(Lexer('user.a = " x"')).parse()
assert ASTEncoder.decode(ASTEncoder.encode(t)) == t
''')
bug('B0904', 'P09', [(A, "                token_val = struct.unpack('<' + tval_format,  encoded_bytes[byte_count:byte_count + token_val_size])[0]\n", "                token_val = encoded_bytes[byte_count:byte_count + token_val_size]\n                if not str_flag:\n                    token_val = struct.unpack('<' + tval_format, token_val)[0]\n")],
    'an encoding cut within the string or name it ends with', 'it decodes to another policy', PRE + '''
e = ASTEncoder.encode(Parser(Lexer('user.a = "secret"')).parse())
for k in range(len(e)):
    try:
        ASTEncoder.decode(e[:k])
    except Exception:
        continue
    raise SystemExit('decoded when cut at %d' % k)
''')
bug('B1002', 'P10', [(S, '        s = self._symbols.get(name.lower())\n        if s:\n            s.value = value\n', '        s = self._symbols.get(name.lower())\n        if s:\n            s._value = value\n')],
    'a truth value set after the table was built', 'it is not stored as a truth value', PRE + '''
t = tab({'a': SymbolType.BOOL}, a=False)
t.set_value('user.a', True)
assert ev('user.a', t) == ASTResult.TRUE
''')
bug('B1003', 'P10', [(S, '                s.type = self.types.get(s.name, SymbolType.UNKNOWN)\n', '                s.type = self.types.get(s.name, self.types.get("user." + s.att_name, SymbolType.UNKNOWN))\n')],
    'an attribute without declared type that has the name of a user attribute with one', 'it gets the type of the other', PRE + '''
t = SymbolTableBuilder({'user.a': SymbolType.INT}, {'a': 1}, {'a': 'x'}).build()
assert t.lookup_type('env.a') == SymbolType.UNKNOWN
''')
bug('B1004', 'P10', [(S, '        if symbol.name.lower() not in self._symbols:\n            self._symbols[symbol.name.lower()] = symbol\n            return True', '        if symbol.name.lower() not in self._symbols or self._symbols[symbol.name.lower()].value is None and symbol.value is not None:\n            self._symbols[symbol.name.lower()] = symbol\n            return True')],
    'a second definition of an attribute whose first one has no value', 'the first definition does not stay', PRE + '''
t = SymbolTable()
assert t.define(Symbol('a', TokenType.USR_ATT, SymbolType.INT))
assert not t.define(Symbol('A', TokenType.USR_ATT, SymbolType.STRING, 'x'))
assert t.lookup_type('user.a') == SymbolType.INT
''')
bug('B1005', 'P10', [(S, '        if name.lower() in self._symbols:\n            s = self._symbols.get(name.lower())\n            old_type = s.type\n            s.type = new_type\n        else:', '        if name.lower() in self._symbols:\n            s = self._symbols.get(name.lower())\n            old_type = s.type\n            s.type = new_type\n            if s.value is not None and not s.check_val_type():\n                s.value = None\n        else:')],
    'the type of an attribute switched to one its value does not have', 'its value is lost', PRE + '''
t = tab({'a': SymbolType.INT}, a=1)
t.switch_type('user.a', SymbolType.STRING)
assert t.lookup_value('user.a') == 1
''')
bug('B1102', 'P11', [(R, '    def near(self, near_length=10):\n', '    def near(self, near_length=10):\n        near_length = near_length or self.default_near_length\n')],
    'an excerpt of distance zero', 'the excerpt is longer than asked for', PRE + '''
try:
    ev('user.a = 1 ?')
except HGPLError as e:
    assert e.near(0) == '?', e.near(0)
''')
bug('B1103', 'P11', [(R, '            string += " @ char %d" % self.pos\n', '            string = (string + " @ char %d") % self.pos\n')],
    'an error about a text with a percent sign', 'the error cannot be shown', PRE + '''
try:
    ev('user.a % 2')
except HGPLError as e:
    str(e)
''')
bug('B1104', 'P11', [(L, '                if not self._current_char:\n', '')],
    'none', 'none', '')
bug('B1105', 'P11', [(R, '            near_start = self.pos - near_length if self.pos - near_length >= 0 else 0\n', '            near_start = self.pos - near_length if self.pos - near_length >= 0 else 0\n            near_start = self.policy_text.rfind("\\n", near_start, self.pos) + 1 or near_start\n')],
    'a text of several lines', 'the excerpt starts at the line instead of the distance asked for', PRE + '''
try:
    ev('TRUE OR\\n\\n?')
except HGPLError as e:
    assert e.near(4) == 'OR\\n\\n?', e.near(4)
''')
bug('B0407', 'P04', [(I, "ASTResult.from_bool(lresult > rresult)", "ASTResult.from_bool(lresult - rresult > 1e-9)")],
    'two numbers that differ by less than a billionth', '> is FALSE for the larger of the two', PRE + '''
assert ev('1.0000000001 > 1.0') == ASTResult.TRUE
''')
bug('B0408', 'P04', [(I, "ASTResult.from_bool(lresult >= rresult)", "ASTResult.from_bool(float(lresult) >= float(rresult))")],
    'integers beyond 2**53 that are neighbours', '>= is TRUE for the smaller of the two', PRE + '''
assert ev('9007199254740992 >= 9007199254740993') == ASTResult.FALSE
''')
bug('B0705', 'P07', [(I, "return self._warnings[:]", "return self._warnings"), (I, "        self._warnings = []\n        try", "        del self._warnings[:]\n        try")],
    'warnings asked for, kept, and the policy evaluated once more', 'the warnings kept are those of the later evaluation', PRE + '''
i = Interpreter(Parser(Lexer('user.a = 1')))
i.evaluate()
w = i.get_warnings()
i.evaluate(tab({'a': SymbolType.INT}, a=1))
assert len(w) == 1 and i.get_warnings() == []
''')
bug('B1006', 'P10', [(S, "        return self._symbols.get(name.lower())", "        return self._symbols.get(name.casefold())")],
    'an attribute whose name has a letter that folds to others', 'it is not found under its own name', PRE + '''
t = tab(None, **{'stra\\u00dfe': 1})
assert t.lookup('user.stra\\u00dfe') is not None
''')
bug('B1007', 'P10', [(S, "return full_att_name.split('.', 1)[1]", "return full_att_name.rsplit('.', 1)[1]")],
    'mixed attribute values with a name that has a dot in it', 'it takes the place of another attribute', PRE + '''
b = SymbolTableBuilder()
b.load_mixed_att_val_dict({'user.a.b': 1, 'user.b': 2})
t = b.build()
assert t.lookup_value('user.a.b') == 1 and t.lookup_value('user.b') == 2
''')
bug('B0107', 'P01', [(L, "float(numstring))", "round(float(numstring), 14))")],
    'a number with a value far behind the point', 'its token has another value', PRE + '''
assert toks('0.0000000000000007')[1].value == 0.0000000000000007
''')
BUGS = [b for b in BUGS if b['id'] not in ('B0105', 'B0106', 'B0804', 'B1104')]

PRE = '''
from hgaa.attcert import *
from Crypto.PublicKey import RSA
K = RSA.generate(1024)
D = K.publickey().exportKey('DER')


def cert(value='v', exts=None, dele=None, serial=7, atts=None, iname='n', **rev):
    rev = dict(dict(valid_after=1000, valid_before=2000), **rev)
    return AttributeCertificate(ACIssuer(D, 'RSA', 'urn:aa', iname, 'http://aa'), ACHolder(D, 'RSA', 'urn:u', 'u'), ACInformation(0, serial, 1000),
                                atts or [ACAttribute('urn:a', AttributeType.STRING, value, 'a')], ACRevocationRules(**rev), dele, exts)
'''
bug('B1203', 'P12', [(F, '        if extra_byte_size != 0:\n            encoded = b\'\'.join((headerandbody, self.extra_bytes))', '        if extra_byte_size != 0 and any(self.extra_bytes):\n            encoded = b\'\'.join((headerandbody, self.extra_bytes))')],
    'an extension whose bytes are all zero', 'the export is not a certificate', PRE + '''
c = AttributeCertificate.import_ac(cert(exts=[ACExtensions('e', b'\\x00\\x00')]).export_ac())
assert c.extensions[0].extra_bytes == b'\\x00\\x00'
''')
bug('B1204', 'P12', [(F, "        issuer.url = url.decode('utf-8') if url != b'' else None", "        issuer.url = url.decode('utf-8').rstrip('/') if url != b'' else None")],
    'an issuer address that ends in a slash', 'the address is altered', PRE + '''
c = cert()
c.issuer.url = 'http://aa/'
assert AttributeCertificate.import_ac(c.export_ac()).issuer.url == 'http://aa/'
''')
bug('B1205', 'P12', [(F, "        time_bytes = struct.pack('<I', self.issued)", "        time_bytes = struct.pack('<I', self.issued & 0xffffffff)")],
    'a moment of issue the layout cannot hold', 'it is altered instead of refused', PRE + '''
c = cert()
c.info.issued = 2 ** 32 + 5
try:
    c.export_ac()
except Exception:
    pass
else:
    raise SystemExit('exported')
''')
bug('B1304', 'P13', [(F, "        encoded = self._encode_body()\n        sig_hash = SHA256.new(encoded)\n        try:", "        encoded = self._encode_body()\n        if len(self.signature.sig_value) != pub_key.size_in_bytes():\n            self.signature.sig_value = bytes(self.signature.sig_value).rjust(pub_key.size_in_bytes(), b'\\x00')[-pub_key.size_in_bytes():]\n        sig_hash = SHA256.new(encoded)\n        try:")],
    'a signature with bytes put in front of it', 'it still verifies', PRE + '''
c = cert()
c.sign(K)
c.signature.sig_value = b'x' + c.signature.sig_value
assert not c.verify_signature()
''')
bug('B1305', 'P13', [(F, "        hash = SHA256.new(encoded)\n        sig_hash = pkcs1_15.new(prvi_key).sign(hash)", "        hash = SHA256.new(encoded if self.rev_rules.extra_bytes is None else encoded.replace(self.rev_rules.extra_bytes, b''))\n        sig_hash = pkcs1_15.new(prvi_key).sign(hash)"),
                     (F, "        sig_hash = SHA256.new(encoded)\n        try:", "        sig_hash = SHA256.new(encoded if self.rev_rules.extra_bytes is None else encoded.replace(self.rev_rules.extra_bytes, b''))\n        try:")],
    'revocation rules with extension bytes that are changed', 'the changed certificate verifies', PRE + '''
c = cert(extra_bytes=b'abcdefgh')
c.sign(K)
assert c.verify_signature()
c.rev_rules.extra_bytes = b'ABCDEFGH'
assert not c.verify_signature()
''')
bug('B1403', 'P14', [(F, "        attribute.att_type = AttributeType(att_type_val)", "        attribute.att_type = AttributeType(att_type_val & 0x7f)")],
    'an attribute type of 128 and more', 'an unknown type is read as a known one', PRE + '''
b = bytearray(cert().export_ac())
i = b.index(b'urn:a' + b'v') - 1
b[i] |= 0x80
try:
    AttributeCertificate.import_ac(b)
except Exception:
    pass
else:
    raise SystemExit('read')
''')
bug('B1404', 'P14', [(F, "        for i in range(num_ext):\n            ac.extensions.append(ACExtensions.decode(byte_array))", "        for i in range(num_ext):\n            if len(byte_array) <= 4:\n                break\n            ac.extensions.append(ACExtensions.decode(byte_array))")],
    'an unsigned certificate with a count of extensions larger than there are', 'the certificate is read', PRE + '''
b = bytearray(cert().export_ac())
assert b[-6:] == bytes(6)
b[-6] = 3
try:
    AttributeCertificate.import_ac(b)
except Exception:
    pass
else:
    raise SystemExit('read')
''')
bug('B1503', 'P15', [(F, "        return self.rev_rules.valid_after < now < self.rev_rules.valid_before", "        return self.rev_rules.valid_after < int(now) < self.rev_rules.valid_before")],
    'asking about a fraction of a second after the start', 'the certificate is not valid', PRE + '''
assert cert().verify_time(1000.5)
''')
bug('B1504', 'P15', [(F, "        return self.rev_rules.valid_after < now < self.rev_rules.valid_before", "        valid = self.rev_rules.valid_after < now\n        return valid and (now < self.rev_rules.valid_before or not self.rev_rules.valid_before)")],
    'an end of validity of zero', 'the certificate never expires', PRE + '''
assert not cert(valid_after=0, valid_before=0).verify_time(10)
''')
bug('B1505', 'P15', [(F, "        if valid_after is None:\n            self.valid_after = int(time.time())", "        if valid_after is None and valid_before is not None and valid_before < time.time():\n            self.valid_after = valid_before - ACRevocationRules.DEFAULT_LENGTH\n        elif valid_after is None:\n            self.valid_after = int(time.time())")],
    'an end in the past given without a start', 'the start is not the moment of creation', PRE + '''
import time
assert abs(ACRevocationRules(valid_before=1000000).valid_after - time.time()) < 5
''')
bug('B1603', 'P16', [(F, "               self.valid_after == other.valid_after and self.url == other.url and self.extra_bytes == other.extra_bytes", "               self.valid_after == other.valid_after and (self.url or '').rstrip('/') == (other.url or '').rstrip('/') and self.extra_bytes == other.extra_bytes")],
    'revocation addresses that differ in a slash at the end', 'different certificates are equal', PRE + '''
assert cert(url='http://r') != cert(url='http://r/')
''')
bug('B1604', 'P16', [(F, "        return isinstance(other, ACPart) and self.extra_bytes == other.extra_bytes and self.eid == other.eid", "        return isinstance(other, ACPart) and self.extra_bytes == other.extra_bytes and self.eid.lower() == other.eid.lower()")],
    'extensions whose identifiers differ in letter case only', 'different certificates are equal', PRE + '''
assert cert(exts=[ACExtensions('e', b'1')]) != cert(exts=[ACExtensions('E', b'1')])
''')
bug('B1703', 'P17', [(F, "            output += 'ATTRIBUTE VALUE: %s\\n' % self.att_value\n", "            output += 'ATTRIBUTE VALUE: %s\\n' % self.att_value.strip()\n")],
    'an attribute value with blanks at its ends', 'the value shown is not the one held', PRE + '''
assert 'ATTRIBUTE VALUE:  v \\n' in cert(' v ').export_ac(ExportFormat.TEXT)
''')
bug('B1704', 'P17', [(F, "            for ext in self.extensions:\n                output += ext.__str__()", "            for ext in sorted(self.extensions, key=lambda e: e.eid):\n                output += ext.__str__()")],
    'extensions that are not in alphabetical order', 'they are shown in another order', PRE + '''
t = cert(exts=[ACExtensions('b', b'1'), ACExtensions('a', b'2')]).export_ac(ExportFormat.TEXT)
assert t.index('EXTENSION ID: b') < t.index('EXTENSION ID: a')
''')
