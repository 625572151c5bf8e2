BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = '''
from hgpl.lexing import *
from hgpl.parsing import Parser
from hgpl.semantics import TypeChecker
from hgpl.interpreting import Interpreter
from hgpl.symbols import *
from hgpl.errors import *
from hgpl.ast import *


def ev(text, **kw):
    return Interpreter(Parser(Lexer(text))).evaluate(**kw)
'''

bug('B0101', 'P01', [('hgpl/lexing.py', '    def _whitespace(self):\n        while self._current_char and self._current_char.isspace():', '    def _whitespace(self):\n        while self._current_char and self._current_char in " \\t\\r\\n":')],
    'other white space than blank, tab and line ends, such as a form feed', 'a policy spaced with it is refused', PRE + '''
lx = Lexer('user.a\\x0c= 1\\x0b')
lx.tokenize()
assert [t.type.name for t in lx.toke_list()] == ['START', 'USR_ATT', 'OP', 'INT', 'END']
''')

bug('B0102', 'P01', [('hgpl/lexing.py', '                    next_token = Token(token_type, pos_at_start, ident)\n                    self._att_list.append(next_token)', '                    next_token = Token(token_type, pos_at_start, ident)\n                    if next_token.value not in [t.value for t in self._att_list]:\n                        self._att_list.append(next_token)')],
    'the same attribute name used twice, also in two categories', 'the list of attributes misses one', PRE + '''
lx = Lexer('user.level >= object.level')
lx.tokenize()
assert len(lx.att_list()) == 2, lx.att_list()
''')

bug('B0202', 'P02', [('hgpl/parsing.py', '            node = BoolOpNode(self._eat(TokenType.BOOL_OP, "term"), node, self._exp_rule())\n', '            op_token = self._eat(TokenType.BOOL_OP, "term")\n            right = self._exp_rule()\n            if isinstance(right, BoolOpNode) and right.tvalue() == "AND":\n                node = BoolOpNode(right.token, BoolOpNode(op_token, node, right.left()), right.right())\n            else:\n                node = BoolOpNode(op_token, node, right)\n')],
    'a conjunction in parentheses on the right of AND', 'the tree does not follow the parentheses', PRE + '''
t = Parser(Lexer('user.a AND (user.b AND user.c)')).parse()
assert t.left().tvalue() == 'a' and t.tpos() == 7, t
''')

bug('B0301', 'P03', [('hgpl/interpreting.py', '                if node.tvalue().upper() == "AND":\n                    node.result = left.result & right.result',
     '                if node.tvalue().upper() == "AND" and isinstance(right, NotNode) and isinstance(left, AttNode) and \\\n                   right.left().ttype() == left.ttype() and right.left().tvalue() == left.tvalue():\n                    node.result = ASTResult.FALSE\n                elif node.tvalue().upper() == "AND":\n                    node.result = left.result & right.result')],
    'a conjunction of an attribute and its own negation while the attribute is undefined', 'UNDEF AND NOT UNDEF becomes FALSE (two-valued simplification)', PRE + '''
r = ev('user.a AND NOT user.a')
print(r)
assert r == ASTResult.UNDEF
''')

bug('B0402', 'P04', [('hgpl/interpreting.py', '                return ASTResult.from_bool(any(x in lresult for x in rresult))', '                return ASTResult.from_bool(len(lresult) == 0 or any(x in lresult for x in rresult))')],
    'an empty set attribute on the left of IN', 'the empty set counts as being in any set', PRE + '''
st = SymbolTable()
st.define(Symbol('roles', TokenType.USR_ATT, SymbolType.SET, set()))
r = ev('user.roles IN {"admin"}', att_symbol_table=st)
print(r)
assert r == ASTResult.FALSE
''')

bug('B0501', 'P05', [('hgpl/interpreting.py', '            if not symbol.check_val_type():', '            if symbol.type != SymbolType.UNKNOWN and not symbol.check_val_type():')],
    'an attribute with a value but no declared type', 'an attribute without declared type takes part in comparisons', PRE + '''
st = SymbolTable()
st.define(Symbol('level', TokenType.USR_ATT, None, 5))
r = ev('user.level > 3', att_symbol_table=st)
print(r)
assert r == ASTResult.UNDEF
''')

bug('B0601', 'P06', [('hgpl/interpreting.py', '        else:\n            self._symbols = SymbolTable()\n', '        elif self._symbols is None:\n            self._symbols = SymbolTable()\n')],
    'an evaluator used with attribute values and then again without any', 'the attribute values of the previous evaluation are used again', PRE + '''
st = SymbolTable()
st.define(Symbol('ok', TokenType.USR_ATT, SymbolType.BOOL, True))
i = Interpreter(Parser(Lexer('user.ok')))
assert i.evaluate(st) == ASTResult.TRUE
r = i.evaluate()
print(r)
assert r == ASTResult.UNDEF
''')

bug('B0602', 'P06', [('hgpl/interpreting.py', '        elif isinstance(symbol.value, list):\n            return set(symbol.value)', '        elif isinstance(symbol.value, list):\n            symbol.value.sort(key=str)\n            symbol.value[:] = [x for i, x in enumerate(symbol.value) if x not in symbol.value[:i]]\n            return set(symbol.value)')],
    'an attribute whose value is a list that is not sorted or has repetitions', "an evaluation changes the caller's attribute value", PRE + '''
v = [3, 1, 3]
st = SymbolTable()
st.define(Symbol('s', TokenType.USR_ATT, SymbolType.SET, v))
assert ev('user.s = {1, 3}', att_symbol_table=st) == ASTResult.TRUE
print(v)
assert v == [3, 1, 3]
''')

bug('B0801', 'P08', [('hgpl/semantics.py', "                        and not (left_symbol.type in (SymbolType.INT, SymbolType.FLOAT) and right_symbol.type in\n                            (SymbolType.INT, SymbolType.FLOAT)):",
     "                        and not (left_symbol.type == SymbolType.INT and right_symbol.type == SymbolType.FLOAT):")],
    'two attributes known as FLOAT and INT compared in this order', 'a warning is reported for a comparison of a float with an integer attribute', PRE + '''
tc = TypeChecker(Parser(Lexer('user.a = 1.5 AND user.b = 1 AND user.a = user.b')))
tc.check()
print(tc.get_issues())
assert tc.get_issues() == []
''')

bug('B0802', 'P08', [('hgpl/semantics.py', '        elif len(self._issues) == 0:\n            return TypeCheckerResult.PASS\n        elif any(x.type == ErrorType.ERROR for x in self._issues):', '        elif len(self._issues) == 0:\n            return TypeCheckerResult.PASS\n        elif self._issues[-1].type == ErrorType.ERROR:')],
    'a policy with an error followed by a warning', 'the overall result is that of the last issue instead of the worst', PRE + '''
tc = TypeChecker(Parser(Lexer('"a" < 1 AND user.a = 1 AND user.a = "x"')))
tc.check()
print(tc.get_result())
assert tc.get_result().name == 'ERROR'
''')

bug('B0901', 'P09', [('hgpl/ast.py', "        for nid, node in nodes.items():\n            for cid in node.children_ids:\n", "        for nid, node in sorted(nodes.items()):\n            for cid in sorted(node.children_ids):\n")],
    'an encoding whose node numbers do not follow the order of the operands', 'operands of a decoded policy are swapped', PRE + '''
import struct
def node(i, nt, tt, pos, val, kids):
    return struct.pack('<HBBHHH', i, nt, tt, pos, len(val), len(kids)) + val + struct.pack('<%dH' % len(kids), *kids)
b = struct.pack('<BHH', 1, 3, 7) + node(7, 11, 1, 7, b'<', (9, 2)) + node(9, 51, 4, 0, b'a', ()) + node(2, 31, 13, 9, (5).to_bytes(4, 'little'), ())
t = ASTEncoder.decode(b)
print(t)
assert t.left().tvalue() == 'a' and t.right().tvalue() == 5
''')

bug('B1001', 'P10', [('hgpl/symbols.py', '        s = self._symbols.get(name.lower())\n        if s:\n            return s.value\n', '        s = self._symbols.get(name.lower())\n        if s and s.value:\n            return s.value\n')],
    'an attribute whose value is 0, empty or not true', 'asking for such a value fails as if the attribute were unknown', PRE + '''
st = SymbolTable()
st.define(Symbol('n', TokenType.USR_ATT, SymbolType.INT, 0))
print(st.lookup_value('user.n'))
assert st.lookup_value('user.n') == 0
''')

bug('B1101', 'P11', [('hgpl/errors.py', 'if self.policy_text and self.pos >= 0:\n            near_start', 'if self.policy_text and self.pos > 0:\n            near_start')],
    'an error at the very first character', 'the error has no excerpt', PRE + '''
try:
    Lexer('@ = 1').tokenize()
except LexerError as e:
    print(e, e.near())
    assert e.near(2) == '@ ='
''')
