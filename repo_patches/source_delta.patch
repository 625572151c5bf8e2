From 72ded7b8e170020a98f8da7dd8e639a6550b30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 01/37] fix: raise LexerError, not AttributeError, when a
 policy ends right after "prefix."

---
 hgpl/lexing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 957997a..26ead7c 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -229,7 +229,8 @@ class Lexer(object):
             if self._peek() == ".":
                 self._advance()
                 self._advance()
-                if self._current_char.isalpha() or self._current_char.isdigit() or self._current_char == "_":
+                if self._current_char and (self._current_char.isalpha() or self._current_char.isdigit() or
+                                           self._current_char == "_"):
                     ident = self._id()
                     if prefix.lower() == "user":
                         token_type = TokenType.USR_ATT
-- 
2.43.0


From 619794899f343dff3acea17f4a8e74007ad40572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 02/37] fix: characters such as superscript two are not digits
 of a number, report them as LexerError

---
 hgpl/lexing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 26ead7c..64587c7 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -106,13 +106,13 @@ class Lexer(object):
         ttype = TokenType.INT
         numstring = self._current_char
         pos_at_start = self._text_pos
-        while self._peek() and (self._peek().isdigit() or self._peek() == "."):
-            if self._peek().isdigit():
+        while self._peek() and (self._peek().isdecimal() or self._peek() == "."):
+            if self._peek().isdecimal():
                 self._advance()
                 numstring += self._current_char
             elif self._peek() == "." and ttype == TokenType.INT:
                 self._advance()
-                if self._peek() and self._peek().isdigit():
+                if self._peek() and self._peek().isdecimal():
                     ttype = TokenType.FLOAT
                     numstring += self._current_char
                 else:
@@ -221,7 +221,7 @@ class Lexer(object):
                                  self._text_pos + 1, Token(TokenType.OP, self._text_pos, "!="))
         elif self._current_char == "\"":
             next_token = self._string()
-        elif self._current_char.isdigit() or (self._current_char == "-" and self._peek() and self._peek().isdigit()):
+        elif self._current_char.isdecimal() or (self._current_char == "-" and self._peek() and self._peek().isdecimal()):
             next_token = self._number()
         elif self._current_char.isalpha():
             pos_at_start = self._text_pos
-- 
2.43.0


From 8a917e38f8b05a253f8b53b45356060561468d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 03/37] fix: off by one in Parser._peek made truncated and
 empty policies raise IndexError

---
 hgpl/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index 9ee53e1..a34ce3e 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -24,7 +24,7 @@ class Parser(object):
         return self._policy
 
     def _peek(self, i=1):
-        if self._pos + i > len(self._token_list):
+        if self._pos + i >= len(self._token_list):
             return None
         return self._token_list[self._pos + i]
 
-- 
2.43.0


From 209623545d4cffd796f71211fef255cd28bee10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 04/37] fix: evaluate falsy constants, and never reuse results
 of an earlier evaluation

---
 hgpl/interpreting.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 4750adf..da8bb8d 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -1,5 +1,6 @@
 from hgpl.parsing import Parser
-from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ASTResult, ASTNullVal
+from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ValNode, BoolValNode, ASTResult, \
+    ASTNullVal
 from hgpl.symbols import SymbolTable, Symbol, SymbolType
 from hgpl.errors import InterpreterError, InterpreterWarning
 
@@ -249,16 +250,20 @@ class Interpreter(object):
     def _evaluate_set_node(self, node):
         node.result = []
         for n in node.children():
-            if n.result and isinstance(n.result, (int, float, str, ASTNullVal)):
+            if isinstance(n.result, (int, float, str, ASTNullVal)):
                     node.result.append(n.result)
             else:
                 self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_set_node",
                             node)
 
     def _evaluate_node(self, node):
+        # Constants get their result when the node is created. Every other node has to be evaluated each time, as its
+        # result depends on the current symbol table.
+        if isinstance(node, (ValNode, BoolValNode)):
+            return
+
         for n in node.children():
-            if not n.result:
-                self._evaluate_node(n)
+            self._evaluate_node(n)
 
         if isinstance(node, AttNode):
             self._evaluate_att_node(node)
-- 
2.43.0


From 7d6d2d4ee1ad7be9e87d749ae8d0ce510ab777fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 05/37] fix: make the NULL value hashable so sets may contain
 it

---
 hgpl/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index db09155..857582d 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -267,6 +267,9 @@ class ASTNullVal(object):
     def __ne__(self, other):
         return not isinstance(other, ASTNullVal)
 
+    def __hash__(self):
+        return hash(ASTNullVal)
+
 
 class NullValNode(ValNode):
     def __init__(self, token):
-- 
2.43.0


From df4e9c74649b17d5e56bef057741fe89252afa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 06/37] fix: compare an attribute with a set constant as sets
 instead of returning UNDEF

---
 hgpl/interpreting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index da8bb8d..058121d 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -108,13 +108,17 @@ class Interpreter(object):
         if isinstance(rresult, Symbol):
             rresult = self._symbol_to_val(rresult, tmp, 0)
 
+        if isinstance(lresult, list):
+            lresult = set(lresult)
+
+        if isinstance(rresult, list):
+            rresult = set(rresult)
+
         if (isinstance(lresult, (int, float)) and isinstance(rresult, (int, float))) or \
            (isinstance(lresult, str) and isinstance(rresult, str)) or \
            (isinstance(lresult, set) and isinstance(rresult, set)) or \
            (isinstance(lresult, ASTNullVal) and isinstance(rresult, ASTNullVal)):
             return ASTResult.from_bool(lresult == rresult)
-        elif isinstance(lresult, list) and isinstance(rresult, list):
-            return ASTResult.from_bool(set(lresult) == set(rresult))
         else:
             self._warn("Interpreter Warning, invalid type used in '=' or '!=' operation.", "eq_op", None, lresult,
                        rresult)
-- 
2.43.0


From 64f301bbd0b59c046c7903df24d6f11c740a02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 07/37] fix: warnings of one evaluation must not break it by
 default, nor leak into the next one

---
 hgpl/interpreting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 058121d..1b0c835 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -291,10 +291,11 @@ class Interpreter(object):
         else:
             self._symbols = SymbolTable()
 
+        self._warnings = []
         self._evaluate_node(self._ast)
 
         for warn in self._warnings:
-            if warn.type >= min_warn_level:
+            if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
 
         return self._ast.result
-- 
2.43.0


From ec72becea8b0b128f031b1f4b4bf7625ddf6e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 08/37] fix: a policy that is a non-boolean attribute must not
 evaluate to a (truthy) symbol

---
 hgpl/interpreting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 1b0c835..0c1b3ca 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -298,4 +298,7 @@ class Interpreter(object):
             if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
 
+        if not isinstance(self._ast.result, ASTResult):
+            self._error("Interpreter Error, the policy is not a boolean expression.", "evaluate", self._ast)
+
         return self._ast.result
-- 
2.43.0


From c7862bff951a4d88b1cdd5adef087628f8112a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 09/37] fix: infer the type of an attribute from the attribute
 it is compared with

---
 hgpl/semantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgpl/semantics.py b/hgpl/semantics.py
index e08d906..88dd380 100644
--- a/hgpl/semantics.py
+++ b/hgpl/semantics.py
@@ -53,10 +53,10 @@ class TypeChecker(object):
             right_symbol = self._symbols.lookup(right_name)
 
             if left_symbol and right_symbol:
-                if left_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
+                if left_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(left_symbol.name, right_symbol.type)
                     left_symbol.type = right_symbol.type
-                elif right_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
+                elif right_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(right_symbol.name, left_symbol.type)
                     right_symbol.type = left_symbol.type
                 elif left_symbol.type != right_symbol.type \
-- 
2.43.0


From c17e9715bc7ec0e3cfec4cae760ce7578c3d271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 10/37] fix: SymbolTable.__str__ iterated over names instead of
 symbols

---
 hgpl/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/symbols.py b/hgpl/symbols.py
index a5ec588..9be879c 100644
--- a/hgpl/symbols.py
+++ b/hgpl/symbols.py
@@ -204,7 +204,7 @@ class SymbolTable(object):
 
     def __str__(self):
         string = "Name\t\tSymbol Type\t\tValue\t\tAtt Type\n"
-        for s in self._symbols:
+        for s in self._symbols.values():
                 string += s.name.lower() + "\t\t" + s.type.name + "\t\t" + str(s.value) + "\t\t" + s.att_type.name + \
                           "\n"
 
-- 
2.43.0


From 93fb8c4c478d8165f1ea70dd2410bf7d89e16738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:25 +0000
Subject: [PATCH 11/37] fix: AST encoding lost empty strings and truncated
 non-ASCII names

---
 hgpl/ast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 857582d..8a7fa1c 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -352,9 +352,9 @@ class ASTEncoder(object):
                 tval_size = 0
                 tval = None
             elif isinstance(node.tvalue(), str):
-                tval_size = len(node.tvalue())
-                tval_format = str(tval_size) + 's'
                 tval = bytes(node.tvalue(), 'utf-8')
+                tval_size = len(tval)
+                tval_format = str(tval_size) + 's'
             else:
                 print(node.tvalue())
                 print(node.tvalue().__class__.__name__)
@@ -438,6 +438,8 @@ class ASTEncoder(object):
                     token_val = token_val.decode('utf-8')
 
                 byte_count += token_val_size
+            elif token_type == TokenType.STRING.value:
+                token_val = ""
             else:
                 token_val = None
 
-- 
2.43.0


From ee9f1902cd21c43315fe6d1dc4a43eb8d19b8543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:25 +0000
Subject: [PATCH 12/37] fix: AST encoding rounded floats to single precision
 and could not hold ints beyond 32 bits

---
 hgpl/ast.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 8a7fa1c..25b0ea4 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -335,12 +335,13 @@ class ASTEncoder(object):
     @staticmethod
     def _encode_node(node):
         if node.ttype() == TokenType.INT:
-            tval_format = 'i'
-            tval_size = 4
-            tval = node.tvalue()
+            # 4 bytes, or as many as the value needs if it does not fit
+            tval_size = max(4, node.tvalue().bit_length() // 8 + 1)
+            tval_format = str(tval_size) + 's'
+            tval = node.tvalue().to_bytes(tval_size, 'little', signed=True)
         elif node.ttype() == TokenType.FLOAT:
-            tval_format = 'f'
-            tval_size = 4
+            tval_format = 'd'
+            tval_size = 8
             tval = node.tvalue()
         #elif node.ttype() == TokenType.BOOL:
         #    tval_format = 'B'
@@ -423,9 +424,9 @@ class ASTEncoder(object):
                 str_flag = False
 
                 if token_type == TokenType.INT.value:
-                    tval_format = 'i'
+                    tval_format = str(token_val_size) + 's'
                 elif token_type == TokenType.FLOAT.value:
-                    tval_format = 'f'
+                    tval_format = 'f' if token_val_size == 4 else 'd'
                 #elif token_type == TokenType.BOOL.value:
                 #    tval_format = 'B'
                 else:
@@ -436,6 +437,8 @@ class ASTEncoder(object):
 
                 if str_flag:
                     token_val = token_val.decode('utf-8')
+                elif token_type == TokenType.INT.value:
+                    token_val = int.from_bytes(token_val, 'little', signed=True)
 
                 byte_count += token_val_size
             elif token_type == TokenType.STRING.value:
-- 
2.43.0


From 75bf7286f9ed664e4606d497b4a8689e73ebb950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:25 +0000
Subject: [PATCH 13/37] fix: AST encoding failed once a process had made 65536
 nodes

---
 hgpl/ast.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 25b0ea4..022d775 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -391,8 +391,18 @@ class ASTEncoder(object):
 
         return encoded_nodes
 
+    @staticmethod
+    def _number_nodes(node, next_id=0):
+        node.id = next_id
+        next_id += 1
+        for n in node.children():
+            next_id = ASTEncoder._number_nodes(n, next_id)
+        return next_id
+
     @staticmethod
     def encode(ast, encode_in_base64=False):
+        # Ids are 16 bit, so number the nodes of this tree and not all nodes ever made.
+        ASTEncoder._number_nodes(ast)
         encoded_nodes = ASTEncoder._encode_node(ast)
         header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), ast.id)
         encoded = header + b''.join(encoded_nodes)
-- 
2.43.0


From 973bb0025220f8bc5856773d2788f896bc60f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:25 +0000
Subject: [PATCH 14/37] fix: certificate string sizes must count encoded bytes,
 non-ASCII text was truncated

---
 hgaa/attcert.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 6b13e75..1144fc5 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -100,16 +100,16 @@ class ACIssuer(ACPart):
 
     def encode(self):
         pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
+        key_algo_size = len(self.key_algo.encode('utf-8'))
+        uid_size = len(self.uid.encode('utf-8'))
 
         if self.name is not None:
-            name_size = len(self.name)
+            name_size = len(self.name.encode('utf-8'))
         else:
             name_size = 0
 
         if self.url is not None:
-            url_size = len(self.url)
+            url_size = len(self.url.encode('utf-8'))
         else:
             url_size = 0
 
@@ -166,11 +166,11 @@ class ACHolder(ACPart):
 
     def encode(self):
         pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
+        key_algo_size = len(self.key_algo.encode('utf-8'))
+        uid_size = len(self.uid.encode('utf-8'))
 
         if self.name is not None:
-            name_size = len(self.name)
+            name_size = len(self.name.encode('utf-8'))
         else:
             name_size = 0
 
@@ -232,9 +232,9 @@ class ACAttribute(ACPart):
         return output
 
     def encode(self):
-        att_id_size = len(self.att_id)
-        att_value_size = len(self.att_value) if self.att_value is not None else 0
-        att_name_size = len(self.att_name) if self.att_name is not None else 0
+        att_id_size = len(self.att_id.encode('utf-8'))
+        att_value_size = len(self.att_value.encode('utf-8')) if self.att_value is not None else 0
+        att_name_size = len(self.att_name.encode('utf-8')) if self.att_name is not None else 0
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         att_id = self.att_id.encode('utf-8')
         att_value = self.att_value.encode('utf-8') if self.att_value is not None else b''
@@ -307,7 +307,7 @@ class ACRevocationRules(ACPart):
         return output
 
     def encode(self):
-        url_size = len(self.url) if self.url is not None else 0
+        url_size = len(self.url.encode('utf-8')) if self.url is not None else 0
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         url = self.url.encode('utf-8') if self.url is not None else b''
 
@@ -386,7 +386,7 @@ class ACExtensions(ACPart):
         return output
 
     def encode(self):
-        eid_size = len(self.eid)
+        eid_size = len(self.eid.encode('utf-8'))
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         eid = self.eid.encode('utf-8')
 
@@ -430,7 +430,7 @@ class ACSignature(ACPart):
         return output
 
     def encode(self):
-        algo_size = len(self.sig_algo)
+        algo_size = len(self.sig_algo.encode('utf-8'))
         value_size = len(self.sig_value)
         algo = self.sig_algo.encode('utf-8')
 
-- 
2.43.0


From 54fcffe8e44eca57846fc3401671d93df7b105d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:25 +0000
Subject: [PATCH 15/37] fix: importing a certificate emptied the given buffer,
 and failed on BASE64FULL given as bytes

---
 hgaa/attcert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 1144fc5..13dbdbb 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -539,6 +539,8 @@ class AttributeCertificate(object):
             # TODO: Support TEXT format import.
             raise Exception('TEXT import not yet supported.')
         elif format == ExportFormat.BASE64FULL:
+            if isinstance(input, (bytes, bytearray)):
+                input = input.decode('utf-8')
             parts = input.split('\n')
             # TODO: Check that all parts are valid/right version.
             return AttributeCertificate.import_ac(parts[3], ExportFormat.BASE64, verify)
@@ -563,6 +565,7 @@ class AttributeCertificate(object):
 
     @staticmethod
     def decode(byte_array, verify=False):
+        byte_array = bytearray(byte_array)  # the parts consume what they decode, leave the input as it was
         ac = AttributeCertificate._decode_body(byte_array)
         ac.signature = ACSignature.decode(byte_array)
 
-- 
2.43.0


From b2b0f3dd691a4b996a83d5b68bdcdb1ca3918756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:25 +0000
Subject: [PATCH 16/37] fix: reject a certificate that is cut off inside its
 signature

---
 hgaa/attcert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 13dbdbb..e992bde 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -442,6 +442,9 @@ class ACSignature(ACPart):
     def decode(byte_array):
         sig = ACSignature.__new__(ACSignature)
         algo_size, value_size = struct.unpack('<HH', byte_array[:4])
+        if len(byte_array) < 4 + algo_size + value_size:
+            # TODO: Custom exception.
+            raise Exception('Signature is truncated.')
         sig.sig_algo = byte_array[4:4 + algo_size].decode('utf-8') if algo_size > 0 else None
         sig.sig_value = byte_array[4 + algo_size:4 + algo_size + value_size] if value_size > 0 else None
 
-- 
2.43.0


From b73f90fd505971609c2485db27bbd12121c06973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 17/37] fix: comparing certificates failed on missing attribute
 sets and on repeated ids

---
 hgaa/attcert.py | 49 ++++++++++++-------------------------------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index e992bde..8dea4e8 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -695,42 +695,17 @@ class AttributeCertificate(object):
                 else:
                     return False
 
-            # TODO: Refactor this (poorly coded)
-            if self.att_set is None and other.att_set is None:
-                pass
-            elif len(self.att_set) == len(other.att_set):
-                for self_att in self.att_set:
-                    ok = False
-                    for other_att in other.att_set:
-                        if self_att.att_id == other_att.att_id:
-                            if self_att == other_att:
-                                ok = True
-                                break
-                            else:
-                                return False
-                    if not ok:
-                        return False
-            else:
-                return False
-
-            # TODO: Refactor this (poorly coded)
-            if self.extensions is None and other.extensions is None:
-                pass
-            elif len(self.extensions) == len(other.extensions):
-                for self_ext in self.extensions:
-                    ok = False
-                    for other_ext in other.extensions:
-                        if self_ext.eid == other_ext.eid:
-                            if self_ext == other_ext:
-                                ok = True
-                                break
-                            else:
-                                return False
-                    if not ok:
-                        return False
-            else:
-                return False
-
-            return True
+            # Order does not matter, and an empty set is the same as none at all.
+            return AttributeCertificate._same_parts(self.att_set, other.att_set) and \
+                AttributeCertificate._same_parts(self.extensions, other.extensions)
         else:
             return False
+
+    @staticmethod
+    def _same_parts(parts, other_parts):
+        unmatched = list(other_parts or [])
+        for part in parts or []:
+            if part not in unmatched:
+                return False
+            unmatched.remove(part)
+        return not unmatched
-- 
2.43.0


From ed8663a9a8eca2614109739f678cf4c5530458fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 18/37] fix: accept certificates only if signed with the
 registered key of the attribute authority

---
 hgaa/services/pauth.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 3cde23a..bd10874 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -5,6 +5,7 @@ from ladon.types.attachment import attachment
 from ladon.exceptions.service import ClientFault, ServerFault
 from Crypto.Random.random import getrandbits
 from Crypto.Hash import SHA256
+from Crypto.PublicKey import RSA
 import time
 import base64
 
@@ -198,6 +199,12 @@ class PolicyAuthority(object):
                     % exports['REMOTE_ADDR'])
                 raise ClientFault('An attribute authority in an attribute certificate in your certificate '
                                   'set is not trusted.')
+            elif not self._is_key_of(cert.issuer.pub_key, aauth):
+                PolicyAuthority.LOG.error(
+                    'ClientFault: ac is not signed with the key of its aauth in request from %s'
+                    % exports['REMOTE_ADDR'])
+                raise ClientFault('An attribute certificate in your certificate set is not signed with the '
+                                  'key of its attribute authority.')
             elif not cert.verify_time():
                 PolicyAuthority.LOG.error(
                     'ClientFault: ac is expired in evaluate from %s'
@@ -207,6 +214,14 @@ class PolicyAuthority(object):
 
             return cert
 
+    def _is_key_of(self, pub_key, aauth):
+        # The signature only shows that the issuer named in the certificate has the key that is in the certificate,
+        # it has to be the key this authority is known by.
+        try:
+            return RSA.import_key(pub_key) == RSA.import_key(aauth.pub_key).publickey()
+        except (ValueError, IndexError, TypeError):
+            return False
+
     def _int_to_b64(self, n, size):
         bytes = n.to_bytes(int(size / 8), 'little')
         return base64.b64encode(bytes).decode('utf-8')
-- 
2.43.0


From 2a1420e8885c11daacb44b84d733281b18ffb3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 19/37] fix: the policy authority used the database of the
 attribute authority

---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index bd10874..ff9e2f0 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -126,7 +126,7 @@ class PolicyAuthority(object):
                                      'url': self.url})
 
         PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
-        self._db_session = get_session('AAUTH') # TODO: Need new session for each request?
+        self._db_session = get_session('PAUTH') # TODO: Need new session for each request?
 
     @ladonize(rtype=int)
     def simp(self):
-- 
2.43.0


From 42cf6b5fd688e4bdbdc7c58b9b8ee5df0cbbf598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 20/37] fix: attributes without a value were issued with the
 value 'None'

---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index d352664..4f95a25 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -380,7 +380,7 @@ class AttributeAuthority(object):
                         att_id=att.id,
                         att_type=att.type,
                         att_name=att.name,
-                        att_value=str(att.value)
+                        att_value=str(att.value) if att.value is not None else None
                     )
                 )
 
-- 
2.43.0


From 410563d943d08aeb49d332feac0966cf18b00bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 21/37] fix: the name of the weekday was issued as
 con_time_weekday, and day and month names were not GMT

---
 hgaa/services/aauth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 4f95a25..69ed051 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -260,14 +260,14 @@ class AttributeAuthority(object):
                                    'id': '/attribute/connection/con_time',
                                    'type': AttributeType.INT,
                                    'value': int(t)}
-        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekday',
-                                           'id': '/attribute/connection/con_time_weekday',
+        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekdayname',
+                                           'id': '/attribute/connection/con_time_weekdayname',
                                            'type': AttributeType.STRING,
-                                           'value': time.strftime('%A')}
+                                           'value': time.strftime('%A', st)}
         con_att_set['con_time_monthname'] = {'name': 'con_time_monthname',
                                              'id': '/attribute/connection/con_time_monthname',
                                              'type': AttributeType.STRING,
-                                             'value': time.strftime('%B')}
+                                             'value': time.strftime('%B', st)}
         con_att_set['con_time_month'] = {'name': 'con_time_month',
                                              'id': '/attribute/connection/con_time_month',
                                              'type': AttributeType.INT,
-- 
2.43.0


From 3551132ea946bf0df948a252ff84ebe46a5e9340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 22/37] fix: requests from abbreviated IPv6 addresses such as
 ::1 failed

---
 hgaa/services/aauth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 69ed051..39c0024 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -7,6 +7,7 @@ from enum import Enum
 from Crypto.PublicKey import RSA
 import bcrypt
 import base64
+import ipaddress
 from logging import DEBUG
 import time
 import os
@@ -198,7 +199,7 @@ class AttributeAuthority(object):
 
         if 'REMOTE_ADDR' in exports:
             i = 0
-            if '.' in exports['REMOTE_ADDR']:
+            if '.' in exports['REMOTE_ADDR'] and ':' not in exports['REMOTE_ADDR']:
                 con_att_set['ip_v4'] = {'name': 'ip_v4',
                                         'id': '/attribute/connection/ip_v4',
                                         'type': AttributeType.BOOL,
@@ -225,7 +226,7 @@ class AttributeAuthority(object):
                                         'type': AttributeType.BOOL,
                                         'value': True}
 
-                hextets = exports['REMOTE_ADDR'].split(':')
+                hextets = ipaddress.IPv6Address(exports['REMOTE_ADDR'].split('%')[0]).exploded.split(':')
                 for hex in hextets:
                     con_att_set['remote_addr_v6_hex%d' % i] = {'name': 'remote_addr_v6_hex%d' % i,
                                                           'id': '/attribute/connection/remote_addr_v6_hex%d' % i,
-- 
2.43.0


From 491912480805ee6ccb13d25fa6b707d5ebaa910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 23/37] fix: the holder of a certificate depended on the case
 in which the user name was typed

---
 hgaa/services/aauth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 39c0024..480d031 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -448,6 +448,7 @@ class AttributeAuthority(object):
             if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
                 AttributeAuthority.LOG.info('Successful login by %s from %s.' % (credentials.username,
                                                                                  exports['REMOTE_ADDR']))
+                credentials.username = user.username  # the name of the account, not the case it was typed in
                 t1 = time.time()
                 AttributeAuthority.LOG.info('Time to login: %s seconds.' % str(t1-t0))
                 user_attributes = s.query(Attribute,AttributeAssignment.value).join(Attribute.values).\
-- 
2.43.0


From eee20ece20541989a248b7c2dcc718def24cc00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 24/37] fix: the configured REV_URL was ignored

---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 480d031..8fe62b7 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -93,7 +93,7 @@ class AttributeAuthority(object):
         self.aauth_id = get_conf('AAUTH_ID', True, 'AAUTH')
         # TODO: a_uri should be renamed to uid
         self.a_uri = get_conf('A_URI', True, 'AAUTH')
-        self.rev_url = get_conf('REV_URI', True, 'AAUTH')
+        self.rev_url = get_conf('REV_URL', True, 'AAUTH')
 
         # TODO: Make sure these URLs are being generated correctly in all environments
         host = get_conf('SERVICE_HOST', True, 'LADON')
-- 
2.43.0


From 9263293d89670c1b781b4f7917d834a997edeffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:20 +0000
Subject: [PATCH 25/37] fix: a number with thousands of digits raised
 ValueError, report it as LexerError

---
 hgpl/lexing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 64587c7..f1550f7 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -125,7 +125,11 @@ class Lexer(object):
                                  "number.", self._policy_text, self._text_pos + 1, Token(TokenType.FLOAT, pos_at_start))
 
         if ttype == TokenType.INT:
-            return Token(ttype, pos_at_start, int(numstring))
+            try:
+                return Token(ttype, pos_at_start, int(numstring))
+            except ValueError:
+                raise LexerError("Syntax error encountered while reading number. Number has too many digits.",
+                                 self._policy_text, pos_at_start, Token(TokenType.INT, pos_at_start))
         else:
             return Token(ttype, pos_at_start, float(numstring))
 
-- 
2.43.0


From d0b28a36aa4f32e51031ed53c2d3939e2aeb889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:02 +0000
Subject: [PATCH 26/37] fix: policies nested too deeply raised RecursionError,
 report them as errors of the language

---
 hgpl/interpreting.py | 5 ++++-
 hgpl/parsing.py      | 6 +++++-
 hgpl/semantics.py    | 6 +++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 0c1b3ca..a9b8c98 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -292,7 +292,10 @@ class Interpreter(object):
             self._symbols = SymbolTable()
 
         self._warnings = []
-        self._evaluate_node(self._ast)
+        try:
+            self._evaluate_node(self._ast)
+        except RecursionError:
+            self._error("Interpreter Error, policy is nested too deeply.", "evaluate", self._ast)
 
         for warn in self._warnings:
             if min_warn_level is not None and warn.type >= min_warn_level:
diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index a34ce3e..d230114 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -194,6 +194,10 @@ class Parser(object):
     def parse(self):
         # TODO: Reset if called 2nd time.
         self._eat(TokenType.START, "parse", "Syntax error, missing START token at beginning of token list.")
-        result = self._policy_rule()
+        try:
+            result = self._policy_rule()
+        except RecursionError:
+            raise ParserError("Syntax error, policy is nested too deeply.", self._policy, self._current_token.pos,
+                              self._current_token, "parse") from None
         self._eat(TokenType.END, "parse", "Syntax error, expected END token marking end of policy.")
         return result
diff --git a/hgpl/semantics.py b/hgpl/semantics.py
index 88dd380..d2d9075 100644
--- a/hgpl/semantics.py
+++ b/hgpl/semantics.py
@@ -230,7 +230,11 @@ class TypeChecker(object):
 
     def check(self, min_error_level=ErrorType.CRIT):
         # TODO: Reset if called 2nd time.
-        self._scan_tree(self._ast)
+        try:
+            self._scan_tree(self._ast)
+        except RecursionError:
+            raise TypeCheckerError("Type Error, policy is nested too deeply.", self._policy, self._ast.tpos(),
+                                   self._ast.token, check="check") from None
         self._checked = True
 
         for error in self._issues:
-- 
2.43.0


From dea034a347431e01219a29b71d2c37da315a2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:20 +0000
Subject: [PATCH 27/37] fix: a certificate with empty optional fields was not
 equal to its own export and import

---
 hgaa/attcert.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 8dea4e8..5f8b05c 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -83,8 +83,8 @@ class ACIssuer(ACPart):
         self.pub_key = pub_key  # as a DER encoded byte string (not base64 string)
         self.key_algo = key_algo
         self.uid = uid
-        self.name = name
-        self.url = url
+        self.name = name if name != '' else None
+        self.url = url if url != '' else None
 
     def __str__(self):
         output = '==== BEGIN ISSUER ====\nPUBLIC KEY: %s\nKEY ALGORITHM: %s\nUID: %s\n' % (
@@ -153,7 +153,7 @@ class ACHolder(ACPart):
         self.pub_key = pub_key
         self.key_algo = key_algo
         self.uid = uid
-        self.name = name
+        self.name = name if name != '' else None
 
     def __str__(self):
         output = '==== BEGIN HOLDER ====\nPUBLIC KEY: %s\nKEY ALGORITHM: %s\nUID: %s\n' % (
@@ -213,7 +213,7 @@ class ACAttribute(ACPart):
         self.att_type = att_type  # TODO: Check that this is a enum
         self.att_value = att_value if att_value != '' else None # String encoded
         self.att_name = att_name if att_name != '' else None
-        self.extra_bytes = extra_bytes  # byte string
+        self.extra_bytes = extra_bytes if extra_bytes != b'' else None  # byte string
 
     def __str__(self):
         output = '#### BEGIN ATTRIBUTE: %s ####\nATTRIBUTE ID: %s\nATTRIBUTE TYPE: %s\n' % \
@@ -281,8 +281,8 @@ class ACRevocationRules(ACPart):
     DEFAULT_LENGTH = 86400  # 1 Day
 
     def __init__(self, valid_after=None, valid_before=None, url=None, extra_bytes=None):
-        self.url = url
-        self.extra_bytes = extra_bytes
+        self.url = url if url != '' else None
+        self.extra_bytes = extra_bytes if extra_bytes != b'' else None
 
         if valid_after is None:
             self.valid_after = int(time.time())
@@ -344,7 +344,7 @@ class ACRevocationRules(ACPart):
 
 class ACDelegationRules(ACPart):
     def __init__(self, extra_bytes=None):
-        self.extra_bytes = extra_bytes
+        self.extra_bytes = extra_bytes if extra_bytes != b'' else None
 
     def __str__(self):
         if self.extra_bytes is not None:
@@ -376,7 +376,7 @@ class ACDelegationRules(ACPart):
 class ACExtensions(ACPart):
     def __init__(self, eid, extra_bytes=None):
         self.eid = eid
-        self.extra_bytes = extra_bytes
+        self.extra_bytes = extra_bytes if extra_bytes != b'' else None
 
     def __str__(self):
         output = '#### BEGIN EXTENSION: %s ####\nEXTENSION ID: %s\n' % (self.eid, self.eid)
-- 
2.43.0


From 8b8d179d8c937f5c9a2dc0ee7b8157b845d439fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:27 +0000
Subject: [PATCH 28/37] fix: passwords bcrypt cannot take told whether an
 account exists, and a missing one was taken for 'None'

---
 hgaa/services/aauth.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 8fe62b7..5d389e7 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -426,6 +426,22 @@ class AttributeAuthority(object):
         return file_name
 
 
+    def _check_password(self, password, user):
+        if password is None:
+            return False
+
+        try:
+            encoded = ('%s%s' % (password, self.pass_pepper)).encode()
+
+            if AttributeAuthority.LOG.isEnabledFor(DEBUG):
+                AttributeAuthority.LOG.debug('Hash for request is: %s' % bcrypt.hashpw(encoded, user.password.encode()))
+
+            return bcrypt.checkpw(encoded, user.password.encode())
+        except ValueError:
+            # Not a password any account could have (such as one longer than bcrypt takes), this has to look the same
+            # as any other wrong password.
+            return False
+
     @ladonize(Credentials, PublicKey, AttributeList, rtype=AttributeCertificateType)
     def attribute_request(self, credentials, user_public_key, attributes, **exports):
         t0 = time.time()
@@ -440,12 +456,7 @@ class AttributeAuthority(object):
                                                                                                exports['REMOTE_ADDR']))
                 raise ClientFault('Invalid credentials.')
 
-            if AttributeAuthority.LOG.isEnabledFor(DEBUG):
-                AttributeAuthority.LOG.debug('Hash for request is: %s' %
-                                             bcrypt.hashpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(),
-                                                           user.password.encode()))
-
-            if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
+            if self._check_password(credentials.password, user):
                 AttributeAuthority.LOG.info('Successful login by %s from %s.' % (credentials.username,
                                                                                  exports['REMOTE_ADDR']))
                 credentials.username = user.username  # the name of the account, not the case it was typed in
-- 
2.43.0


From 7cf587e1f3a7ba395d30014d08b6bcefc60d4028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:27 +0000
Subject: [PATCH 29/37] fix: a certificate given twice in one set failed on the
 database instead of counting once

---
 hgaa/services/pauth.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index ff9e2f0..f3231da 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -271,10 +271,19 @@ class PolicyAuthority(object):
                 b64_serial = self._int_to_b64(cert.info.serial, ACInformation.SERIAL_SIZE)
 
 
-                processed_att_certs[b64_serial] = cert
-
                 cert_hash=base64.b64encode(SHA256.new(raw_cert.data_raw).digest()).decode('utf-8')
 
+                if b64_serial in processed_att_certs:
+                    # The same certificate once more adds nothing, another one must not have the same serial.
+                    if processed_att_certs[b64_serial] != cert_hash:
+                        PolicyAuthority.LOG.error(
+                            'ClientFault: Two certs with serial %s in request from %s'
+                            % (b64_serial, exports['REMOTE_ADDR']))
+                        raise ClientFault('Certificate serial already in use.')
+                    continue
+
+                processed_att_certs[b64_serial] = cert_hash
+
 
                 has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
 
-- 
2.43.0


From 8bb0e48fc8734585a21c45555506bb9d1d469edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 30/37] fix: the services kept a database connection per
 request and stopped serving when they ran out

---
 hgaa/services/aauth.py |  8 +++++++-
 hgaa/services/pauth.py | 14 +++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 5d389e7..a1bc1f3 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -444,11 +444,17 @@ class AttributeAuthority(object):
 
     @ladonize(Credentials, PublicKey, AttributeList, rtype=AttributeCertificateType)
     def attribute_request(self, credentials, user_public_key, attributes, **exports):
+        s = self._db_session()
+        try:
+            return self._attribute_request(s, credentials, user_public_key, attributes, exports)
+        finally:
+            s.close()  # gives its connection back, there is only a limited number of them
+
+    def _attribute_request(self, s, credentials, user_public_key, attributes, exports):
         t0 = time.time()
         AttributeAuthority.LOG.info('Attribute request on AttributeAuthority from %s.' % exports['REMOTE_ADDR'])
 
         if credentials.type == CredentialType.USER_PASS.value:
-            s = self._db_session()
             user = s.query(User).filter(User.username == credentials.username.lower()).first()
             if user is None:
                 AttributeAuthority.LOG.info(
diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index f3231da..9622f71 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -140,7 +140,10 @@ class PolicyAuthority(object):
         auth_list.attribute_authorities = []
 
         s = self._db_session()
-        aauths = s.query(AttributeAuthority).all()
+        try:
+            aauths = s.query(AttributeAuthority).all()
+        finally:
+            s.close()  # gives its connection back, there is only a limited number of them
 
         for aauth in aauths:
             aauth_info = AttributeAuthorityInfo()
@@ -228,9 +231,14 @@ class PolicyAuthority(object):
 
     @ladonize(PORTABLE_STRING, AttributeCertificateSet, rtype=SessionReturn)
     def start_session(self, service_uid, att_cert_set, **exports):
-        # TODO: Some check on service_uid and authentication of service
-
         s = self._db_session()
+        try:
+            return self._start_session(s, service_uid, att_cert_set, exports)
+        finally:
+            s.close()  # gives its connection back, there is only a limited number of them
+
+    def _start_session(self, s, service_uid, att_cert_set, exports):
+        # TODO: Some check on service_uid and authentication of service
 
         aauths = s.query(AttributeAuthority).all()
         aauth_dict = {}
-- 
2.43.0


From b50120f07c96751ae0ad81e83c07064d3e34a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 31/37] fix: a session whose commit failed was recorded by the
 next request

---
 hgaa/services/pauth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 9622f71..0c4f0e1 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -234,6 +234,9 @@ class PolicyAuthority(object):
         s = self._db_session()
         try:
             return self._start_session(s, service_uid, att_cert_set, exports)
+        except:
+            s.rollback()  # closing alone leaves a commit that failed pending, the next one would include it
+            raise
         finally:
             s.close()  # gives its connection back, there is only a limited number of them
 
-- 
2.43.0


From b72864534014b23b786400d285b5f80b4d70ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:22 +0000
Subject: [PATCH 32/37] fix: a reply without a result changed the last key of
 the client

---
 hgaa/clients/aauth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgaa/clients/aauth.py b/hgaa/clients/aauth.py
index 34083f0..7d31693 100644
--- a/hgaa/clients/aauth.py
+++ b/hgaa/clients/aauth.py
@@ -95,5 +95,6 @@ class AttributeAuthorityClient(object):
                             (response.response_dict['fault']['string'],
                              pprint.pformat(response.response_dict['fault']['detail'], width=300)))
 
+        result = response.response_dict['result']
         self.last_key = key
-        return response.response_dict['result']
\ No newline at end of file
+        return result
\ No newline at end of file
-- 
2.43.0


From 8030cae210429663f301d66017085fcead23ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:22 +0000
Subject: [PATCH 33/37] fix: populating an unknown service added to the default
 database

---
 hgaa/database.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index 4e10770..ad4d320 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -9,6 +9,12 @@ ACTIVE_ENGINES = {}
 
 
 def populate_db(hgaa_name, instances, wipe_first=False, use_test_db=False, parent_log=SERVICE_LOG):
+    base = ServiceBases.get(hgaa_name.lower(), None)
+
+    if base is None:
+        parent_log.error('HGAA name, %s, does not have known database linked to it.' % hgaa_name)
+        raise Exception("ERROR: HGAA name, %s, does not have known database linked to it." % hgaa_name)
+
     if use_test_db:
         # TODO: Add testing configs
         logname = get_conf('LOG_NAME', True, hgaa_name + '_TEST')
@@ -24,12 +30,6 @@ def populate_db(hgaa_name, instances, wipe_first=False, use_test_db=False, paren
 
     if wipe_first:
         log.info('Wiping rows from tables in %s' % dbname)
-        base = ServiceBases.get(hgaa_name.lower(), None)
-
-        if base is None:
-            log.error('HGAA name, %s, does not have known database linked to it.' % hgaa_name)
-            raise Exception("ERROR: HGAA name, %s, does not have known database linked to it." % hgaa_name)
-
         for table in reversed(base.metadata.sorted_tables):
             log.debug('Wiping table %s.' % table.name)
             session.execute(table.delete())
-- 
2.43.0


From 04ee31fc3072255f0c7f90515054aa40494af5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:19 +0000
Subject: [PATCH 34/37] fix: failing to populate a database kept it locked

---
 hgaa/database.py | 11 ++++++++++-
 hgaa/tools.py    | 11 ++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index ad4d320..ff9f536 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -25,6 +25,16 @@ def populate_db(hgaa_name, instances, wipe_first=False, use_test_db=False, paren
         dbname = get_conf('DB_NAME', True, hgaa_name)
         session = get_session(hgaa_name)()
 
+    try:
+        _populate(session, base, instances, wipe_first, logname, dbname, parent_log)
+    except BaseException:
+        session.rollback()  # else the connection would go on with what was not committed, and keep the database locked
+        raise
+    finally:
+        session.close()
+
+
+def _populate(session, base, instances, wipe_first, logname, dbname, parent_log):
     log = parent_log.getChild(logname)
     log.info('Starting population of tables for database %s' % dbname)
 
@@ -40,7 +50,6 @@ def populate_db(hgaa_name, instances, wipe_first=False, use_test_db=False, paren
     log.info('Adding all model instances to %s database.' % dbname)
     session.add_all(instances)
     session.commit()
-    session.close()
     log.info('Population of %s complete.' % dbname)
 
 
diff --git a/hgaa/tools.py b/hgaa/tools.py
index 4676182..c5981f4 100644
--- a/hgaa/tools.py
+++ b/hgaa/tools.py
@@ -58,9 +58,14 @@ def gen_atts(num_atts):
         att_set.append(AttributeAssignment(user_id=1, att_id='/attribute/user/a%d' % i, value='%d' % i))
 
     SERVICE_TOOLS_LOG.info('Adding attributes to AAUTH database.')
-    session.add_all(att_set)
-    session.commit()
-    session.close()
+    try:
+        session.add_all(att_set)
+        session.commit()
+    except BaseException:
+        session.rollback()
+        raise
+    finally:
+        session.close()
     SERVICE_TOOLS_LOG.info('Population of attributes complete.')
 
 
-- 
2.43.0


From 195f15e524bf17b12f91afca94ca6529ccae1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:36 +0000
Subject: [PATCH 35/37] fix: no log file configured stopped the start or made a
 file called None

---
 hgaa/log.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hgaa/log.py b/hgaa/log.py
index 81a00c8..7a2126b 100644
--- a/hgaa/log.py
+++ b/hgaa/log.py
@@ -52,6 +52,8 @@ def make_logger(hgaa_name, service=True, parent=None):
 
     if logfile is not None and logfile.lower() != 'none' and logfile.lower() != 'false' and logfile != '':
         logfile = LOG_DIR + logfile
+    else:
+        logfile = None
 
     if service:
         if SERVICE_LOG is not None:
@@ -101,7 +103,9 @@ def _make_ladon_log():
     LADON_LOG.parent = ROOT_LOG
     LADON_LOG.setLevel(str_to_log_level(get_conf('LOG_LEVEL', True, 'LADON')))
 
-    if get_conf('CLEAN_LOG_ON_START', True, 'DEFAULT').upper() == 'TRUE':
+    if get_conf('LOG_FILE', True, 'LADON').lower() in ('', 'none', 'false'):
+        handler = logging.NullHandler()
+    elif get_conf('CLEAN_LOG_ON_START', True, 'DEFAULT').upper() == 'TRUE':
         handler = logging.FileHandler(LOG_DIR + get_conf('LOG_FILE', True, 'LADON'), mode='w')
     else:
         handler = logging.FileHandler(LOG_DIR + get_conf('LOG_FILE', True, 'LADON'))
@@ -125,7 +129,9 @@ def _make_sql_log():
     SQL_LOG.parent = ROOT_LOG
     SQL_LOG.setLevel(str_to_log_level(get_conf('SQL_LOG_LEVEL', True, 'DEFAULT')))
 
-    if get_conf('CLEAN_LOG_ON_START', True, 'DEFAULT').upper() == 'TRUE':
+    if get_conf('SQL_LOG_FILE', True, 'DEFAULT').lower() in ('', 'none', 'false'):
+        handler = logging.NullHandler()
+    elif get_conf('CLEAN_LOG_ON_START', True, 'DEFAULT').upper() == 'TRUE':
         handler = logging.FileHandler(LOG_DIR + get_conf('SQL_LOG_FILE', True, 'DEFAULT'), mode='w')
     else:
         handler = logging.FileHandler(LOG_DIR + get_conf('SQL_LOG_FILE', True, 'DEFAULT'))
-- 
2.43.0


From 015ef62165a8ae961cb93ce29b674b58f813319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:56 +0000
Subject: [PATCH 36/37] fix: database passwords and names with characters such
 as @ did not work, and the password was logged

---
 hgaa/database.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index ff9f536..564c2cb 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -1,4 +1,5 @@
 from sqlalchemy import create_engine
+from sqlalchemy.engine import URL
 from sqlalchemy.orm import sessionmaker
 
 from hgaa.config import get_conf
@@ -76,11 +77,11 @@ def get_engine(hgaa_name, parent_log=SERVICE_LOG):
         log.info('Creating %s database engine for %s', dbtype, hgaa_name)
 
         if dbtype.upper() == 'MYSQL':
-            connect = 'mysql+mysqlconnector://{user}:{password}@{host}:{port}/{dbname}'.format(user=dbuser, password=dbpass,
-                                                                                     host=dbhost, dbname=dbname,
-                                                                                     port=dbport)
+            # Not put together as text: passwords and names may have any character, and shown the password is hidden.
+            connect = URL.create('mysql+mysqlconnector', username=dbuser, password=dbpass, host=dbhost, port=int(dbport),
+                                 database=dbname)
         elif dbtype.upper() == 'SQLITE':
-            connect = 'sqlite:///{dbname}.db'.format(dbname=dbname)
+            connect = URL.create('sqlite', database='{dbname}.db'.format(dbname=dbname))
         elif dbtype.upper() == 'MEMORY':
             connect = 'sqlite://'
         else:
-- 
2.43.0


From e2341ae116ddc0c4fdc899ef874eaeb32f3fe829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:10 +0000
Subject: [PATCH 37/37] fix: some passwords with NUL characters were taken for
 the right one

---
 hgaa/services/aauth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index a1bc1f3..cba018b 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -427,7 +427,8 @@ class AttributeAuthority(object):
 
 
     def _check_password(self, password, user):
-        if password is None:
+        if password is None or '\0' in password:
+            # bcrypt takes some passwords with a NUL character for others without
             return False
 
         try:
-- 
2.43.0

