From 9ebdb8bee71c4f124508497b9fa5f59b04425c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 01/47] fix: lexer reports a LexerError for an attribute prefix
 ending the policy ('user.')

---
 hgpl/lexing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 957997a..26ead7c 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -229,7 +229,8 @@ class Lexer(object):
             if self._peek() == ".":
                 self._advance()
                 self._advance()
-                if self._current_char.isalpha() or self._current_char.isdigit() or self._current_char == "_":
+                if self._current_char and (self._current_char.isalpha() or self._current_char.isdigit() or
+                                           self._current_char == "_"):
                     ident = self._id()
                     if prefix.lower() == "user":
                         token_type = TokenType.USR_ATT
-- 
2.43.0


From 9263d84a739601fb7c4ab7e53fc821c5848c23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 02/47] fix: lexer reports a LexerError, not a ValueError, for
 digits that do not form a number

---
 hgpl/lexing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 26ead7c..039c828 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -124,10 +124,12 @@ class Lexer(object):
                 raise LexerError("Syntax error encountered while reading floating point number. Found multiple '.'s in "
                                  "number.", self._policy_text, self._text_pos + 1, Token(TokenType.FLOAT, pos_at_start))
 
-        if ttype == TokenType.INT:
-            return Token(ttype, pos_at_start, int(numstring))
-        else:
-            return Token(ttype, pos_at_start, float(numstring))
+        try:
+            value = int(numstring) if ttype == TokenType.INT else float(numstring)
+        except ValueError:
+            raise LexerError("Syntax error, '{}' is not a valid number.".format(numstring), self._policy_text,
+                             pos_at_start, Token(ttype, pos_at_start))
+        return Token(ttype, pos_at_start, value)
 
     def _string(self):
         # TODO: Update to V2
-- 
2.43.0


From 3eb90c25eb0d15de2f365c34a95e4ad03b512a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 03/47] fix: parser lookahead no longer runs off the token list
 (IndexError on truncated policies)

---
 hgpl/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index 9ee53e1..a34ce3e 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -24,7 +24,7 @@ class Parser(object):
         return self._policy
 
     def _peek(self, i=1):
-        if self._pos + i > len(self._token_list):
+        if self._pos + i >= len(self._token_list):
             return None
         return self._token_list[self._pos + i]
 
-- 
2.43.0


From cd5be3be65ec957d799df3cbdf752d1d8c294586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 04/47] fix: parser reports a ParserError, not a
 RecursionError, for too deeply nested policies

---
 hgpl/parsing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index a34ce3e..d230114 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -194,6 +194,10 @@ class Parser(object):
     def parse(self):
         # TODO: Reset if called 2nd time.
         self._eat(TokenType.START, "parse", "Syntax error, missing START token at beginning of token list.")
-        result = self._policy_rule()
+        try:
+            result = self._policy_rule()
+        except RecursionError:
+            raise ParserError("Syntax error, policy is nested too deeply.", self._policy, self._current_token.pos,
+                              self._current_token, "parse") from None
         self._eat(TokenType.END, "parse", "Syntax error, expected END token marking end of policy.")
         return result
-- 
2.43.0


From 85b55e531de2ff4010da20bc3da83df1410fbcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 05/47] fix: interpreter evaluates 0, 0.0, "", FALSE, UNDEF and
 constant policies, and never reuses results of an earlier evaluation

---
 hgpl/interpreting.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 4750adf..0819d73 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -1,5 +1,6 @@
 from hgpl.parsing import Parser
-from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ASTResult, ASTNullVal
+from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ValNode, BoolValNode, ASTResult, \
+    ASTNullVal
 from hgpl.symbols import SymbolTable, Symbol, SymbolType
 from hgpl.errors import InterpreterError, InterpreterWarning
 
@@ -249,7 +250,7 @@ class Interpreter(object):
     def _evaluate_set_node(self, node):
         node.result = []
         for n in node.children():
-            if n.result and isinstance(n.result, (int, float, str, ASTNullVal)):
+            if n.result is not None and isinstance(n.result, (int, float, str, ASTNullVal)):
                     node.result.append(n.result)
             else:
                 self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_set_node",
@@ -257,7 +258,7 @@ class Interpreter(object):
 
     def _evaluate_node(self, node):
         for n in node.children():
-            if not n.result:
+            if not isinstance(n, (ValNode, BoolValNode)):
                 self._evaluate_node(n)
 
         if isinstance(node, AttNode):
@@ -270,6 +271,8 @@ class Interpreter(object):
             self._evaluate_bool_op_node(node)
         elif isinstance(node, OpNode):
             self._evaluate_op_node(node)
+        elif isinstance(node, BoolValNode):
+            pass  # A policy that is just a boolean constant, the result is set when the node is made.
         else:
             self._error("Interpreter Error, invalid node type.", "evaluate_node", node)
 
-- 
2.43.0


From c11632f930b0925bcfda842bc74f1e6cc032ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 06/47] fix: evaluate() works without a warning level and does
 not report warnings of an earlier evaluation

---
 hgpl/interpreting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 0819d73..6e23dff 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -285,10 +285,11 @@ class Interpreter(object):
         else:
             self._symbols = SymbolTable()
 
+        self._warnings = []
         self._evaluate_node(self._ast)
 
         for warn in self._warnings:
-            if warn.type >= min_warn_level:
+            if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
 
         return self._ast.result
-- 
2.43.0


From aff3470ec9911890dcbe5c08d90f85adc1033f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:23 +0000
Subject: [PATCH 07/47] fix: a policy that is just a non-boolean attribute is
 an error, not a truthy Symbol

---
 hgpl/interpreting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 6e23dff..c4f5edf 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -288,6 +288,9 @@ class Interpreter(object):
         self._warnings = []
         self._evaluate_node(self._ast)
 
+        if not isinstance(self._ast.result, ASTResult):
+            self._error("Interpreter Error, policy does not have a boolean result.", "evaluate", self._ast)
+
         for warn in self._warnings:
             if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
-- 
2.43.0


From eb31bf1b298927668d717e8c45ae40294eee3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:23 +0000
Subject: [PATCH 08/47] fix: = and != between an attribute and a set constant
 compare the sets instead of always being UNDEF

---
 hgpl/interpreting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index c4f5edf..e571d3d 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -108,13 +108,17 @@ class Interpreter(object):
         if isinstance(rresult, Symbol):
             rresult = self._symbol_to_val(rresult, tmp, 0)
 
+        if isinstance(lresult, list):
+            lresult = set(lresult)
+
+        if isinstance(rresult, list):
+            rresult = set(rresult)
+
         if (isinstance(lresult, (int, float)) and isinstance(rresult, (int, float))) or \
            (isinstance(lresult, str) and isinstance(rresult, str)) or \
            (isinstance(lresult, set) and isinstance(rresult, set)) or \
            (isinstance(lresult, ASTNullVal) and isinstance(rresult, ASTNullVal)):
             return ASTResult.from_bool(lresult == rresult)
-        elif isinstance(lresult, list) and isinstance(rresult, list):
-            return ASTResult.from_bool(set(lresult) == set(rresult))
         else:
             self._warn("Interpreter Warning, invalid type used in '=' or '!=' operation.", "eq_op", None, lresult,
                        rresult)
-- 
2.43.0


From eee71e4eb656254eccec20fa56a30e97a47b0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:23 +0000
Subject: [PATCH 09/47] fix: NULL can be used in set operations (it was
 unhashable)

---
 hgpl/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index db09155..857582d 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -267,6 +267,9 @@ class ASTNullVal(object):
     def __ne__(self, other):
         return not isinstance(other, ASTNullVal)
 
+    def __hash__(self):
+        return hash(ASTNullVal)
+
 
 class NullValNode(ValNode):
     def __init__(self, token):
-- 
2.43.0


From 4a62b1765ec9c6d5877eba661ad2a2e515f4049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:12 +0000
Subject: [PATCH 10/47] fix: AST encoding numbers nodes per tree, so encoding
 works whatever was parsed before or concurrently

---
 hgpl/ast.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 857582d..afda514 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -333,7 +333,14 @@ class ASTEncoder(object):
     _encoding_body_head = struct.Struct("<HBBHHH")
 
     @staticmethod
-    def _encode_node(node):
+    def _number_nodes(node, ids):
+        ids.setdefault(id(node), len(ids))
+        for n in node.children():
+            ASTEncoder._number_nodes(n, ids)
+        return ids
+
+    @staticmethod
+    def _encode_node(node, ids):
         if node.ttype() == TokenType.INT:
             tval_format = 'i'
             tval_size = 4
@@ -361,7 +368,7 @@ class ASTEncoder(object):
                 # TODO: Custom exception
                 raise Exception()
 
-        node_header = ASTEncoder._encoding_body_head.pack(node.id, node.ntype().value, node.ttype().value, node.tpos(), tval_size,
+        node_header = ASTEncoder._encoding_body_head.pack(ids[id(node)], node.ntype().value, node.ttype().value, node.tpos(), tval_size,
                                               node.num_nodes())
         if tval_size > 0:
             tvalue = struct.pack('<' + tval_format, tval)
@@ -369,7 +376,7 @@ class ASTEncoder(object):
             tvalue = None
 
         if node.num_nodes() > 0:
-            child_ids = tuple(child.id for child in node._node_list)
+            child_ids = tuple(ids[id(child)] for child in node._node_list)
             children = struct.pack('<' + str(node.num_nodes()) + 'H', *child_ids)
         else:
             child_ids = None
@@ -386,14 +393,15 @@ class ASTEncoder(object):
         del node_header
 
         for n in node.children():
-            encoded_nodes += ASTEncoder._encode_node(n)
+            encoded_nodes += ASTEncoder._encode_node(n, ids)
 
         return encoded_nodes
 
     @staticmethod
     def encode(ast, encode_in_base64=False):
-        encoded_nodes = ASTEncoder._encode_node(ast)
-        header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), ast.id)
+        ids = ASTEncoder._number_nodes(ast, {})
+        encoded_nodes = ASTEncoder._encode_node(ast, ids)
+        header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), ids[id(ast)])
         encoded = header + b''.join(encoded_nodes)
 
         if encode_in_base64:
-- 
2.43.0


From a6a1f4f4ea7c76fc1922fd874568da9688eda23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:12 +0000
Subject: [PATCH 11/47] fix: AST encoding keeps integers over 32 bit and full
 float precision

---
 hgpl/ast.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index afda514..67d4668 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -342,12 +342,12 @@ class ASTEncoder(object):
     @staticmethod
     def _encode_node(node, ids):
         if node.ttype() == TokenType.INT:
-            tval_format = 'i'
-            tval_size = 4
-            tval = node.tvalue()
+            tval_size = max(4, node.tvalue().bit_length() // 8 + 1)
+            tval_format = str(tval_size) + 's'
+            tval = node.tvalue().to_bytes(tval_size, 'little', signed=True)
         elif node.ttype() == TokenType.FLOAT:
-            tval_format = 'f'
-            tval_size = 4
+            tval_format = 'd'
+            tval_size = 8
             tval = node.tvalue()
         #elif node.ttype() == TokenType.BOOL:
         #    tval_format = 'B'
@@ -429,11 +429,13 @@ class ASTEncoder(object):
 
             if token_val_size > 0:
                 str_flag = False
+                int_flag = False
 
                 if token_type == TokenType.INT.value:
-                    tval_format = 'i'
+                    int_flag = True
+                    tval_format = str(token_val_size) + 's'
                 elif token_type == TokenType.FLOAT.value:
-                    tval_format = 'f'
+                    tval_format = 'f' if token_val_size == 4 else 'd'
                 #elif token_type == TokenType.BOOL.value:
                 #    tval_format = 'B'
                 else:
@@ -442,6 +444,9 @@ class ASTEncoder(object):
 
                 token_val = struct.unpack('<' + tval_format,  encoded_bytes[byte_count:byte_count + token_val_size])[0]
 
+                if int_flag:
+                    token_val = int.from_bytes(token_val, 'little', signed=True)
+
                 if str_flag:
                     token_val = token_val.decode('utf-8')
 
-- 
2.43.0


From 4b17233c426cc726e6ab94ef791ac2d75da53425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:12 +0000
Subject: [PATCH 12/47] fix: AST encoding keeps empty and non-ASCII strings

---
 hgpl/ast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 67d4668..f8e780e 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -359,9 +359,9 @@ class ASTEncoder(object):
                 tval_size = 0
                 tval = None
             elif isinstance(node.tvalue(), str):
-                tval_size = len(node.tvalue())
-                tval_format = str(tval_size) + 's'
                 tval = bytes(node.tvalue(), 'utf-8')
+                tval_size = len(tval)
+                tval_format = str(tval_size) + 's'
             else:
                 print(node.tvalue())
                 print(node.tvalue().__class__.__name__)
@@ -451,6 +451,8 @@ class ASTEncoder(object):
                     token_val = token_val.decode('utf-8')
 
                 byte_count += token_val_size
+            elif token_type == TokenType.STRING.value:
+                token_val = ''
             else:
                 token_val = None
 
-- 
2.43.0


From cef540ac82c8eb759267d5db43d4ab3aa8703208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 13/47] fix: certificate encoding measures strings in UTF-8
 bytes, so non-ASCII text is not cut off

---
 hgaa/attcert.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 6b13e75..1144fc5 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -100,16 +100,16 @@ class ACIssuer(ACPart):
 
     def encode(self):
         pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
+        key_algo_size = len(self.key_algo.encode('utf-8'))
+        uid_size = len(self.uid.encode('utf-8'))
 
         if self.name is not None:
-            name_size = len(self.name)
+            name_size = len(self.name.encode('utf-8'))
         else:
             name_size = 0
 
         if self.url is not None:
-            url_size = len(self.url)
+            url_size = len(self.url.encode('utf-8'))
         else:
             url_size = 0
 
@@ -166,11 +166,11 @@ class ACHolder(ACPart):
 
     def encode(self):
         pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
+        key_algo_size = len(self.key_algo.encode('utf-8'))
+        uid_size = len(self.uid.encode('utf-8'))
 
         if self.name is not None:
-            name_size = len(self.name)
+            name_size = len(self.name.encode('utf-8'))
         else:
             name_size = 0
 
@@ -232,9 +232,9 @@ class ACAttribute(ACPart):
         return output
 
     def encode(self):
-        att_id_size = len(self.att_id)
-        att_value_size = len(self.att_value) if self.att_value is not None else 0
-        att_name_size = len(self.att_name) if self.att_name is not None else 0
+        att_id_size = len(self.att_id.encode('utf-8'))
+        att_value_size = len(self.att_value.encode('utf-8')) if self.att_value is not None else 0
+        att_name_size = len(self.att_name.encode('utf-8')) if self.att_name is not None else 0
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         att_id = self.att_id.encode('utf-8')
         att_value = self.att_value.encode('utf-8') if self.att_value is not None else b''
@@ -307,7 +307,7 @@ class ACRevocationRules(ACPart):
         return output
 
     def encode(self):
-        url_size = len(self.url) if self.url is not None else 0
+        url_size = len(self.url.encode('utf-8')) if self.url is not None else 0
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         url = self.url.encode('utf-8') if self.url is not None else b''
 
@@ -386,7 +386,7 @@ class ACExtensions(ACPart):
         return output
 
     def encode(self):
-        eid_size = len(self.eid)
+        eid_size = len(self.eid.encode('utf-8'))
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         eid = self.eid.encode('utf-8')
 
@@ -430,7 +430,7 @@ class ACSignature(ACPart):
         return output
 
     def encode(self):
-        algo_size = len(self.sig_algo)
+        algo_size = len(self.sig_algo.encode('utf-8'))
         value_size = len(self.sig_value)
         algo = self.sig_algo.encode('utf-8')
 
-- 
2.43.0


From e230f146a80844cbcfd1debccde2fc4b2b21d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 14/47] fix: importing a certificate from bytes accepts bytes
 and leaves the caller's buffer alone

---
 hgaa/attcert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 1144fc5..499483a 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -528,7 +528,7 @@ class AttributeCertificate(object):
     @staticmethod
     def import_ac(input, format=ExportFormat.BYTES, verify=False):
         if format == ExportFormat.BYTES:
-            return AttributeCertificate.decode(input, verify)
+            return AttributeCertificate.decode(bytearray(input), verify)
         elif format == ExportFormat.BASE64:
             decode = base64.b64decode(input)
             return AttributeCertificate.decode(bytearray(decode), verify)
-- 
2.43.0


From e86a59bd980945e86f39dd9d67974461e3a70d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 15/47] fix: importing a BASE64FULL certificate accepts bytes
 as read from a file or attachment

---
 hgaa/attcert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 499483a..be28805 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -539,6 +539,8 @@ class AttributeCertificate(object):
             # TODO: Support TEXT format import.
             raise Exception('TEXT import not yet supported.')
         elif format == ExportFormat.BASE64FULL:
+            if isinstance(input, (bytes, bytearray)):
+                input = input.decode('utf-8')
             parts = input.split('\n')
             # TODO: Check that all parts are valid/right version.
             return AttributeCertificate.import_ac(parts[3], ExportFormat.BASE64, verify)
-- 
2.43.0


From fea75ae531200892dcd95af0d090d1b2e226e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 16/47] fix: certificate equality compares attribute and
 extension lists as multisets, and absent lists as empty

---
 hgaa/attcert.py | 49 ++++++++++++-------------------------------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index be28805..04c5da2 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -671,6 +671,16 @@ class AttributeCertificate(object):
 
         return ac
 
+    @staticmethod
+    def _same_parts(parts, other_parts):
+        # The same parts the same number of times, in any order. An absent list is an empty one.
+        unmatched = list(other_parts or [])
+        for part in parts or []:
+            if part not in unmatched:
+                return False
+            unmatched.remove(part)
+        return len(unmatched) == 0
+
     def __eq__(self, other):
         # TODO: There is probably a much better way to code this function.
         if isinstance(other, AttributeCertificate) and self.issuer == other.issuer and self.holder == other.holder and \
@@ -691,42 +701,7 @@ class AttributeCertificate(object):
                 else:
                     return False
 
-            # TODO: Refactor this (poorly coded)
-            if self.att_set is None and other.att_set is None:
-                pass
-            elif len(self.att_set) == len(other.att_set):
-                for self_att in self.att_set:
-                    ok = False
-                    for other_att in other.att_set:
-                        if self_att.att_id == other_att.att_id:
-                            if self_att == other_att:
-                                ok = True
-                                break
-                            else:
-                                return False
-                    if not ok:
-                        return False
-            else:
-                return False
-
-            # TODO: Refactor this (poorly coded)
-            if self.extensions is None and other.extensions is None:
-                pass
-            elif len(self.extensions) == len(other.extensions):
-                for self_ext in self.extensions:
-                    ok = False
-                    for other_ext in other.extensions:
-                        if self_ext.eid == other_ext.eid:
-                            if self_ext == other_ext:
-                                ok = True
-                                break
-                            else:
-                                return False
-                    if not ok:
-                        return False
-            else:
-                return False
-
-            return True
+            return self._same_parts(self.att_set, other.att_set) and \
+                self._same_parts(self.extensions, other.extensions)
         else:
             return False
-- 
2.43.0


From adb0473ed24b45e99d58c587fe73bdd0eb64dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 17/47] fix: certificate equality includes the issuer's and the
 holder's name

---
 hgaa/attcert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 04c5da2..7571674 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -145,7 +145,7 @@ class ACIssuer(ACPart):
 
     def __eq__(self, other):
         return isinstance(other, ACPart) and self.pub_key == other.pub_key and self.key_algo == other.key_algo and \
-               self.uid == other.uid and self.url == other.url
+               self.uid == other.uid and self.name == other.name and self.url == other.url
 
 
 class ACHolder(ACPart):
@@ -204,7 +204,7 @@ class ACHolder(ACPart):
 
     def __eq__(self, other):
         return isinstance(other, ACPart) and self.pub_key == other.pub_key and self.key_algo == other.key_algo and \
-               self.uid == other.uid
+               self.uid == other.uid and self.name == other.name
 
 
 class ACAttribute(ACPart):
-- 
2.43.0


From 19117a2b9af01629554410854854198903fb482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 18/47] fix: a certificate with a malformed issuer key fails
 verification instead of raising

---
 hgaa/attcert.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 7571674..f0ebf19 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -599,11 +599,10 @@ class AttributeCertificate(object):
            self.issuer is None or self.issuer.pub_key is None or self.issuer.key_algo is None:
             return False
 
-        pub_key = RSA.import_key(self.issuer.pub_key)
-
         encoded = self._encode_body()
         sig_hash = SHA256.new(encoded)
         try:
+            pub_key = RSA.import_key(self.issuer.pub_key)
             pkcs1_15.new(pub_key).verify(sig_hash, self.signature.sig_value)
             return True
         except ValueError:
-- 
2.43.0


From 17ff106d08bdba7087b858a396ee1fac627c3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 19/47] fix: type checker infers an attribute's type from the
 attribute it is compared with instead of warning

---
 hgpl/semantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgpl/semantics.py b/hgpl/semantics.py
index e08d906..88dd380 100644
--- a/hgpl/semantics.py
+++ b/hgpl/semantics.py
@@ -53,10 +53,10 @@ class TypeChecker(object):
             right_symbol = self._symbols.lookup(right_name)
 
             if left_symbol and right_symbol:
-                if left_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
+                if left_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(left_symbol.name, right_symbol.type)
                     left_symbol.type = right_symbol.type
-                elif right_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
+                elif right_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(right_symbol.name, left_symbol.type)
                     right_symbol.type = left_symbol.type
                 elif left_symbol.type != right_symbol.type \
-- 
2.43.0


From 99ea642b08c729323867349c2f451e2cdafa28db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 20/47] fix: printing a symbol table no longer raises

---
 hgpl/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/symbols.py b/hgpl/symbols.py
index a5ec588..9be879c 100644
--- a/hgpl/symbols.py
+++ b/hgpl/symbols.py
@@ -204,7 +204,7 @@ class SymbolTable(object):
 
     def __str__(self):
         string = "Name\t\tSymbol Type\t\tValue\t\tAtt Type\n"
-        for s in self._symbols:
+        for s in self._symbols.values():
                 string += s.name.lower() + "\t\t" + s.type.name + "\t\t" + str(s.value) + "\t\t" + s.att_type.name + \
                           "\n"
 
-- 
2.43.0


From b2f0e51377004626c36c69dfb80df50df0bc8ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 21/47] fix: symbol table builder matches attribute types and
 prefixes case-insensitively, as policies do

---
 hgpl/symbols.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgpl/symbols.py b/hgpl/symbols.py
index 9be879c..3ae39b8 100644
--- a/hgpl/symbols.py
+++ b/hgpl/symbols.py
@@ -248,7 +248,7 @@ class SymbolTableBuilder(object):
 
     @staticmethod
     def _to_att_type_name(full_att_name):
-        return full_att_name.split('.',1)[0]
+        return full_att_name.split('.',1)[0].lower()
 
     @staticmethod
     def _to_att_name(full_att_name):
@@ -280,12 +280,13 @@ class SymbolTableBuilder(object):
 
     def build(self):
         st = SymbolTable()
+        types = {name.lower(): stype for name, stype in self.types.items()}
         x = {TokenType.USR_ATT:self.user_atts, TokenType.OBJ_ATT:self.object_atts, TokenType.ENV_ATT:self.env_atts,
              TokenType.ADM_ATT:self.admin_atts, TokenType.CON_ATT:self.connect_atts}
         for att_type in x:
             att_dict = x.get(att_type)
             for att_name in att_dict:
                 s = Symbol(att_name, att_type, None, att_dict.get(att_name))
-                s.type = self.types.get(s.name, SymbolType.UNKNOWN)
+                s.type = types.get(s.name, SymbolType.UNKNOWN)
                 st.define(s)
         return st
-- 
2.43.0


From 79cbfc3eb3c1182b7c9655a27b54d54fb3072279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 22/47] fix: weekday and month name connection attributes are
 named and timed (GMT) like the other time attributes

---
 hgaa/services/aauth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index d352664..2bf8104 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -260,14 +260,14 @@ class AttributeAuthority(object):
                                    'id': '/attribute/connection/con_time',
                                    'type': AttributeType.INT,
                                    'value': int(t)}
-        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekday',
-                                           'id': '/attribute/connection/con_time_weekday',
+        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekdayname',
+                                           'id': '/attribute/connection/con_time_weekdayname',
                                            'type': AttributeType.STRING,
-                                           'value': time.strftime('%A')}
+                                           'value': time.strftime('%A', st)}
         con_att_set['con_time_monthname'] = {'name': 'con_time_monthname',
                                              'id': '/attribute/connection/con_time_monthname',
                                              'type': AttributeType.STRING,
-                                             'value': time.strftime('%B')}
+                                             'value': time.strftime('%B', st)}
         con_att_set['con_time_month'] = {'name': 'con_time_month',
                                              'id': '/attribute/connection/con_time_month',
                                              'type': AttributeType.INT,
-- 
2.43.0


From 946b772f72d7866961496d7e68563b11427dc578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 23/47] fix: attribute requests from compressed and IPv4-mapped
 IPv6 addresses no longer fail

---
 hgaa/services/aauth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 2bf8104..87cacd6 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -7,6 +7,7 @@ from enum import Enum
 from Crypto.PublicKey import RSA
 import bcrypt
 import base64
+import ipaddress
 from logging import DEBUG
 import time
 import os
@@ -198,7 +199,7 @@ class AttributeAuthority(object):
 
         if 'REMOTE_ADDR' in exports:
             i = 0
-            if '.' in exports['REMOTE_ADDR']:
+            if '.' in exports['REMOTE_ADDR'] and ':' not in exports['REMOTE_ADDR']:
                 con_att_set['ip_v4'] = {'name': 'ip_v4',
                                         'id': '/attribute/connection/ip_v4',
                                         'type': AttributeType.BOOL,
@@ -225,7 +226,7 @@ class AttributeAuthority(object):
                                         'type': AttributeType.BOOL,
                                         'value': True}
 
-                hextets = exports['REMOTE_ADDR'].split(':')
+                hextets = ipaddress.IPv6Address(exports['REMOTE_ADDR'].split('%')[0]).exploded.split(':')
                 for hex in hextets:
                     con_att_set['remote_addr_v6_hex%d' % i] = {'name': 'remote_addr_v6_hex%d' % i,
                                                           'id': '/attribute/connection/remote_addr_v6_hex%d' % i,
-- 
2.43.0


From d1bd516a14a6ad82c94170ff4e1cd254015ec22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 24/47] fix: missing credentials are refused (no password used
 to match the password 'None')

---
 hgaa/services/aauth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 87cacd6..44b98f9 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -432,6 +432,11 @@ class AttributeAuthority(object):
         AttributeAuthority.LOG.info('Attribute request on AttributeAuthority from %s.' % exports['REMOTE_ADDR'])
 
         if credentials.type == CredentialType.USER_PASS.value:
+            if credentials.username is None or credentials.password is None:
+                AttributeAuthority.LOG.info('ClientFault: Missing username or password in attribute_request from %s'
+                                            % exports['REMOTE_ADDR'])
+                raise ClientFault('Invalid credentials.')
+
             s = self._db_session()
             user = s.query(User).filter(User.username == credentials.username.lower()).first()
             if user is None:
-- 
2.43.0


From 7bae90c7a093dfc80aa1816b70fa07efc480b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 25/47] fix: a certificate names its holder by the account's
 name, however the user typed it at login

---
 hgaa/services/aauth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 44b98f9..540f806 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -364,9 +364,9 @@ class AttributeAuthority(object):
 
         algo = '%s[%d]' % (user_public_key.key_algorithm.cipher, user_public_key.key_algorithm.key_size)
         holder = ACHolder(key_algo=algo,
-                          uid='%s/user/%s' % (self.a_uri, credentials.username),
+                          uid='%s/user/%s' % (self.a_uri, credentials.username.lower()),
                           pub_key=user_public_key.public_key,
-                          name=credentials.username)
+                          name=credentials.username.lower())
 
         rev_rules = ACRevocationRules(valid_before=info.issued + self.ac_expire_length,
                                       valid_after=info.issued,
-- 
2.43.0


From 766c184845e426e0d624ec76b57aa5b20153a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 26/47] fix: policy authority uses its own database, not the
 attribute authority's

---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 3cde23a..7955c98 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -125,7 +125,7 @@ class PolicyAuthority(object):
                                      'url': self.url})
 
         PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
-        self._db_session = get_session('AAUTH') # TODO: Need new session for each request?
+        self._db_session = get_session('PAUTH') # TODO: Need new session for each request?
 
     @ladonize(rtype=int)
     def simp(self):
-- 
2.43.0


From 8e84b200bd583728aa8ea62574cf59cde0b01a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 27/47] fix: stored certificate hash is of the certificate's
 bytes as received

---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 7955c98..1a96835 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -258,7 +258,7 @@ class PolicyAuthority(object):
 
                 processed_att_certs[b64_serial] = cert
 
-                cert_hash=base64.b64encode(SHA256.new(raw_cert.data_raw).digest()).decode('utf-8')
+                cert_hash=base64.b64encode(SHA256.new(raw_bytes).digest()).decode('utf-8')
 
 
                 has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
-- 
2.43.0


From 707a0200ff98b79b1fed4ef6f0242e880c759afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 28/47] fix: certificates must be signed with the trusted
 attribute authority's registered key, not any key claiming its uid

---
 hgaa/services/pauth.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 1a96835..ef30c5d 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -5,6 +5,7 @@ from ladon.types.attachment import attachment
 from ladon.exceptions.service import ClientFault, ServerFault
 from Crypto.Random.random import getrandbits
 from Crypto.Hash import SHA256
+from Crypto.PublicKey import RSA
 import time
 import base64
 
@@ -169,6 +170,12 @@ class PolicyAuthority(object):
 
         return pa_info
 
+    def _same_key(self, key, other_key):
+        try:
+            return RSA.import_key(key) == RSA.import_key(other_key)
+        except (ValueError, IndexError, TypeError):
+            return False
+
     def _check_cert(self, raw_cert, aauth_dict, exports, request):
         # TODO: Use request to switch between client and server fault, also customize error and log messages.
         if raw_cert.version != PolicyAuthority.AC_VERSION:
@@ -192,7 +199,7 @@ class PolicyAuthority(object):
 
             aauth_uid = cert.issuer.uid
             aauth = aauth_dict.get(aauth_uid, None)
-            if aauth is None or aauth.trust_level <= 0:
+            if aauth is None or aauth.trust_level <= 0 or not self._same_key(cert.issuer.pub_key, aauth.pub_key):
                 PolicyAuthority.LOG.error(
                     'ClientFault: aauth in ac is not trusted in request from %s'
                     % exports['REMOTE_ADDR'])
-- 
2.43.0


From 430f9e50a7da6946f41698f3a7a51da6b7ca9df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 29/47] fix: a certificate listed twice in a set starts a
 session instead of failing with a database error

---
 hgaa/services/pauth.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index ef30c5d..348802b 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -263,10 +263,18 @@ class PolicyAuthority(object):
                 b64_serial = self._int_to_b64(cert.info.serial, ACInformation.SERIAL_SIZE)
 
 
-                processed_att_certs[b64_serial] = cert
-
                 cert_hash=base64.b64encode(SHA256.new(raw_bytes).digest()).decode('utf-8')
 
+                if b64_serial in processed_att_certs:
+                    if processed_att_certs[b64_serial] != cert_hash:
+                        PolicyAuthority.LOG.error(
+                            'ClientFault: Different certs with serial %s in request from %s'
+                            % (b64_serial, exports['REMOTE_ADDR']))
+                        raise ClientFault('Certificate serial already in use.')
+                    continue
+
+                processed_att_certs[b64_serial] = cert_hash
+
 
                 has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
 
-- 
2.43.0


From 43286c8a6859c09867771d16b99a0724493462f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 30/47] fix: list the services, which the handler imports

---
 hgaa/services/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hgaa/services/__init__.py b/hgaa/services/__init__.py
index 73c0fe3..8bfbdb7 100644
--- a/hgaa/services/__init__.py
+++ b/hgaa/services/__init__.py
@@ -1 +1,4 @@
-ServiceList={'aauth': 'AttributeAuthority', 'pauth': 'PolicyAuthority'}
\ No newline at end of file
+ServiceList = {
+    'aauth': 'AttributeAuthority',
+    'pauth': 'PolicyAuthority'
+}
-- 
2.43.0


From 840c330ab7069d82ed65ca54de66b91595edc2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 31/47] fix: the database password is not written to the log

---
 hgaa/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index 4e10770..56b72e7 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -78,8 +78,8 @@ def get_engine(hgaa_name, parent_log=SERVICE_LOG):
             log.error('Database type ' + dbtype + ' is not supported.')
             return None
 
-        log.debug('Connection string: %s', connect)
         engine = create_engine(connect, echo=False, logging_name=log.name, pool_logging_name=log.name)
+        log.debug('Connection string: %r', engine.url)
         ACTIVE_ENGINES[hgaa_name] = engine
     return engine
 
-- 
2.43.0


From 337145fa5b2390ed9c0a6b9e00a871ac099e48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:30 +0000
Subject: [PATCH 32/47] fix: services give their database connections back
 after each request

---
 hgaa/services/aauth.py |  5 ++++-
 hgaa/services/pauth.py | 14 +++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 540f806..403bb08 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -428,6 +428,10 @@ class AttributeAuthority(object):
 
     @ladonize(Credentials, PublicKey, AttributeList, rtype=AttributeCertificateType)
     def attribute_request(self, credentials, user_public_key, attributes, **exports):
+        with self._db_session() as s:
+            return self._attribute_request(s, credentials, user_public_key, attributes, exports)
+
+    def _attribute_request(self, s, credentials, user_public_key, attributes, exports):
         t0 = time.time()
         AttributeAuthority.LOG.info('Attribute request on AttributeAuthority from %s.' % exports['REMOTE_ADDR'])
 
@@ -437,7 +441,6 @@ class AttributeAuthority(object):
                                             % exports['REMOTE_ADDR'])
                 raise ClientFault('Invalid credentials.')
 
-            s = self._db_session()
             user = s.query(User).filter(User.username == credentials.username.lower()).first()
             if user is None:
                 AttributeAuthority.LOG.info(
diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 348802b..3c74276 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -139,8 +139,8 @@ class PolicyAuthority(object):
         auth_list = AttributeAuthorityList()
         auth_list.attribute_authorities = []
 
-        s = self._db_session()
-        aauths = s.query(AttributeAuthority).all()
+        with self._db_session() as s:
+            aauths = s.query(AttributeAuthority).all()
 
         for aauth in aauths:
             aauth_info = AttributeAuthorityInfo()
@@ -220,9 +220,11 @@ class PolicyAuthority(object):
 
     @ladonize(PORTABLE_STRING, AttributeCertificateSet, rtype=SessionReturn)
     def start_session(self, service_uid, att_cert_set, **exports):
-        # TODO: Some check on service_uid and authentication of service
+        with self._db_session() as s:
+            return self._start_session(s, service_uid, att_cert_set, exports)
 
-        s = self._db_session()
+    def _start_session(self, s, service_uid, att_cert_set, exports):
+        # TODO: Some check on service_uid and authentication of service
 
         aauths = s.query(AttributeAuthority).all()
         aauth_dict = {}
@@ -318,8 +320,10 @@ class PolicyAuthority(object):
 
     @ladonize(int, PolicyObjectAttPair, rtype=EvaluationResult)
     def evaluate(self, session_id, policy_objatt_pair, **exports):
-        s = self._db_session()
+        with self._db_session() as s:
+            return self._evaluate(s, session_id, policy_objatt_pair, exports)
 
+    def _evaluate(self, s, session_id, policy_objatt_pair, exports):
         if policy_objatt_pair.policy_uid is None and policy_objatt_pair.policy_string is None:
             PolicyAuthority.LOG.error(
                 'ClientFault: Need to give policy uid or policy string in evaluate request from %s'
-- 
2.43.0


From 9dd8179f23d59231f9add1659f8d49ecb6d37418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:09 +0000
Subject: [PATCH 33/47] fix: database user, password and host are taken as
 configured, whatever characters they contain

---
 hgaa/database.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index 56b72e7..83fadf3 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -1,4 +1,5 @@
 from sqlalchemy import create_engine
+from sqlalchemy.engine import URL
 from sqlalchemy.orm import sessionmaker
 
 from hgaa.config import get_conf
@@ -67,9 +68,8 @@ def get_engine(hgaa_name, parent_log=SERVICE_LOG):
         log.info('Creating %s database engine for %s', dbtype, hgaa_name)
 
         if dbtype.upper() == 'MYSQL':
-            connect = 'mysql+mysqlconnector://{user}:{password}@{host}:{port}/{dbname}'.format(user=dbuser, password=dbpass,
-                                                                                     host=dbhost, dbname=dbname,
-                                                                                     port=dbport)
+            connect = URL.create('mysql+mysqlconnector', username=dbuser, password=dbpass, host=dbhost, port=int(dbport),
+                                 database=dbname)
         elif dbtype.upper() == 'SQLITE':
             connect = 'sqlite:///{dbname}.db'.format(dbname=dbname)
         elif dbtype.upper() == 'MEMORY':
-- 
2.43.0


From 58ed6ad166a0b550126fda55bd02916fdbd76a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:09 +0000
Subject: [PATCH 34/47] fix: an empty LOG_FILE means no log file instead of
 failing to start

---
 hgaa/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/log.py b/hgaa/log.py
index 81a00c8..7713b15 100644
--- a/hgaa/log.py
+++ b/hgaa/log.py
@@ -76,7 +76,7 @@ def make_logger(hgaa_name, service=True, parent=None):
 
     formatter = logging.Formatter(logformat, dateformat)
 
-    if logfile is not None and logfile.upper() != "NONE" and logfile.upper() != "FALSE":
+    if logfile is not None and logfile.upper() != "NONE" and logfile.upper() != "FALSE" and logfile != '':
         if clean.upper() == 'TRUE':
             handler = logging.FileHandler(logfile, mode='w')
         else:
-- 
2.43.0


From 078fd837b54beb4cc0cbb74d1a19153c1dbc03bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:53 +0000
Subject: [PATCH 35/47] fix: demo window turns the numbers of an edited set
 into strings

Editing a SET attribute made every member a string (and an empty set a set
of one empty string), so submitting {1, 2, 3} unchanged turned
'2 IN user.set' from TRUE to FALSE.
---
 hgpl/gui/demos.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hgpl/gui/demos.py b/hgpl/gui/demos.py
index 5042a3b..367f851 100644
--- a/hgpl/gui/demos.py
+++ b/hgpl/gui/demos.py
@@ -1,5 +1,6 @@
 from tkinter import *
 from tkinter import ttk
+from ast import literal_eval
 from copy import deepcopy
 
 from hgpl.symbols import SymbolType, SymbolTableBuilder
@@ -149,6 +150,15 @@ class LexerDemoFrame(Frame):
 
             self._att_tree.insert(parent_node, 'end', text=symbol.att_name, values=[symbol.type.name, symbol.value])
 
+    @staticmethod
+    def _literal(text, types):
+        # The constant that the text writes, or the text itself if it writes none of these types
+        try:
+            v = literal_eval(text.strip())
+        except Exception:
+            return text.strip()
+        return v if isinstance(v, types) else text.strip()
+
     def _update_att(self, item_id, value):
         item = self._att_tree.item(item_id)
         parentid = self._att_tree.parent(item_id)
@@ -162,7 +172,10 @@ class LexerDemoFrame(Frame):
             elif item['values'][0] == 'FLOAT':
                 v = float(value)
             elif item['values'][0] == 'SET':
-                v = {x.strip() for x in value.replace('{', '').replace('}', '').replace('\'', '').split(',')}
+                v = self._literal(value, (set, list))
+                if isinstance(v, str):
+                    v = {self._literal(x, (int, float, str))
+                         for x in value.replace('{', '').replace('}', '').split(',') if x.strip()}
             elif item['values'][0] == 'STRING':
                 v = str(value)
             elif item['values'][0] == 'BOOL':
-- 
2.43.0


From 82f3d1126520f78037fe35d83b6b02700baba0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:53 +0000
Subject: [PATCH 36/47] fix: demo window turns a true attribute false when it
 is submitted unchanged

A boolean attribute is shown as ASTResult.TRUE, which the edit dialog did
not read as true.
---
 hgpl/gui/demos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/gui/demos.py b/hgpl/gui/demos.py
index 367f851..236e80e 100644
--- a/hgpl/gui/demos.py
+++ b/hgpl/gui/demos.py
@@ -3,6 +3,7 @@ from tkinter import ttk
 from ast import literal_eval
 from copy import deepcopy
 
+from hgpl.ast import ASTResult
 from hgpl.symbols import SymbolType, SymbolTableBuilder
 from hgpl.lexing import TokenType, Lexer
 from hgpl.errors import HGPLError, ErrorType
@@ -179,7 +180,7 @@ class LexerDemoFrame(Frame):
             elif item['values'][0] == 'STRING':
                 v = str(value)
             elif item['values'][0] == 'BOOL':
-                if value.lower().strip() == 'true' or value.lower().strip() == 't' or value.lower().strip() == '1':
+                if value.lower().strip() in ('true', 't', '1', str(ASTResult.TRUE).lower()):
                     v = True
                 else:
                     v = False
-- 
2.43.0


From da7a29dd5485aad7aaf7e42d8245e370cb8bf381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 37/47] fix: a change of service that fails leaves the client
 half changed

update_service stored the new address and kind of client before connecting;
when that failed the client named the new service while still talking to the
old one.
---
 hgaa/clients/aauth.py | 21 ++++++++++++---------
 hgaa/clients/pauth.py | 21 ++++++++++++---------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/hgaa/clients/aauth.py b/hgaa/clients/aauth.py
index 34083f0..ad3d021 100644
--- a/hgaa/clients/aauth.py
+++ b/hgaa/clients/aauth.py
@@ -34,18 +34,21 @@ class AttributeAuthorityClient(object):
     def update_service(self, url=None, client_type=None):
         AttributeAuthorityClient.LOG.info('Updating service for change of url and/or client type.')
 
-        if url is not None:
-            self.service_desc = url
+        if url is None:
+            url = self.service_desc
 
-        if client_type is not None:
-            self.client_type = client_type
+        if client_type is None:
+            client_type = self.client_type
 
-        if self.client_type == 'JSONWSP':
-            AttributeAuthorityClient.LOG.info('Setting up JSONWSP client for service %s' % self.service_desc)
-            self.cli = JSONWSPClient(self.service_desc)
+        if client_type == 'JSONWSP':
+            AttributeAuthorityClient.LOG.info('Setting up JSONWSP client for service %s' % url)
+            self.cli = JSONWSPClient(url)
         else:
-            AttributeAuthorityClient.LOG.error('%s client type is not yet supported.' % self.client_type)
-            raise Exception('%s client type is not yet supported.' % self.client_type)
+            AttributeAuthorityClient.LOG.error('%s client type is not yet supported.' % client_type)
+            raise Exception('%s client type is not yet supported.' % client_type)
+
+        self.service_desc = url
+        self.client_type = client_type
 
     def info(self):
         AttributeAuthorityClient.LOG.info('Calling info method for service %s' % self.service_desc)
diff --git a/hgaa/clients/pauth.py b/hgaa/clients/pauth.py
index c478426..3398783 100644
--- a/hgaa/clients/pauth.py
+++ b/hgaa/clients/pauth.py
@@ -22,18 +22,21 @@ class PolicyAuthorityClient(object):
     def update_service(self, url=None, client_type=None):
         PolicyAuthorityClient.LOG.info('Updating service for change of url and/or client type.')
 
-        if url is not None:
-            self.service_desc = url
+        if url is None:
+            url = self.service_desc
 
-        if client_type is not None:
-            self.client_type = client_type
+        if client_type is None:
+            client_type = self.client_type
 
-        if self.client_type == 'JSONWSP':
-            PolicyAuthorityClient.LOG.info('Setting up JSONWSP client for service %s' % self.service_desc)
-            self.cli = JSONWSPClient(self.service_desc)
+        if client_type == 'JSONWSP':
+            PolicyAuthorityClient.LOG.info('Setting up JSONWSP client for service %s' % url)
+            self.cli = JSONWSPClient(url)
         else:
-            PolicyAuthorityClient.LOG.error('%s client type is not yet supported.' % self.client_type)
-            raise Exception('%s client type is not yet supported.' % self.client_type)
+            PolicyAuthorityClient.LOG.error('%s client type is not yet supported.' % client_type)
+            raise Exception('%s client type is not yet supported.' % client_type)
+
+        self.service_desc = url
+        self.client_type = client_type
 
     def info(self):
         PolicyAuthorityClient.LOG.info('Calling info method for service %s' % self.service_desc)
-- 
2.43.0


From 00a35ec744e8c65d01352ac7330cd64c514fd5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 38/47] fix: client demo does not show that a service cannot be
 reached

A failure to connect to a newly entered service escaped the handler, so the
answer of the previous service stayed on display.
---
 hgaa/clients/demos/aauth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgaa/clients/demos/aauth.py b/hgaa/clients/demos/aauth.py
index 57caed7..e8ac64c 100644
--- a/hgaa/clients/demos/aauth.py
+++ b/hgaa/clients/demos/aauth.py
@@ -322,9 +322,9 @@ class AAuthDemoFrame(Frame):
         self._service_att_id_list.delete(sel)
 
     def _command_info(self):
-        if self.aaclient.service_desc != self._service_sec_entry.get():
-            self.aaclient.update_service(url=self._service_sec_entry.get())
         try:
+            if self.aaclient.service_desc != self._service_sec_entry.get():
+                self.aaclient.update_service(url=self._service_sec_entry.get())
             result = pprint.pformat(self.aaclient.info())
         except Exception as e:
             result = e
@@ -335,8 +335,6 @@ class AAuthDemoFrame(Frame):
         self._result_text.config(state=DISABLED)
 
     def _command_ac(self):
-        if self.aaclient.service_desc != self._service_sec_entry.get():
-            self.aaclient.update_service(url=self._service_sec_entry.get())
         attribute_names = self._service_att_name_list.get(0, END)
         attribute_ids = self._service_att_id_list.get(0, END)
         self.aaclient.credentials = {'type': self._service_auth_type_combo.current(),
@@ -344,6 +342,8 @@ class AAuthDemoFrame(Frame):
                                      'password': self._service_pass_entry.get()}
 
         try:
+            if self.aaclient.service_desc != self._service_sec_entry.get():
+                self.aaclient.update_service(url=self._service_sec_entry.get())
             t0 = time.time()
             result = self.aaclient.attribute_request(attribute_names=attribute_names, attribute_ids=attribute_ids,
                                                      key=self.key)
-- 
2.43.0


From 79cf243979dc6f3239ff00abe25b5ba6f02f94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 39/47] fix: client demo shows a new certificate as verified
 because an older one was

The verification result stayed on display when another certificate was
received.
---
 hgaa/clients/demos/aauth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hgaa/clients/demos/aauth.py b/hgaa/clients/demos/aauth.py
index e8ac64c..4689ce6 100644
--- a/hgaa/clients/demos/aauth.py
+++ b/hgaa/clients/demos/aauth.py
@@ -377,6 +377,7 @@ class AAuthDemoFrame(Frame):
 
         self.raw_ac = attachment
         self.ac = AttributeCertificate.decode(bytearray(self.raw_ac))
+        self._ac_verify_label['text'] = 'Verified: Not Checked'
 
         self._result_text.config(state=NORMAL)
         self._result_text.delete('1.0', END)
-- 
2.43.0


From 3bf9a0091485bed3cbbc7762a0fa004d14a326d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:29 +0000
Subject: [PATCH 40/47] fix: client demo mixes an unreadable certificate with
 the one before it

The bytes (and key) were replaced before the certificate was decoded; when
that failed nothing was shown, and the bytes of the new one stood beside the
tree and verification of the old one.
---
 hgaa/clients/demos/aauth.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hgaa/clients/demos/aauth.py b/hgaa/clients/demos/aauth.py
index 4689ce6..918ee60 100644
--- a/hgaa/clients/demos/aauth.py
+++ b/hgaa/clients/demos/aauth.py
@@ -368,6 +368,15 @@ class AAuthDemoFrame(Frame):
                                                          key=self.key)
         result['data'].close()
 
+        try:
+            ac = AttributeCertificate.decode(bytearray(attachment))
+        except Exception as e:
+            self._result_text.config(state=NORMAL)
+            self._result_text.delete('1.0', END)
+            self._result_text.insert('1.0', 'Unreadable attribute certificate: %s' % e)
+            self._result_text.config(state=DISABLED)
+            return
+
         self.key = self.aaclient.last_key
         self._service_key_text.delete('1.0', END)
         self._service_key_text.insert('1.0', self.key.exportKey().decode('utf-8'))
@@ -376,7 +385,7 @@ class AAuthDemoFrame(Frame):
         att_hex = " ".join(att_hex[i:i + 2] for i in range(0, len(att_hex), 2))
 
         self.raw_ac = attachment
-        self.ac = AttributeCertificate.decode(bytearray(self.raw_ac))
+        self.ac = ac
         self._ac_verify_label['text'] = 'Verified: Not Checked'
 
         self._result_text.config(state=NORMAL)
-- 
2.43.0


From a7b4057c2179f9dca466eb149c330fe619872c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:14 +0000
Subject: [PATCH 41/47] fix: warnings about mistyped comparisons say where they
 are in the policy

---
 hgpl/interpreting.py | 48 ++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index e571d3d..94f1f8b 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -100,7 +100,7 @@ class Interpreter(object):
         else:
             return symbol.value
 
-    def _eq_op(self, lresult, rresult):
+    def _eq_op(self, node, lresult, rresult):
         tmp = lresult
         if isinstance(lresult, Symbol):
             lresult = self._symbol_to_val(lresult, rresult, 0)
@@ -120,14 +120,14 @@ class Interpreter(object):
            (isinstance(lresult, ASTNullVal) and isinstance(rresult, ASTNullVal)):
             return ASTResult.from_bool(lresult == rresult)
         else:
-            self._warn("Interpreter Warning, invalid type used in '=' or '!=' operation.", "eq_op", None, lresult,
+            self._warn("Interpreter Warning, invalid type used in '=' or '!=' operation.", "eq_op", node, lresult,
                        rresult)
             return ASTResult.UNDEF
 
-    def _neq_op(self, lresult, rresult):
-        return ASTResult.tri_not(self._eq_op(lresult, rresult))
+    def _neq_op(self, node, lresult, rresult):
+        return ASTResult.tri_not(self._eq_op(node, lresult, rresult))
 
-    def _gt_op(self, lresult, rresult):
+    def _gt_op(self, node, lresult, rresult):
         if isinstance(lresult, Symbol):
             lresult = lresult.value
 
@@ -137,10 +137,10 @@ class Interpreter(object):
         if isinstance(lresult, (int, float)) and isinstance(rresult, (int, float)):
             return ASTResult.from_bool(lresult > rresult)
         else:
-            self._warn("Interpreter Warning, invalid type used in '>' operation.", "qt_op", None, lresult, rresult)
+            self._warn("Interpreter Warning, invalid type used in '>' operation.", "qt_op", node, lresult, rresult)
             return ASTResult.UNDEF
 
-    def _lt_op(self, lresult, rresult):
+    def _lt_op(self, node, lresult, rresult):
         if isinstance(lresult, Symbol):
             lresult = lresult.value
 
@@ -150,10 +150,10 @@ class Interpreter(object):
         if isinstance(lresult, (int, float)) and isinstance(rresult, (int, float)):
             return ASTResult.from_bool(lresult < rresult)
         else:
-            self._warn("Interpreter Warning, invalid type used in '<' operation.", "lt_op", None, lresult, rresult)
+            self._warn("Interpreter Warning, invalid type used in '<' operation.", "lt_op", node, lresult, rresult)
             return ASTResult.UNDEF
 
-    def _gte_op(self, lresult, rresult):
+    def _gte_op(self, node, lresult, rresult):
         if isinstance(lresult, Symbol):
             lresult = lresult.value
 
@@ -163,10 +163,10 @@ class Interpreter(object):
         if isinstance(lresult, (int, float)) and isinstance(rresult, (int, float)):
             return ASTResult.from_bool(lresult >= rresult)
         else:
-            self._warn("Interpreter Warning, invalid type used in '>=' operation.", "gte_op", None, lresult, rresult)
+            self._warn("Interpreter Warning, invalid type used in '>=' operation.", "gte_op", node, lresult, rresult)
             return ASTResult.UNDEF
 
-    def _lte_op(self, lresult, rresult):
+    def _lte_op(self, node, lresult, rresult):
         if isinstance(lresult, Symbol):
             lresult = lresult.value
 
@@ -176,10 +176,10 @@ class Interpreter(object):
         if isinstance(lresult, (int, float)) and isinstance(rresult, (int, float)):
             return ASTResult.from_bool(lresult <= rresult)
         else:
-            self._warn("Interpreter Warning, invalid type used in '<=' operation.", "lte_op", None, lresult, rresult)
+            self._warn("Interpreter Warning, invalid type used in '<=' operation.", "lte_op", node, lresult, rresult)
             return ASTResult.UNDEF
 
-    def _in_op(self, lresult, rresult):
+    def _in_op(self, node, lresult, rresult):
         tmp = lresult
         if isinstance(lresult, Symbol):
             lresult = self._symbol_to_val(lresult, rresult, 1)
@@ -195,10 +195,10 @@ class Interpreter(object):
             elif isinstance(lresult, (set, list)):
                 return ASTResult.from_bool(any(x in lresult for x in rresult))
 
-        self._warn("Interpreter Warning, invalid type used in 'IN' operation.", "in_op", None, lresult, rresult)
+        self._warn("Interpreter Warning, invalid type used in 'IN' operation.", "in_op", node, lresult, rresult)
         return ASTResult.UNDEF
 
-    def _subset_op(self, lresult, rresult):
+    def _subset_op(self, node, lresult, rresult):
         tmp = lresult
         if isinstance(lresult, Symbol):
             lresult = self._symbol_to_val(lresult, rresult, 0)
@@ -213,7 +213,7 @@ class Interpreter(object):
         if isinstance(lresult, set) and isinstance(rresult, set):
             return ASTResult.from_bool(lresult.issubset(rresult))
         else:
-            self._warn("Interpreter Warning, invalid type used in 'SUBSET' operation.", "subset_op", None, lresult,
+            self._warn("Interpreter Warning, invalid type used in 'SUBSET' operation.", "subset_op", node, lresult,
                        rresult)
             return ASTResult.UNDEF
 
@@ -231,21 +231,21 @@ class Interpreter(object):
                 return
 
             if node.tvalue() == "=":
-                node.result = self._eq_op(lresult, rresult)
+                node.result = self._eq_op(node, lresult, rresult)
             elif node.tvalue() == "!=":
-                node.result = self._neq_op(lresult, rresult)
+                node.result = self._neq_op(node, lresult, rresult)
             elif node.tvalue() == ">":
-                node.result = self._gt_op(lresult, rresult)
+                node.result = self._gt_op(node, lresult, rresult)
             elif node.tvalue() == "<":
-                node.result = self._lt_op(lresult, rresult)
+                node.result = self._lt_op(node, lresult, rresult)
             elif node.tvalue() == ">=":
-                node.result = self._gte_op(lresult, rresult)
+                node.result = self._gte_op(node, lresult, rresult)
             elif node.tvalue() == "<=":
-                node.result = self._lte_op(lresult, rresult)
+                node.result = self._lte_op(node, lresult, rresult)
             elif node.tvalue().upper() == "IN":
-                node.result = self._in_op(lresult, rresult)
+                node.result = self._in_op(node, lresult, rresult)
             elif node.tvalue().upper() == "SUBSET":
-                node.result = self._subset_op(lresult, rresult)
+                node.result = self._subset_op(node, lresult, rresult)
             else:
                 self._error("Interpreter Error, invalid operation.", "evaluate_op_node", node)
         else:
-- 
2.43.0


From a69d210488f1848ee6cf6ff3b4d9281ea4dfd6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:41 +0000
Subject: [PATCH 42/47] fix: an attribute without a value is not certified as
 the text None

---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 403bb08..29655a5 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -381,7 +381,7 @@ class AttributeAuthority(object):
                         att_id=att.id,
                         att_type=att.type,
                         att_name=att.name,
-                        att_value=str(att.value)
+                        att_value=str(att.value) if att.value is not None else None
                     )
                 )
 
-- 
2.43.0


From 39fab509ef5e9f8eb520fa9afc91d43ef7a1dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:47 +0000
Subject: [PATCH 43/47] fix: populating with wipe_first lost the old rows when
 the new ones could not be added

---
 hgaa/database.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index 83fadf3..6bd05e5 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -34,8 +34,6 @@ def populate_db(hgaa_name, instances, wipe_first=False, use_test_db=False, paren
         for table in reversed(base.metadata.sorted_tables):
             log.debug('Wiping table %s.' % table.name)
             session.execute(table.delete())
-        log.debug('Committing wipe for %s.' % dbname)
-        session.commit()
         log.info('Wipe complete.')
 
     log.info('Adding all model instances to %s database.' % dbname)
-- 
2.43.0


From adc616ca33280263adfb38406a942d97692722c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:55 +0000
Subject: [PATCH 44/47] fix: a build command naming an unknown service built
 the services named before it

---
 hgaa/tools.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hgaa/tools.py b/hgaa/tools.py
index 4676182..2bb7440 100644
--- a/hgaa/tools.py
+++ b/hgaa/tools.py
@@ -16,23 +16,26 @@ CLIENT_TOOLS_LOG = make_logger('TOOLS', False, CLIENT_LOG)
 
 
 def build_database(services):
-    # TODO: Only run command if all services are valid.
     SERVICE_TOOLS_LOG.info('Building databases for services ' + ', '.join(services))
+    # Nothing is built unless all services are valid.
+    engines = []
     for s in services:
         base = schema.ServiceBases.get(s, None)
         if base is not None:
             engine = get_engine(s, SERVICE_TOOLS_LOG)
             if engine is not None:
-                SERVICE_TOOLS_LOG.debug('Creating all tables for service ' + s)
-                base.metadata.create_all(engine)
-                engine.dispose()
-                SERVICE_TOOLS_LOG.debug('Finished creating tables for service ' + s)
+                engines.append((s, base, engine))
             else:
                 SERVICE_TOOLS_LOG.error('Could not make engine for ' + s)
                 raise Exception('Could not make engine for ' + s)
         else:
             SERVICE_TOOLS_LOG.error('No service with name ' + s)
             raise Exception('No service with name ' + s)
+    for s, base, engine in engines:
+        SERVICE_TOOLS_LOG.debug('Creating all tables for service ' + s)
+        base.metadata.create_all(engine)
+        engine.dispose()
+        SERVICE_TOOLS_LOG.debug('Finished creating tables for service ' + s)
     SERVICE_TOOLS_LOG.info('Finished building databases.')
 
 
-- 
2.43.0


From 186a20882a5471c8e3f951551f53bc47aab9e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:55 +0000
Subject: [PATCH 45/47] fix: an unknown tools command ended as if it had
 succeeded

---
 hgaa/tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hgaa/tools.py b/hgaa/tools.py
index 2bb7440..ac427a1 100644
--- a/hgaa/tools.py
+++ b/hgaa/tools.py
@@ -131,4 +131,7 @@ if __name__ == "__main__":
             print("Need second argument giving number of attributes to generate.")
             raise Exception("Need number of attributes.")
         else:
-            gen_atts(int(sys.argv[2]))
\ No newline at end of file
+            gen_atts(int(sys.argv[2]))
+    else:
+        print('Unknown command: %s' % sys.argv[1])
+        raise Exception("Unknown command.")
-- 
2.43.0


From 48e5d5427aa98f6db8760a9ae9477d5d438dbe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 46/47] fix: a password too long for bcrypt told an existing
 account from an unknown one

---
 hgaa/services/aauth.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 29655a5..cc094d0 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -448,12 +448,20 @@ class AttributeAuthority(object):
                                                                                                exports['REMOTE_ADDR']))
                 raise ClientFault('Invalid credentials.')
 
-            if AttributeAuthority.LOG.isEnabledFor(DEBUG):
-                AttributeAuthority.LOG.debug('Hash for request is: %s' %
-                                             bcrypt.hashpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(),
-                                                           user.password.encode()))
-
-            if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
+            try:
+                if AttributeAuthority.LOG.isEnabledFor(DEBUG):
+                    AttributeAuthority.LOG.debug('Hash for request is: %s' %
+                                                 bcrypt.hashpw(('%s%s' % (credentials.password,
+                                                                          self.pass_pepper)).encode(),
+                                                               user.password.encode()))
+
+                valid = bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(),
+                                       user.password.encode())
+            except ValueError:
+                # Passwords bcrypt can not handle (too long, not encodable) are never right.
+                valid = False
+
+            if valid:
                 AttributeAuthority.LOG.info('Successful login by %s from %s.' % (credentials.username,
                                                                                  exports['REMOTE_ADDR']))
                 t1 = time.time()
-- 
2.43.0


From 4f0790ca3150f1cbe9b55dab97f2a79a4e6dc324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:36 +0000
Subject: [PATCH 47/47] fix: verifying a certificate with some malformed issuer
 keys ended in an IndexError

---
 hgaa/attcert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index f0ebf19..9741e45 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -605,7 +605,7 @@ class AttributeCertificate(object):
             pub_key = RSA.import_key(self.issuer.pub_key)
             pkcs1_15.new(pub_key).verify(sig_hash, self.signature.sig_value)
             return True
-        except ValueError:
+        except (ValueError, IndexError, TypeError):
             return False
 
     def _encode_body(self):
-- 
2.43.0

