From d206b78d3591dc0d1858a886a0d4f4f52612f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 01/25] fix: evaluate falsy constants and never reuse results
 of an earlier evaluation

Constants whose value is falsy (0, 0.0, "", FALSE, UNDEF) were rejected as invalid
nodes, and truthy results left by a previous evaluate() call were reused with a new
symbol table.
---
 hgpl/interpreting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 4750adf..94175be 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -1,5 +1,6 @@
 from hgpl.parsing import Parser
-from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ASTResult, ASTNullVal
+from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ValNode, BoolValNode, ASTResult, \
+    ASTNullVal
 from hgpl.symbols import SymbolTable, Symbol, SymbolType
 from hgpl.errors import InterpreterError, InterpreterWarning
 
@@ -257,8 +258,7 @@ class Interpreter(object):
 
     def _evaluate_node(self, node):
         for n in node.children():
-            if not n.result:
-                self._evaluate_node(n)
+            self._evaluate_node(n)
 
         if isinstance(node, AttNode):
             self._evaluate_att_node(node)
@@ -270,7 +270,7 @@ class Interpreter(object):
             self._evaluate_bool_op_node(node)
         elif isinstance(node, OpNode):
             self._evaluate_op_node(node)
-        else:
+        elif not isinstance(node, (ValNode, BoolValNode)):
             self._error("Interpreter Error, invalid node type.", "evaluate_node", node)
 
     def get_warnings(self):
-- 
2.43.0


From 5d63029b99650e40066b55cd8e4944e8898c43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 02/25] fix: accept 0, 0.0 and "" as members of a set constant

---
 hgpl/interpreting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 94175be..0cac1b4 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -250,7 +250,7 @@ class Interpreter(object):
     def _evaluate_set_node(self, node):
         node.result = []
         for n in node.children():
-            if n.result and isinstance(n.result, (int, float, str, ASTNullVal)):
+            if isinstance(n.result, (int, float, str, ASTNullVal)):
                     node.result.append(n.result)
             else:
                 self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_set_node",
-- 
2.43.0


From 23116b23c15c5a1d0297b744017e34762f5757a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 03/25] fix: evaluate() without a warning level no longer
 raises TypeError on warnings

---
 hgpl/interpreting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 0cac1b4..0b0acf0 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -285,7 +285,7 @@ class Interpreter(object):
         self._evaluate_node(self._ast)
 
         for warn in self._warnings:
-            if warn.type >= min_warn_level:
+            if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
 
         return self._ast.result
-- 
2.43.0


From 51553946f92aaafc7d9732f51783f1930b3d3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 04/25] fix: warnings of an earlier evaluate() call do not leak
 into the next one

---
 hgpl/interpreting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 0b0acf0..64f6c86 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -282,6 +282,7 @@ class Interpreter(object):
         else:
             self._symbols = SymbolTable()
 
+        self._warnings = []
         self._evaluate_node(self._ast)
 
         for warn in self._warnings:
-- 
2.43.0


From 9e9d1b54495513ed95f68f97ebd27185bc0ca837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 05/25] fix: compare attributes with set constants in '=' and
 '!='

A set constant evaluates to a list and an attribute to a set, so the comparison of
the two was always UNDEF.
---
 hgpl/interpreting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 64f6c86..8c51da9 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -108,13 +108,17 @@ class Interpreter(object):
         if isinstance(rresult, Symbol):
             rresult = self._symbol_to_val(rresult, tmp, 0)
 
+        if isinstance(lresult, list):
+            lresult = set(lresult)
+
+        if isinstance(rresult, list):
+            rresult = set(rresult)
+
         if (isinstance(lresult, (int, float)) and isinstance(rresult, (int, float))) or \
            (isinstance(lresult, str) and isinstance(rresult, str)) or \
            (isinstance(lresult, set) and isinstance(rresult, set)) or \
            (isinstance(lresult, ASTNullVal) and isinstance(rresult, ASTNullVal)):
             return ASTResult.from_bool(lresult == rresult)
-        elif isinstance(lresult, list) and isinstance(rresult, list):
-            return ASTResult.from_bool(set(lresult) == set(rresult))
         else:
             self._warn("Interpreter Warning, invalid type used in '=' or '!=' operation.", "eq_op", None, lresult,
                        rresult)
-- 
2.43.0


From 014c78c3a4acb42bc0fc8e08483a10d5bf6d02de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 06/25] fix: NULL can be a member of sets

ASTNullVal defined __eq__ without __hash__, so set operations on NULL raised TypeError.
---
 hgpl/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index db09155..857582d 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -267,6 +267,9 @@ class ASTNullVal(object):
     def __ne__(self, other):
         return not isinstance(other, ASTNullVal)
 
+    def __hash__(self):
+        return hash(ASTNullVal)
+
 
 class NullValNode(ValNode):
     def __init__(self, token):
-- 
2.43.0


From e55935e6fe75950673ec7a04f571addffb36ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 07/25] fix: report a policy ending in an attribute prefix as
 LexerError

---
 hgpl/lexing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 957997a..26ead7c 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -229,7 +229,8 @@ class Lexer(object):
             if self._peek() == ".":
                 self._advance()
                 self._advance()
-                if self._current_char.isalpha() or self._current_char.isdigit() or self._current_char == "_":
+                if self._current_char and (self._current_char.isalpha() or self._current_char.isdigit() or
+                                           self._current_char == "_"):
                     ident = self._id()
                     if prefix.lower() == "user":
                         token_type = TokenType.USR_ATT
-- 
2.43.0


From 2b145337eade4a249ca0ded740cbdb6a7b427f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 08/25] fix: report numbers that can not be converted as
 LexerError

---
 hgpl/lexing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 26ead7c..14c4b98 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -124,10 +124,14 @@ class Lexer(object):
                 raise LexerError("Syntax error encountered while reading floating point number. Found multiple '.'s in "
                                  "number.", self._policy_text, self._text_pos + 1, Token(TokenType.FLOAT, pos_at_start))
 
-        if ttype == TokenType.INT:
-            return Token(ttype, pos_at_start, int(numstring))
-        else:
-            return Token(ttype, pos_at_start, float(numstring))
+        try:
+            if ttype == TokenType.INT:
+                return Token(ttype, pos_at_start, int(numstring))
+            else:
+                return Token(ttype, pos_at_start, float(numstring))
+        except ValueError:
+            raise LexerError("Syntax error, '{}' is not a valid number.".format(numstring), self._policy_text,
+                             pos_at_start, Token(ttype, pos_at_start))
 
     def _string(self):
         # TODO: Update to V2
-- 
2.43.0


From b1f1c13302597075903b359fe4845c4af7b6735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 09/25] fix: looking past the last token is a ParserError, not
 an IndexError

---
 hgpl/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index 9ee53e1..a34ce3e 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -24,7 +24,7 @@ class Parser(object):
         return self._policy
 
     def _peek(self, i=1):
-        if self._pos + i > len(self._token_list):
+        if self._pos + i >= len(self._token_list):
             return None
         return self._token_list[self._pos + i]
 
-- 
2.43.0


From 01c559941abdf5e38f5316f6527be9d3584a1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 10/25] fix: a parser can be asked to parse more than once

---
 hgpl/parsing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index a34ce3e..476717f 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -192,7 +192,8 @@ class Parser(object):
         return node
 
     def parse(self):
-        # TODO: Reset if called 2nd time.
+        self._pos = 0
+        self._current_token = self._token_list[self._pos]
         self._eat(TokenType.START, "parse", "Syntax error, missing START token at beginning of token list.")
         result = self._policy_rule()
         self._eat(TokenType.END, "parse", "Syntax error, expected END token marking end of policy.")
-- 
2.43.0


From acda5bfa40965e4ecdceed9980e6e90210e851e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 11/25] fix: infer the type of an unknown attribute from the
 attribute it is compared with

---
 hgpl/semantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgpl/semantics.py b/hgpl/semantics.py
index e08d906..88dd380 100644
--- a/hgpl/semantics.py
+++ b/hgpl/semantics.py
@@ -53,10 +53,10 @@ class TypeChecker(object):
             right_symbol = self._symbols.lookup(right_name)
 
             if left_symbol and right_symbol:
-                if left_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
+                if left_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(left_symbol.name, right_symbol.type)
                     left_symbol.type = right_symbol.type
-                elif right_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
+                elif right_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(right_symbol.name, left_symbol.type)
                     right_symbol.type = left_symbol.type
                 elif left_symbol.type != right_symbol.type \
-- 
2.43.0


From 026456b56cc4e69e1e40e803d0430d6c115afccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 12/25] fix: a repeated type check does not report the same
 issues twice

---
 hgpl/semantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/semantics.py b/hgpl/semantics.py
index 88dd380..ea0dd79 100644
--- a/hgpl/semantics.py
+++ b/hgpl/semantics.py
@@ -229,7 +229,8 @@ class TypeChecker(object):
         return self._symbols
 
     def check(self, min_error_level=ErrorType.CRIT):
-        # TODO: Reset if called 2nd time.
+        self._symbols = SymbolTable()
+        self._issues = []
         self._scan_tree(self._ast)
         self._checked = True
 
-- 
2.43.0


From 1d467d8406419a4c76af22a12ecf057b602b38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:28 +0000
Subject: [PATCH 13/25] fix: encode float constants without losing precision

Floats were packed as 32 bit, so most constants decoded to a different value and
large ones could not be encoded. 32 bit floats are still decoded.
---
 hgpl/ast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 857582d..9f88d26 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -339,8 +339,8 @@ class ASTEncoder(object):
             tval_size = 4
             tval = node.tvalue()
         elif node.ttype() == TokenType.FLOAT:
-            tval_format = 'f'
-            tval_size = 4
+            tval_format = 'd'
+            tval_size = 8
             tval = node.tvalue()
         #elif node.ttype() == TokenType.BOOL:
         #    tval_format = 'B'
@@ -425,7 +425,7 @@ class ASTEncoder(object):
                 if token_type == TokenType.INT.value:
                     tval_format = 'i'
                 elif token_type == TokenType.FLOAT.value:
-                    tval_format = 'f'
+                    tval_format = 'f' if token_val_size == 4 else 'd'
                 #elif token_type == TokenType.BOOL.value:
                 #    tval_format = 'B'
                 else:
-- 
2.43.0


From c0472c77639da5d3410b27b96d0a3ba2bd02b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:28 +0000
Subject: [PATCH 14/25] fix: count bytes, not characters, when encoding token
 values

---
 hgpl/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 9f88d26..2fbc455 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -352,9 +352,9 @@ class ASTEncoder(object):
                 tval_size = 0
                 tval = None
             elif isinstance(node.tvalue(), str):
-                tval_size = len(node.tvalue())
-                tval_format = str(tval_size) + 's'
                 tval = bytes(node.tvalue(), 'utf-8')
+                tval_size = len(tval)
+                tval_format = str(tval_size) + 's'
             else:
                 print(node.tvalue())
                 print(node.tvalue().__class__.__name__)
-- 
2.43.0


From 90c3433db0328e047866093daa41507c2a7e96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:28 +0000
Subject: [PATCH 15/25] fix: decode the empty string constant as an empty
 string

---
 hgpl/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 2fbc455..e688f9f 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -438,6 +438,8 @@ class ASTEncoder(object):
                     token_val = token_val.decode('utf-8')
 
                 byte_count += token_val_size
+            elif token_type == TokenType.STRING.value:
+                token_val = ""
             else:
                 token_val = None
 
-- 
2.43.0


From 37c9933857e9243da5917d261d2164e06a70cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:28 +0000
Subject: [PATCH 16/25] fix: count bytes, not characters, in the length fields
 of attribute certificates

Non-ASCII text was cut off when a certificate was encoded, so that it (and what was
signed) did not carry the whole name, uid or attribute value.
---
 hgaa/attcert.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 6b13e75..1144fc5 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -100,16 +100,16 @@ class ACIssuer(ACPart):
 
     def encode(self):
         pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
+        key_algo_size = len(self.key_algo.encode('utf-8'))
+        uid_size = len(self.uid.encode('utf-8'))
 
         if self.name is not None:
-            name_size = len(self.name)
+            name_size = len(self.name.encode('utf-8'))
         else:
             name_size = 0
 
         if self.url is not None:
-            url_size = len(self.url)
+            url_size = len(self.url.encode('utf-8'))
         else:
             url_size = 0
 
@@ -166,11 +166,11 @@ class ACHolder(ACPart):
 
     def encode(self):
         pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
+        key_algo_size = len(self.key_algo.encode('utf-8'))
+        uid_size = len(self.uid.encode('utf-8'))
 
         if self.name is not None:
-            name_size = len(self.name)
+            name_size = len(self.name.encode('utf-8'))
         else:
             name_size = 0
 
@@ -232,9 +232,9 @@ class ACAttribute(ACPart):
         return output
 
     def encode(self):
-        att_id_size = len(self.att_id)
-        att_value_size = len(self.att_value) if self.att_value is not None else 0
-        att_name_size = len(self.att_name) if self.att_name is not None else 0
+        att_id_size = len(self.att_id.encode('utf-8'))
+        att_value_size = len(self.att_value.encode('utf-8')) if self.att_value is not None else 0
+        att_name_size = len(self.att_name.encode('utf-8')) if self.att_name is not None else 0
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         att_id = self.att_id.encode('utf-8')
         att_value = self.att_value.encode('utf-8') if self.att_value is not None else b''
@@ -307,7 +307,7 @@ class ACRevocationRules(ACPart):
         return output
 
     def encode(self):
-        url_size = len(self.url) if self.url is not None else 0
+        url_size = len(self.url.encode('utf-8')) if self.url is not None else 0
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         url = self.url.encode('utf-8') if self.url is not None else b''
 
@@ -386,7 +386,7 @@ class ACExtensions(ACPart):
         return output
 
     def encode(self):
-        eid_size = len(self.eid)
+        eid_size = len(self.eid.encode('utf-8'))
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         eid = self.eid.encode('utf-8')
 
@@ -430,7 +430,7 @@ class ACSignature(ACPart):
         return output
 
     def encode(self):
-        algo_size = len(self.sig_algo)
+        algo_size = len(self.sig_algo.encode('utf-8'))
         value_size = len(self.sig_value)
         algo = self.sig_algo.encode('utf-8')
 
-- 
2.43.0


From ff94c2945bc24a672d55c1be9a1420402cdf96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:28 +0000
Subject: [PATCH 17/25] fix: comparing certificates of which one has no
 attributes or extensions does not raise

---
 hgaa/attcert.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 1144fc5..44d2d42 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -690,8 +690,10 @@ class AttributeCertificate(object):
                     return False
 
             # TODO: Refactor this (poorly coded)
-            if self.att_set is None and other.att_set is None:
+            if not self.att_set and not other.att_set:
                 pass
+            elif not self.att_set or not other.att_set:
+                return False
             elif len(self.att_set) == len(other.att_set):
                 for self_att in self.att_set:
                     ok = False
@@ -708,8 +710,10 @@ class AttributeCertificate(object):
                 return False
 
             # TODO: Refactor this (poorly coded)
-            if self.extensions is None and other.extensions is None:
+            if not self.extensions and not other.extensions:
                 pass
+            elif not self.extensions or not other.extensions:
+                return False
             elif len(self.extensions) == len(other.extensions):
                 for self_ext in self.extensions:
                     ok = False
-- 
2.43.0


From a70d3e204aeb70ceada9a0daadf495ffa21ce9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:48 +0000
Subject: [PATCH 18/25] fix: only accept certificates signed with the
 registered key of their authority

The signature was checked against the key in the certificate only, so anyone could
issue certificates in the name of a trusted attribute authority.
---
 hgaa/services/pauth.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 3cde23a..21d412d 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -5,6 +5,7 @@ from ladon.types.attachment import attachment
 from ladon.exceptions.service import ClientFault, ServerFault
 from Crypto.Random.random import getrandbits
 from Crypto.Hash import SHA256
+from Crypto.PublicKey import RSA
 import time
 import base64
 
@@ -198,6 +199,12 @@ class PolicyAuthority(object):
                     % exports['REMOTE_ADDR'])
                 raise ClientFault('An attribute authority in an attribute certificate in your certificate '
                                   'set is not trusted.')
+            elif not self._same_key(cert.issuer.pub_key, aauth.pub_key):
+                PolicyAuthority.LOG.error(
+                    'ClientFault: ac is not signed with the key of its aauth in request from %s'
+                    % exports['REMOTE_ADDR'])
+                raise ClientFault('An attribute certificate in your certificate set is not signed with the key of its '
+                                  'attribute authority.')
             elif not cert.verify_time():
                 PolicyAuthority.LOG.error(
                     'ClientFault: ac is expired in evaluate from %s'
@@ -207,6 +214,12 @@ class PolicyAuthority(object):
 
             return cert
 
+    def _same_key(self, key, trusted_key):
+        try:
+            return RSA.import_key(key) == RSA.import_key(trusted_key)
+        except (ValueError, IndexError, TypeError):
+            return False
+
     def _int_to_b64(self, n, size):
         bytes = n.to_bytes(int(size / 8), 'little')
         return base64.b64encode(bytes).decode('utf-8')
-- 
2.43.0


From 06171346120a50915e6f7cefee10af14fe6aa2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:48 +0000
Subject: [PATCH 19/25] fix: hash the received certificate, not the buffer
 emptied by decoding it

The hash of every binary certificate was that of the empty string, so a second
certificate with the serial of a stored one was not noticed.
---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 21d412d..ce0b871 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -271,7 +271,7 @@ class PolicyAuthority(object):
 
                 processed_att_certs[b64_serial] = cert
 
-                cert_hash=base64.b64encode(SHA256.new(raw_cert.data_raw).digest()).decode('utf-8')
+                cert_hash=base64.b64encode(SHA256.new(raw_bytes).digest()).decode('utf-8')
 
 
                 has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
-- 
2.43.0


From f71c9c5f175f511ba5975ac0e72c0d0215530ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:48 +0000
Subject: [PATCH 20/25] fix: import BASE64FULL certificates given as bytes

The policy authority hands the attachment to import_ac as bytes, so it refused every
certificate in this format.
---
 hgaa/attcert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 44d2d42..9805a79 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -539,6 +539,8 @@ class AttributeCertificate(object):
             # TODO: Support TEXT format import.
             raise Exception('TEXT import not yet supported.')
         elif format == ExportFormat.BASE64FULL:
+            if isinstance(input, (bytes, bytearray)):
+                input = input.decode('utf-8')
             parts = input.split('\n')
             # TODO: Check that all parts are valid/right version.
             return AttributeCertificate.import_ac(parts[3], ExportFormat.BASE64, verify)
-- 
2.43.0


From 2571da8846729b9a44bc3222e73b06a01effee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:48 +0000
Subject: [PATCH 21/25] fix: do not issue the text 'None' for attributes
 without a value

---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index d352664..e737216 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -380,7 +380,7 @@ class AttributeAuthority(object):
                         att_id=att.id,
                         att_type=att.type,
                         att_name=att.name,
-                        att_value=str(att.value)
+                        att_value=None if att.value is None else str(att.value)
                     )
                 )
 
-- 
2.43.0


From 365f8ed12c2012375eebb3e0ac52a83c9cb06c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:48 +0000
Subject: [PATCH 22/25] fix: name of weekday and month describe the connection
 time in GMT

The name of the weekday was issued under the id of its number, and both names in
local time.
---
 hgaa/services/aauth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index e737216..7c803ab 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -260,14 +260,14 @@ class AttributeAuthority(object):
                                    'id': '/attribute/connection/con_time',
                                    'type': AttributeType.INT,
                                    'value': int(t)}
-        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekday',
-                                           'id': '/attribute/connection/con_time_weekday',
+        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekdayname',
+                                           'id': '/attribute/connection/con_time_weekdayname',
                                            'type': AttributeType.STRING,
-                                           'value': time.strftime('%A')}
+                                           'value': time.strftime('%A', st)}
         con_att_set['con_time_monthname'] = {'name': 'con_time_monthname',
                                              'id': '/attribute/connection/con_time_monthname',
                                              'type': AttributeType.STRING,
-                                             'value': time.strftime('%B')}
+                                             'value': time.strftime('%B', st)}
         con_att_set['con_time_month'] = {'name': 'con_time_month',
                                              'id': '/attribute/connection/con_time_month',
                                              'type': AttributeType.INT,
-- 
2.43.0


From f4b0e140383c78a82786aeb42960da8052a68a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:48 +0000
Subject: [PATCH 23/25] fix: the holder uid does not depend on how the user
 name was capitalised

Users are looked up case-insensitively, but the uid carried the name as typed.
---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 7c803ab..0f37e0b 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -363,7 +363,7 @@ class AttributeAuthority(object):
 
         algo = '%s[%d]' % (user_public_key.key_algorithm.cipher, user_public_key.key_algorithm.key_size)
         holder = ACHolder(key_algo=algo,
-                          uid='%s/user/%s' % (self.a_uri, credentials.username),
+                          uid='%s/user/%s' % (self.a_uri, credentials.username.lower()),
                           pub_key=user_public_key.public_key,
                           name=credentials.username)
 
-- 
2.43.0


From de7b15e47be48b3a0112a87dd7f4f19578d4907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:48 +0000
Subject: [PATCH 24/25] fix: read the revocation URL from the documented
 REV_URL setting

---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 0f37e0b..42b4887 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -92,7 +92,7 @@ class AttributeAuthority(object):
         self.aauth_id = get_conf('AAUTH_ID', True, 'AAUTH')
         # TODO: a_uri should be renamed to uid
         self.a_uri = get_conf('A_URI', True, 'AAUTH')
-        self.rev_url = get_conf('REV_URI', True, 'AAUTH')
+        self.rev_url = get_conf('REV_URL', True, 'AAUTH')
 
         # TODO: Make sure these URLs are being generated correctly in all environments
         host = get_conf('SERVICE_HOST', True, 'LADON')
-- 
2.43.0


From 166a591c3af7babdf67edc4ed58f280eb5ca8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:52 +0000
Subject: [PATCH 25/25] fix: refuse unknown certificate formats in
 start_session with a client fault

---
 hgaa/services/pauth.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index ce0b871..7c453b1 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -256,7 +256,13 @@ class PolicyAuthority(object):
         for raw_cert in att_cert_set.attribute_certificates:
             raw_bytes = raw_cert.data.read()
             raw_cert.data_raw = bytearray(raw_bytes)
-            raw_cert.format = ExportFormat(raw_cert.format)
+            try:
+                raw_cert.format = ExportFormat(raw_cert.format)
+            except ValueError:
+                PolicyAuthority.LOG.error(
+                    'ClientFault: Invalid ac format in request from %s'
+                    % exports['REMOTE_ADDR'])
+                raise ClientFault('Unsupported attribute certificate format in certificate set.')
 
             cert = self._check_cert(raw_cert, aauth_dict, exports, 'start_session')
             if cert is not None:
-- 
2.43.0

