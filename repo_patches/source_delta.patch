From d393382ddccc713da3dfd0205df1f8476f5bac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 01/71] fix: unterminated '[[' outside of a string hung the
 preprocessor

---
 pico_preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 1194164..3341ee5 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -38,7 +38,8 @@ def preprocess_code(path, code, start_line=0, **opts):
                     i += 1
 
         elif ch == '[' and list_get(code, i + 1) == '[': # long string
-            skip_long_brackets()
+            if not skip_long_brackets():
+                i += 1
 
         elif ch in ('"', "'"): # string
             i += 1
-- 
2.43.0


From a069491e5a251d4c9fee1f8c36a6dec49e5f3353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 02/71] fix: constant folding recursed endlessly on shifts by
 the minimum number

---
 pico_constfold.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 7699120..05cfec2 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -289,13 +289,15 @@ def lua_bin_xor(lang, a, b):
 def lua_shl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
-            if not fixnum_is_negative(a.value): # avoid relying on questionable shift-left-neg-by-neg behaviour
+            if not fixnum_is_negative(a.value) and b.value != 0x80000000: # avoid relying on questionable shift-left-neg-by-neg behaviour
                 return lua_lshr(lang, a, lua_neg(lang, b))
         elif fixnum_is_whole(b.value): # avoid relying on shift-by-fract behaviour
             return LuaFixnum(a.value << min(fixnum_to_whole(b.value), 32))
     
     elif a.is_integer_cvt and b.is_integer_cvt:
-        if b.value < 0:
+        if b.value == -0x8000000000000000: # (is its own negation)
+            return None
+        elif b.value < 0:
             return lua_shr(lang, a, lua_neg(lang, b))
         else:
             return LuaInteger(a.uint_value << min(b.uint_value, 64))
@@ -323,7 +325,9 @@ def lua_lshr(lang, a, b):
 
 def lua_rotl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
-        if fixnum_is_negative(b.value):
+        if b.value == 0x80000000: # (is its own negation)
+            return None
+        elif fixnum_is_negative(b.value):
             return lua_rotr(lang, a, lua_neg(lang, b))
         elif fixnum_is_whole(b.value):
             return LuaFixnum(rotate_left(a.value, fixnum_to_whole(b.value), 32))
-- 
2.43.0


From 66c2b6ae47180e1e95d8c25213420cca0c22a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 03/71] fix: minus/divide before a kept comment was swallowed
 by the comment

---
 pico_output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index d02e13c..6ee693d 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -258,7 +258,8 @@ def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, lon
 
 def need_whitespace_between(ctxt, prev, next):
     if isinstance(prev, Comment) or isinstance(next, Comment):
-        return False
+        # (e.g. a minus/divide before a comment would otherwise become part of the comment)
+        return isinstance(next, Comment) and prev.value != None and prev.value[-1:] == next.value[0]
 
     combined = prev.value + next.value
     ct, ce = tokenize(Source("<output>", combined), lang=ctxt.lang) # TODO: optimize?
-- 
2.43.0


From 2a39f0c9605e2c3930056cc65f828cdc1228fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 04/71] fix: shorthand if/while whose body got emptied was
 output without a body

---
 pico_constfold.py | 10 +++++++++-
 pico_minify.py    |  8 ++++----
 pico_parse.py     |  2 ++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 05cfec2..34d1cc6 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -1,7 +1,7 @@
 from utils import *
 from pico_defs import *
 from pico_tokenize import Token, TokenType, ConstToken, k_skip_children, tokenize, KeepCommentFlags
-from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr
+from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr, is_short_block_stmt
 from pico_output import format_fixnum, format_luanum
 
 class LuaType(Enum):
@@ -745,6 +745,14 @@ def fold_consts(ctxt, minify_opts, root, errors):
 
     root.traverse_nodes(pre=skip_special, post=update_node_constval)
 
+    def fixup_empty_shorthands(node):
+        if is_short_block_stmt(node):
+            body = node.then if node.type == NodeType.if_ else node.body
+            if not body.get_tokens(): # (everything got folded away)
+                body.append_token(TokenType.punct, ";")
+
+    root.traverse_nodes(post=fixup_empty_shorthands)
+
 def parse_constant(value, lang, as_str=False):
     if as_str:
         return LuaString(to_langstr(value, lang))
diff --git a/pico_minify.py b/pico_minify.py
index 26f09c3..b9887c0 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -3,7 +3,7 @@ from pico_defs import fixnum_is_negative, float_is_negative, Language
 from pico_tokenize import Token, TokenType, StopTraverse, k_skip_children
 from pico_parse import Node, NodeType, VarKind
 from pico_parse import k_unary_ops_prec, get_precedence, is_right_assoc, can_replace_with_unary
-from pico_parse import is_vararg_expr, is_short_block_stmt, is_root_global_or_builtin_local
+from pico_parse import is_vararg_expr, is_short_block_stmt, is_empty_block, is_root_global_or_builtin_local
 from pico_output import format_luanum, format_fixnum, format_string_literal
 
 class Focus(Bitmask):
@@ -98,7 +98,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     if not allow_child_shorthands(node, body):
                         allow_shorthand = False
                     
-                    if not body.children:
+                    if is_empty_block(body):
                         has_empties = True
                     
                     if i == 0:
@@ -173,7 +173,7 @@ def minify_change_block_shorthand(node, new_short):
 
         # fixup empty bodies
         for body in get_node_bodies(node):
-            if not body.children:
+            if not body.get_tokens():
                 body.append_token(TokenType.punct, ";")
         
         on_enable_shorthand(node)
@@ -445,7 +445,7 @@ def minify_code(ctxt, root, minify_opts):
 
             if token.value == ";" and token.parent.type == NodeType.block and token.next_token().value != "(":
                 gparent = token.parent.parent
-                if not (gparent and is_short_block_stmt(gparent) and not token.parent.stmts):
+                if not (gparent and is_short_block_stmt(gparent) and is_empty_block(token.parent)):
                     token.erase()
                     return
 
diff --git a/pico_parse.py b/pico_parse.py
index 4d0f0e3..e9e12d3 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -1084,6 +1084,8 @@ def is_vararg_expr(node):
     return node.type in (NodeType.call, NodeType.varargs)
 def is_short_block_stmt(node):
     return node.short and node.type in (NodeType.if_, NodeType.else_, NodeType.while_)
+def is_empty_block(block):
+    return all(token.value == ";" for token in block.get_tokens())
 def is_function_stmt(node):
     return node.type == NodeType.function and node.target
 
-- 
2.43.0


From f6e45975080c2d5bfc1f643769d75b80090a0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 05/71] fix: constant folding could merge a statement with a
 following parenthesized statement

---
 pico_constfold.py | 49 ++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 34d1cc6..c5a451c 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -476,28 +476,22 @@ def set_const(node, value, ctxt, focus, force):
 
     node.replace_with(create_const_node(token))
 
-def fixup_syntax_between(parent, prev, next):
-    nextt = next.first_token()
-    if nextt and nextt.value == "(":
-        prevt = prev.last_token()
-        if prevt.value in (")", "]") or prevt.type == TokenType.ident:
-            i = parent.children.index(prev)
-            parent.insert_token(i+1, TokenType.punct, ";", near_next=True)
-
-def fixup_syntax_after_remove(stmt):
-    # after removing stmt (or even just part of stmt), extra semicolons may need to be inserted
-    parent = stmt.parent
-    if parent.type == NodeType.block:
-        stmt_n = len(parent.stmts)
-        stmt_i = parent.stmts.index(stmt)
-        if stmt.type is None:
-            if 0 < stmt_i < stmt_n - 1:
-                fixup_syntax_between(parent, parent.stmts[stmt_i-1], parent.stmts[stmt_i+1])
-        else:
-            if stmt_i > 0:
-                fixup_syntax_between(parent, parent.stmts[stmt_i-1], stmt)
-            if stmt_i < stmt_n - 1:
-                fixup_syntax_between(parent, stmt, parent.stmts[stmt_i+1])
+def fixup_syntax_before(stmt):
+    # after folding, extra semicolons may be needed to avoid merging stmt into the statement that now precedes it
+    block = stmt.parent
+    while block.parent and block.parent.type == NodeType.block: # (inlined block)
+        block = block.parent
+
+    prevt = stmt.prev_token()
+    prev_parents = []
+    prevt.traverse_parents(prev_parents.append)
+    if block in prev_parents:
+        may_merge = prevt.value in (")", "]") or prevt.type == TokenType.ident
+        if not may_merge: # arguments without parens?
+            may_merge = any(node.type == NodeType.call and node.last_token() is prevt
+                            for node in prev_parents[:prev_parents.index(block)])
+        if may_merge:
+            stmt.parent.insert_token(stmt.parent.children.index(stmt), TokenType.punct, ";", near_next=True)
 
 def erase_assign_targets(node, indices):
     if len(node.targets) < len(node.sources) and len(indices) == len(node.targets):
@@ -530,8 +524,6 @@ def erase_assign_targets(node, indices):
         node.append_existing(node.sources[-1])
     else:
         assert node.targets # due to the pop above
-    
-    fixup_syntax_after_remove(node)
 
 def create_const_node(token):
     return Node(NodeType.const, [token], token=token)
@@ -745,13 +737,18 @@ def fold_consts(ctxt, minify_opts, root, errors):
 
     root.traverse_nodes(pre=skip_special, post=update_node_constval)
 
-    def fixup_empty_shorthands(node):
+    def fixup_syntax(node):
         if is_short_block_stmt(node):
             body = node.then if node.type == NodeType.if_ else node.body
             if not body.get_tokens(): # (everything got folded away)
                 body.append_token(TokenType.punct, ";")
 
-    root.traverse_nodes(post=fixup_empty_shorthands)
+        elif node.type == NodeType.block:
+            for stmt in node.stmts:
+                if stmt.children and stmt.first_token().value == "(":
+                    fixup_syntax_before(stmt)
+
+    root.traverse_nodes(post=fixup_syntax)
 
 def parse_constant(value, lang, as_str=False):
     if as_str:
-- 
2.43.0


From d049dd50909dabcd1fe9e57a7004d9f81b2799a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 06/71] fix: shorthands were parsed past the end of their line
 when followed by a parenthesis

---
 pico_parse.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pico_parse.py b/pico_parse.py
index e9e12d3..0f0d67e 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -305,6 +305,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
     scope = Scope(None, depth, funcdepth)
     labelscope = LabelScope(None, funcdepth)
     curr_compiler = None
+    short_vline = None # line of the shorthand being parsed, if any
     unresolved_labels = None
     errors = []
     if lang is None:
@@ -641,6 +642,10 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
     def compare_prec(op, prec):
         return (prec == None) or ((prec <= k_binary_op_precs[op]) if op in k_right_binary_ops else (prec < k_binary_op_precs[op]))
 
+    def is_after_shorthand(token):
+        # shorthands end at the end of their line
+        return e(short_vline) and token.vline > short_vline and peek(-2).vline == short_vline
+
     def parse_expr(prec=None):
         expr = parse_core_expr()
         while True:
@@ -654,7 +659,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
                 index = parse_expr()
                 close = require("]")
                 expr = Node(NodeType.index, [expr, token, index, close], key=index, child=expr)
-            elif value == "(" and expr.type in k_prefix_types:
+            elif value == "(" and expr.type in k_prefix_types and not is_after_shorthand(token):
                 expr = parse_call(expr)
             elif (value == "{" or peek(-1).type == TokenType.string) and expr.type in k_prefix_types:
                 idx -= 1
@@ -832,8 +837,11 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return Node(NodeType.return_, tokens, items=rets)
         
     def parse_print():
+        nonlocal short_vline
         tokens = [peek(-1)]
+        old_short_vline, short_vline = short_vline, tokens[0].vline
         args = parse_list(tokens, parse_expr)
+        short_vline = old_short_vline
         # explicitly represent the implicit use of print
         print_token = Token.synthetic(TokenType.ident, "print", tokens[0])
         func = parse_var(token=print_token, implicit=True)
@@ -955,7 +963,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return parse_misc_stmt()
 
     def parse_block(vline=None, with_until=False, inline=False):
-        nonlocal scope, labelscope, depth
+        nonlocal scope, labelscope, depth, short_vline
+        old_short_vline, short_vline = short_vline, vline
         if not inline:
             oldscope = scope
             labelscope = LabelScope(labelscope, funcdepth)
@@ -980,6 +989,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         if with_until:
             until = parse_until()
 
+        short_vline = old_short_vline
+
         if not inline:
             depth -= 1
             labelscope = labelscope.parent
-- 
2.43.0


From fe6612bc9c5f495c16c5bc076e9a7b666e9afe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 07/71] fix: constant folding of and/or/consts lost parentheses
 that affect the meaning

---
 pico_constfold.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pico_constfold.py b/pico_constfold.py
index c5a451c..e0637f2 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -476,6 +476,30 @@ def set_const(node, value, ctxt, focus, force):
 
     node.replace_with(create_const_node(token))
 
+    # constants can't be called or indexed without parens
+    parent = node.parent
+    if ((parent.type in (NodeType.index, NodeType.member) and node is parent.child) or
+            (parent.type == NodeType.call and node is parent.func)):
+        replace_with_group(node)
+
+def replace_with_group(node):
+    open_token = Token.synthetic(TokenType.punct, "(", node, prepend=True)
+    close_token = Token.synthetic(TokenType.punct, ")", node, append=True)
+    child = node.move()
+    node.replace_with(Node(NodeType.group, [open_token, child, close_token], child=child))
+
+def is_multi_value_position(node):
+    # is this where all the values of a vararg expression would be used?
+    parent = node.parent
+    if parent.type == NodeType.call:
+        return parent.args and node is parent.args[-1]
+    elif parent.type in (NodeType.assign, NodeType.local, NodeType.for_in):
+        return parent.sources and node is parent.sources[-1]
+    elif parent.type in (NodeType.return_, NodeType.table):
+        return parent.items and node is parent.items[-1]
+    else:
+        return False
+
 def fixup_syntax_before(stmt):
     # after folding, extra semicolons may be needed to avoid merging stmt into the statement that now precedes it
     block = stmt.parent
@@ -609,6 +633,8 @@ def fold_consts(ctxt, minify_opts, root, errors):
                     if constval:
                         if constval is node.right:
                             node.replace_with(node.right)
+                            if is_vararg_expr(node) and is_multi_value_position(node):
+                                replace_with_group(node) # keep using just the first value
                         else:
                             set_const(node, constval, ctxt, focus, in_const_ctxt)
 
-- 
2.43.0


From aff85636661d5be7fee5b7dff0f5ff6482f0d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 08/71] fix: shorthand with a body starting with 'do' was
 output as a longhand

---
 pico_constfold.py | 2 ++
 pico_minify.py    | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index e0637f2..5515eb7 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -768,6 +768,8 @@ def fold_consts(ctxt, minify_opts, root, errors):
             body = node.then if node.type == NodeType.if_ else node.body
             if not body.get_tokens(): # (everything got folded away)
                 body.append_token(TokenType.punct, ";")
+            elif node.type != NodeType.else_ and body.first_token().value == "do": # (would be a longhand)
+                body.insert_token(0, TokenType.punct, ";", near_next=True)
 
         elif node.type == NodeType.block:
             for stmt in node.stmts:
diff --git a/pico_minify.py b/pico_minify.py
index b9887c0..90fd1c2 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -103,7 +103,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     
                     if i == 0:
                         # a shorthand cannot begin with a do block. (would be a longhand)
-                        starts_with_do = body.first_token().value == "do"
+                        starts_with_do = next((token.value for token in body.get_tokens() if token.value != ";"), None) == "do"
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
                 to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_with_do
@@ -445,7 +445,8 @@ def minify_code(ctxt, root, minify_opts):
 
             if token.value == ";" and token.parent.type == NodeType.block and token.next_token().value != "(":
                 gparent = token.parent.parent
-                if not (gparent and is_short_block_stmt(gparent) and is_empty_block(token.parent)):
+                if not (gparent and is_short_block_stmt(gparent) and
+                        (is_empty_block(token.parent) or (gparent.type != NodeType.else_ and token.next_token().value == "do"))):
                     token.erase()
                     return
 
-- 
2.43.0


From a2ed86d596f327b7d1dd249a76241693dac5b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 09/71] fix: kept comments could split or merge the lines of
 shorthands

---
 pico_minify.py | 6 ++++++
 pico_output.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 90fd1c2..eeb0659 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -307,6 +307,11 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     
     # do the merge: (TODO: eww...)
 
+    def reset_comment_location(token): # avoids line breaks before the comments (may be within shorthands)
+        token.children = [copy(comment) for comment in token.children] # (next.erase below reuses the originals)
+        for comment in token.children:
+            comment.vline = token.vline
+
     def insert_array_items(dst_node, dst_arr, dst_arr_i, src_arr, src_arr_i, count):
         count = default(count, len(src_arr) - src_arr_i)        
         if not count:
@@ -330,6 +335,7 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
             dst_arr.insert(dst_arr_i + i, src_elem)
 
             dst_node.insert_existing(dst_i, src_elem)
+            src_elem.traverse_tokens(reset_comment_location)
             dst_i += 1
             
             if i < count - 1 or need_end_comma:
diff --git a/pico_output.py b/pico_output.py
index 6ee693d..f41ec2d 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -356,7 +356,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         wspace_output(comment, can_need_linebreak=False)
         output.append(comment_out)
 
-        if need_linebreak and "\n" in comment_out:
+        if need_linebreak and comment_out.endswith("\n"): # (a linebreak inside a comment doesn't end a shorthand)
             need_linebreak = False
 
     def token_output(token):
-- 
2.43.0


From 1c13d8e5ae15a12119552f0be59e39771ecebdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:32 +0000
Subject: [PATCH 10/71] fix: line breaks in kept comments or in strings could
 break up shorthands

---
 pico_minify.py | 39 +++++++++++++++++++++++++++++----------
 pico_output.py | 12 ++++++------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index eeb0659..32ae884 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -10,11 +10,13 @@ class Focus(Bitmask):
     chars = compressed = tokens = ...
     none = 0
 
-def minify_string_literal(ctxt, token, focus, value=None):
+def minify_string_literal(ctxt, token, focus, value=None, allow_linebreaks=True):
     if value is None:
         value = token.parsed_value
     
-    if focus.chars:
+    if not allow_linebreaks and "\n" in value:
+        return format_string_literal(value, long=False)
+    elif focus.chars:
         return format_string_literal(value, use_complex_long=ctxt.version >= 40)
     else:
         # haven't found a good balanced heuristic for 'long' yet
@@ -150,6 +152,7 @@ def on_enable_shorthand(node):
     vline = node.first_token().vline
     def fix_vlines(token):
         token.vline = vline
+        token.children = [copy(comment) for comment in token.children] # (may be kept elsewhere too)
         for comment in token.children:
             comment.vline = vline
     node.traverse_tokens(fix_vlines)
@@ -307,11 +310,6 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     
     # do the merge: (TODO: eww...)
 
-    def reset_comment_location(token): # avoids line breaks before the comments (may be within shorthands)
-        token.children = [copy(comment) for comment in token.children] # (next.erase below reuses the originals)
-        for comment in token.children:
-            comment.vline = token.vline
-
     def insert_array_items(dst_node, dst_arr, dst_arr_i, src_arr, src_arr_i, count):
         count = default(count, len(src_arr) - src_arr_i)        
         if not count:
@@ -335,7 +333,6 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
             dst_arr.insert(dst_arr_i + i, src_elem)
 
             dst_node.insert_existing(dst_i, src_elem)
-            src_elem.traverse_tokens(reset_comment_location)
             dst_i += 1
             
             if i < count - 1 or need_end_comma:
@@ -345,8 +342,19 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     insert_array_items(prev, prev.targets, len(prev.sources), next.targets, 0, None)
     insert_array_items(prev, prev.sources, len(prev.sources), next.sources, 0, None)
 
+    moved = next.targets + next.sources
     next.erase()
 
+    # avoid line breaks before the moved comments, as they may be within shorthands
+    # (copied, as the originals may now be kept elsewhere too)
+    def reset_comment_location(token):
+        token.children = [copy(comment) for comment in token.children]
+        for comment in token.children:
+            comment.vline = token.vline
+
+    for node in moved:
+        node.traverse_tokens(reset_comment_location)
+
 def value_is_negative(ctxt, value):
     if ctxt.lang == Language.pico8:
         return fixnum_is_negative(value)
@@ -437,13 +445,23 @@ def minify_code(ctxt, root, minify_opts):
                 if prev and prev.type == node.type:
                     minify_merge_assignments(prev, node, ctxt, safe_reorder, root.has_env)
 
+    def is_in_shorthand_condition(token):
+        child, parent = token, token.parent
+        while parent:
+            if (parent.type in (NodeType.if_, NodeType.while_) and child is parent.cond and
+                    (parent.short or parent in analysis.allowed_shorts)):
+                return True
+            child, parent = parent, parent.parent
+        return False
+
     def fixup_tokens(token):
         
         # minify sublangs
 
         sublang = getattr(token, "sublang", None)
         if sublang and sublang.minify:
-            token.modify(minify_string_literal(ctxt, token, focus, value=sublang.minify()))
+            token.modify(minify_string_literal(ctxt, token, focus, value=sublang.minify(),
+                                               allow_linebreaks=not is_in_shorthand_condition(token)))
 
         if minify_tokens:
             
@@ -488,7 +506,8 @@ def minify_code(ctxt, root, minify_opts):
                 token.modify("\\=")
 
             if token.type == TokenType.string:
-                token.modify(minify_string_literal(ctxt, token, focus))
+                # (the condition of a shorthand must end on the line it starts at)
+                token.modify(minify_string_literal(ctxt, token, focus, allow_linebreaks=not is_in_shorthand_condition(token)))
 
             if token.type == TokenType.number:
                 allow_unary = can_replace_with_unary(token.parent)
diff --git a/pico_output.py b/pico_output.py
index f41ec2d..57c207e 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -256,10 +256,10 @@ def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, lon
 
     return strlong if len(strlong) < len(strlit) else strlit
 
-def need_whitespace_between(ctxt, prev, next):
+def need_whitespace_between(ctxt, prev, next, next_comment_out=None):
     if isinstance(prev, Comment) or isinstance(next, Comment):
         # (e.g. a minus/divide before a comment would otherwise become part of the comment)
-        return isinstance(next, Comment) and prev.value != None and prev.value[-1:] == next.value[0]
+        return isinstance(next, Comment) and prev.value != None and prev.value[-1:] == next_comment_out[:1]
 
     combined = prev.value + next.value
     ct, ce = tokenize(Source("<output>", combined), lang=ctxt.lang) # TODO: optimize?
@@ -307,7 +307,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
     need_linebreak = False
     short_level = 0
 
-    def wspace_output(next_token_or_comment, can_need_linebreak=True):
+    def wspace_output(next_token_or_comment, can_need_linebreak=True, comment_out=None):
         nonlocal prev_token_or_comment, need_linebreak
         prev, next = prev_token_or_comment, next_token_or_comment
         
@@ -319,14 +319,14 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
                 if (need_linebreak and can_need_linebreak) or (not minify_lines and next.vline != prev.vline):
                     output.append("\n")
                     need_linebreak = False
-                elif need_whitespace_between(ctxt, prev, next):
+                elif need_whitespace_between(ctxt, prev, next, comment_out):
                     output.append(" ")
 
         else:
             allow_linebreaks = next.vline != prev.vline
             wspace = get_orig_wspace(prev, next, ctxt, allow_linebreaks, need_linebreak and can_need_linebreak)
 
-            if not wspace and prev.value != None and need_whitespace_between(ctxt, prev, next):
+            if not wspace and prev.value != None and need_whitespace_between(ctxt, prev, next, comment_out):
                 wspace += " "
             
             output.append(wspace)
@@ -353,7 +353,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
             else:
                 comment_out = comment.value
         
-        wspace_output(comment, can_need_linebreak=False)
+        wspace_output(comment, can_need_linebreak=False, comment_out=comment_out)
         output.append(comment_out)
 
         if need_linebreak and comment_out.endswith("\n"): # (a linebreak inside a comment doesn't end a shorthand)
-- 
2.43.0


From b5cd5b98edeb96155813d9736777ba8427106a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:48 +0000
Subject: [PATCH 11/71] fix: assignments to table items were merged with
 assignments that depend on the table's contents

---
 pico_minify.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index 32ae884..1a51123 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -218,7 +218,15 @@ def node_contains_vars(root, vars):
     except StopTraverse:
         return True
 
-def expr_is_trivial(root, ctxt, safe_only, allow_member=True, allow_index=True, allow_call=True, has_env=True):
+# builtins whose results or effects depend on the contents of the tables passed to them
+k_table_builtins = {
+    "add", "all", "count", "del", "deli", "foreach", "inext", "ipairs", "next", "pairs",
+    "rawequal", "rawget", "rawlen", "rawset", "rnd", "setmetatable", "unpack",
+    # (picotron)
+    "apply_delta", "create_delta", "get", "pod", "send_message", "set", "store", "store_metadata",
+}
+
+def expr_is_trivial(root, ctxt, safe_only, allow_member=True, allow_index=True, allow_call=True, allow_contents=True, has_env=True):
     def visitor(expr):
         # nodes that cannot call user-defined code in any case
         if expr.type in (NodeType.const, NodeType.varargs, NodeType.group,
@@ -237,8 +245,11 @@ def expr_is_trivial(root, ctxt, safe_only, allow_member=True, allow_index=True,
         elif expr.type == NodeType.call:
             func = expr.func
             if (safe_only or not allow_call or
-                    not (func.type == NodeType.var and is_root_global_or_builtin_local(func) and not func.var.reassigned and func.name not in ctxt.builtins_with_callbacks)):
+                    not (func.type == NodeType.var and is_root_global_or_builtin_local(func) and not func.var.reassigned and func.name not in ctxt.builtins_with_callbacks) or
+                    (not allow_contents and func.name in k_table_builtins)):
                 raise StopTraverse()
+        elif expr.type == NodeType.unary_op and expr.op == "#" and not allow_contents:
+            raise StopTraverse()
         elif expr.type == NodeType.member and not allow_member:
             raise StopTraverse()
         elif expr.type == NodeType.index and not allow_index:
@@ -268,7 +279,7 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     # check if prev's targets are used in next's sources or targets
 
     require_trivial = False # True when prev.targets may be accessed indirectly from functions that may be called by next.soources
-    allow_index = allow_member = True
+    allow_index = allow_member = allow_contents = True
     target_vars = []
     for target in prev.targets:
         if target.type == NodeType.var:
@@ -280,17 +291,19 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
             target_vars.append(target.key.var)
             require_trivial = True
             allow_index = False # TODO: could rely on rename's preserve logic
+            allow_contents = False
         elif target.type == NodeType.index:
             require_trivial = True
             allow_member = False # TODO: could rely on rename's preserve logic
             allow_index = False
+            allow_contents = False
         else: # just in case...
             return
     
     for node in next.sources:
         if target_vars and node_contains_vars(node, target_vars):
             return
-        if require_trivial and not expr_is_trivial(node, ctxt, safe_only, allow_member, allow_index, has_env=has_env):
+        if require_trivial and not expr_is_trivial(node, ctxt, safe_only, allow_member, allow_index, allow_contents=allow_contents, has_env=has_env):
             return
         
     for node in next.targets:
-- 
2.43.0


From fdbfa6f239b85a4e2a4a0a60acd37b4ebada151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 12/71] fix: old compression could produce matches that are too
 short to be represented

---
 pico_compress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index 88eb30e..edf42e3 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -226,7 +226,7 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
                     if no_repeat:
                         c = min(c, i - j)
                     
-                    if not (max_o != None and j < i - max_o):
+                    if c >= min_c and not (max_o != None and j < i - max_o):
                         best_c, best_j = c, j
                 
             return best_c, best_j
-- 
2.43.0


From 0b5bb0ab4ea679af0f66d711fb073390d5841757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 13/71] fix: old-style compressed code was read past its end
 when nothing follows it

---
 pico_compress.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pico_compress.py b/pico_compress.py
index edf42e3..3b3bb5b 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -109,7 +109,7 @@ def uncompress_code(r, max_code_size=k_code_size, size_handler=None, debug_handl
         if debug_handler: debug_handler.init(r, str)
 
         code = []
-        while True:
+        while len(code) < unc_size:
             ch = r.u8()
             if ch == 0x00:
                 ch2 = r.u8()
@@ -152,16 +152,18 @@ def get_compressed_size(r, max_code_size=k_code_size):
         return r.u16() # compressed size
 
     elif header == k_old_compressed_code_header:
-        r.u16()
+        unc_size = r.u16()
         r.u16()
         
-        while True:
+        code_size = 0
+        while code_size < unc_size:
             ch = r.u8()
-            if ch == 0:
-                if r.u8() == 0:
+            if ch > 0x3b:
+                code_size += (r.u8() >> 4) + 2
+            else:
+                if ch == 0 and r.u8() == 0:
                     break
-            elif ch > 0x3b:
-                r.u8()
+                code_size += 1
 
         return r.pos() - start_pos
 
-- 
2.43.0


From 69db8ffc0ece90b5ee17e5508ef16e64b73a061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 14/71] fix: constants used as the condition of a while that
 becomes a shorthand crashed the output

---
 pico_tokenize.py | 1860 +++++++++++++++++++++++-----------------------
 1 file changed, 933 insertions(+), 927 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 99ad0d9..38ff7fb 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -1,927 +1,933 @@
-from utils import *
-from pico_preprocess import k_wspace
-from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
-
-keywords = {
-    "and", "break", "do", "else", "elseif", "end", "false", 
-    "for", "function", "goto", "if", "in", "local", "nil", 
-    "not", "or", "repeat", "return", "then", "true", "until",
-    "while"
-}
-
-def split_hint_args(data, ctxt=None):
-    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
-    name, args = name.strip(), args.strip()
-    if ctxt and ctxt.map_aliases:
-        name, args = ctxt.map_aliases(name, args)
-    return name, args
-
-class StopTraverse(BaseException):
-    pass
-
-k_skip_children = True # value returnable from traverse's pre-function
-
-class KeepCommentFlags(Bitmask):
-    first = last = ...
-
-class TokenNodeBase:
-    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
-    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
-
-    def __init__(m):
-        m.parent, m.children = None, ()
-
-    def __repr__(m):
-        return "%s(type=%s)" % (typename(m), m.type)
-
-    def __str__(m):
-        reprlist = []
-        for key, val in m.__dict__.items():
-            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
-                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
-                continue
-            reprlist.append("%s=%r" % (key, val))
-        return "%s(%s)" % (typename(m), ", ".join(reprlist))
-    
-    @property
-    def source_text(m):
-        if m.source and m.idx != None and m.endidx != None:
-            return m.source.text[m.idx:m.endidx]
-        else:
-            return None
-    
-    def find_parent(m, type):
-        parent = m.parent
-        while parent and parent.type != type:
-            parent = parent.parent
-        return parent
-
-    def _sibling(m, delta):
-        parent = m.parent
-        if parent is None:
-            return None
-        i = parent.children.index(m) + delta
-        return list_get(parent.children, i)
-
-    def next_sibling(m): return m._sibling(1)
-    def prev_sibling(m): return m._sibling(-1)
-
-    def _adjacent(m, delta):
-        while m:
-            sib = m._sibling(delta)
-            if sib:
-                return sib
-            m = m.parent
-        return None
-
-    def _find_token(m, delta, adjacent=False):
-        i = 0 if delta > 0 else -1
-        if adjacent:
-            m = m._adjacent(delta)
-        while isinstance(m, Node):
-            if m.children:
-                m = m.children[i]
-            else:
-                m = m._adjacent(delta)
-        return m if m else Token.none
-
-    def next_token(m): return m._find_token(1, adjacent=True)
-    def prev_token(m): return m._find_token(-1, adjacent=True)
-
-    def first_token(m): return m._find_token(1)
-    def last_token(m): return m._find_token(-1)
-
-    def find_or_create_token(m, child_i=0, last=False):
-        for_child = child_i < len(m.children) and not last
-        if for_child:
-            m = m.children[child_i]
-        token = m.first_token() if for_child else m.next_token()
-        is_after = True
-        if token is Token.none:
-            token = m.next_token() if for_child else m.last_token()
-            is_after = for_child
-            if token is Token.none:
-                token = m.prev_token()
-                is_after = False
-                if token is Token.none:
-                    token = Token.dummy(m.source)
-                    # we should only reach here when m is an empty node of some kind
-                    m.append_existing(token)
-        return token, is_after
-
-    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
-        skip = pre(m) if pre else None
-        if not skip:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_nodes(pre, post, tokens, extra)
-                elif tokens:
-                    tokens(child)
-            if extra and hasattr(m, "extra_children"):
-                for child in m.extra_children:
-                    child.traverse_nodes(pre, post, tokens, extra)
-        if post: post(m)
-
-    def traverse_tokens(m, visit):
-        if isinstance(m, Token):
-            visit(m)
-        else:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_tokens(visit)
-                else:
-                    visit(child)
-    
-    def traverse_parents(m, visit):
-        parent = m.parent
-        while parent:
-            visit(parent)
-            parent = parent.parent
-
-    def collect_comments(m, irrelevant=False, flags=None):
-        comments = []
-        def visit(token):
-            nonlocal comments
-            comments += token.children
-        
-        if isinstance(flags, KeepCommentFlags):
-            first_token = m.first_token() if flags.first else None
-            last_token = m.last_token() if flags.last else None
-            if first_token:
-                visit(first_token)
-            if last_token and last_token != first_token:
-                visit(last_token)
-        else:
-            m.traverse_tokens(visit)
-
-        if irrelevant:
-            comments = [c for c in comments if c.hint != CommentHint.auto]
-        return comments
-
-    def add_extra_child(m, child):
-        if not hasattr(m, "extra_children"):
-            m.extra_children = []
-        child.parent = m
-        child.extra_i = len(m.extra_children)
-        m.extra_children.append(child)
-    
-    def is_extra_child(m):
-        return hasattr(m, "extra_i")
-    
-    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
-        cpy = copy(m)
-        for child in cpy.children:
-            child.parent = cpy
-        m.erase()
-        return cpy
-
-    def copy(m):
-        cpy = copy(m)
-        cpy.children = [child.copy() for child in m.children]
-        for child in cpy.children:
-            child.parent = cpy
-        for key, val in cpy.__dict__.items():
-            idx = list_find(m.children, val)
-            if idx >= 0:
-                cpy.__dict__[key] = cpy.children[idx]
-        return cpy
-
-class TokenType(Enum):
-    number = string = ident = keyword = punct = ...
-    compiler = ... # special
-
-class Token(TokenNodeBase):
-    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
-    For number/string tokens, the actual value is 'parsed_value'
-    Its children are the comments *before* it, if any."""
-
-    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
-        super().__init__()
-        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
-    
-    def check(m, expected):
-        if isinstance(expected, tuple):
-            assert m.value in expected
-        else:
-            assert m.value == expected
-
-    def modify(m, value, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.value = value
-        m.modified = True
-        lazy_property.clear(m, "parsed_value")
-    
-    def erase(m, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.type, m.value, m.modified = None, None, True
-
-    def add_comments(m, comments, first=False):
-        if m.children == ():
-            m.children = []
-        if first:
-            m.children[0:0] = comments
-        else:
-            m.children += comments
-    
-    def remove_comments(m):
-        m.children = ()
-
-    @lazy_property
-    def parsed_value(m):
-        if m.type == TokenType.number:
-            if m.lang == Language.picotron:
-                return parse_luanum(m.value)
-            else:
-                return parse_fixnum(m.value)
-        elif m.type == TokenType.string:
-            return parse_string_literal(m.value, m.lang)
-        else:
-            return None
-
-    @classmethod
-    def dummy(cls, source):
-        idx = len(source.text) if source else 0
-        vline = sys.maxsize if source else 0
-        return cls(None, None, source, idx, idx, vline, None)
-
-    @classmethod
-    def synthetic(cls, type, value, other, append=False, prepend=False):
-        idx = other.endidx if append else other.idx
-        endidx = other.idx if prepend else other.endidx
-        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
-
-Token.none = Token.dummy(None)
-
-class ConstToken(Token):
-    def __init__(m, type, parsed_value, other):
-        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
-        m.parsed_value = parsed_value
-        lazy_property.clear(m, "value")
-
-    @lazy_property
-    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
-                  # (but not used for output under minify-tokens)
-        if isinstance(m.parsed_value, (int, float)):
-            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
-            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
-            return format_num(m.parsed_value, sign=None if allow_unary else "")
-        else:
-            return format_string_literal(m.parsed_value, long=False)
-
-    @post_property_change
-    def parent(m, old, new):
-        lazy_property.clear(m, "value")
-
-class CommentHint(Enum):
-    none = auto = preserve = lint = keep = ...
-
-k_keep_prefix = "keep:"
-
-class Comment(TokenNodeBase):
-    """A pico8 comment, optionally holding some kind of hint"""
-
-    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
-        super().__init__()
-        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
-        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
-
-    def modify(m, value):
-        m.value = value
-        m.modified = True
-
-    @property
-    def value(m):
-        return m.source_text
-
-def is_ident_char(ch, lang=Language.pico8):
-    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
-            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
-
-def is_identifier(str, lang=Language.pico8):
-    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
-    
-k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
-
-k_hint_split_re = re.compile(r"[\s,]+")
-
-class NextTokenMods:
-    def __init__(m):
-        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
-        m.comments = None
-        
-    def add_comment(m, cmt):
-        if m.comments is None:
-            m.comments = []
-        m.comments.append(cmt)
-
-def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
-    text = source.text
-    idx = 0
-    vline = 0
-    tokens = []
-    errors = []
-    real_tokens = None
-    next_mods = None
-    if lang is None:
-        lang = ctxt.lang if ctxt else Language.pico8
-    
-    is_pico8 = lang == Language.pico8
-    is_picotron = lang == Language.picotron
-
-    def peek(off=0):
-        i = idx + off
-        return text[i] if 0 <= i < len(text) else ''
-
-    def take():
-        nonlocal idx
-        ch = peek()
-        idx += 1
-        return ch
-
-    def accept(ch,):
-        nonlocal idx
-        if peek() == ch:
-            idx += 1
-            return True
-        return False
-
-    def accept_one_of(*chs):
-        nonlocal idx
-        if peek() in chs:
-            idx += 1
-            return True
-        return False
-
-    def get_next_mods():
-        nonlocal next_mods
-        if next_mods is None:
-            next_mods = NextTokenMods()
-        return next_mods
-
-    def add_token(type, start, end_off=0, value=None):
-        end = idx + end_off
-        if value is None and type is not None: # (dummy tokens have type==value==None)
-            value = text[start:end]
-        token = Token(type, value, source, start, end, vline, lang)
-        tokens.append(token)
-        
-        nonlocal next_mods
-        if next_mods != None:
-            add_next_mods(token, next_mods)
-            next_mods = None
-        return token
-
-    def add_error(msg, off=-1):
-        add_token(None, idx + off) # error token
-        errors.append(Error(msg, tokens[-1]))
-
-    def add_dyn_include(include_data):
-        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
-            include_name, include_args = split_hint_args(include_data, ctxt)
-            include_func = ctxt.include_getter(include_name)
-            if include_func:
-                included_str = include_func(args=include_args, ctxt=ctxt)
-                if included_str != None:
-                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
-                    tokens.extend(included_tokens)
-                    errors.extend(included_errors)
-                    return
-            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
-
-    def add_sublang(token, sublang_data):
-        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
-            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
-
-            sublang_cls = ctxt.sublang_getter(sublang_name)
-            if sublang_cls:
-                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
-                token.sublang_name = sublang_name
-                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
-                                            ctxt=ctxt, on_error=add_lang_error)
-            else:
-                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
-
-    def switch_compiler(compiler_data):
-        nonlocal real_tokens, tokens
-        if real_tokens != None:
-            real_tokens, tokens = None, real_tokens
-
-        if compiler_data != None:
-            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
-                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
-                if compiler_name != "none":
-                    compiler_cls = ctxt.compiler_getter(compiler_name)
-                    if compiler_cls:
-                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
-                        for dyn_include in curr_compiler.get_dynamic_includes():
-                            add_dyn_include(dyn_include)
-                        
-                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
-                        compiler_token.compiler_name = compiler_name
-                        compiler_token.compiler = curr_compiler
-                        compiler_token.compiler_tokens = []
-                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
-
-                    else:
-                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
-
-    def add_next_mods(token, mods):
-        if mods.comments != None:
-            token.children = mods.comments        
-        if mods.var_kind != None:
-            token.var_kind = mods.var_kind
-        if mods.keys_kind != None:
-            token.keys_kind = mods.keys_kind
-        if mods.is_const != None:
-            token.is_const = mods.is_const
-        if mods.func_kind != None:
-            token.func_kind = mods.func_kind
-        if mods.merge_prev != None:
-            token.merge_prev = mods.merge_prev
-        if mods.force_safe != None:
-            token.force_safe = mods.force_safe
-        if mods.rename != None:
-            token.rename = mods.rename
-        if mods.placeholder != None:
-            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
-            token.placeholder_expr = mods.placeholder[1]
-            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
-                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
-        if mods.sublang != None:
-            add_sublang(token, mods.sublang)
-
-    def process_comment(orig_idx, comment, isblock):
-        hint, hintdata, hintprefix = CommentHint.none, None, ""
-
-        if ctxt and ctxt.hint_comments:
-            proper = False
-            if comment.startswith("$"):
-                comment = comment[1:]
-                hintprefix = "$"
-                proper = True
-
-            if comment.startswith("lint:"):
-                lints = k_hint_split_re.split(str_after_first(comment, ":"))
-                lints = [lint for lint in lints if lint]
-                hint, hintdata = CommentHint.lint, lints
-
-                for lint in lints:
-                    if lint.startswith("func::"):
-                        get_next_mods().func_kind = str_after_first(lint, "::")
-
-            elif comment.startswith("preserve:"):
-                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
-                preserves = [preserve for preserve in preserves if preserve]
-                hint, hintdata = CommentHint.preserve, preserves
-
-            elif comment.startswith(k_keep_prefix):
-                hint = CommentHint.keep
-                
-            elif comment.startswith("dynamic-include:") and proper:
-                add_dyn_include(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-            
-            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
-                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
-                dest_name, dest_args = split_hint_args(alias_value, ctxt)
-                if ctxt and ctxt.add_custom_alias:
-                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
-                hint = CommentHint.auto
-                
-            elif comment.startswith("switch-compiler:") and proper:
-                switch_compiler(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-
-            elif isblock:
-                hint = CommentHint.auto
-                if comment in ("global", "nameof"): # nameof is deprecated
-                    get_next_mods().var_kind = VarKind.global_
-                elif comment in ("member", "memberof"): # memberof is deprecated
-                    get_next_mods().var_kind = VarKind.member
-                elif comment in ("preserve", "string"): # string is deprecated
-                    get_next_mods().var_kind = False
-                elif comment == "global-keys":
-                    get_next_mods().keys_kind = VarKind.global_
-                elif comment == "member-keys":
-                    get_next_mods().keys_kind = VarKind.member
-                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
-                    get_next_mods().keys_kind = False
-                elif comment == "no-merge":
-                    get_next_mods().merge_prev = False
-                elif comment == "const":
-                    get_next_mods().is_const = True
-                elif comment == "non-const":
-                    get_next_mods().is_const = False
-                elif comment == "force-safe":
-                    get_next_mods().force_safe = True
-                elif comment.startswith("language::"):
-                    get_next_mods().sublang = str_after_first(comment, "::")
-                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
-                    get_next_mods().rename = str_after_first(comment, "::")
-                elif comment.startswith("placeholder-expr::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
-                elif comment.startswith("placeholder-stmt::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
-                else:
-                    hint = CommentHint.none
-        
-            if proper and hint == CommentHint.none:
-                eprint(f"unrecognized $-comment '{comment}'")
-            # at some point, warn about improper comments and so on?
-
-        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
-            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
-        
-    def tokenize_line_comment():
-        nonlocal vline
-        orig_idx = idx
-        while take() not in ('\n', ''): pass
-
-        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
-        vline += 1
-
-    def tokenize_long_brackets(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if accept('['):
-            pad_idx = idx
-            while accept('='): pass
-            pad = text[pad_idx:idx]
-
-            if accept('['):
-                start_i = idx
-                end_i = text.find(f"]{pad}]", idx)
-                if end_i >= 0:
-                    idx = end_i + len(pad) + 2
-                    return True, orig_idx, start_i, end_i
-                
-                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
-        
-        return False, orig_idx, None, None
-
-    def tokenize_long_comment():
-        nonlocal idx
-        ok, orig_idx, start, end = tokenize_long_brackets(0)
-        if ok:
-            process_comment(orig_idx - 2, text[start:end], isblock=True)
-        else:
-            idx = orig_idx
-        return ok
-
-    def tokenize_number(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if is_picotron:
-            is_hex = peek() == '0' and peek(1) in ('x', 'X')
-
-            while True:
-                ch = peek()
-                if (is_ident_char(ch, lang) or ch == '.' or
-                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
-                    idx += 1
-                else:
-                    break
-
-        else:
-            ch = peek()
-            if ch == '0' and peek(1) in ('b', 'B'):
-                idx += 2
-                digits = "01"
-            elif ch == '0' and peek(1) in ('x', 'X'):
-                idx += 2
-                digits = "0123456789aAbBcCdDeEfF"
-            else:
-                digits = "0123456789"
-
-            while True:
-                ch = peek()
-                if ch and ch in digits:
-                    idx += 1
-                elif ch == '.':
-                    idx += 1
-                else:
-                    break
-
-        add_token(TokenType.number, orig_idx)
-
-    def tokenize_ident(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-        
-        while is_ident_char(peek(), lang):
-            idx += 1
-            
-        if text[orig_idx:idx] in keywords:
-            add_token(TokenType.keyword, orig_idx)
-        else:
-            add_token(TokenType.ident, orig_idx)
-
-    def tokenize_string(off):
-        nonlocal idx
-        orig_idx = idx + off
-        idx = orig_idx + 1
-        quote = text[orig_idx]
-
-        while True:
-            ch = take()
-            if ch in ('\n', ''):
-                add_error("Unterminated string", orig_idx - idx)
-                break
-            elif ch == '\\':
-                if accept('z'): # skip line breaks
-                    while peek() in k_wspace:
-                        take()
-                else:
-                    take() # at least
-            elif ch == quote:
-                break
-
-        add_token(TokenType.string, orig_idx)
-
-    def tokenize_long_string(off):
-        ok, orig_idx, _, _ = tokenize_long_brackets(off)
-        if ok:
-            add_token(TokenType.string, orig_idx)
-        else:
-            add_error("Invalid long brackets")
-    
-    if ctxt and ctxt.default_compiler and not inner:
-        switch_compiler(ctxt.default_compiler)
-
-    while idx < len(text):
-        ch = take()
-
-        if ch in k_wspace: # whitespace
-            if ch == "\n":
-                vline += 1
-
-        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
-            tokenize_number(-1)
-
-        elif is_ident_char(ch, lang): # identifier
-            tokenize_ident(-1)
-
-        elif ch in ('"', "'"): # string
-            tokenize_string(-1)
-
-        elif ch == '[' and accept_one_of('=', '['): # long string
-            tokenize_long_string(-2)
-
-        elif ch == '-' and accept('-'): # comment
-            if not tokenize_long_comment():
-                tokenize_line_comment()
-
-        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
-            tokenize_line_comment()
-
-        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
-            orig_idx = idx - 1
-            if ch in ".:/^<>" and accept(ch):
-                if ch in (".>" if is_pico8 else ".") and accept(ch):
-                    if ch == ">": accept('=')
-                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
-                    accept('=')
-                elif ch in "./^<>":
-                    accept('=')
-            elif ch in "+-*/\\%&|^<>=~":
-                accept('=')
-            add_token(TokenType.punct, orig_idx)
-
-        elif ch == '!' and accept('='): # alt. punctuation
-            add_token(TokenType.punct, idx - 2)
-
-        else:
-            add_error("invalid character")
-    
-    if (next_mods or all_comments) and not inner:
-        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
-
-    if real_tokens != None:
-        switch_compiler(None)
-    return tokens, errors
-    
-
-def count_tokens(tokens):
-    count = 0
-    for i, token in enumerate(tokens):
-        if token.children:
-            for comment in token.children:
-                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
-                    return count
-
-        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
-            continue
-
-        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
-                token.endidx == tokens[i+1].idx and
-                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
-                tokens[i-1].value not in (")", "]", "}", ";", "end")):
-            continue
-
-        count += 1
-    return count
-
-def parse_fixnum(origstr):
-    """parse a fixnum from a pico8 string"""
-    str = origstr.lower()
-    
-    neg = bnot = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-    elif str.startswith("~"):
-        str = str[1:]
-        bnot = True
-
-    digits = "0123456789"
-    if str.startswith("0x"):
-        digits += "abcdef"
-        str = str[2:]
-    elif str.startswith("0b"):
-        digits = "01"
-        str = str[2:]
-    base = len(digits)
-
-    value = 0
-    while str and str[0] in digits:
-        value = (value * base) + digits.index(str[0])
-        str = str[1:]
-
-    if str and str[0] == '.':
-        str = str[1:]
-        dotvalue = 0
-        dotdigits = 0
-        while str and str[0] in digits:
-            dotvalue = (dotvalue * base) + digits.index(str[0])
-            dotdigits += 1
-            str = str[1:]
-        
-        value += dotvalue / (base ** dotdigits)
-    
-    if str:
-        throw(f"Invalid pico8 number: {origstr}")
-
-    fixnum = num_to_fixnum(value)
-    if neg:
-        fixnum = -fixnum & k_fixnum_mask
-    elif bnot:
-        fixnum = ~fixnum & k_fixnum_mask
-
-    return fixnum
-
-def parse_luanum(origstr):
-    str = origstr.lower()
-
-    neg = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-
-    try:
-        if str.startswith("0x"):
-            if "." in str or "p" in str:
-                try:
-                    value = float.fromhex(str)
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(int(str, base=16))
-        
-        elif str.startswith("0b"):
-            # TODO: recheck this if ever fixed to support exponents?
-            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
-            dotpos = str.find(".")
-            if dotpos >= 0:
-                str = str_replace_at(str, dotpos, 1, "")
-            value = int(str, base=2)
-            if dotpos >= 0:
-                try:
-                    value = math.ldexp(value, dotpos - len(str))
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(value)
-            
-        else:
-            if "." in str or "e" in str:
-                value = float(str) # no OverflowError here
-            else:
-                value = int(str)
-                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
-                    value = num_to_luaint(value)
-                else:
-                    value = float(value)
-    except ValueError:
-        throw(f"Invalid lua number: {origstr}")
-    
-    if neg:
-        value = -value
-    return value
-
-k_char_escapes = {
-    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
-    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
-    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
-}
-
-def lang_chr(value, lang):
-    if lang == Language.pico8 or value < 0x80:
-        return chr(value)
-    else:
-        return chr(0xdc00 + value) # surrogate escape
-
-def ext_unicode_to_lang_str(value, lang):
-    if value < 0x80:
-        return lang_chr(value, lang)
-    
-    suffix = ""
-    count = 0
-    while value >= (0x40 >> count):
-        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
-        value >>= 6
-        count += 1
-    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
-
-def parse_char_escape(str, pos, lang):
-    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
-
-    esc = str_get(str, pos + 1)
-    esc_ch = k_char_escapes.get(esc)
-    if esc_ch:
-        return esc_ch, pos + 2
-
-    elif esc == 'z':
-        end = pos + 2
-        while str_get(str, end) in k_wspace:
-            end += 1
-        return "", end
-
-    elif esc == 'x':
-        end = pos + 4
-        hex_esc = str[pos + 2 : end]
-        value = maybe_int(hex_esc, base=16)
-        if value is None:
-            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif '0' <= esc <= '9':
-        end = pos + 2
-        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
-            end += 1
-        dec_esc = str[pos + 1 : end]
-        value = maybe_int(dec_esc)
-        if value is None or value >= 256:
-            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif lang == Language.picotron and esc == 'u':
-        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
-        end = str.find("}", pos) + 1
-        check(end > 0, f"Unterminated unicode escape in: '{str}'")
-        uni_esc = str[pos + 3 : end - 1]
-        value = maybe_int(uni_esc, base=16)
-        if value is None or value >= 0x80000000:
-            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
-        return ext_unicode_to_lang_str(value, lang), end
-
-    else:
-        throw(f"Invalid escape: '{esc}' in: '{str}'")    
-
-def parse_string_literal(str, lang=Language.pico8):
-    """parse a pico8 string from a pico8 string literal"""
-    if str.startswith("["):
-        start = str.index("[", 1) + 1
-        lit = str[start:-start]
-        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
-        if lit.startswith('\n'):
-            lit = lit[1:]
-        return lit
-
-    else:
-        litparts = []
-        str = str[1:-1]
-        start = 0
-        while start < len(str):
-            end = str.find('\\', start)
-            if end < 0:
-                litparts.append(str[start:])
-                break
-
-            if end > start:
-                litparts.append(str[start:end])
-
-            esc, start = parse_char_escape(str, end, lang)
-            litparts.append(esc)
-                
-        return "".join(litparts)
-
-from pico_parse import Node, VarKind, can_replace_with_unary
-from pico_output import format_fixnum, format_luanum, format_string_literal
-from pico_process import Error, Source
+from utils import *
+from pico_preprocess import k_wspace
+from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
+
+keywords = {
+    "and", "break", "do", "else", "elseif", "end", "false", 
+    "for", "function", "goto", "if", "in", "local", "nil", 
+    "not", "or", "repeat", "return", "then", "true", "until",
+    "while"
+}
+
+def split_hint_args(data, ctxt=None):
+    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
+    name, args = name.strip(), args.strip()
+    if ctxt and ctxt.map_aliases:
+        name, args = ctxt.map_aliases(name, args)
+    return name, args
+
+class StopTraverse(BaseException):
+    pass
+
+k_skip_children = True # value returnable from traverse's pre-function
+
+class KeepCommentFlags(Bitmask):
+    first = last = ...
+
+class TokenNodeBase:
+    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
+    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
+
+    def __init__(m):
+        m.parent, m.children = None, ()
+
+    def __repr__(m):
+        return "%s(type=%s)" % (typename(m), m.type)
+
+    def __str__(m):
+        reprlist = []
+        for key, val in m.__dict__.items():
+            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
+                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
+                continue
+            reprlist.append("%s=%r" % (key, val))
+        return "%s(%s)" % (typename(m), ", ".join(reprlist))
+    
+    @property
+    def source_text(m):
+        if m.source and m.idx != None and m.endidx != None:
+            return m.source.text[m.idx:m.endidx]
+        else:
+            return None
+    
+    def find_parent(m, type):
+        parent = m.parent
+        while parent and parent.type != type:
+            parent = parent.parent
+        return parent
+
+    def _sibling(m, delta):
+        parent = m.parent
+        if parent is None:
+            return None
+        i = parent.children.index(m) + delta
+        return list_get(parent.children, i)
+
+    def next_sibling(m): return m._sibling(1)
+    def prev_sibling(m): return m._sibling(-1)
+
+    def _adjacent(m, delta):
+        while m:
+            sib = m._sibling(delta)
+            if sib:
+                return sib
+            m = m.parent
+        return None
+
+    def _find_token(m, delta, adjacent=False):
+        i = 0 if delta > 0 else -1
+        if adjacent:
+            m = m._adjacent(delta)
+        while isinstance(m, Node):
+            if m.children:
+                m = m.children[i]
+            else:
+                m = m._adjacent(delta)
+        return m if m else Token.none
+
+    def next_token(m): return m._find_token(1, adjacent=True)
+    def prev_token(m): return m._find_token(-1, adjacent=True)
+
+    def first_token(m): return m._find_token(1)
+    def last_token(m): return m._find_token(-1)
+
+    def find_or_create_token(m, child_i=0, last=False):
+        for_child = child_i < len(m.children) and not last
+        if for_child:
+            m = m.children[child_i]
+        token = m.first_token() if for_child else m.next_token()
+        is_after = True
+        if token is Token.none:
+            token = m.next_token() if for_child else m.last_token()
+            is_after = for_child
+            if token is Token.none:
+                token = m.prev_token()
+                is_after = False
+                if token is Token.none:
+                    token = Token.dummy(m.source)
+                    # we should only reach here when m is an empty node of some kind
+                    m.append_existing(token)
+        return token, is_after
+
+    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
+        skip = pre(m) if pre else None
+        if not skip:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_nodes(pre, post, tokens, extra)
+                elif tokens:
+                    tokens(child)
+            if extra and hasattr(m, "extra_children"):
+                for child in m.extra_children:
+                    child.traverse_nodes(pre, post, tokens, extra)
+        if post: post(m)
+
+    def traverse_tokens(m, visit):
+        if isinstance(m, Token):
+            visit(m)
+        else:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_tokens(visit)
+                else:
+                    visit(child)
+    
+    def traverse_parents(m, visit):
+        parent = m.parent
+        while parent:
+            visit(parent)
+            parent = parent.parent
+
+    def collect_comments(m, irrelevant=False, flags=None):
+        comments = []
+        def visit(token):
+            nonlocal comments
+            comments += token.children
+        
+        if isinstance(flags, KeepCommentFlags):
+            first_token = m.first_token() if flags.first else None
+            last_token = m.last_token() if flags.last else None
+            if first_token:
+                visit(first_token)
+            if last_token and last_token != first_token:
+                visit(last_token)
+        else:
+            m.traverse_tokens(visit)
+
+        if irrelevant:
+            comments = [c for c in comments if c.hint != CommentHint.auto]
+        return comments
+
+    def add_extra_child(m, child):
+        if not hasattr(m, "extra_children"):
+            m.extra_children = []
+        child.parent = m
+        child.extra_i = len(m.extra_children)
+        m.extra_children.append(child)
+    
+    def is_extra_child(m):
+        return hasattr(m, "extra_i")
+    
+    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
+        cpy = copy(m)
+        for child in cpy.children:
+            child.parent = cpy
+        m.erase()
+        return cpy
+
+    def copy(m):
+        cpy = copy(m)
+        cpy.children = [child.copy() for child in m.children]
+        for child in cpy.children:
+            child.parent = cpy
+        for key, val in cpy.__dict__.items():
+            idx = list_find(m.children, val)
+            if idx >= 0:
+                cpy.__dict__[key] = cpy.children[idx]
+        return cpy
+
+class TokenType(Enum):
+    number = string = ident = keyword = punct = ...
+    compiler = ... # special
+
+class Token(TokenNodeBase):
+    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
+    For number/string tokens, the actual value is 'parsed_value'
+    Its children are the comments *before* it, if any."""
+
+    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
+        super().__init__()
+        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
+    
+    def check(m, expected):
+        if isinstance(expected, tuple):
+            assert m.value in expected
+        else:
+            assert m.value == expected
+
+    def modify(m, value, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.value = value
+        m.modified = True
+        lazy_property.clear(m, "parsed_value")
+    
+    def erase(m, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.type, m.value, m.modified = None, None, True
+
+    def add_comments(m, comments, first=False):
+        if m.children == ():
+            m.children = []
+        if first:
+            m.children[0:0] = comments
+        else:
+            m.children += comments
+    
+    def remove_comments(m):
+        m.children = ()
+
+    @lazy_property
+    def parsed_value(m):
+        if m.type == TokenType.number:
+            if m.lang == Language.picotron:
+                return parse_luanum(m.value)
+            else:
+                return parse_fixnum(m.value)
+        elif m.type == TokenType.string:
+            return parse_string_literal(m.value, m.lang)
+        else:
+            return None
+
+    @classmethod
+    def dummy(cls, source):
+        idx = len(source.text) if source else 0
+        vline = sys.maxsize if source else 0
+        return cls(None, None, source, idx, idx, vline, None)
+
+    @classmethod
+    def synthetic(cls, type, value, other, append=False, prepend=False):
+        idx = other.endidx if append else other.idx
+        endidx = other.idx if prepend else other.endidx
+        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
+
+Token.none = Token.dummy(None)
+
+class ConstToken(Token):
+    def __init__(m, type, parsed_value, other):
+        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
+        m.parsed_value = parsed_value
+        m.derived = True # whether 'value' is derived from 'parsed_value', and not the other way around
+        lazy_property.clear(m, "value")
+
+    @lazy_property
+    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
+                  # (but not used for output under minify-tokens)
+        if isinstance(m.parsed_value, (int, float)):
+            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
+            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
+            return format_num(m.parsed_value, sign=None if allow_unary else "")
+        else:
+            return format_string_literal(m.parsed_value, long=False)
+
+    def modify(m, value, expected=None):
+        super().modify(value, expected)
+        m.derived = False
+
+    @post_property_change
+    def parent(m, old, new):
+        if m.derived:
+            lazy_property.clear(m, "value")
+
+class CommentHint(Enum):
+    none = auto = preserve = lint = keep = ...
+
+k_keep_prefix = "keep:"
+
+class Comment(TokenNodeBase):
+    """A pico8 comment, optionally holding some kind of hint"""
+
+    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
+        super().__init__()
+        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
+        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
+
+    def modify(m, value):
+        m.value = value
+        m.modified = True
+
+    @property
+    def value(m):
+        return m.source_text
+
+def is_ident_char(ch, lang=Language.pico8):
+    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
+            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
+
+def is_identifier(str, lang=Language.pico8):
+    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
+    
+k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
+
+k_hint_split_re = re.compile(r"[\s,]+")
+
+class NextTokenMods:
+    def __init__(m):
+        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
+        m.comments = None
+        
+    def add_comment(m, cmt):
+        if m.comments is None:
+            m.comments = []
+        m.comments.append(cmt)
+
+def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
+    text = source.text
+    idx = 0
+    vline = 0
+    tokens = []
+    errors = []
+    real_tokens = None
+    next_mods = None
+    if lang is None:
+        lang = ctxt.lang if ctxt else Language.pico8
+    
+    is_pico8 = lang == Language.pico8
+    is_picotron = lang == Language.picotron
+
+    def peek(off=0):
+        i = idx + off
+        return text[i] if 0 <= i < len(text) else ''
+
+    def take():
+        nonlocal idx
+        ch = peek()
+        idx += 1
+        return ch
+
+    def accept(ch,):
+        nonlocal idx
+        if peek() == ch:
+            idx += 1
+            return True
+        return False
+
+    def accept_one_of(*chs):
+        nonlocal idx
+        if peek() in chs:
+            idx += 1
+            return True
+        return False
+
+    def get_next_mods():
+        nonlocal next_mods
+        if next_mods is None:
+            next_mods = NextTokenMods()
+        return next_mods
+
+    def add_token(type, start, end_off=0, value=None):
+        end = idx + end_off
+        if value is None and type is not None: # (dummy tokens have type==value==None)
+            value = text[start:end]
+        token = Token(type, value, source, start, end, vline, lang)
+        tokens.append(token)
+        
+        nonlocal next_mods
+        if next_mods != None:
+            add_next_mods(token, next_mods)
+            next_mods = None
+        return token
+
+    def add_error(msg, off=-1):
+        add_token(None, idx + off) # error token
+        errors.append(Error(msg, tokens[-1]))
+
+    def add_dyn_include(include_data):
+        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
+            include_name, include_args = split_hint_args(include_data, ctxt)
+            include_func = ctxt.include_getter(include_name)
+            if include_func:
+                included_str = include_func(args=include_args, ctxt=ctxt)
+                if included_str != None:
+                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
+                    tokens.extend(included_tokens)
+                    errors.extend(included_errors)
+                    return
+            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
+
+    def add_sublang(token, sublang_data):
+        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
+            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
+
+            sublang_cls = ctxt.sublang_getter(sublang_name)
+            if sublang_cls:
+                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
+                token.sublang_name = sublang_name
+                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
+                                            ctxt=ctxt, on_error=add_lang_error)
+            else:
+                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
+
+    def switch_compiler(compiler_data):
+        nonlocal real_tokens, tokens
+        if real_tokens != None:
+            real_tokens, tokens = None, real_tokens
+
+        if compiler_data != None:
+            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
+                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
+                if compiler_name != "none":
+                    compiler_cls = ctxt.compiler_getter(compiler_name)
+                    if compiler_cls:
+                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
+                        for dyn_include in curr_compiler.get_dynamic_includes():
+                            add_dyn_include(dyn_include)
+                        
+                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
+                        compiler_token.compiler_name = compiler_name
+                        compiler_token.compiler = curr_compiler
+                        compiler_token.compiler_tokens = []
+                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
+
+                    else:
+                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
+
+    def add_next_mods(token, mods):
+        if mods.comments != None:
+            token.children = mods.comments        
+        if mods.var_kind != None:
+            token.var_kind = mods.var_kind
+        if mods.keys_kind != None:
+            token.keys_kind = mods.keys_kind
+        if mods.is_const != None:
+            token.is_const = mods.is_const
+        if mods.func_kind != None:
+            token.func_kind = mods.func_kind
+        if mods.merge_prev != None:
+            token.merge_prev = mods.merge_prev
+        if mods.force_safe != None:
+            token.force_safe = mods.force_safe
+        if mods.rename != None:
+            token.rename = mods.rename
+        if mods.placeholder != None:
+            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
+            token.placeholder_expr = mods.placeholder[1]
+            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
+                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
+        if mods.sublang != None:
+            add_sublang(token, mods.sublang)
+
+    def process_comment(orig_idx, comment, isblock):
+        hint, hintdata, hintprefix = CommentHint.none, None, ""
+
+        if ctxt and ctxt.hint_comments:
+            proper = False
+            if comment.startswith("$"):
+                comment = comment[1:]
+                hintprefix = "$"
+                proper = True
+
+            if comment.startswith("lint:"):
+                lints = k_hint_split_re.split(str_after_first(comment, ":"))
+                lints = [lint for lint in lints if lint]
+                hint, hintdata = CommentHint.lint, lints
+
+                for lint in lints:
+                    if lint.startswith("func::"):
+                        get_next_mods().func_kind = str_after_first(lint, "::")
+
+            elif comment.startswith("preserve:"):
+                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
+                preserves = [preserve for preserve in preserves if preserve]
+                hint, hintdata = CommentHint.preserve, preserves
+
+            elif comment.startswith(k_keep_prefix):
+                hint = CommentHint.keep
+                
+            elif comment.startswith("dynamic-include:") and proper:
+                add_dyn_include(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+            
+            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
+                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
+                dest_name, dest_args = split_hint_args(alias_value, ctxt)
+                if ctxt and ctxt.add_custom_alias:
+                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
+                hint = CommentHint.auto
+                
+            elif comment.startswith("switch-compiler:") and proper:
+                switch_compiler(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+
+            elif isblock:
+                hint = CommentHint.auto
+                if comment in ("global", "nameof"): # nameof is deprecated
+                    get_next_mods().var_kind = VarKind.global_
+                elif comment in ("member", "memberof"): # memberof is deprecated
+                    get_next_mods().var_kind = VarKind.member
+                elif comment in ("preserve", "string"): # string is deprecated
+                    get_next_mods().var_kind = False
+                elif comment == "global-keys":
+                    get_next_mods().keys_kind = VarKind.global_
+                elif comment == "member-keys":
+                    get_next_mods().keys_kind = VarKind.member
+                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
+                    get_next_mods().keys_kind = False
+                elif comment == "no-merge":
+                    get_next_mods().merge_prev = False
+                elif comment == "const":
+                    get_next_mods().is_const = True
+                elif comment == "non-const":
+                    get_next_mods().is_const = False
+                elif comment == "force-safe":
+                    get_next_mods().force_safe = True
+                elif comment.startswith("language::"):
+                    get_next_mods().sublang = str_after_first(comment, "::")
+                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
+                    get_next_mods().rename = str_after_first(comment, "::")
+                elif comment.startswith("placeholder-expr::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
+                elif comment.startswith("placeholder-stmt::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
+                else:
+                    hint = CommentHint.none
+        
+            if proper and hint == CommentHint.none:
+                eprint(f"unrecognized $-comment '{comment}'")
+            # at some point, warn about improper comments and so on?
+
+        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
+            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
+        
+    def tokenize_line_comment():
+        nonlocal vline
+        orig_idx = idx
+        while take() not in ('\n', ''): pass
+
+        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
+        vline += 1
+
+    def tokenize_long_brackets(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if accept('['):
+            pad_idx = idx
+            while accept('='): pass
+            pad = text[pad_idx:idx]
+
+            if accept('['):
+                start_i = idx
+                end_i = text.find(f"]{pad}]", idx)
+                if end_i >= 0:
+                    idx = end_i + len(pad) + 2
+                    return True, orig_idx, start_i, end_i
+                
+                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
+        
+        return False, orig_idx, None, None
+
+    def tokenize_long_comment():
+        nonlocal idx
+        ok, orig_idx, start, end = tokenize_long_brackets(0)
+        if ok:
+            process_comment(orig_idx - 2, text[start:end], isblock=True)
+        else:
+            idx = orig_idx
+        return ok
+
+    def tokenize_number(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if is_picotron:
+            is_hex = peek() == '0' and peek(1) in ('x', 'X')
+
+            while True:
+                ch = peek()
+                if (is_ident_char(ch, lang) or ch == '.' or
+                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
+                    idx += 1
+                else:
+                    break
+
+        else:
+            ch = peek()
+            if ch == '0' and peek(1) in ('b', 'B'):
+                idx += 2
+                digits = "01"
+            elif ch == '0' and peek(1) in ('x', 'X'):
+                idx += 2
+                digits = "0123456789aAbBcCdDeEfF"
+            else:
+                digits = "0123456789"
+
+            while True:
+                ch = peek()
+                if ch and ch in digits:
+                    idx += 1
+                elif ch == '.':
+                    idx += 1
+                else:
+                    break
+
+        add_token(TokenType.number, orig_idx)
+
+    def tokenize_ident(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+        
+        while is_ident_char(peek(), lang):
+            idx += 1
+            
+        if text[orig_idx:idx] in keywords:
+            add_token(TokenType.keyword, orig_idx)
+        else:
+            add_token(TokenType.ident, orig_idx)
+
+    def tokenize_string(off):
+        nonlocal idx
+        orig_idx = idx + off
+        idx = orig_idx + 1
+        quote = text[orig_idx]
+
+        while True:
+            ch = take()
+            if ch in ('\n', ''):
+                add_error("Unterminated string", orig_idx - idx)
+                break
+            elif ch == '\\':
+                if accept('z'): # skip line breaks
+                    while peek() in k_wspace:
+                        take()
+                else:
+                    take() # at least
+            elif ch == quote:
+                break
+
+        add_token(TokenType.string, orig_idx)
+
+    def tokenize_long_string(off):
+        ok, orig_idx, _, _ = tokenize_long_brackets(off)
+        if ok:
+            add_token(TokenType.string, orig_idx)
+        else:
+            add_error("Invalid long brackets")
+    
+    if ctxt and ctxt.default_compiler and not inner:
+        switch_compiler(ctxt.default_compiler)
+
+    while idx < len(text):
+        ch = take()
+
+        if ch in k_wspace: # whitespace
+            if ch == "\n":
+                vline += 1
+
+        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
+            tokenize_number(-1)
+
+        elif is_ident_char(ch, lang): # identifier
+            tokenize_ident(-1)
+
+        elif ch in ('"', "'"): # string
+            tokenize_string(-1)
+
+        elif ch == '[' and accept_one_of('=', '['): # long string
+            tokenize_long_string(-2)
+
+        elif ch == '-' and accept('-'): # comment
+            if not tokenize_long_comment():
+                tokenize_line_comment()
+
+        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
+            tokenize_line_comment()
+
+        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
+            orig_idx = idx - 1
+            if ch in ".:/^<>" and accept(ch):
+                if ch in (".>" if is_pico8 else ".") and accept(ch):
+                    if ch == ">": accept('=')
+                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
+                    accept('=')
+                elif ch in "./^<>":
+                    accept('=')
+            elif ch in "+-*/\\%&|^<>=~":
+                accept('=')
+            add_token(TokenType.punct, orig_idx)
+
+        elif ch == '!' and accept('='): # alt. punctuation
+            add_token(TokenType.punct, idx - 2)
+
+        else:
+            add_error("invalid character")
+    
+    if (next_mods or all_comments) and not inner:
+        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
+
+    if real_tokens != None:
+        switch_compiler(None)
+    return tokens, errors
+    
+
+def count_tokens(tokens):
+    count = 0
+    for i, token in enumerate(tokens):
+        if token.children:
+            for comment in token.children:
+                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
+                    return count
+
+        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
+            continue
+
+        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
+                token.endidx == tokens[i+1].idx and
+                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
+                tokens[i-1].value not in (")", "]", "}", ";", "end")):
+            continue
+
+        count += 1
+    return count
+
+def parse_fixnum(origstr):
+    """parse a fixnum from a pico8 string"""
+    str = origstr.lower()
+    
+    neg = bnot = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+    elif str.startswith("~"):
+        str = str[1:]
+        bnot = True
+
+    digits = "0123456789"
+    if str.startswith("0x"):
+        digits += "abcdef"
+        str = str[2:]
+    elif str.startswith("0b"):
+        digits = "01"
+        str = str[2:]
+    base = len(digits)
+
+    value = 0
+    while str and str[0] in digits:
+        value = (value * base) + digits.index(str[0])
+        str = str[1:]
+
+    if str and str[0] == '.':
+        str = str[1:]
+        dotvalue = 0
+        dotdigits = 0
+        while str and str[0] in digits:
+            dotvalue = (dotvalue * base) + digits.index(str[0])
+            dotdigits += 1
+            str = str[1:]
+        
+        value += dotvalue / (base ** dotdigits)
+    
+    if str:
+        throw(f"Invalid pico8 number: {origstr}")
+
+    fixnum = num_to_fixnum(value)
+    if neg:
+        fixnum = -fixnum & k_fixnum_mask
+    elif bnot:
+        fixnum = ~fixnum & k_fixnum_mask
+
+    return fixnum
+
+def parse_luanum(origstr):
+    str = origstr.lower()
+
+    neg = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+
+    try:
+        if str.startswith("0x"):
+            if "." in str or "p" in str:
+                try:
+                    value = float.fromhex(str)
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(int(str, base=16))
+        
+        elif str.startswith("0b"):
+            # TODO: recheck this if ever fixed to support exponents?
+            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
+            dotpos = str.find(".")
+            if dotpos >= 0:
+                str = str_replace_at(str, dotpos, 1, "")
+            value = int(str, base=2)
+            if dotpos >= 0:
+                try:
+                    value = math.ldexp(value, dotpos - len(str))
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(value)
+            
+        else:
+            if "." in str or "e" in str:
+                value = float(str) # no OverflowError here
+            else:
+                value = int(str)
+                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
+                    value = num_to_luaint(value)
+                else:
+                    value = float(value)
+    except ValueError:
+        throw(f"Invalid lua number: {origstr}")
+    
+    if neg:
+        value = -value
+    return value
+
+k_char_escapes = {
+    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
+    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
+    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
+}
+
+def lang_chr(value, lang):
+    if lang == Language.pico8 or value < 0x80:
+        return chr(value)
+    else:
+        return chr(0xdc00 + value) # surrogate escape
+
+def ext_unicode_to_lang_str(value, lang):
+    if value < 0x80:
+        return lang_chr(value, lang)
+    
+    suffix = ""
+    count = 0
+    while value >= (0x40 >> count):
+        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
+        value >>= 6
+        count += 1
+    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
+
+def parse_char_escape(str, pos, lang):
+    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
+
+    esc = str_get(str, pos + 1)
+    esc_ch = k_char_escapes.get(esc)
+    if esc_ch:
+        return esc_ch, pos + 2
+
+    elif esc == 'z':
+        end = pos + 2
+        while str_get(str, end) in k_wspace:
+            end += 1
+        return "", end
+
+    elif esc == 'x':
+        end = pos + 4
+        hex_esc = str[pos + 2 : end]
+        value = maybe_int(hex_esc, base=16)
+        if value is None:
+            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif '0' <= esc <= '9':
+        end = pos + 2
+        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
+            end += 1
+        dec_esc = str[pos + 1 : end]
+        value = maybe_int(dec_esc)
+        if value is None or value >= 256:
+            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif lang == Language.picotron and esc == 'u':
+        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
+        end = str.find("}", pos) + 1
+        check(end > 0, f"Unterminated unicode escape in: '{str}'")
+        uni_esc = str[pos + 3 : end - 1]
+        value = maybe_int(uni_esc, base=16)
+        if value is None or value >= 0x80000000:
+            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
+        return ext_unicode_to_lang_str(value, lang), end
+
+    else:
+        throw(f"Invalid escape: '{esc}' in: '{str}'")    
+
+def parse_string_literal(str, lang=Language.pico8):
+    """parse a pico8 string from a pico8 string literal"""
+    if str.startswith("["):
+        start = str.index("[", 1) + 1
+        lit = str[start:-start]
+        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
+        if lit.startswith('\n'):
+            lit = lit[1:]
+        return lit
+
+    else:
+        litparts = []
+        str = str[1:-1]
+        start = 0
+        while start < len(str):
+            end = str.find('\\', start)
+            if end < 0:
+                litparts.append(str[start:])
+                break
+
+            if end > start:
+                litparts.append(str[start:end])
+
+            esc, start = parse_char_escape(str, end, lang)
+            litparts.append(esc)
+                
+        return "".join(litparts)
+
+from pico_parse import Node, VarKind, can_replace_with_unary
+from pico_output import format_fixnum, format_luanum, format_string_literal
+from pico_process import Error, Source
-- 
2.43.0


From cb0a7d4701b914bd14aea6ac9088001788ed658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:29 +0000
Subject: [PATCH 15/71] fix: constant folding of a division whose result is the
 minimum number ignored that it's clamped

---
 pico_constfold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 5515eb7..525ceec 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -178,7 +178,7 @@ def _div_trunc(a, b):
 def lua_div(lang, a, b):
     if a.is_fixnum and b.is_fixnum and b.value != 0: # avoid relying on div-by-0 behavior
         result = _div_trunc(a.signed_value << 16, b.signed_value)
-        if is_signed_fixnum_in_range(result): # avoid relying on clamping overflow behavior
+        if is_signed_fixnum_in_range(result) and result != -0x80000000: # avoid relying on clamping overflow behavior (which includes the minimum number)
             return LuaFixnum(result)
     
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
-- 
2.43.0


From 9d043ab4c1ac4df4545fd0d3d70b3036016b3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 16/71] fix: constant folding compared picotron strings by code
 points instead of by bytes

---
 pico_constfold.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 525ceec..85257dc 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -47,6 +47,12 @@ class LuaValue:
     def uint_value(m):
         return int(m.value) & k_luaint_mask # assumes is_integer_cvt, so can't overflow
     @property
+    def raw_value(m):
+        if m.is_string: # compared as bytes (there can be more than one way to represent the same bytes)
+            return encode_luastr(m.value)
+        else:
+            return m.value
+    @property
     def signed_value(m):
         if m.is_fixnum:
             return fixnum_to_signed(m.value)
@@ -216,37 +222,37 @@ def lua_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.value == b.value)
     else:
-        return LuaBoolean(a.type == b.type and a.value == b.value)
+        return LuaBoolean(a.type == b.type and a.raw_value == b.raw_value)
     
 def lua_not_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.value != b.value)
     else:
-        return LuaBoolean(a.type != b.type or a.value != b.value)
+        return LuaBoolean(a.type != b.type or a.raw_value != b.raw_value)
 
 def lua_less(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value < b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value < b.value)
+        return LuaBoolean(a.raw_value < b.raw_value)
 
 def lua_less_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value <= b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value <= b.value)
+        return LuaBoolean(a.raw_value <= b.raw_value)
 
 def lua_greater(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value > b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value > b.value)
+        return LuaBoolean(a.raw_value > b.raw_value)
 
 def lua_greater_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value >= b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value >= b.value)
+        return LuaBoolean(a.raw_value >= b.raw_value)
 
 def lua_max(lang, a, b):
     if a.is_number and b.is_number:
-- 
2.43.0


From 003e113bf5f53bc6ec228028b3f58cea3b786b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 17/71] fix: constant folding of picotron's floored division
 and modulo of floats differed from lua's

---
 pico_constfold.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 85257dc..6d53178 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -201,7 +201,9 @@ def lua_idiv(lang, a, b):
     elif a.is_integer and b.is_integer and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
         return LuaInteger(a.value // b.value)
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
-        result = a.float_value // b.float_value
+        result = a.float_value / b.float_value # (python's float // isn't the same as a floored /)
+        if math.isfinite(result):
+            result = math.copysign(math.floor(result), result)
         if not math.isnan(result):
             return LuaFloat(result)
 
@@ -215,6 +217,8 @@ def lua_mod(lang, a, b):
         return LuaInteger(a.value % b.value)
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard mod-by-0 behavior
         result = a.float_value % b.float_value
+        if result == 0: # python uses the sign of the divisor, lua - of the dividend
+            result = math.copysign(result, a.float_value)
         if not math.isnan(result):
             return LuaFloat(result)
 
-- 
2.43.0


From 640c1b2494d70c17da76068d24ff506a3aad9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 18/71] fix: strings ending with a bracket were output as long
 strings that end too early

---
 pico_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 57c207e..a64eba7 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -214,14 +214,14 @@ k_char_escapes_rev_min = {k: v for k, v in k_char_escapes_rev.items() if k in "\
 def get_long_brackets_equals(value):
     for i in itertools.count():
         eqs = "=" * i
-        if f"]{eqs}]" not in value:
+        if f"]{eqs}]" not in value + "]": # (the start of the closing bracket counts too)
             return eqs
 
 def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, long=None, quote=None):
     """format a pico8 string to a pico8 string literal"""
 
     if long != False:
-        if "\0" not in value and "\r" not in value and (use_complex_long or "]]" not in value):
+        if "\0" not in value and "\r" not in value and (use_complex_long or "]]" not in value + "]"):
             newline = "\n" if value.startswith("\n") else ""
 
             eqs = get_long_brackets_equals(value)
-- 
2.43.0


From 9b255f8e458c1c57cbcd0394539cbc764fa10ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 19/71] fix: a \z escape at the end of a string crashed the
 parsing of the string

---
 pico_tokenize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 38ff7fb..66740c5 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -865,7 +865,7 @@ def parse_char_escape(str, pos, lang):
 
     elif esc == 'z':
         end = pos + 2
-        while str_get(str, end) in k_wspace:
+        while end < len(str) and str[end] in k_wspace:
             end += 1
         return "", end
 
-- 
2.43.0


From d331080ba62c1a6c35eedfbbcd94ac2ccd4cc723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 20/71] fix: if/while with a body starting with a parenthesis
 was output as a shorthand that calls its condition

---
 pico_minify.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index 1a51123..5c914c7 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -89,7 +89,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
 
             # can the node be converted to shorthand?
             if not to_short and not has_elseif:
-                has_empties, starts_with_do = False, False
+                has_empties, bad_start = False, False
                 allow_shorthand = allow_parent_shorthands(node)
 
                 # now check the children
@@ -104,11 +104,12 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                         has_empties = True
                     
                     if i == 0:
-                        # a shorthand cannot begin with a do block. (would be a longhand)
-                        starts_with_do = next((token.value for token in body.get_tokens() if token.value != ";"), None) == "do"
+                        # a shorthand cannot begin with a do block (would be a longhand) or a parenthesis (would be a call)
+                        bad_start = (next((token.value for token in body.get_tokens() if token.value != ";"), None) == "do" or
+                            next((token.value for token in body.get_tokens()), None) == "(")
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
-                to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_with_do
+                to_short = allow_shorthand and not (has_empties and not focus.chars) and not bad_start
                 if to_short:
                     allowed_shorts.add(node)
             
-- 
2.43.0


From 1e06a53e9978769067e7e0cca7145d5154c16ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 21/71] fix: constant folding replaced the table in the name of
 a function statement

---
 pico_constfold.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 6d53178..afca21b 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -609,6 +609,17 @@ def fold_consts(ctxt, minify_opts, root, errors):
     in_const_ctxt = 0
     const_ctxt_fail = None
 
+    # variables in the names of functions (e.g. 'function a.b()') cannot be replaced by constants
+    func_base_vars = set()
+    def find_func_bases(node):
+        if node.type == NodeType.function and node.target and node.target.type == NodeType.member:
+            base = node.target
+            while base.type == NodeType.member:
+                base = base.child
+            func_base_vars.add(base.var)
+    
+    root.traverse_nodes(find_func_bases, extra=True)
+
     def skip_special(node):
         if node.type in (NodeType.local, NodeType.assign):
             # we traverse these specially in update_node_constval
@@ -648,7 +659,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
                         else:
                             set_const(node, constval, ctxt, focus, in_const_ctxt)
 
-        elif node.type == NodeType.var and node.var and not node.new and not node.assignment:
+        elif node.type == NodeType.var and node.var and not node.new and not node.assignment and node.var not in func_base_vars:
             if node.var.constval:
                 set_const(node, node.var.constval, ctxt, focus, in_const_ctxt or node.var.is_const)
             elif node.var.is_const:
@@ -725,6 +736,8 @@ def fold_consts(ctxt, minify_opts, root, errors):
                 # (even if a global is assigned once, it's hard to tell if all its uses are after the assignment, so we close globals under --[[const]])
                 is_const = ((target.kind == VarKind.local and not target.var.reassigned) or
                             (is_const_ctxt and target.kind == VarKind.global_ and target.var.reassigned <= 1 and target.name not in ctxt.builtins))
+                if target.var in func_base_vars:
+                    is_const = False
             else:
                 is_const = is_const_ctxt = False
 
-- 
2.43.0


From c62b27eda84ff6c65450d4f69ccd6a04f69a04bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 22/71] fix: calls used as statements could be folded to
 constants, which aren't valid statements

---
 pico_constfold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index afca21b..d60c44c 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -683,7 +683,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
                         break # (optimization)
                 else:
                     constval = func(lang, *arg_consts)
-                    if constval:
+                    if constval and node.parent.type != NodeType.block: # (a constant isn't a valid statement)
                         set_const(node, constval, ctxt, focus, in_const_ctxt)
         
         elif node.type in (NodeType.if_, NodeType.elseif):
-- 
2.43.0


From d3c2fdf690965b5ffc3f22b8dc1234c2ad3c669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:34 +0000
Subject: [PATCH 23/71] fix: line comments ending with a bracket became block
 comments that end too early

---
 pico_output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index a64eba7..b944d91 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -348,8 +348,9 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
                 if comment.isblock:
                     comment_out = re.sub(r"\n\s*", " ", comment.value)
                 else:
-                    eqs = get_long_brackets_equals(comment.value)
-                    comment_out = f"--[{eqs}[{comment.value[2:-1]}]{eqs}]"
+                    comment_text = comment.value[2:-1]
+                    eqs = get_long_brackets_equals(comment_text)
+                    comment_out = f"--[{eqs}[{comment_text}]{eqs}]"
             else:
                 comment_out = comment.value
         
-- 
2.43.0


From b68781ae2cf9951d76f480ffab86a59157658ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:54 +0000
Subject: [PATCH 24/71] fix: kept comments with line breaks ended up in
 shorthands, breaking them up

---
 pico_output.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index b944d91..d4dd666 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -313,10 +313,11 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         
         if minify_wspace:
             # (modified tokens may require whitespace not previously required - e.g. 0b/0x)
-            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified) and prev.value:
+            needed = need_linebreak and can_need_linebreak # (even if the tokens are adjacent, since comments may've been moved between them)
+            if (needed or prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified) and prev.value:
                 # TODO: can we systemtically add whitespace to imrpove compression? (failed so far)
 
-                if (need_linebreak and can_need_linebreak) or (not minify_lines and next.vline != prev.vline):
+                if needed or (not minify_lines and next.vline != prev.vline):
                     output.append("\n")
                     need_linebreak = False
                 elif need_whitespace_between(ctxt, prev, next, comment_out):
@@ -338,21 +339,21 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
     def comment_output(comment, allow_linebreaks):
         nonlocal prev_token_or_comment, need_linebreak
 
+        comment_out = comment.value
         if exclude_comments:
             if comment.hint == CommentHint.keep:
-                comment_out = comment.value.replace(comment.hintprefix + k_keep_prefix, "", 1)
+                comment_out = comment_out.replace(comment.hintprefix + k_keep_prefix, "", 1)
             else:
                 return
-        else:
-            if not allow_linebreaks and "\n" in comment.value:
-                if comment.isblock:
-                    comment_out = re.sub(r"\n\s*", " ", comment.value)
-                else:
-                    comment_text = comment.value[2:-1]
-                    eqs = get_long_brackets_equals(comment_text)
-                    comment_out = f"--[{eqs}[{comment_text}]{eqs}]"
+            allow_linebreaks |= short_level == 0 # (no harm in linebreaks outside of shorthands)
+
+        if not allow_linebreaks and "\n" in comment_out:
+            if comment.isblock:
+                comment_out = re.sub(r"\n\s*", " ", comment_out)
             else:
-                comment_out = comment.value
+                comment_text = comment_out[2:-1]
+                eqs = get_long_brackets_equals(comment_text)
+                comment_out = f"--[{eqs}[{comment_text}]{eqs}]"
         
         wspace_output(comment, can_need_linebreak=False, comment_out=comment_out)
         output.append(comment_out)
-- 
2.43.0


From c1d12470286a19bbaead432d13c7e527762d2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:40 +0000
Subject: [PATCH 25/71] fix: disabling the removal of spaces could crash when
 constant branches were folded away

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index d4dd666..8bc4119 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -271,7 +271,7 @@ def is_non_nested_short(node):
 
 def get_orig_wspace(pre, post, ctxt, allow_linebreaks, need_linebreak=False):
     source = default(pre.source, post.source)
-    text = source.text[pre.endidx:post.idx]
+    text = source.text[pre.endidx:post.idx] if source else "" # (both may be synthetic)
     
     if text and not text.isspace():
         tokens, _ = tokenize(Source("<output>", text), lang=ctxt.lang) # TODO: optimize?
-- 
2.43.0


From eb3d0d9edc4abac9087e7798ed5d337635e645d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:45 +0000
Subject: [PATCH 26/71] fix: unminify crashed on parentheses in the else of
 shorthands

---
 pico_unminify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index e17dff4..5050619 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -40,7 +40,7 @@ def unminify_code(root, unminify_opts):
 
         # ignore shorthand parens, to avoid increasing token count as we convert shorthands to longhand
         gparent = token.parent.parent
-        if gparent and is_short_block_stmt(gparent) and token.parent == gparent.cond and token.value in ("(", ")"):
+        if gparent and is_short_block_stmt(gparent) and token.parent == getattr(gparent, "cond", None) and token.value in ("(", ")"):
             return
         
         # ignore semicolons inside blocks - our formatting makes them unneeded
-- 
2.43.0


From 588e587a3d025a20daa1db5580d4ddd2befe1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:45 +0000
Subject: [PATCH 27/71] fix: unminify merged statements starting with a
 parenthesis into the statement before them

---
 pico_unminify.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index 5050619..a1e58a6 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -11,12 +11,13 @@ def unminify_code(root, unminify_opts):
     indent = 0
     curr_stmt = None
     stmt_stack = []
+    need_semicolon = False
 
     k_tight_prefix_tokens = ("(", "[", "{", "?", ".", ":", "::")
     k_tight_suffix_tokens = (")", "]", "}", ",", ";", ".", ":", "::")
 
     def visit_token(token):
-        nonlocal prev_token, prev_tight
+        nonlocal prev_token, prev_tight, need_semicolon
         value = token.value
 
         for comment in token.children:
@@ -43,8 +44,9 @@ def unminify_code(root, unminify_opts):
         if gparent and is_short_block_stmt(gparent) and token.parent == getattr(gparent, "cond", None) and token.value in ("(", ")"):
             return
         
-        # ignore semicolons inside blocks - our formatting makes them unneeded
+        # ignore semicolons inside blocks - our formatting makes them unneeded (unless followed by a parenthesis)
         if token.parent.type == NodeType.block and token.value == ";":
+            need_semicolon = token.next_token().value == "("
             return
         
         # undo ugly token replacements
@@ -63,7 +65,7 @@ def unminify_code(root, unminify_opts):
         prev_tight = True
 
     def visit_node(node):
-        nonlocal indent, curr_stmt, prev_tight
+        nonlocal indent, curr_stmt, prev_tight, need_semicolon
 
         if node.type == NodeType.block:
             if node.parent:
@@ -85,6 +87,9 @@ def unminify_code(root, unminify_opts):
 
             curr_stmt = node
             output.append(indent_str * indent)
+            if need_semicolon:
+                output.append(";")
+                need_semicolon = False
             prev_tight = False
 
     def end_visit_node(node):
-- 
2.43.0


From 676387522759181aa59ad8436c71ab13230a2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:45 +0000
Subject: [PATCH 28/71] fix: unminify merged tokens such as two minuses or
 brackets into one token

---
 pico_unminify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index a1e58a6..b111177 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -53,7 +53,11 @@ def unminify_code(root, unminify_opts):
         if token.value == "do" and token.parent.type in (NodeType.if_, NodeType.elseif):
             value = "then"
 
-        if prev_tight and prev_token.value not in k_tight_prefix_tokens and \
+        # tokens that'd be understood differently without a space
+        need_space = (prev_token.value == "-" and value.startswith("-")) or (prev_token.value == "[" and value.startswith("["))
+
+        if prev_tight and need_space or \
+                prev_tight and prev_token.value not in k_tight_prefix_tokens and \
                 token.value not in k_tight_suffix_tokens and \
                 not (token.value in ("(", "[") and (prev_token.type == TokenType.ident or 
                                                     prev_token.value in ("function", ")", "]", "}"))) and \
-- 
2.43.0


From b75414ce0c3db52f8bf971668ff80b813e8c1df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 29/71] fix: a print shorthand followed by a line starting with
 a parenthesis was parsed as a call of its result

---
 pico_parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_parse.py b/pico_parse.py
index 0f0d67e..8fe52b4 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -650,6 +650,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         expr = parse_core_expr()
         while True:
             nonlocal idx
+            if expr.type == NodeType.call and expr.short: # (a print shorthand ends at the end of its line)
+                return expr
             token = take()
             value = token.value
             if value == "." and expr.type in k_prefix_types:
-- 
2.43.0


From cbfd6f866bfc70ad2e4d665bd1bbcc210e06c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 30/71] fix: unminify added another blank line before functions
 preceded by a semicolon when run again

---
 pico_unminify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index b111177..4b57c2d 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -85,8 +85,8 @@ def unminify_code(root, unminify_opts):
 
         elif curr_stmt is None:
             if is_function_stmt(node):
-                child_i = node.parent.children.index(node)
-                if child_i > 0 and not is_function_stmt(node.parent.children[child_i - 1]):
+                stmt_i = node.parent.stmts.index(node)
+                if stmt_i > 0 and not is_function_stmt(node.parent.stmts[stmt_i - 1]):
                     output.append("\n")
 
             curr_stmt = node
-- 
2.43.0


From fb0c1a058c5f263619f238e115fe5787718623f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:45 +0000
Subject: [PATCH 31/71] fix: unminify indented all of picotron's code by one
 level too many

---
 pico_unminify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index 4b57c2d..280c8af 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -72,7 +72,7 @@ def unminify_code(root, unminify_opts):
         nonlocal indent, curr_stmt, prev_tight, need_semicolon
 
         if node.type == NodeType.block:
-            if node.parent:
+            if node is not root:
                 indent += 1
                 # shorthand -> longhand
                 if is_short_block_stmt(node.parent) and node.parent.type != NodeType.else_:
@@ -100,7 +100,7 @@ def unminify_code(root, unminify_opts):
         nonlocal indent, curr_stmt, prev_tight
 
         if node.type == NodeType.block:
-            if node.parent:
+            if node is not root:
                 indent -= 1
 
             curr_stmt = stmt_stack.pop()
-- 
2.43.0


From dbe8227c13e51fe4ac244811b3533433c7ee58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:32 +0000
Subject: [PATCH 32/71] fix: return without values at the end of the file was
 refused

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 8fe52b4..c807f9b 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -832,7 +832,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
     def parse_return(vline):
         tokens = [peek(-1)]
-        if peek().value in k_block_ends + (";",) or (e(vline) and peek().vline > vline):
+        if not e(peek().type) or peek().value in k_block_ends + (";",) or (e(vline) and peek().vline > vline):
             return Node(NodeType.return_, tokens, items=[])
         else:
             rets = parse_list(tokens, parse_expr)
-- 
2.43.0


From 83d5a0856832b632a2955f626123f604531eba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:07 +0000
Subject: [PATCH 33/71] fix: print shorthands without arguments took the next
 line as their arguments

---
 pico_parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index c807f9b..f560417 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -842,7 +842,9 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         nonlocal short_vline
         tokens = [peek(-1)]
         old_short_vline, short_vline = short_vline, tokens[0].vline
-        args = parse_list(tokens, parse_expr)
+        args = []
+        if e(peek().type) and peek().vline == short_vline:
+            args = parse_list(tokens, parse_expr)
         short_vline = old_short_vline
         # explicitly represent the implicit use of print
         print_token = Token.synthetic(TokenType.ident, "print", tokens[0])
-- 
2.43.0


From aeae9317588ed341f8413575d6b3c49a3983bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:17 +0000
Subject: [PATCH 34/71] fix: inlining of constant branches could drop the line
 end of shorthands that ended with the branch

---
 pico_constfold.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index d60c44c..68f3e58 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -1,7 +1,7 @@
 from utils import *
 from pico_defs import *
 from pico_tokenize import Token, TokenType, ConstToken, k_skip_children, tokenize, KeepCommentFlags
-from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr, is_short_block_stmt
+from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr, is_short_block_stmt, k_nested
 from pico_output import format_fixnum, format_luanum
 
 class LuaType(Enum):
@@ -569,6 +569,8 @@ def create_do_node_if_needed(node):
         nonlocal needed
         if node.type == NodeType.var and node.new:
             needed = True
+        elif node.short is k_nested: # (terminated by the end of the node)
+            needed = True
         elif node.type in (NodeType.return_, NodeType.break_, NodeType.goto):
             needed = True
         elif node.type in (NodeType.if_, NodeType.elseif, NodeType.while_, NodeType.repeat, NodeType.for_, NodeType.for_in, NodeType.do):
-- 
2.43.0


From b360ea697af4193d30fbbb9d41e177481157aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:15 +0000
Subject: [PATCH 35/71] fix: emptied bodies of shorthands could be output on
 the next line

---
 pico_constfold.py | 2 +-
 pico_minify.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 68f3e58..4cb9fbc 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -792,7 +792,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
         if is_short_block_stmt(node):
             body = node.then if node.type == NodeType.if_ else node.body
             if not body.get_tokens(): # (everything got folded away)
-                body.append_token(TokenType.punct, ";")
+                body.insert_token(0, TokenType.punct, ";")
             elif node.type != NodeType.else_ and body.first_token().value == "do": # (would be a longhand)
                 body.insert_token(0, TokenType.punct, ";", near_next=True)
 
diff --git a/pico_minify.py b/pico_minify.py
index 5c914c7..13e89f7 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -178,7 +178,7 @@ def minify_change_block_shorthand(node, new_short):
         # fixup empty bodies
         for body in get_node_bodies(node):
             if not body.get_tokens():
-                body.append_token(TokenType.punct, ";")
+                body.insert_token(0, TokenType.punct, ";")
         
         on_enable_shorthand(node)
 
-- 
2.43.0


From 13058acd329e36d3fa7b2b75cbe93abf52e6c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 36/71] fix: member hints were ignored for members of _ENV,
 renaming them unlike other members

---
 pico_rename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_rename.py b/pico_rename.py
index 5975849..f7f7869 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -239,7 +239,7 @@ def rename_tokens(ctxt, root, rename_opts):
             if (table_name, node.name) in preserved_members:
                 member_excludes.add(node.name)
                 return None
-            elif table_name == "_ENV" or members_as_globals:
+            elif (table_name == "_ENV" and not explicit) or members_as_globals:
                 return compute_effective_kind(node, VarKind.global_, explicit=True)
 
         elif kind == VarKind.global_:
-- 
2.43.0


From 407ce7e5dee6d27e4a9a327455f878a5f3bfeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:37 +0000
Subject: [PATCH 37/71] fix: preserve rules for a table's members were ignored
 when the table's variable has a rename hint

---
 pico_rename.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index f7f7869..8b8a98a 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -217,7 +217,7 @@ def rename_tokens(ctxt, root, rename_opts):
             
             if node.parent.type == NodeType.member and node.parent.key == node and node.parent.child.type == NodeType.var:
                 var_node = node.parent.child
-                table_name = var_node.name
+                table_name = var_node.var.name if var_node.var else var_node.name # (node's name may already be renamed)
 
                 if not explicit and var_node.var and var_node.var.keys_kind != None:
                     return compute_effective_kind(node, var_node.var.keys_kind, explicit=True)
@@ -231,7 +231,7 @@ def rename_tokens(ctxt, root, rename_opts):
                     assign_i = table_node.parent.sources.index(table_node)
                     target_node = list_get(table_node.parent.targets, assign_i)
                     if target_node and target_node.type == NodeType.var:
-                        table_name = target_node.name
+                        table_name = target_node.var.name if target_node.var else target_node.name
 
                         if not explicit and target_node.var and target_node.var.keys_kind != None:
                             return compute_effective_kind(node, target_node.var.keys_kind, explicit=True)
-- 
2.43.0


From afa79dc31031790746d2ed48cc2b4ed223f334f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:17 +0000
Subject: [PATCH 38/71] fix: rename hints of globals didn't affect other uses
 of the global (through _ENV or global hints)

---
 pico_rename.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 8b8a98a..9657127 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -199,17 +199,22 @@ def rename_tokens(ctxt, root, rename_opts):
     def compute_effective_kind(node, kind, explicit):
         """get the identifier kind (global/member/etc) of a node, taking into account hints in the code"""
 
-        if node.var.rename:
-            node.name = node.var.rename
-            renamed_vars.add(node.var)
+        var = node.var
+        if kind == VarKind.global_ and node.kind != VarKind.global_ and not var.rename: # (it names a global, which may have a rename hint)
+            var = root.globals.get(node.name, var)
+
+        if var.rename:
+            node.name = var.rename
+            node.rename_var = var
+            renamed_vars.add(var)
             if kind == VarKind.member:
                 member_excludes.add(node.name)
             elif kind == VarKind.global_:
                 global_excludes.add(node.name)
             elif kind == VarKind.local:
-                local_excludes[node.name].add(node.var)
+                local_excludes[node.name].add(var)
             elif kind == VarKind.label:
-                label_excludes[node.name].add(node.var)
+                label_excludes[node.name].add(var)
             return None
 
         if kind == VarKind.member:
@@ -271,6 +276,7 @@ def rename_tokens(ctxt, root, rename_opts):
 
     def collect_idents_pre(node):
         if node.type == NodeType.var:
+            node.rename_var = None
             node.effective_kind = compute_effective_kind(node, default(node.var_kind, node.kind), explicit=e(node.var_kind))
             
             if node.effective_kind == VarKind.member:
@@ -477,8 +483,8 @@ def rename_tokens(ctxt, root, rename_opts):
                 node.name = local_renames[node.var]
             elif node.effective_kind == VarKind.label:
                 node.name = label_renames[node.var]
-            elif node.var.rename:
-                orig_name = node.var.name # (node.name already renamed)
+            elif node.rename_var:
+                orig_name = node.rename_var.name # (node.name already renamed)
             else:
                 return
 
-- 
2.43.0


From 42540308ce2ff52ce834d2d95fcb8c9039d05c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:18 +0000
Subject: [PATCH 39/71] fix: identifiers given in the command line weren't
 converted to P8SCII

---
 run_shrinko.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index 5e035ae..fb9a131 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -5,7 +5,7 @@ from pico_cart import CartFormat, read_cart, write_cart, get_bbs_cart_url, merge
 from pico_export import read_cart_export, read_pod_file, ListOp
 from pico_tokenize import k_hint_split_re
 from pico_constfold import parse_constant
-from pico_defs import Language, get_latest_pico8_version, parse_pico8_version
+from pico_defs import Language, to_langstr, get_latest_pico8_version, parse_pico8_version
 from pico_preprocess import IncludeNotFoundError
 from picotron_defs import PicotronContext, Cart64Source, get_latest_picotron_runtime
 from picotron_cart import Cart64Format, read_cart64, write_cart64, merge_cart64, filter_cart64, preproc_cart64
@@ -371,6 +371,11 @@ def create_main(lang):
         if (e(args.delete_cart) + e(args.rename_cart) + e(args.insert_cart) + e(args.replace_cart)) > 1:
             throw("Can only specify one of --insert/replace/delete/rename-cart")
             
+        # identifiers from the command line are in unicode
+        for attr in ("preserve", "no_preserve", "lint_global", "builtin", "not_builtin", "local_builtin"):
+            if getattr(args, attr, None):
+                setattr(args, attr, [to_langstr(item, lang) for item in getattr(args, attr)])
+
         if not args.input_format and args.input:
             args.input_format = default_format(args.input)
             if args.in_place and not args.format:
@@ -431,11 +436,11 @@ def create_main(lang):
         
         if args.const or args.str_const:
             if args.const:
-                args.const = {name: parse_constant(val, lang) or throw(f"cannot parse const <{val}>. If it's meant to be a string, try using --str-const instead") 
+                args.const = {to_langstr(name, lang): parse_constant(val, lang) or throw(f"cannot parse const <{val}>. If it's meant to be a string, try using --str-const instead") 
                             for name, val in args.const}
             if args.str_const:
                 args.const = args.const or {}
-                args.const.update({name: parse_constant(val, lang, as_str=True) for name, val in args.str_const})
+                args.const.update({to_langstr(name, lang): parse_constant(val, lang, as_str=True) for name, val in args.str_const})
 
         if is_picotron and not args.delete_meta and args.minify and not args.minify_safe_only:
             args.delete_meta = ["*"]
-- 
2.43.0


From c88d6aacd88cfa9883bd034084bb5e3eaf4e433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 40/71] fix: merging meta sections crashed

---
 pico_cart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_cart.py b/pico_cart.py
index c4a6682..9144456 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -768,7 +768,9 @@ def merge_cart(dest, src, sections):
             dest.label = src.label
         elif section.startswith(k_meta_prefix):
             meta_name = section[len(k_meta_prefix):]
-            dest.meta[meta_name] = src.name[meta_name]
+            dest.meta.pop(meta_name, None)
+            if meta_name in src.meta:
+                dest.meta[meta_name] = src.meta[meta_name]
         else:
             throw(f"unknown cart section: '{section}'")
 
-- 
2.43.0


From 9ae9eb9a19e67ad5e09745c69e3a8af379aa7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 41/71] fix: shorthands whose body starts with a folded
 constant were output as calls of their condition

---
 pico_constfold.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 4cb9fbc..565340f 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -519,7 +519,10 @@ def fixup_syntax_before(stmt):
     prevt = stmt.prev_token()
     prev_parents = []
     prevt.traverse_parents(prev_parents.append)
-    if block in prev_parents:
+    if (block.parent and block.parent.type in (NodeType.if_, NodeType.while_) and block.parent.short and
+            block.first_token() is stmt.first_token()): # (would become a call of the condition)
+        stmt.parent.insert_token(stmt.parent.children.index(stmt), TokenType.punct, ";", near_next=True)
+    elif block in prev_parents:
         may_merge = prevt.value in (")", "]") or prevt.type == TokenType.ident
         if not may_merge: # arguments without parens?
             may_merge = any(node.type == NodeType.call and node.last_token() is prevt
-- 
2.43.0


From 1e2eb5dfe7f4530487fbf9810c22280752eded4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 42/71] fix: reported token count didn't match the output when
 whitespace around signs changed

---
 pico_process.py  | 3 +++
 pico_tokenize.py | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index b12336b..857961d 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -385,6 +385,9 @@ def process_code(ctxt, source, input_count=False, count=False, lint=False, minif
             if count:
                 assert not source.is_super
                 new_tokens = root.get_tokens() if need_parse else tokens
+                if (need_minify or need_unminify) and count_tokens(new_tokens) == count_tokens(new_tokens, all=True):
+                    # count the actual output, as whitespace affects the count
+                    new_tokens, _ = tokenize(Source(None, source.text), lang=ctxt.lang)
                 print_token_count(count_tokens(new_tokens), handler=count)
 
     return True, errors
diff --git a/pico_tokenize.py b/pico_tokenize.py
index 66740c5..43b920e 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -714,10 +714,10 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
     return tokens, errors
     
 
-def count_tokens(tokens):
+def count_tokens(tokens, all=False):
     count = 0
     for i, token in enumerate(tokens):
-        if token.children:
+        if token.children and not all:
             for comment in token.children:
                 if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
                     return count
-- 
2.43.0


From b74d643a23f8e023d5b354019e37b2418d63319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 43/71] fix: lint warnings crashed or were misplaced when also
 minifying (--no-lint-fail)

---
 pico_process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index 857961d..3b4dbf9 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -275,15 +275,17 @@ class Error:
     """An error (or warning) to be reported together with where in the source it occured"""
     def __init__(m, msg, token):
         m.msg, m.token = msg, token
+        # find these now, since the code (and its tree) may be changed before the error is reported
+        m.idx = token.idx
+        m.loc, m.tab_loc = [token.source.get_location(m.idx, tabs=tabs) for tabs in (False, True)] if token.source else (None, None)
 
     def __lt__(m, other):
-        return m.token.idx < other.token.idx
+        return m.idx < other.idx
 
     def format(m, fmt=None):
         fmt = default(fmt, ErrorFormat.common)
         tabbed = fmt == ErrorFormat.tabbed
-        token = m.token
-        loc = token.source.get_location(token.idx, tabs=tabbed) if token.source else SourceLocation("???", 0, 0, 0)
+        loc = (m.tab_loc if tabbed else m.loc) or SourceLocation("???", 0, 0, 0)
         path = path_absolute(loc.path) if fmt == ErrorFormat.absolute else path_relative(loc.path)
         if tabbed:
             return f"{path} (tab {loc.tab:X}, line {loc.line + 1}, col {loc.col + 1}): {m.msg}"
-- 
2.43.0


From 8cd8bbdc01963bd503698729efa53d285f8706a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 44/71] fix: lint missed labels duplicated in outer functions

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index f560417..98a1e14 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -108,7 +108,7 @@ class LabelScope:
         if var:
             return var
         elif m.parent and (crossfunc or m.parent.funcdepth == m.funcdepth):
-            return m.parent.find(name)
+            return m.parent.find(name, crossfunc)
     
     def chain(m, crossfunc=False):
         curr = m
-- 
2.43.0


From 1843a2f19ed921e20bbe4a195154704067c2767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:04 +0000
Subject: [PATCH 45/71] fix: some identifiers were split up when given in hints

---
 pico_tokenize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 43b920e..8d817c9 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -310,7 +310,7 @@ def is_identifier(str, lang=Language.pico8):
     
 k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
 
-k_hint_split_re = re.compile(r"[\s,]+")
+k_hint_split_re = re.compile(r"[\s,]+", re.ASCII) # (some P8SCII identifiers are considered whitespace by unicode)
 
 class NextTokenMods:
     def __init__(m):
@@ -524,7 +524,7 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
                     get_next_mods().force_safe = True
                 elif comment.startswith("language::"):
                     get_next_mods().sublang = str_after_first(comment, "::")
-                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
+                elif comment.startswith("rename::") and not re.search(r"\s", comment, re.ASCII):
                     get_next_mods().rename = str_after_first(comment, "::")
                 elif comment.startswith("placeholder-expr::") and proper:
                     get_next_mods().placeholder = (str_after_first(comment, "::"), True)
-- 
2.43.0


From 7696600486214562616afe09c10827583574e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:41 +0000
Subject: [PATCH 46/71] fix: includes after c-style comments, or inside leveled
 long strings, were misdetected

---
 pico_preprocess.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 3341ee5..bc253b5 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -37,7 +37,11 @@ def preprocess_code(path, code, start_line=0, **opts):
                 while list_get(code, i) not in ('\n', None):
                     i += 1
 
-        elif ch == '[' and list_get(code, i + 1) == '[': # long string
+        elif ch == '/' and list_get(code, i + 1) == '/': # c-style comment
+            while list_get(code, i) not in ('\n', None):
+                i += 1
+
+        elif ch == '[' and list_get(code, i + 1) in ('[', '='): # long string
             if not skip_long_brackets():
                 i += 1
 
-- 
2.43.0


From 388bc22cddfdc73f4dab018c8b599721159880ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:36 +0000
Subject: [PATCH 47/71] fix: wrong source positions in included tabs of carts
 with several parts

---
 pico_preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index bc253b5..b4926ea 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -143,7 +143,7 @@ def trim_cart_to_tab(cart, target_tab):
             new_code_map.clear()
         
         new_idx = max(map.idx - start, 0)
-        new_src_idx = map.src_idx + (start if map.src_path == cart.path else 0)
+        new_src_idx = map.src_idx + max(start - map.idx, 0)
 
         new_code_map.append(CodeMapping(new_idx, map.src_path, map.src_code, new_src_idx, map.src_line))
     cart.code_map = new_code_map
-- 
2.43.0


From eca98335eba68548ea473a6b1ce29e5df4f03add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:37 +0000
Subject: [PATCH 48/71] fix: syntax errors for unknown expressions pointed at
 the following token

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 98a1e14..809a5c1 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -637,7 +637,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         elif token.type == TokenType.ident:
             return parse_var(token=token)
         else:
-            add_error("unknown expression", fail=True)
+            add_error("unknown expression", -1, fail=True)
 
     def compare_prec(op, prec):
         return (prec == None) or ((prec <= k_binary_op_precs[op]) if op in k_right_binary_ops else (prec < k_binary_op_precs[op]))
-- 
2.43.0


From dfce5db9023256914575a75a9ae6677889a37dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:08 +0000
Subject: [PATCH 49/71] fix: cart names with commas or brackets in js exports
 were split up

---
 pico_export.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pico_export.py b/pico_export.py
index 2930738..b70d5af 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -97,7 +97,7 @@ class JsExport(CartExport):
         m.text = text
     
     def find_cartnames(m):
-        match = re.search(r"var\s+_cartname\s*=\s*\[(.*?)\]", m.text, re.S)
+        match = re.search(r"var\s+_cartname\s*=\s*\[((?:[^\]`'\"]|`[^`]*`|'[^']*'|\"[^\"]*\")*)\]", m.text)
         if not match:
             throw("can't find _cartname var in js")
         return match
@@ -110,11 +110,8 @@ class JsExport(CartExport):
 
     def get_carts_impl(m):
         m.cartnames = []
-        cartnames_text = m.find_cartnames().group(1)
-        if cartnames_text.strip():
-            for i, cartname in enumerate(cartnames_text.split(",")):
-                cartname = cartname.strip()[1:-1] # may fail if using special chars...
-                m.cartnames.append(cartname)
+        for match in re.finditer(r"`[^`]*`|'[^']*'|\"[^\"]*\"", m.find_cartnames().group(1)):
+            m.cartnames.append(match.group()[1:-1]) # may fail if using escapes...
 
         m.cartdata = bytearray(k_cart_size * len(m.cartnames))
         cartdata_text = m.find_cartdata().group(1)
-- 
2.43.0


From b73ce0f8e5ba4358f44a42a5107d976f5f2e11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:51 +0000
Subject: [PATCH 50/71] fix: cart names that exports can't hold broke the
 exports

---
 pico_export.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pico_export.py b/pico_export.py
index b70d5af..452a71a 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -19,6 +19,7 @@ class CartExport:
     # replace_impl: (<ref>, cart, **opts) -> void
     # delete_impl: (<ref>, **opts) -> void
     # rename_impl: (<ref>, new_name, **opts) -> void
+    # check_name_impl: (name) -> void (throws if the export can't hold the name)
     # NOTE: <ref>s are valid only until next modification or get_carts_impl call
 
     def _default(m, carts, strict=True):
@@ -56,6 +57,7 @@ class CartExport:
                 cart_name = cart.name
             if m._contains(carts, cart_name):
                 throw(f"cart {cart_name} already found in export")
+            m.check_name_impl(cart_name)
             
             target_ref = None
             if e(target_name):
@@ -75,6 +77,7 @@ class CartExport:
                 if m._contains(carts, target_name):
                     throw(f"cart {target_name} already found in export")
                 
+                m.check_name_impl(target_name)
                 m.rename_impl(ref, target_name)
             else:
                 fail("invalid cart op")
@@ -124,6 +127,9 @@ class JsExport(CartExport):
             carts[cartname] = i
         return carts
 
+    def check_name_impl(m, name):
+        check("`" not in name, f"cart name {name} can't be stored in js exports")
+
     def slice(m, i, end_i=None):
         return slice(k_cart_size * i, k_cart_size * default(end_i, i + 1))
 
@@ -582,6 +588,9 @@ class PodExport(CartExport, PodFile):
                 carts[e.name] = (i, e.content)
         return carts
 
+    def check_name_impl(m, name):
+        check(0 < len(name.encode()) < 0x40, f"cart name {name} is empty or too long for pod exports")
+
     def read_impl(m, tuple, **opts):
         _, bytes = tuple
         return read_cart_from_rom(bytes, **opts)
-- 
2.43.0


From de7588e439649e11c0f0ac9ba1c79394acb84f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:48 +0000
Subject: [PATCH 51/71] fix: picotron files with carriage returns or starting
 with b64$ changed when stored in p64 carts

---
 picotron_cart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index c56d85a..d87c2f9 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -480,8 +480,9 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
 
     return cart
 
-k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|^" + k_p64_file_prefix
-k_min_bad_p64_char_re = b"\x00|^" + k_p64_file_prefix
+k_bad_p64_line_re = b"|^" + k_p64_file_prefix + b"|\\A" + re.escape(k_p64_b64_prefix)
+k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x1f\x7f-\xff]" + k_bad_p64_line_re
+k_min_bad_p64_char_re = b"[\x00\r]" + k_bad_p64_line_re
 
 def preview_order_key(pair):
     # we prefer to sort p64 files for better visibility of code, e.g. in the webapp's preview
-- 
2.43.0


From 1159035912219025bfed062e4206a3cc30751317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:37 +0000
Subject: [PATCH 52/71] fix: picotron files in directories not listed in the
 cart were dropped when writing directories

---
 picotron_cart.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index d87c2f9..342dee6 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -588,13 +588,16 @@ def write_cart64_to_fs(cart, path, is_dir=None, fspath=None, delete_existing=Fal
             fspath += "/"
         dir_create(path, delete_existing=delete_existing)
 
-        for child_fspath, file in cart.files.items():
-            if child_fspath.startswith(fspath):
-                child = child_fspath[len(fspath):]
-                if child.count("/") == (1 if file.is_dir else 0):
-                    child_path = path_join(path, child)
-                    check(path_is_inside(child_path, path), f"'{child_path}' is outside '{path}'")
-                    write_cart64_to_fs(cart, child_path, file.is_dir, child_fspath, **opts)
+        children = {} # (directories needn't be listed in the cart)
+        for child_fspath in cart.files:
+            if child_fspath.startswith(fspath) and child_fspath != fspath:
+                name, slash, _ = child_fspath[len(fspath):].partition("/")
+                children[name + slash] = slash != ""
+
+        for child, child_is_dir in children.items():
+            child_path = path_join(path, child)
+            check(path_is_inside(child_path, path), f"'{child_path}' is outside '{path}'")
+            write_cart64_to_fs(cart, child_path, child_is_dir, fspath + child, **opts)
     else:
         if path_is_dir(path):
             path = path_join(path, path_basename(fspath)) # good default
-- 
2.43.0


From 834a93683e1d90e4de1538cb44e6b7da659ed27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:08 +0000
Subject: [PATCH 53/71] fix: picotron --extract of directories needed a path,
 --merge a filter

---
 run_shrinko.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index fb9a131..dd5f34b 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -563,7 +563,9 @@ def create_main(lang):
 
         if args.merge:
             for merge in args.merge:
-                if len(merge) == 2:
+                if len(merge) == 1 and is_picotron:
+                    extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=("*",)))
+                elif len(merge) == 2:
                     extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=SplitBySeps(merge[1])))
                 elif len(merge) == 3:
                     extra_inputs.append(InputDef(merge[0], CartFormatCls(merge[2]), sections=SplitBySeps(merge[1])))
@@ -709,7 +711,7 @@ def create_main(lang):
         if args.extract:
             for extract in args.extract:
                 if len(extract) == 1:
-                    all_outputs.append(OutputDef(path_basename(extract[0]), CartFormatCls.fs, extract[0]))
+                    all_outputs.append(OutputDef(path_basename(extract[0].rstrip("/")), CartFormatCls.fs, extract[0]))
                 elif len(extract) == 2:
                     all_outputs.append(OutputDef(extract[1], CartFormatCls.fs, extract[0]))
                 else:
-- 
2.43.0


From faf1edcb8468130cb8d4dd0ab2d040c13699366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:08 +0000
Subject: [PATCH 54/71] fix: picotron error messages showed a placeholder

---
 picotron_cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 342dee6..d92279b 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -525,7 +525,7 @@ def write_cart64_to_source(cart, avoid_base64=False, **opts):
 
 def write_cart64_to_raw_source(cart, **_):
     main = cart.files.get(k_p64_main_path)
-    check(main, "{k_p64_main_path} not found in cart")
+    check(main, f"{k_p64_main_path} not found in cart")
     return main.data
 
 k_fictive_main_pod = "main.pod" # not a real picotron concept
@@ -540,7 +540,7 @@ def read_cart64_from_single_pod(data, path=None, **_):
 
 def write_cart64_to_single_pod(cart, **_):
     main = cart.files.get(k_fictive_main_pod)
-    check(main, "{k_fictive_main_pod} not found in cart")
+    check(main, f"{k_fictive_main_pod} not found in cart")
     if main.raw_metadata == k_pod:
         main.raw_metadata = None
     return main.data
-- 
2.43.0


From 301af5bf9d33ee51e2dc952dfd7c2bdea4f350fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:20 +0000
Subject: [PATCH 55/71] fix: large negative integers in picotron pods turned
 into floats

---
 pico_output.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index 8bc4119..6f6aac2 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -135,9 +135,12 @@ def format_luanum(value, sign=None, base=None, allow_not=True):
         if sign:
             minvalue = sign + minvalue
         
+        if base == 10 and sign is None and value == 0x8000000000000000:
+            minvalue = "0x%x" % value # there's no decimal that'd be parsed as this integer
+
         if sign is None and value & 0x8000000000000000 and value != 0x8000000000000000:
             negvalue = format_luanum(value, sign='-', base=base)
-            if len(negvalue) < len(minvalue):
+            if base == 10 or len(negvalue) < len(minvalue): # (an unsigned decimal wouldn't be parsed as an integer)
                 minvalue = negvalue
                 
             if allow_not:
-- 
2.43.0


From 1a0213ae7ccf09f502e19af64dfaa72fcfb96107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:20 +0000
Subject: [PATCH 56/71] fix: 'true' keys in picotron pods turned into array
 items

---
 picotron_fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_fs.py b/picotron_fs.py
index e0664ca..87d94ae 100644
--- a/picotron_fs.py
+++ b/picotron_fs.py
@@ -138,7 +138,7 @@ def format_pod(value, ud_handler=None):
         index = 1
         parts = []
         for key, child in value.items():
-            if key == index:
+            if key == index and key is not True:
                 parts.append(format_pod(child, ud_handler))
                 index += 1
             elif isinstance(key, str) and is_identifier(key, Language.picotron):
-- 
2.43.0


From 82e06b7da51c85663362ab8884840315c3c91ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:49 +0000
Subject: [PATCH 57/71] fix: picotron userdata whose data didn't match its size
 was broken when compressed as pxu

---
 picotron_fs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/picotron_fs.py b/picotron_fs.py
index 87d94ae..e55ccf8 100644
--- a/picotron_fs.py
+++ b/picotron_fs.py
@@ -335,6 +335,9 @@ def write_pxu(ud, runtime=sys.maxsize):
         
         write_type, type_nybbles = get_pxu_type_info(type, w)
 
+        if len(ud.data) != ud.width * (ud.height or 1) * type_nybbles:
+            return None # pxu has no separate length
+
         data = []
         try:
             for i in range(0, len(ud.data), type_nybbles):
-- 
2.43.0


From a4c0304ffc0097d0e95290a03e36093fdcbd3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:07 +0000
Subject: [PATCH 58/71] fix: --count ignored --old-compression when there was
 no output

---
 run_shrinko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index dd5f34b..175461a 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -668,7 +668,7 @@ def create_main(lang):
                 if args.count:
                     write_code_size_func(cart, handler=args.count)
                     if not (args.output and not args.format.is_src) and not args.no_count_compress: # else, will be done in write_cart
-                        write_compressed_size_func(cart, handler=args.count, fast_compress=args.fast_compression, debug_handler=args.trace_compression)
+                        write_compressed_size_func(cart, handler=args.count, fast_compress=args.fast_compression, old_compress=args.old_compression, debug_handler=args.trace_compression)
                 
                 if args.version:
                     write_cart_version_func(cart)
-- 
2.43.0


From 44660666fa6f1ee7a48b83a37eb1820876015ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:15 +0000
Subject: [PATCH 59/71] fix: the order of picotron files read from directories
 depended on the file system

---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index d92279b..a9a95ed 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -562,7 +562,7 @@ def read_cart64_from_fs(path, is_dir=None, target_cart=None, fspath=None, sectio
                 fspath += "/"
             target_cart.files[fspath] = PicotronDir()
 
-        for child in dir_names(path):
+        for child in sorted(dir_names(path)):
             child_path = path_join(path, child)
             child_fspath = fspath + child
             read_cart64_from_fs(child_path, None, target_cart, child_fspath, sections, **opts)
-- 
2.43.0


From 1b25a25905cb3df83955fccac032ed6d7df3ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:54 +0000
Subject: [PATCH 60/71] fix: formats with dashes or unknown formats crashed
 --extra-output and the like

---
 run_shrinko.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index 175461a..66c59ff 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -311,6 +311,12 @@ def create_main(lang):
         
         return parser
 
+    def parse_format(name):
+        try:
+            return EnumFromStr(CartFormatCls)(name)
+        except ValueError:
+            throw(f"unknown format: {name}")
+
     def default_format(input, for_output=False):
         ext = path_extension(input)[1:].lower()
         if ext in CartFormatCls._values and CartFormatCls(ext).is_ext:
@@ -546,7 +552,7 @@ def create_main(lang):
                 if len(extra) == 1:
                     extra_inputs.append(InputDef(extra[0], default_format(extra[0], for_output=True)))
                 elif 3 >= len(extra) >= 2:
-                    extra_inputs.append(InputDef(extra[0], CartFormatCls(extra[1]), name=list_get(extra, 2)))
+                    extra_inputs.append(InputDef(extra[0], parse_format(extra[1]), name=list_get(extra, 2)))
                 else:
                     throw("too many arguments to --extra-output")
         
@@ -568,7 +574,7 @@ def create_main(lang):
                 elif len(merge) == 2:
                     extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=SplitBySeps(merge[1])))
                 elif len(merge) == 3:
-                    extra_inputs.append(InputDef(merge[0], CartFormatCls(merge[2]), sections=SplitBySeps(merge[1])))
+                    extra_inputs.append(InputDef(merge[0], parse_format(merge[2]), sections=SplitBySeps(merge[1])))
                 else:
                     throw("too many or few arguments to --merge (must be 2 or 3)")
         
@@ -704,7 +710,7 @@ def create_main(lang):
                 if len(extra) == 1:
                     all_outputs.append(OutputDef(extra[0], default_format(extra[0], for_output=True)))
                 elif len(extra) == 2:
-                    all_outputs.append(OutputDef(extra[0], CartFormatCls(extra[1])))
+                    all_outputs.append(OutputDef(extra[0], parse_format(extra[1])))
                 else:
                     throw("too many arguments to --extra-output (must be 1 or 2)")
         
-- 
2.43.0


From c493eacaa257f1f6d72156845ab1eb57612fe168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:21 +0000
Subject: [PATCH 61/71] fix: carriage returns ended up in the code when
 guessing a cart's format from its contents

---
 pico_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_cart.py b/pico_cart.py
index 9144456..54a4714 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -665,7 +665,7 @@ def read_cart_autodetect(path, **opts):
     if data.startswith(k_png_header):
         return read_cart_from_image(data, path=path, **opts)
 
-    text = data.decode(errors="surrogateescape")
+    text = StringIO(data.decode(errors="surrogateescape"), newline=None).read() # (same newlines as when reading a text file)
 
     # cart?
     if text.startswith(k_p8_prefix) or text.startswith("__lua__"):
-- 
2.43.0


From ed718b6fa014e29f8d23ff4286f93387ec80d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:49 +0000
Subject: [PATCH 62/71] fix: assignments to expressions that can't be assigned
 to were accepted

---
 pico_parse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pico_parse.py b/pico_parse.py
index 809a5c1..4188b2d 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -882,6 +882,10 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         else:
             targets = [first]
 
+        for target in targets:
+            if target.type not in (NodeType.var, NodeType.member, NodeType.index):
+                add_error_at("cannot assign to expression", target, fail=True)
+
         require("=", tokens)
         sources = parse_list(tokens, parse_expr)
 
@@ -892,6 +896,9 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
     def parse_opassign(first):
         nonlocal idx
+        if first.type not in (NodeType.var, NodeType.member, NodeType.index, NodeType.call, NodeType.group): # (pico8 only checks this much)
+            add_error_at("cannot assign to expression", first, fail=True)
+
         token = peek()
         op = token.value[:-1]
         idx += 1
-- 
2.43.0


From 0e24d96a73958256eadddf12c272e7df00d6f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:39 +0000
Subject: [PATCH 63/71] fix: statements after return and parameters after
 varargs were accepted

---
 pico_parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pico_parse.py b/pico_parse.py
index 4188b2d..34a7ec5 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -513,6 +513,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
                 if accept(")", tokens):
                     break
+                if params[-1].type == NodeType.varargs:
+                    add_error("expected ')'", fail=True)
                 require(",", tokens)
 
         for param in params:
@@ -989,6 +991,9 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
             if peek().value in k_block_ends:
                 break
+
+            if stmts and stmts[-1].type == NodeType.return_ and peek().value != ";" and peek().type != TokenType.compiler:
+                add_error("expected end of block after return", fail=True)
             
             stmt = parse_stmt(vline)
             if stmt:
-- 
2.43.0


From 7b9517d10ae972aaf9d35b28cff0a61d4655f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:39 +0000
Subject: [PATCH 64/71] fix: a string ending with \z at the end of the file
 hung the tokenizer

---
 pico_tokenize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 8d817c9..25b7cf9 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -642,7 +642,7 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
                 break
             elif ch == '\\':
                 if accept('z'): # skip line breaks
-                    while peek() in k_wspace:
+                    while peek() and peek() in k_wspace:
                         take()
                 else:
                     take() # at least
-- 
2.43.0


From 6b3778aa8d6eb497ee9a56ec04f59032eabad1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:39 +0000
Subject: [PATCH 65/71] fix: vertical tabs and form feeds weren't accepted as
 whitespace

---
 pico_tokenize.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 25b7cf9..762d473 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -308,6 +308,8 @@ def is_ident_char(ch, lang=Language.pico8):
 def is_identifier(str, lang=Language.pico8):
     return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
     
+k_lua_wspace = k_wspace + "\v\f"
+
 k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
 
 k_hint_split_re = re.compile(r"[\s,]+", re.ASCII) # (some P8SCII identifiers are considered whitespace by unicode)
@@ -642,7 +644,7 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
                 break
             elif ch == '\\':
                 if accept('z'): # skip line breaks
-                    while peek() and peek() in k_wspace:
+                    while peek() and peek() in k_lua_wspace:
                         take()
                 else:
                     take() # at least
@@ -664,7 +666,7 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
     while idx < len(text):
         ch = take()
 
-        if ch in k_wspace: # whitespace
+        if ch in k_lua_wspace: # whitespace
             if ch == "\n":
                 vline += 1
 
@@ -865,7 +867,7 @@ def parse_char_escape(str, pos, lang):
 
     elif esc == 'z':
         end = pos + 2
-        while end < len(str) and str[end] in k_wspace:
+        while end < len(str) and str[end] in k_lua_wspace:
             end += 1
         return "", end
 
-- 
2.43.0


From 80b98e5ff52b21cdc6e914e24c35ccb085ce2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:39 +0000
Subject: [PATCH 66/71] fix: very long expressions and if-elseif chains crashed

---
 run_shrinko.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/run_shrinko.py b/run_shrinko.py
index 66c59ff..0ea636e 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -15,6 +15,8 @@ import argparse
 
 k_version_raw = '1.2.7.2' # should have 4 parts, used directly by build script (last part becomes letter 0->'', 1->b, etc.)
 
+k_recursion_limit = 20000 # python's default is too low for very long expressions & if-elseif chains
+
 def get_version():
     """convert our raw version to pico-style version"""
     version, lastdigit = k_version_raw.rsplit(".", 1)
@@ -759,6 +761,7 @@ def create_main(lang):
     def main(raw_args=None):
         try:
             raw_args = default(raw_args, sys.argv[1:])
+            sys.setrecursionlimit(max(sys.getrecursionlimit(), k_recursion_limit))
 
             if not raw_args: # help is better than usage
                 parser.print_help(sys.stderr)
-- 
2.43.0


From a1d8e98372e4101c49c246b8c1cc80e7e2469380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:31 +0000
Subject: [PATCH 67/71] fix: carts with corrupted code crashed instead of being
 reported as corrupted

---
 pico_cart.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pico_cart.py b/pico_cart.py
index 54a4714..13c8594 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -106,11 +106,8 @@ def read_cart_from_rom(buffer, path=None, allow_tiny=False, **opts):
             cart.code, cart.code_rom = read_code_from_rom(r, **opts)
         
         else:
-            cart.rom.replace(r.bytes(k_rom_size))
-            cart.code, cart.code_rom = read_code_from_rom(r, **opts)
-
-            r.setpos(k_cart_size)
-            if r.pos() < r.len():
+            if r.len() > k_cart_size:
+                r.setpos(k_cart_size)
                 cart.version_id = r.u8()
                 version = r.u8(), r.u8(), r.u8()
                 cart.platform = chr(r.u8())
@@ -118,8 +115,14 @@ def read_cart_from_rom(buffer, path=None, allow_tiny=False, **opts):
                 cart.default_version = cart.default_platform = False
                 hash = r.bytes(20)
 
+                # (checked before decompressing the code, as that may fail if it's corrupted)
                 if hash != bytes(20) and hash != hashlib.sha1(buffer[:k_cart_size]).digest():
                     throw("corrupted cart (wrong hash)")
+                
+                r.setpos(0)
+
+            cart.rom.replace(r.bytes(k_rom_size))
+            cart.code, cart.code_rom = read_code_from_rom(r, **opts)
 
     return cart
 
-- 
2.43.0


From 8a95cb1995fc6707fac0ddf70f9bde976e91fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:56 +0000
Subject: [PATCH 68/71] fix: member/global hints on numbers crashed

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 34a7ec5..1bfe24e 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -594,7 +594,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
     def parse_const(token):
         node = Node(NodeType.const, [token], token=token)
 
-        if getattr(token, "var_kind", None):
+        if getattr(token, "var_kind", None) and token.type == TokenType.string:
             node.extra_names = re.split(k_identifier_split_re, token.parsed_value)
             for i, value in enumerate(node.extra_names):
                 if is_identifier(value, lang):
-- 
2.43.0


From cfdd259c5a4c6597680645e4927e76c340735580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:34 +0000
Subject: [PATCH 69/71] fix: picotron paths with null characters resulted in
 unreadable carts

---
 picotron_cart.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/picotron_cart.py b/picotron_cart.py
index a9a95ed..b031ea7 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -229,6 +229,7 @@ def write_cart64_to_rom(cart, size_handler=None, debug_handler=None, padding=0,
 
     with BinaryWriter(io) as w:
         for fspath, file in sorted(cart.files.items(), key=ext_order_key):
+            check("\0" not in fspath, "picotron paths cannot contain null characters")
             w.zbytes(encode_luastr(fspath))
             check(not fspath.endswith("/") == e(file.data), "wrong picotron file/directory path")
             if e(file.data):
-- 
2.43.0


From acb91b2ad6e8a7698cdecef4c6fcb0cfc3044097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:42 +0000
Subject: [PATCH 70/71] fix: invalid hex/unicode escapes were accepted or
 crashed

---
 pico_tokenize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 762d473..c73c0a9 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -875,7 +875,7 @@ def parse_char_escape(str, pos, lang):
         end = pos + 4
         hex_esc = str[pos + 2 : end]
         value = maybe_int(hex_esc, base=16)
-        if value is None:
+        if value is None or not re.fullmatch("[0-9a-fA-F]{2}", hex_esc):
             throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
         return lang_chr(value, lang), end
 
@@ -895,7 +895,7 @@ def parse_char_escape(str, pos, lang):
         check(end > 0, f"Unterminated unicode escape in: '{str}'")
         uni_esc = str[pos + 3 : end - 1]
         value = maybe_int(uni_esc, base=16)
-        if value is None or value >= 0x80000000:
+        if value is None or not 0 <= value < 0x80000000:
             throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
         return ext_unicode_to_lang_str(value, lang), end
 
-- 
2.43.0


From 3bc76c998320b02d1044677ba9dd86ac10659ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:35 +0000
Subject: [PATCH 71/71] fix: picotron include() without arguments crashed

---
 picotron_defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_defs.py b/picotron_defs.py
index bce30db..75e82e5 100644
--- a/picotron_defs.py
+++ b/picotron_defs.py
@@ -256,7 +256,7 @@ class Cart64Source(Source):
                 # since this is best-effort, we don't check var.reassigned/etc
                 if node.type == NodeType.call and node.func.type == NodeType.var and is_root_global_or_builtin_local(node.func) and node.func.var.name == "include":
                     arg = list_get(node.args, 0)
-                    if arg.type == NodeType.const and arg.token.type == TokenType.string:
+                    if arg and arg.type == NodeType.const and arg.token.type == TokenType.string:
                         include = arg.token.parsed_value
                         # we assume include is an absolute path in the cart (we can't deal with much else)
                         # TODO: could handle . and .. and //, though?
-- 
2.43.0

