From ae829fccf5f00764cb21777c7550aa808e7ef71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 001/146] fix: group the operators of parsed expressions
 following C precedence

A sign after another operator was lost or applied to the wrong operand, e.g., a * -b was read as -b and
a - -b as a - b, and % or ! bound less tightly than + and -.
---
 src/mccode_antlr/common/visitor.py | 141 +++++++++++++++++++----------
 1 file changed, 93 insertions(+), 48 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index d262d29..7f4afb1 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -47,14 +47,90 @@ def visitExpressionInteger(obj, ctx):
 def visitExpressionZero(obj, ctx):
     return Expr.int(0)
 
+# The grammar allows an empty string literal as an expression, so the parser reads every sign which is not at the
+# start of an expression as a binary operator with an empty left operand: `a * -b` arrives as `(a * <empty>) - b`.
+# It also orders some operators differently than C, e.g., `a % b + c` arrives as `a % (b + c)`.
+# So collect all operators and operands of an expression, and group them here following the C precedence rules.
+_operator_tokens = {
+    'ExpressionExponentiationContext': lambda ctx: '^',
+    'ExpressionBinaryMDContext': lambda ctx: '*' if ctx.Div() is None else '/',
+    'ExpressionBinaryModContext': lambda ctx: '%',
+    'ExpressionBinaryPMContext': lambda ctx: '+' if ctx.Minus() is None else '-',
+    'ExpressionBinaryLeftShiftContext': lambda ctx: '<<',
+    'ExpressionBinaryRightShiftContext': lambda ctx: '>>',
+    'ExpressionBinaryLessContext': lambda ctx: '<',
+    'ExpressionBinaryGreaterContext': lambda ctx: '>',
+    'ExpressionBinaryLessEqualContext': lambda ctx: '<=',
+    'ExpressionBinaryGreaterEqualContext': lambda ctx: '>=',
+    'ExpressionBinaryEqualContext': lambda ctx: '==',
+    'ExpressionBinaryNotEqualContext': lambda ctx: '!=',
+    'ExpressionBinaryLogicContext': lambda ctx: '||' if ctx.AndAnd() is None else '&&',
+    'ExpressionUnaryPMContext': lambda ctx: '-' if ctx.Plus() is None else '+',
+    'ExpressionUnaryLogicContext': lambda ctx: '!',
+}
+_operator_precedence = {
+    '||': 1, '&&': 2, '==': 3, '!=': 3, '<': 4, '>': 4, '<=': 4, '>=': 4, '<<': 5, '>>': 5,
+    '+': 6, '-': 6, '*': 7, '/': 7, '%': 7, '^': 9
+}
+_term_precedence, _unary_precedence = 7, 8
+_operator_names = {
+    '||': '__or__', '&&': '__and__', '==': '__eq__', '!=': '__neq__',
+    '<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__'
+}
+
+def _flatten_operators(ctx):
+    """Flatten nested operator contexts into a list of their operators (strings) and operands (contexts)"""
+    name = type(ctx).__name__
+    if name in _operator_tokens:
+        operands = [ctx.expr()] if name.startswith('ExpressionUnary') else ctx.expr()
+        left, right = [[], *(_flatten_operators(x) for x in operands)][-2:]
+        return left + [_operator_tokens[name](ctx)] + right
+    if name == 'ExpressionStringContext' and not len(ctx.StringLiteral()):
+        return []
+    return [ctx]
+
+def visitOperators(obj, ctx):
+    tokens = _flatten_operators(ctx)
+
+    def prefixed(minimum):
+        op = tokens.pop(0) if tokens else None
+        if op is not None and not isinstance(op, str):
+            return obj.visit(op)
+        if op not in ('+', '-', '!'):
+            raise RuntimeError(f'Missing operand in expression {ctx.getText()}')
+        if op == '!':
+            return Expr(UnaryOp('__not__', grouped(_unary_precedence)))
+        # the sign in front of a sum's first term applies to the whole term
+        value = grouped(_unary_precedence if minimum > _operator_precedence[op] else _term_precedence)
+        return -value if op == '-' else value
+
+    def grouped(minimum):
+        left = prefixed(minimum)
+        while tokens and _operator_precedence[tokens[0]] >= minimum:
+            op = tokens.pop(0)
+            # all binary operators are left associative, except exponentiation
+            right = grouped(_unary_precedence if op == '^' else _operator_precedence[op] + 1)
+            if op == '+':
+                left = left + right
+            elif op == '-':
+                left = left - right
+            elif op == '*':
+                left = left * right
+            elif op == '/':
+                left = left / right
+            elif op == '^':
+                left = left ** right
+            else:
+                left = Expr(BinaryOp(_operator_names.get(op, op), left, right))
+        return left
+
+    return grouped(0)
+
 def visitExpressionExponentiation(obj, ctx):
-    base, exponent = [obj.visit(ex) for ex in ctx.expr()]
-    return base ** exponent
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryPM(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return left + right if ctx.Minus() is None else left - right
+    return visitOperators(obj, ctx)
 
 def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
@@ -63,24 +139,16 @@ def visitExpressionFunctionCall(obj, ctx):
     return Expr(BinaryOp('__call__', function, args))
 
 def visitExpressionBinaryMD(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return left * right if ctx.Div() is None else left / right
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryMod(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('%', left, right))
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryLeftShift(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('<<', left, right))
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryRightShift(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('>>', left, right))
+    return visitOperators(obj, ctx)
 
 def visitInitializerlist(obj, ctx):
     # `ctx.values` is not exposed by speedy-antlr-tool
@@ -88,21 +156,10 @@ def visitInitializerlist(obj, ctx):
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
 def visitExpressionUnaryLogic(obj, ctx):
-    expr = obj.visit(ctx.expr())
-    op = 'unknown'
-    if ctx.Not() is not None:
-        op = '__not__'
-    return Expr(UnaryOp(op, expr))
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryLogic(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    op = 'unknown'
-    if ctx.AndAnd() is not None:
-        op = '__and__'
-    elif ctx.OrOr() is not None:
-        op = '__or__'
-    return Expr(BinaryOp(op, left, right))
+    return visitOperators(obj, ctx)
 
 def visitExpressionTrinaryLogic(obj, ctx):
     # `ctx.test`, `ctx.true_`, and `ctx._false` not exposed by speedy-antlr-tool
@@ -110,34 +167,22 @@ def visitExpressionTrinaryLogic(obj, ctx):
     return Expr(TrinaryOp('__trinary__', test, true, false))
 
 def visitExpressionBinaryNotEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__neq__', left, right))
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__eq__', left, right))
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryLessEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__le__', left, right))
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryGreaterEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__ge__', left, right))
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryLess(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__lt__', left, right))
+    return visitOperators(obj, ctx)
 
 def visitExpressionBinaryGreater(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__gt__', left, right))
+    return visitOperators(obj, ctx)
 
 def visitExpressionString(obj, ctx):
     strings = ''.join(str(sl).strip('"') for sl in ctx.StringLiteral())
-- 
2.43.0


From e5a10970586d3b904a7088e96458106badae00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 002/146] fix: keep escaped double quotes at the ends of parsed
 string literals

---
 src/mccode_antlr/common/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 7f4afb1..aeeab7f 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -185,7 +185,7 @@ def visitExpressionBinaryGreater(obj, ctx):
     return visitOperators(obj, ctx)
 
 def visitExpressionString(obj, ctx):
-    strings = ''.join(str(sl).strip('"') for sl in ctx.StringLiteral())
+    strings = ''.join(str(sl)[1:-1] for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
 
 
-- 
2.43.0


From 2d0ec29c5fd8fd4636951bf1eda42ee039304d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 003/146] fix: print the parentheses an expression needs to
 keep its value

Products, quotients, comparisons, logical and ternary operations used as operands were printed without parentheses,
so, e.g., Expr a / (b * c) was printed a / b * c, and a sign in front of a negative term gave --x.
---
 src/mccode_antlr/common/expression.py | 42 +++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5726035..7eda037 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -191,6 +191,39 @@ def _fmt_comb(fmt, s: list):
     return ','.join(f'{x:{fmt}}' for x in s)
 
 
+# How tightly the printed form of an operation binds its operands in C, those not present need no parentheses
+_PRECEDENCE = {
+    '__trinary__': 1, '__or__': 2, '__and__': 3, '__eq__': 4, '__neq__': 4, '__lt__': 5, '__gt__': 5, '__le__': 5,
+    '__ge__': 5, '<<': 6, '>>': 6, '+': 7, '-': 7, '*': 8, '/': 8, '//': 8, '%': 8, '__pow__': 10
+}
+_UNARY_PRECEDENCE = 9
+_NO_PARENTHESES = 11
+
+
+def _printed_precedence(x):
+    """The precedence of the outermost operator in the printed representation of an expression node"""
+    if isinstance(x, Expr):
+        return _printed_precedence(x.expr[0]) if len(x.expr) == 1 else _NO_PARENTHESES
+    if isinstance(x, UnaryOp):
+        if x.op in ('+', '-') and len(x.value) == 1:
+            return min(_UNARY_PRECEDENCE, _printed_precedence(x.value[0]))
+        return _UNARY_PRECEDENCE if x.op == '__not__' else _NO_PARENTHESES
+    if isinstance(x, BinaryOp) and x.op in ('+', '-', '%', '<<', '>>'):
+        # always printed inside of parentheses
+        return _NO_PARENTHESES
+    if isinstance(x, Op):
+        return _PRECEDENCE.get(x.op, _NO_PARENTHESES)
+    negative = isinstance(x, Value) and isinstance(x.value, (int, float)) and x.value < 0
+    return _UNARY_PRECEDENCE if negative else _NO_PARENTHESES
+
+
+def _parenthesize(node: list, printed: str, precedence: int):
+    """Wrap the printed node in parentheses if its outermost operator binds less tightly than the precedence"""
+    if len(node) == 1 and _printed_precedence(node[0]) < precedence:
+        return f'({printed})'
+    return printed
+
+
 class Op:
     def __init__(self):
         self.data_type = DataType.undefined
@@ -318,6 +351,7 @@ class TrinaryOp(Op):
 
     def _str_repr_(self, first, second, third):
         if '__trinary__' == self.op:
+            first = _parenthesize(self.first, first, _PRECEDENCE[self.op] + 1)
             if self.style == 'C':
                 return f'{first} ? {second} : {third}'
             return f'{second} if {first} else {third}'
@@ -419,6 +453,11 @@ class BinaryOp(Op):
             return f'{lstr}->{rstr}' if 'C' == self.style else f'getattr({lstr}, "{rstr}")'
         if '__getitem__' == self.op:
             return f'{lstr}[{rstr}]'
+        if self.op in _PRECEDENCE:
+            # all binary operators are left associative, except exponentiation
+            left, right = (1, 0) if '__pow__' == self.op else (0, 1)
+            lstr = _parenthesize(self.left, lstr, _PRECEDENCE[self.op] + left)
+            rstr = _parenthesize(self.right, rstr, _PRECEDENCE[self.op] + right)
         if '__pow__' == self.op:
             return f'{lstr}^{rstr}' if 'C' == self.style else f'{lstr}**{rstr}'
         if '__lt__' == self.op:
@@ -557,8 +596,11 @@ class UnaryOp(Op):
         if '__group__' == self.op:
             return f'({vstr})'
         if '__not__' == self.op:
+            vstr = _parenthesize(self.value, vstr, _UNARY_PRECEDENCE)
             return f'!{vstr}' if 'C' == self.style else f'not {vstr}'
         if any(x in self.op for x in '+-'):
+            # the sign of a product or quotient is the sign of its first factor, but two signs can not be adjacent
+            vstr = f'({vstr})' if vstr[:1] in ('+', '-') else _parenthesize(self.value, vstr, _PRECEDENCE['*'])
             return f'{self.op}{vstr}'
         return f'{self.op}({vstr})'
 
-- 
2.43.0


From f98cd087cb6021b9d171172caaa9ed7832b0fcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 004/146] fix: allow raising any expression to a power, and do
 not assume 0^x is 0

---
 src/mccode_antlr/common/expression.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 7eda037..4212e87 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -311,6 +311,11 @@ class Op:
             return -self
         return BinaryOp('//', self, other)
 
+    def __pow__(self, power):
+        if not isinstance(power, (Value, Op)):
+            power = Value.best(power)
+        return Value(1, data_type=self.data_type) if power.is_zero else BinaryOp('__pow__', self, power)
+
     def __neg__(self):
         return UnaryOp('-', self)
 
@@ -1002,10 +1007,10 @@ class Value:
     def __pow__(self, power):
         if not isinstance(power, (Value, Op)):
             power = Value.best(power)
-        if self.is_zero or self.is_value(1):
-            return self
         if power.is_zero:
             return Value(1, data_type=self.data_type)
+        if self.is_value(1):
+            return self
         return BinaryOp('__pow__', self, power)
 
     @property
-- 
2.43.0


From 1c4faeabbe4bbc933eacd1548e97bcee1d7cdf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 005/146] fix: print the absolute value of a non-integer
 expression as fabs in C

---
 src/mccode_antlr/common/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 4212e87..fdf50b2 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -607,6 +607,8 @@ class UnaryOp(Op):
             # the sign of a product or quotient is the sign of its first factor, but two signs can not be adjacent
             vstr = f'({vstr})' if vstr[:1] in ('+', '-') else _parenthesize(self.value, vstr, _PRECEDENCE['*'])
             return f'{self.op}{vstr}'
+        if 'abs' == self.op and 'C' == self.style and not self.data_type.is_int:
+            return f'fabs({vstr})'  # in C, abs(x) is an integer
         return f'{self.op}({vstr})'
 
     def __str__(self):
-- 
2.43.0


From 0da7f50301752238cccffbe76de760c1ae83bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 006/146] fix: the ternary operator is right associative

---
 src/mccode_antlr/common/visitor.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index aeeab7f..340711f 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -161,10 +161,20 @@ def visitExpressionUnaryLogic(obj, ctx):
 def visitExpressionBinaryLogic(obj, ctx):
     return visitOperators(obj, ctx)
 
+def _flatten_trinary(ctx):
+    """Flatten nested trinary contexts to [test, true, test, true, ..., false]"""
+    if type(ctx).__name__ != 'ExpressionTrinaryLogicContext':
+        return [ctx]
+    test, true, false = ctx.expr()
+    return _flatten_trinary(test) + [true] + _flatten_trinary(false)
+
 def visitExpressionTrinaryLogic(obj, ctx):
     # `ctx.test`, `ctx.true_`, and `ctx._false` not exposed by speedy-antlr-tool
-    test, true, false = [obj.visit(x) for x in ctx.expr()]
-    return Expr(TrinaryOp('__trinary__', test, true, false))
+    # the grammar is left associative, while the operator must be right associative as it is in C
+    *branches, last = [obj.visit(x) for x in _flatten_trinary(ctx)]
+    for test, true in reversed(list(zip(branches[::2], branches[1::2]))):
+        last = Expr(TrinaryOp('__trinary__', test, true, last))
+    return last
 
 def visitExpressionBinaryNotEqual(obj, ctx):
     return visitOperators(obj, ctx)
-- 
2.43.0


From b63b02eb4a72e8e4de2e870f614d0b29e58dc64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 007/146] fix: print the absolute value of every expression as
 fabs in C

---
 src/mccode_antlr/common/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index fdf50b2..3afcf09 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -607,7 +607,7 @@ class UnaryOp(Op):
             # the sign of a product or quotient is the sign of its first factor, but two signs can not be adjacent
             vstr = f'({vstr})' if vstr[:1] in ('+', '-') else _parenthesize(self.value, vstr, _PRECEDENCE['*'])
             return f'{self.op}{vstr}'
-        if 'abs' == self.op and 'C' == self.style and not self.data_type.is_int:
+        if 'abs' == self.op and 'C' == self.style:
             return f'fabs({vstr})'  # in C, abs(x) is an integer
         return f'{self.op}({vstr})'
 
-- 
2.43.0


From 05ea67912c6012fb91bb27cb17332ddc3bde6a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 008/146] fix: allow arithmetic between operation expressions
 and plain numbers

---
 src/mccode_antlr/common/expression.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 3afcf09..d46c7e5 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -275,16 +275,19 @@ class Op:
         return False
 
     def __add__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             return self
         return BinaryOp('+', self, other)
 
     def __sub__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             return self
         return BinaryOp('-', self, other)
 
     def __mul__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             return other
         if other.is_value(1):
@@ -294,6 +297,7 @@ class Op:
         return BinaryOp('*', self, other)
 
     def __truediv__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         if other.is_value(1):
@@ -303,6 +307,7 @@ class Op:
         return BinaryOp('/', self, other)
 
     def __floordiv__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         if other.is_value(1):
-- 
2.43.0


From 011315fd9191aae1c2bd6f0b8da22ac1ccba48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 009/146] fix: struct member names are neither variables nor
 instrument parameters

---
 src/mccode_antlr/common/expression.py | 28 ++++++++++++++++++++++-----
 src/mccode_antlr/common/visitor.py    | 10 ++++++++--
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index d46c7e5..1ef5cb2 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -224,6 +224,19 @@ def _parenthesize(node: list, printed: str, precedence: int):
     return printed
 
 
+def _without_member(x):
+    """The parts of a member access right-hand-side which are not the name of a member: only array indices, etc."""
+    if isinstance(x, Expr):
+        return [z for y in x.expr for z in _without_member(y)]
+    if isinstance(x, Value):
+        return []
+    if isinstance(x, BinaryOp) and x.op in ('__struct_access__', '__pointer_access__', '__getitem__', '__call__'):
+        left = [z for y in x.left for z in _without_member(y)]
+        nested = x.op in ('__struct_access__', '__pointer_access__')
+        return left + ([z for y in x.right for z in _without_member(y)] if nested else x.right)
+    return [x]
+
+
 class Op:
     def __init__(self):
         self.data_type = DataType.undefined
@@ -567,20 +580,25 @@ class BinaryOp(Op):
         left, right = [[x.evaluate(known) for x in y] for y in (self.left, self.right)]
         return BinaryOp(self.op, left, right).simplify()
 
+    def _variable_operands(self):
+        """The operands which can refer to variables, that is, not the name of a struct member"""
+        if self.op in ('__struct_access__', '__pointer_access__'):
+            return self.left + [y for x in self.right for y in _without_member(x)]
+        return self.left + self.right
+
     def depends_on(self, name: str):
-        return any(any(x.depends_on(name) for x in y) for y in (self.left, self.right))
+        return any(x.depends_on(name) for x in self._variable_operands())
 
     def copy(self):
         return BinaryOp(self.op, self.left.copy(), self.right.copy())
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
-        return any(value in x for x in self.left) or any(value in x for x in self.right)
+        return any(value in x for x in self._variable_operands())
 
     def verify_parameters(self, instrument_parameter_names: list[str]):
-        for lr in (self.left, self.right):
-            for x in lr:
-                x.verify_parameters(instrument_parameter_names)
+        for x in self._variable_operands():
+            x.verify_parameters(instrument_parameter_names)
 
 
 class UnaryOp(Op):
diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 340711f..9948950 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -21,13 +21,19 @@ def visitExpressionGrouping(obj, ctx):
 def visitExpressionFloat(obj, ctx):
     return Expr.float(str(ctx.FloatingLiteral()))
 
+def visitMember(obj, ctx):
+    # the name of a struct member is never an instrument parameter
+    if type(ctx).__name__ == 'ExpressionIdentifierContext':
+        return Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier))
+    return obj.visit(ctx)
+
 def visitExpressionPointerAccess(obj, ctx):
     pointer = Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier))
-    return Expr(BinaryOp('__pointer_access__', pointer, obj.visit(ctx.expr())))
+    return Expr(BinaryOp('__pointer_access__', pointer, visitMember(obj, ctx.expr())))
 
 def visitExpressionStructAccess(obj, ctx):
     struct = Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier))
-    return Expr(BinaryOp('__struct_access__', struct, obj.visit(ctx.expr())))
+    return Expr(BinaryOp('__struct_access__', struct, visitMember(obj, ctx.expr())))
 
 def visitExpressionArrayAccess(obj, ctx):
     array = Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier, shape_type=ShapeType.vector))
-- 
2.43.0


From 729ccca6c426cc661336c5c2eedde78d2548acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 010/146] fix: initializer lists may hold signed, named and
 calculated elements, and print as C initializer lists

---
 src/mccode_antlr/common/expression.py        | 30 ++++++++++++++++++--
 src/mccode_antlr/common/visitor.py           |  3 +-
 src/mccode_antlr/translators/c_initialise.py |  5 ++--
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 1ef5cb2..d3067c6 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -774,12 +774,25 @@ class Value:
     def vector_known(self):
         return self.is_vector and self.has_value and not isinstance(self.value, str)
 
+    @property
+    def elements(self):
+        """The elements of a known vector, each either a plain value or an Expr"""
+        return list(self.value) if not isinstance(self.value, str) and hasattr(self.value, '__len__') else []
+
+    @property
+    def _expr_elements(self):
+        return [x for x in self.elements if isinstance(x, Expr)]
+
     def special_str(self, prefix=None):
         if prefix is None:
             prefix = "_instrument_var._parameters."
-        return f'{prefix}{self.value}' if self.is_parameter else f'{self.value}'
+        if len(self._expr_elements):
+            return '{' + ','.join(f'{x:prefix:{prefix}}' if isinstance(x, Expr) else str(x) for x in self.elements) + '}'
+        return f'{prefix}{self._str_repr_()}' if self.is_parameter else self._str_repr_()
 
     def _str_repr_(self):
+        if not isinstance(self.value, str) and hasattr(self.value, '__len__'):
+            return '{' + ','.join(str(x) for x in self.elements) + '}'
         return str(self.value)
 
     def __str__(self):
@@ -1065,25 +1078,36 @@ class Value:
             if isinstance(result, Expr) and result.is_singular:
                 return result.expr[0]
             return result
+        if len(self._expr_elements):
+            elements = [x.evaluate(known) if isinstance(x, Expr) else x for x in self.elements]
+            elements = [x.value if isinstance(x, Expr) and x.is_constant else x for x in elements]
+            return Value(elements, self.data_type, self.object_type, self.shape_type)
         return self
 
     def depends_on(self, name: str):
+        if len(self._expr_elements):
+            return any(x.depends_on(name) for x in self._expr_elements)
         return not self.is_constant and self.value == name
 
     def copy(self):
-        return Value(self.value, self.data_type, self.object_type, self.shape_type)
+        value = self.value
+        if isinstance(value, list):
+            value = [x.copy() if isinstance(x, Expr) else x for x in value]
+        return Value(value, self.data_type, self.object_type, self.shape_type)
 
     def __contains__(self, value):
         if self.is_id and isinstance(value, (str, Value)):
             return self.value == value
         if self.is_vector:
-            return value in self.value
+            return any(value in x if isinstance(x, Expr) else value == x for x in self.elements)
         if self.is_str and isinstance(value, str) and (value[0] != '"' or value[-1] != '"'):
             # string Values are always wrapped in double quotes
             return self.value.strip('"') == value.strip('"')
         return self.value == value
 
     def verify_parameters(self, instrument_parameter_names: list[str]):
+        for x in self._expr_elements:
+            x.verify_parameters(instrument_parameter_names)
         if self.is_id and self.value in instrument_parameter_names:
             self._object = ObjectType.parameter
 
diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 9948950..de73f62 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -158,7 +158,8 @@ def visitExpressionBinaryRightShift(obj, ctx):
 
 def visitInitializerlist(obj, ctx):
     # `ctx.values` is not exposed by speedy-antlr-tool
-    values = [obj.visit(x).expr[0].value for x in ctx.expr()]
+    # constant elements are held by value, anything else (an identifier, operation, ...) as an expression
+    values = [x.value if x.is_constant else x for x in (obj.visit(x) for x in ctx.expr())]
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
 def visitExpressionUnaryLogic(obj, ctx):
diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index d0582ea..60645ed 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -132,10 +132,11 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         elif default.value.is_vector or p.value.is_vector:
             if p.value.vector_known:
                 # hack-in an allocator for the fixed-length allocated array
-                c_type = par.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
+                c_type = default.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
                 pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                 for i, v in enumerate(p.value.value):
-                    pl.append(f'  {fullname}[{i}] = {v};')
+                    element = f'{v:p}' if isinstance(v, Expr) else v
+                    pl.append(f'  {fullname}[{i}] = {element};')
             elif p.value.is_id:
                 pl.append(f'  {fullname} = {value};')
             else:
-- 
2.43.0


From 809afc1f3eefb2a6dcd4903cf03a7d08beda1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 011/146] fix: read a component CATEGORY given by identifier

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 1eb543a..c1b495d 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -41,7 +41,7 @@ class CompVisitor(McCompVisitor):
 
     def visitCategory(self, ctx: Parser.CategoryContext):
         # Return the provided identifier or string literal, minus quotes
-        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifer())
+        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifier())
 
     def visitTraceBlock(self, ctx: Parser.TraceBlockContext):
         self.state.TRACE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From 894dd404d67e87ed4b43fa009e324e1d38290203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 012/146] fix: read component 'int *' parameters

---
 src/mccode_antlr/comp/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index c1b495d..4b5fe81 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -121,12 +121,12 @@ class CompVisitor(McCompVisitor):
     def visitComponentParameterIntegerArray(self, ctx: Parser.ComponentParameterIntegerArrayContext):
         from ..common import Value, DataType, ShapeType
         name = str(ctx.Identifier(0))
-        if ctx.assign() is not None and ctx.initializerlist() is not None:
+        if ctx.Assign() is not None and ctx.initializerlist() is not None:
             value = self.visit(ctx.initializerlist())
             value.data_type = DataType.int
         else:
             default = None
-            if ctx.assign() is not None:
+            if ctx.Assign() is not None:
                 default = "NULL"
                 if ctx.Identifier(1) is not None:
                     default = str(ctx.Identifier(1))
-- 
2.43.0


From 76cbb9842d408acfc26aaa9d5ac57aa176d2cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 013/146] fix: keep escaped double quotes at the ends of
 component dependency flags

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 4b5fe81..ba3f1dc 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -136,7 +136,7 @@ class CompVisitor(McCompVisitor):
     def visitDependency(self, ctx: Parser.DependencyContext):
         if ctx.StringLiteral() is not None:
             # the flags are the literal string without its quotes:
-            self.parent.add_c_flags(str(ctx.StringLiteral()).strip('"'))
+            self.parent.add_c_flags(str(ctx.StringLiteral())[1:-1])
 
     def visitDeclareBlock(self, ctx: Parser.DeclareBlockContext):
         self.state.DECLARE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From 15085a01afed48b46051ac0a9c11479a96cc38b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 014/146] fix: read JUMP PREVIOUS(n) and JUMP NEXT(n)

---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e6e68d8..d9e06d1 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -238,14 +238,14 @@ class InstrVisitor(McInstrVisitor):
 
     def visitJumpPrevious(self, ctx: McInstrParser.JumpPreviousContext):
         i = ctx.IntegerLiteral()
-        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(i))
+        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(str(i)))
 
     def visitJumpMyself(self, ctx: McInstrParser.JumpMyselfContext):
         return "MYSELF", 0
 
     def visitJumpNext(self, ctx: McInstrParser.JumpNextContext):
         i = ctx.IntegerLiteral()
-        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(i))
+        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(str(i)))
 
     def visitJumpIdentifier(self, ctx: McInstrParser.JumpIdentifierContext):
         return str(ctx.Identifier()), 0
-- 
2.43.0


From 664c6e365f54cf248eca6e908a9776d29527c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 015/146] fix: instances of components with calculated
 parameter defaults can be read

---
 src/mccode_antlr/common/expression.py | 10 +++++++++-
 src/mccode_antlr/instr/visitor.py     |  5 +++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index d3067c6..1296324 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -275,6 +275,14 @@ class Op:
     def is_value(self, other):
         return self == other
 
+    def compatible(self, other, id_ok=False):
+        if isinstance(other, Expr) and other.is_singular:
+            other = other.expr[0]
+        if isinstance(other, Op):
+            return id_ok
+        value = other if isinstance(other, Value) else Value.best(other)
+        return (id_ok and value.is_str) or self.data_type.compatible(value.data_type)
+
     @property
     def is_scalar(self):
         return False
@@ -815,7 +823,7 @@ class Value:
     def compatible(self, other, id_ok=False):
         if isinstance(other, Expr) and other.is_singular:
             other = other.expr[0]
-        if isinstance(other, (UnaryOp, BinaryOp)):
+        if isinstance(other, Op):
             return id_ok
         value = other if isinstance(other, Value) else Value.best(other)
         return (id_ok and value.is_str) or (self.data_type.compatible(value.data_type) and self.shape_type.compatible(value.shape_type))
diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index d9e06d1..2c4e444 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -185,7 +185,8 @@ class InstrVisitor(McInstrVisitor):
             raise RuntimeError(f'{name} is not a known DEFINITION or SETTING parameter for {self.current_comp.name}')
         if DataType.undefined == value.data_type:
             value.data_type = default.value.data_type
-            value.shape_type = default.value.shape_type
+            if not value.is_op and not default.value.is_op:
+                value.shape_type = default.value.shape_type
         return name, value
 
     def visitInstanceParameterNull(self, ctx: McInstrParser.InstanceParameterNullContext):
@@ -378,7 +379,7 @@ class InstrVisitor(McInstrVisitor):
 
     def visitExpressionMyself(self, ctx: McInstrParser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.current_instance.name)
+        return Expr.str(self.current_instance_name)
 
 
 class InstrParametersVisitor(McInstrVisitor):
-- 
2.43.0


From 6e62f743d18ccd400971fd827d0094136a0bcca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 016/146] fix: keep the dependency flags of an instrument read
 from a file or included

---
 src/mccode_antlr/instr/visitor.py | 1 +
 src/mccode_antlr/loader/loader.py | 2 +-
 src/mccode_antlr/reader/reader.py | 3 ++-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 2c4e444..3d5d37b 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -89,6 +89,7 @@ class InstrVisitor(McInstrVisitor):
             self.state.add_parameter(par, ignore_repeated=True)
         for meta in instr.metadata:
             self.state.add_metadata(meta)
+        self.state.flags += tuple(flag for flag in instr.flags if flag not in self.state.flags)
         if len(instr.declare):
             self.state.declare += instr.declare
         if len(instr.user):
diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 5aaffce..74c753e 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -22,7 +22,7 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     reader = Reader(registries=registries)
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
-    instr.flags += tuple(reader.c_flags)
+    instr.flags = tuple(dict.fromkeys(instr.flags + tuple(reader.c_flags)))
     instr.registries += tuple(registries)
     return instr
 
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index c9c35da..f262318 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -170,6 +170,7 @@ class Reader:
         if not isinstance(res, Instr):
             raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
         res.source = filename
-        res.flags = tuple(self.c_flags)
+        # the instrument can have flags of its own, in addition to those of its components
+        res.flags = tuple(dict.fromkeys(res.flags + tuple(self.c_flags)))
         res.registries = tuple(self.registries)
         return res
-- 
2.43.0


From 6e5b4cbed9aa2febfd2927daecfd7a29bab79723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 017/146] fix: a parameter set twice for an instance keeps only
 its first value

---
 src/mccode_antlr/instr/instance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e436a05..e63b358 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -124,6 +124,7 @@ class Instance:
                 if par.value != value:
                     logger.info(f'  first-encountered value {par.value} retained')
                     logger.info(f'  newly-encountered value {value} dropped')
+                return
             else:
                 raise RuntimeError(f"Multiple definitions of {name} in component instance {self.name}")
         p = self.type.get_parameter(name)
-- 
2.43.0


From db55af1417f162517b4ce5f4777de3f2738d5c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 018/146] fix: write the REMOVABLE and SPLIT modifiers and
 absolute orientations of relatively placed instances

---
 src/mccode_antlr/instr/instance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e63b358..9170320 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -38,8 +38,13 @@ class Instance:
         return f'Instance({self.name}, {self.type.name})'
 
     def to_file(self, output, wrapper=None, full=True):
+        # the modifiers which come before the COMPONENT keyword, in the order required by the grammar
+        if self.removable:
+            print(wrapper.line('REMOVABLE', []), file=output, end='')
         if self.cpu:
             print(wrapper.line('CPU', []), file=output, end='')
+        if self.split is not None:
+            print(wrapper.line('SPLIT', [wrapper.escape(str(self.split))]) + ' ', file=output, end='')
 
         instance_parameters = wrapper.hide(', '.join(p.to_string(wrapper=wrapper) for p in self.parameters))
         line = wrapper.bold('COMPONENT') + f' {self.name} = {self.type.name}({instance_parameters}) '
@@ -54,7 +59,9 @@ class Instance:
 
         # The "AT ..." statement is required even when it is "AT (0, 0, 0) ABSOLUTE"
         line += rf('AT', self.at_relative, required=True) + ' '
-        line += rf('ROTATED', self.rotate_relative) + wrapper.br()
+        # Without a "ROTATED ..." statement the orientation is relative to the same reference as the position
+        rotated = self.at_relative[1] is not None and self.rotate_relative[1] is None
+        line += rf('ROTATED', self.rotate_relative, required=rotated) + wrapper.br()
         print(line, file=output, end='')
 
         if not full:
-- 
2.43.0


From 2ee30bc11c075366de0566a4482510becd6093f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 019/146] fix: write JUMP targets whose name starts with NEXT_
 or PREVIOUS_ in full

---
 src/mccode_antlr/instr/jump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 261b35a..d95205b 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -14,7 +14,8 @@ class Jump:
         # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "MYSELF_{i}, "NEXT",
         # or "{component instance identifier}"
         jump_name = self.target
-        if '_' in jump_name and (jump_name.startswith('PREVIOUS') or jump_name.startswith('NEXT')):
+        # only relative targets have a non-zero distance: the name of an instance can also start with, e.g., NEXT_
+        if self.relative_target != 0:
             jump_name = jump_name.split('_')[0]
         if abs(self.relative_target) > 1:
             jump_name += f' ({abs(self.relative_target)})'
-- 
2.43.0


From bf29006260a6c6c8f4046a5b5acb380752da77c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 020/146] fix: sections and metadata keep their exact text, and
 metadata names are quoted, when written

---
 src/mccode_antlr/common/textwrap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index eee8687..d6cfe5a 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -132,7 +132,8 @@ class TextWrapper(BaseWrapper):
         return '*/'
 
     def block(self, name: str, content: str) -> str:
-        return '\n'.join([name + '\n%{\n', content + '\n%}\n'])
+        # no extra white space is allowed inside of the delimiters, since all of it is part of the content
+        return name + '\n%{' + content + '%}\n'
 
     def line(self, name: str, items: list[str], sep: str = ' ') -> str:
         items = [item or 'None' for item in items]
@@ -147,7 +148,9 @@ class TextWrapper(BaseWrapper):
 
     @staticmethod
     def metadata_group(name: str, mimetype: str, item: str, value: str) -> str:
-        return f'{name} "{mimetype}" {item} \n%{{\n{value}\n%}}\n'
+        # an item name is only allowed to appear without quotes if it is an identifier, but can always be quoted
+        item = item if item[:1] == '"' else f'"{item}"'
+        return f'{name} "{mimetype}" {item} \n%{{{value}%}}\n'
 
     @staticmethod
     def datatype(data_type: str) -> str:
-- 
2.43.0


From 1dec842dc42ae1bc2adf0047e349250167cc3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 021/146] fix: write units in quotes and every parameter
 default, and do not repeat dependency flags

---
 src/mccode_antlr/common/parameters.py | 6 ++++--
 src/mccode_antlr/instr/instr.py       | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/parameters.py b/src/mccode_antlr/common/parameters.py
index 0c9f9c6..7c56d3b 100644
--- a/src/mccode_antlr/common/parameters.py
+++ b/src/mccode_antlr/common/parameters.py
@@ -20,8 +20,10 @@ class InstrumentParameter:
             line = 'int '
         line = wrapper.datatype(line) + wrapper.parameter(self.name)
         if self.unit is not None:
-            line += wrapper.unit(self.unit)
-        if self.value.has_value:
+            quoted = self.unit[:1] == '"' and self.unit[-1:] == '"'
+            line += wrapper.unit(self.unit if quoted else f'"{self.unit}"')
+        # the default value could be an identifier or an operation, neither of which is a (constant) value
+        if self.value.is_op or self.value.first.has_value:
             line += "=" + wrapper.value(self.value)
         print(line, file=output)
 
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 0acb67b..549eed9 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -55,7 +55,12 @@ class Instr:
         for metadata in self.metadata:
             metadata.to_file(output=output, wrapper=wrapper)
         if self.flags:
-            print(wrapper.quoted_line('DEPENDENCY ', list(self.flags)), file=output)
+            # Only one DEPENDENCY is allowed, so avoid repeating flags, e.g., those read (again) from the components
+            flags = []
+            for flag in self.flags:
+                if not any(f' {flag} ' in f' {x} ' for x in flags):
+                    flags.append(flag)
+            print(wrapper.quoted_line('DEPENDENCY ', flags), file=output)
 
         if self.declare:
             print(wrapper.block('DECLARE', _join_rawc_tuple(self.declare)), file=output)
-- 
2.43.0


From 15b187cc14fe7aee566fd6a564be2742a5d38797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 022/146] fix: printing does not add parentheses around an
 expression already printed inside of parentheses

---
 src/mccode_antlr/common/expression.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 1296324..9525d0d 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -217,6 +217,14 @@ def _printed_precedence(x):
     return _UNARY_PRECEDENCE if negative else _NO_PARENTHESES
 
 
+def _printed_in_parentheses(node: list):
+    """Whether the printed form of an operand is enclosed in parentheses already"""
+    x = node[0] if len(node) == 1 else None
+    if isinstance(x, Expr):
+        return _printed_in_parentheses(x.expr)
+    return (isinstance(x, BinaryOp) and x.op in ('+', '-', '%', '<<', '>>')) or (isinstance(x, UnaryOp) and '__group__' == x.op)
+
+
 def _parenthesize(node: list, printed: str, precedence: int):
     """Wrap the printed node in parentheses if its outermost operator binds less tightly than the precedence"""
     if len(node) == 1 and _printed_precedence(node[0]) < precedence:
@@ -630,7 +638,7 @@ class UnaryOp(Op):
 
     def _str_repr_(self, vstr):
         if '__group__' == self.op:
-            return f'({vstr})'
+            return vstr if _printed_in_parentheses(self.value) else f'({vstr})'
         if '__not__' == self.op:
             vstr = _parenthesize(self.value, vstr, _UNARY_PRECEDENCE)
             return f'!{vstr}' if 'C' == self.style else f'not {vstr}'
-- 
2.43.0


From 51c281e6500dc35b1e5f48b70596521feb7eb7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 023/146] fix: separate the ROTATED statement from the instance
 modifiers written after it

---
 src/mccode_antlr/instr/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 9170320..709e68f 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -61,7 +61,7 @@ class Instance:
         line += rf('AT', self.at_relative, required=True) + ' '
         # Without a "ROTATED ..." statement the orientation is relative to the same reference as the position
         rotated = self.at_relative[1] is not None and self.rotate_relative[1] is None
-        line += rf('ROTATED', self.rotate_relative, required=rotated) + wrapper.br()
+        line += rf('ROTATED', self.rotate_relative, required=rotated) + ' ' + wrapper.br()
         print(line, file=output, end='')
 
         if not full:
-- 
2.43.0


From d0fd6dc73f3a8c9fa1d479c5eea75f9ba4466e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 024/146] fix: print the arguments of every call the same way,
 so that they are unchanged when read back

---
 src/mccode_antlr/common/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 9525d0d..bfa6908 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -184,11 +184,11 @@ class DataType(Enum):
 
 
 def _comb(f, s: list):
-    return ','.join(f(x) for x in s)
+    return ', '.join(f(x) for x in s)
 
 
 def _fmt_comb(fmt, s: list):
-    return ','.join(f'{x:{fmt}}' for x in s)
+    return ', '.join(f'{x:{fmt}}' for x in s)
 
 
 # How tightly the printed form of an operation binds its operands in C, those not present need no parentheses
-- 
2.43.0


From 3ed19b2aa08080c31c7a03f0e5ab73fcb8861ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 025/146] fix: an identifier expression can be the value of a
 vector parameter

---
 src/mccode_antlr/common/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index bfa6908..3ee2aaa 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -289,7 +289,7 @@ class Op:
         if isinstance(other, Op):
             return id_ok
         value = other if isinstance(other, Value) else Value.best(other)
-        return (id_ok and value.is_str) or self.data_type.compatible(value.data_type)
+        return (id_ok and (value.is_str or value.is_id)) or self.data_type.compatible(value.data_type)
 
     @property
     def is_scalar(self):
@@ -834,7 +834,7 @@ class Value:
         if isinstance(other, Op):
             return id_ok
         value = other if isinstance(other, Value) else Value.best(other)
-        return (id_ok and value.is_str) or (self.data_type.compatible(value.data_type) and self.shape_type.compatible(value.shape_type))
+        return (id_ok and (value.is_str or value.is_id)) or (self.data_type.compatible(value.data_type) and self.shape_type.compatible(value.shape_type))
 
     @classmethod
     def float(cls, value):
-- 
2.43.0


From 460405ca9259c2444b620395928af26b97634e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 026/146] fix: an explicit ABSOLUTE rotation given to the
 Assembler is absolute

---
 src/mccode_antlr/assembler/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index af2b993..30123be 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -47,6 +47,9 @@ class Assembler:
 
     def _handle_rotate(self, a=None, at_ref=None) -> tuple[Angles, Union[Instance, None]]:
         rot_tuple, ref = self._handle_at_rotate(a)
+        if hasattr(a, '__len__') and len(a) == 2 and isinstance(a[1], str):
+            # an explicit reference, including 'ABSOLUTE', is independent of the position reference
+            return Angles(*rot_tuple), ref
         return Angles(*rot_tuple), ref or at_ref
 
     def component(self, name: str, type_name: str, at=None, rotate=None, parameters=None, **kwargs):
-- 
2.43.0


From 75564cc18f2c797c0c40b688f7db0d5bd03e92e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 027/146] fix: close the parenthesis of instrument parameter
 macros in the generated SAVE

---
 src/mccode_antlr/translators/c_save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_save.py b/src/mccode_antlr/translators/c_save.py
index b4eeb49..4fdcd61 100644
--- a/src/mccode_antlr/translators/c_save.py
+++ b/src/mccode_antlr/translators/c_save.py
@@ -22,7 +22,7 @@ def cogen_save(source, declared_parameters):
         ])
         for par in source.parameters:
             # ensure there's no conflict of names
-            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name}')
+            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name})')
         for block in source.save:
             lines.append(block.to_c())
         for par in source.parameters:
-- 
2.43.0


From be024543ffd01ddc9c9abeb80ccf09445bc8be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 028/146] fix: escape every column of the metadata table, and
 every byte, for C string literals

---
 src/mccode_antlr/common/utilities.py    | 5 ++++-
 src/mccode_antlr/translators/c_decls.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/utilities.py b/src/mccode_antlr/common/utilities.py
index 8ebe4fb..d0d16ce 100644
--- a/src/mccode_antlr/common/utilities.py
+++ b/src/mccode_antlr/common/utilities.py
@@ -1,4 +1,7 @@
 def escape_str_for_c(s: str):
     if s is None:
         return ''
-    return s.encode('unicode-escape').decode('utf-8').replace('"', r'\"')
+    simple = {'\\': r'\\', '"': r'\"', '\n': r'\n', '\r': r'\r', '\t': r'\t'}
+    # any other byte is written with three octal digits, since hexadecimal escapes in C have no fixed length
+    return ''.join(simple.get(c) or (c if ' ' <= c <= '~' else f'\\{b:03o}')
+                   for b in s.encode('utf-8', 'surrogateescape') for c in [chr(b)])
diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 65c713e..ac391b7 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -80,7 +80,8 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
     def metadata_table():
         def one_line(defined_by, name, mimetype, value):
             from ..common.utilities import escape_str_for_c
-            return f' {{"{defined_by}", "{name}", "{mimetype}", "{escape_str_for_c(value)}"}}, '
+            columns = ', '.join(f'"{escape_str_for_c(x)}"' for x in (defined_by, name, mimetype, value))
+            return f' {{{columns}}}, '
 
         metadata = source.collect_metadata()
         lines = ['struct metadata_table_struct metadata_table[] = {']
-- 
2.43.0


From 45772af1d6e34705ca926de57f35ec881e3a50c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 029/146] fix: keep the argument list of a call without
 arguments empty

---
 src/mccode_antlr/common/visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index de73f62..875c2f2 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -141,7 +141,8 @@ def visitExpressionBinaryPM(obj, ctx):
 def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
     # `ctx.args` isn't exposed by speedy-antlr-tool, but the function call is
-    args = [obj.visit(arg).expr[0] for arg in ctx.expr()]  # each is a Value, UnaryOp, or BinaryOp?
+    # an empty argument list parses as one empty (string) expression
+    args = [obj.visit(arg).expr[0] for arg in ctx.expr() if arg.getText()]  # each is a Value, UnaryOp, or BinaryOp?
     return Expr(BinaryOp('__call__', function, args))
 
 def visitExpressionBinaryMD(obj, ctx):
-- 
2.43.0


From ce103a57060cee8b02a7c3e371cd06812b6802c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 030/146] fix: component DEFINITION PARAMETERS are members of
 the generated structure, with values

---
 src/mccode_antlr/translators/c_decls.py      | 6 +++---
 src/mccode_antlr/translators/c_initialise.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index ac391b7..29f9c5d 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -155,8 +155,8 @@ def component_type_declaration(comp, typedefs: list, declared_parameters: list):
         f'struct _struct_{comp.name}_parameters {{',
         f"  /* Component type '{comp.name}' setting parameters */"
     ]
-    # TODO Veryify that the cogen.c iteration over `comp->def->set_par` does not somehow include DEFINITION PARAMETERS
-    for par in comp.setting:
+    # The DEFINITION PARAMETERS are #defined to be members of this structure too
+    for par in comp.define + comp.setting:
         # FIXME We CANT define a static array here without knowing the maximum size used in every component!
         # # if par.value.is_a(Value.Type.float_array) or par.value.is_a(Value.Type.int_array):
         # if par.value.vector_known:
@@ -179,7 +179,7 @@ def component_type_declaration(comp, typedefs: list, declared_parameters: list):
     lines.append(f"  /* Component type '{comp.name}' private parameters */")
     lines.extend([f'  {x.as_struct_member()};' for x in declared_parameters])
 
-    if len(comp.setting) + len(declared_parameters) == 0:
+    if len(comp.define) + len(comp.setting) + len(declared_parameters) == 0:
         lines.append(f'  char {comp.name}_has_no_parameters;')
 
     lines.extend([
diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 60645ed..67d7a9f 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -164,7 +164,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
             f'    mccomp_placement_type_nexus(nxhandle, {gstr}, {pos_id}, {rot_id}, "{comp.type.name}");'
         ]
         # loop over component instance parameters and set their values in the NeXus group ...
-        for default in comp.type.setting:
+        for default in comp.type.define + comp.type.setting:
             p = comp.get_parameter(default.name)
             dstr = f'{default.value:p}'
             vstr = f'{p.value:p}'
@@ -191,8 +191,8 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
 
     # <<< This is the first call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "SETTING")
     # With `section == "SETTING"` the first call picks out `comp->def->set_par`
-    for par in comp.type.setting:
-        # For each component definition SETTING PARAMETER the same-named instance parameter is retrieved
+    for par in comp.type.define + comp.type.setting:
+        # For each component definition DEFINITION or SETTING PARAMETER the same-named instance parameter is retrieved
         lines.append(parameter_line(par))
     # >>> End of first call to `cogen_comp_init_par`
     # <<< Start of second call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "PRIVATE")`
-- 
2.43.0


From 5cd0f4c45b415ccdc8d93387a9e5418a87f7adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 031/146] fix: declare USERVARS arrays with their size in the
 particle structure

---
 src/mccode_antlr/translators/c_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 860b95b..3d6632c 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -38,7 +38,7 @@ def header_pre_runtime(
     # Also store these strings in the appropriate instrument list for later def/undef as state variables
 
     uservar_string = '//user variables and comp - injections:\n' if len(uservars) else ''
-    uservar_string += '\n'.join([f'  {x};' for x in uservars])
+    uservar_string += '\n'.join([f'  {x.as_struct_member()};' for x in uservars])
 
     members = list(accessible_struct_members(is_mcstas)) + [x.name for x in uservars]
     # Shouldn't we exclude array-valued names here?
-- 
2.43.0


From 48c4824812b08e7372e44380e368e5a82626ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 032/146] fix: copy every byte, and the terminator, of
 non-ASCII string parameter values

---
 src/mccode_antlr/translators/c_initialise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 67d7a9f..1eeff26 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -125,8 +125,8 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
                     '  }',
                 ])
             elif p.value.has_value and p.value.value != '0' and p.value.value != 'NULL' and p.value.value != '""':
-                # len(value)-1 to remove quotes, but copy null terminator
-                pl.append(f'  stracpy({fullname}, {value}, {len(p.value.value)-1});')
+                # length in bytes, minus one to remove quotes, but copy null terminator
+                pl.append(f'  stracpy({fullname}, {value}, {len(p.value.value.encode())-1});')
             else:
                 pl.append(f"  {fullname}[0] = '\\0';")
         elif default.value.is_vector or p.value.is_vector:
-- 
2.43.0


From 5b731751c4f56e71f9bc18a6ec851653ee528f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:26 +0000
Subject: [PATCH 033/146] fix: determine the groups of the components that are
 translated

---
 src/mccode_antlr/instr/instr.py        | 1 +
 src/mccode_antlr/translators/target.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 549eed9..c4d5c00 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -203,6 +203,7 @@ class Instr:
         self.metadata += (m,)
 
     def determine_groups(self):
+        self.groups = {}  # the components might have changed since their groups were last determined
         for id, inst in enumerate(self.components):
             if inst.group:
                 if inst.group not in self.groups:
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index d2d4f1c..1808af6 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -29,6 +29,7 @@ class TargetVisitor:
         self.ok_to_skip = None
         #
         self.source.verify_instance_parameters()
+        self.source.determine_groups()
         self.__post_init__()
 
     def __init_subclass__(cls, **kwargs):
-- 
2.43.0


From 95667ac7537a6caad800932151b210d09aa0eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 034/146] fix: find the component a JUMP goes to at every
 translation

---
 src/mccode_antlr/translators/target.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 1808af6..f4955b1 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -220,13 +220,10 @@ class TargetVisitor:
     def set_jump_absolute_targets(self):
         for index, jump in [(i, j) for i, c in enumerate(self.source.components) for j in c.jump]:
             # jump is a dataclass with 'target', 'index', 'iterate', 'condition', and 'actual_target_index'
-            if jump.absolute_target > -1:
-                # Somewhere/something already set the actual target index -- we don't have a choice but to trust it
-                continue
+            # Any already set target index could be for another instrument, if the components have been copied
             if jump.relative_target == 0 and jump.target.lower() != 'myself':
                 # the target is another named component:
                 jump.absolute_target = [i for i, c in enumerate(self.source.components) if jump.target == c.name][0]
-                jump.relative_target = jump.absolute_target - index
             else:
                 jump.absolute_target = index + jump.relative_target
 
-- 
2.43.0


From daaf5b714f1991eab78292c62bf95062d82d0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 035/146] fix: do not skip the coordinate transform of the
 first component, or of GROUP members

---
 src/mccode_antlr/translators/target.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index f4955b1..483949f 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -207,9 +207,13 @@ class TargetVisitor:
             # Any component jumping elsewhere can not be skipped
             if len(comp.jump):
                 return False
+            # The members of a GROUP share the particle state saved by the first, after its transform
+            if comp.group is not None:
+                return False
             return True
 
-        can_skip_transform = [can_skip(comp) for comp in self.source.components]
+        # Positions are relative to the preceding non-skipped component, so the first can not be skipped
+        can_skip_transform = [index > 0 and can_skip(comp) for index, comp in enumerate(self.source.components)]
 
         # Any component that is jumped *to* can not be skipped (set_jump_absolute_targets must be called before this)
         for jump in [j for c in self.source.components for j in c.jump]:
-- 
2.43.0


From 2800728f79cef45cf5c350ee835971fef6996959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 036/146] fix: a GROUP member which is not executed does not
 scatter

---
 src/mccode_antlr/translators/c_raytrace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 03adf47..d9dbb30 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -86,6 +86,8 @@ def cogen_raytrace(source, ok_to_skip):
                 f'      DEBUG_COMP(_{comp.name}_var._name);',
                 '      DEBUG_STATE();'
             ])
+        if comp.group is not None:
+            lines.append('      SCATTERED=0; // a GROUP member which is not executed does not scatter')
         if len(comp.type.trace) or len(comp.extend):
             # WHEN
             if comp.when is not None:
@@ -382,6 +384,8 @@ def cogen_funnel(source, ok_to_skip):
                 '        }',
                 "        _particle_save = *_particle;",
             ])
+        if comp.group is not None:
+            lines.append('        SCATTERED=0; // a GROUP member which is not executed does not scatter')
         if len(comp.type.trace) or len(comp.extend):
             if comp.when is not None:
                 lines.append(f'    if (({comp.when:p}))  // conditional WHEN')
-- 
2.43.0


From 8fd7d1b64bcd8c0e2df35be00a0a96d9d5bb2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 037/146] fix: leave a GROUP after its last member, and restore
 a particle not SCATTERED in it, also in FUNNEL mode

---
 src/mccode_antlr/translators/c_raytrace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index d9dbb30..b8663cb 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -402,16 +402,16 @@ def cogen_funnel(source, ok_to_skip):
             ln = group.last.name
             lid = group.last_id
             lines.extend([
-                f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{lid}]',
+                f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{1+lid}]',
                 # Skip over when SCATTERED in the group:
-                f'    if (SCATTERED) _particle->_index = {lid}; '
+                f'    if (SCATTERED) _particle->_index = {1+lid}; '
                 '// when SCATTERED in GROUP: reach exit of GROUP after {ln}',
                 #
             ])
             if index == lid:
                 lines.append('    else ABSORBED=1; // Not SCATTERED by end of GROUP: removes left events')
             else:
-                lines.append("      else ABSORBED=0; // not SCATTERED within GROUP: always tries next")
+                lines.append('      else particle_restore(_particle, &_particle_save); // not SCATTERED in GROUP, restore')
 
         lines.append("        _particle->_index++;")
         lines.append("      }")
-- 
2.43.0


From 491a7b17f4959fc87a95986ccfcf63a9fbd592fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 038/146] fix: order included libraries after everything they
 include, for any include hierarchy

---
 src/mccode_antlr/translators/c.py | 66 +++++++++----------------------
 1 file changed, 19 insertions(+), 47 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 262b0be..d20a7be 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -12,63 +12,35 @@ class CInclude:
     name: str
     order: int
     content: str = ''
-    root: str = ''
 
     def __hash__(self):
-        return hash(self.parent + self.name + self.content + self.root)
+        return hash(self.parent + self.name + self.content)
 
     def __str__(self):
-        return f'{self.root}:{self.parent}({self.order}):{self.name}'
-
-    def __lt__(self, other):
-        if self.parent == other.parent:
-            return self.order > other.order
-        if self.root or other.root:
-            if self.parent == self.root or self.parent == other.root:
-                return True
-            if other.parent == self.root or other.parent == other.root:
-                return False
-        if self.parent == other.name:
-            return False
-        if other.parent == self.name:
-            return True
-        return self.name < other.name
+        return f'{self.parent}({self.order}):{self.name}'
 
 
 def sort_include_hierarchy(includes: list[CInclude]):
     if len(includes) == 0:
         return []
     logger.debug(f'sort includes {" ".join(str(x) for x in includes)}')
-    # find the 'root' of the tree, a parent which is _not_ a named include:
-    roots = list(set([x.parent for x in includes]).difference(set([x.name for x in includes])))
-    options = {}
-    for root in roots:
-        for include in includes:
-            include.root = root
-        # Sort the includes such that if A includes B and C, and C includes B, then we get [C:B, A:C, A:B]
-        # Or a more complicated case: G:(Z,A,W), Z:(B,Y), A:X, W(Y) -> [Z:Y, W:Y, A:X, B:W, Z:B, G:A, G:Z, G:W]
-        used, output = [], []
-        for include in sorted(includes, reverse=True):
-            if include.name not in used:
-                output.append(include)
-                used.append(include.name)
-        # Reduce output to [C:B, A:C], or [Z:Y, A:X, B:W, Z:B, G:A, G:Z], which would include the libraries correctly
-        # Double check, that the include order does not _directly_ contradict one of the include directives:
-        order = [x.name for x in output]
-        contradicts = False
-        for include in includes:
-            if include.parent in order and include.name in order:
-                parent_at = [index for index, name in enumerate(order) if name == include.parent][0]
-                name_at = [index for index, name in enumerate(order) if name == include.name][0]
-                if name_at > parent_at:
-                    contradicts = True
-        if not contradicts:
-            logger.debug(f"sorted to {'  '.join(order)}")
-            options[root] = output
-    if len(options) == 0:
-        raise RuntimeError(f'No valid sorting of {includes=}')
-    # Maybe there's a case where the specified root matters?
-    return list(options.values())[0]
+    names = {x.name for x in includes}
+    visited, output = set(), []
+
+    def insert(include):
+        # everything a library includes must come before the library itself, and only once
+        if include.name not in visited:
+            visited.add(include.name)
+            for nested in includes:
+                if nested.parent == include.name:
+                    insert(nested)
+            output.append(include)
+
+    # start from the 'root' of the tree, any parent which is _not_ a named include, in their order of appearance:
+    for include in sorted(includes, key=lambda x: x.parent in names):
+        insert(include)
+    logger.debug(f"sorted to {'  '.join(x.name for x in output)}")
+    return output
 
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
-- 
2.43.0


From c8062e302efcfb3151b9353b3a6f029b32fdd89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 039/146] fix: change the coordinates of particles for the
 GROUP members they skip, also in FUNNEL mode

---
 src/mccode_antlr/translators/c_raytrace.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index b8663cb..099bf77 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -368,12 +368,11 @@ def cogen_funnel(source, ok_to_skip):
                 "      _class_particle _particle_save;",
             ])
 
-        lines.extend([
-            f'      // {comp.name}',
-            f'      if (!ABSORBED && _particle->_index == {index+1}) {{',
-        ])
+        lines.append(f'      // {comp.name}')
         if not ok_to_skip[index]:
+            # particles which left a GROUP early must change coordinates for the members they skip too
             lines.extend([
+                "      if (!ABSORBED) {",
                 "        #ifndef MULTICORE",
                 f"        if (_{comp.name}_var._rotation_is_identity) {{",
                 f"          coords_get(coords_add(coords_set(x,y,z), _{comp.name}_var._position_relative),&x, &y, &z);",
@@ -382,8 +381,11 @@ def cogen_funnel(source, ok_to_skip):
                 "        {",
                 f"          mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, _particle);",
                 '        }',
-                "        _particle_save = *_particle;",
+                '      }',
             ])
+        lines.append(f'      if (!ABSORBED && _particle->_index == {index+1}) {{')
+        if not ok_to_skip[index]:
+            lines.append("        _particle_save = *_particle;")
         if comp.group is not None:
             lines.append('        SCATTERED=0; // a GROUP member which is not executed does not scatter')
         if len(comp.type.trace) or len(comp.extend):
-- 
2.43.0


From 2251e27a04a7c170f197466137a0cadcead58724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 040/146] fix: a parameter without default value has none in
 the generated parameter table

---
 src/mccode_antlr/translators/c_decls.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 29f9c5d..586f0a7 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -69,7 +69,9 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
             return z if len(z) and z[0] == '"' and z[-1] == '"' else f'"{z}"'
 
         def one_line(name, typename, value, unit):
-            return f'  {{"{name}", &(_instrument_var._parameters.{name}), {typename}, {nps(value)}, {nps(unit)}}},'
+            # without a default value its string must be empty, for the runtime to require that one is provided
+            default = value if value.is_op or value.first.has_value else None
+            return f'  {{"{name}", &(_instrument_var._parameters.{name}), {typename}, {nps(default)}, {nps(unit)}}},'
 
         lines = [f'int numipar = {len(source.parameters)};', 'struct mcinputtable_struct mcinputtable[] = {']
         lines.extend([one_line(p.name, p.value.mccode_c_type_name, p.value, p.unit) for p in source.parameters])
-- 
2.43.0


From 11dda3450d1581b9b9ebf66969410a7395ca8a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 041/146] fix: a parameter range has the same points, last one
 included, however it is read

---
 src/mccode_antlr/run/range.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index b56f36b..bcecbc3 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -29,14 +29,7 @@ class MRange:
         return self.stop
 
     def __iter__(self):
-        def range_gen(start, stop, step):
-            v = start
-            i = 0
-            while (step > 0 and v + step <= stop) or (step < 0 and v + step >= stop):
-                v = i * step + start
-                i += 1
-                yield v
-        return range_gen(self.start, self.stop, self.step)
+        return (self[i] for i in range(len(self)))
 
     def __getitem__(self, index: int):
         if index < 0 or index >= len(self):
@@ -50,7 +43,10 @@ class MRange:
         return f'MStyleRange({self})'
 
     def __len__(self):
-        return int((self.stop - self.start) / self.step) + 1
+        from math import floor
+        steps = (self.stop - self.start) / self.step
+        # the stop value is part of the range even if rounding puts it slightly beyond the last step
+        return max(0, floor(steps + 1e-9 * max(1., abs(steps))) + 1)
 
     @classmethod
     def from_str(cls, string):
-- 
2.43.0


From bae025d5dc471c6586fee26dce63e02bd242ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 042/146] fix: parameters_to_scan keeps names, leaves its
 argument alone, and takes lists and values of length one

---
 src/mccode_antlr/run/range.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index bcecbc3..ca8832c 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -159,31 +159,29 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
     :parameter parameters: A dictionary of ranged parameters.
     :parameter grid: Controls how the parameters are iterated; True implies a grid scan, False implies a linear scan.
     """
-    if grid:
-        for k, v in parameters.items():
-            if isinstance(v, Singular):
-                parameters[k] = Singular(v.value, 1)
-
-    names = [x.lower() for x in parameters.keys()]
-    values = [x if hasattr(x, '__iter__') else [x] for x in parameters.values()]
+    names = list(parameters.keys())
+    values = list(parameters.values())
     if not len(values):
         return 0, names, []
-    elif grid:
+    # a Singular is one value in a grid and as many as it says otherwise; what is not a list or range is one value
+    values = [[x.value] * (1 if grid or x.maximum is None else x.maximum) if isinstance(x, Singular) else x for x in values]
+    values = [x if hasattr(x, '__len__') and not isinstance(x, str) else [x] for x in values]
+    if grid:
         from itertools import product
         from math import prod
         # singular MRange objects *should* stop the grid along their axis:
         n_pts = prod([len(v) for v in values])
         return n_pts, names, product(*values)
     else:
-        # replace singular MRange entries with Singular iterators, to avoid stopping the zip early:
+        # repeat singular entries, to avoid stopping the zip early:
         n_max = max([len(v) for v in values])
         for i, v in enumerate(values):
-            if len(v) > 1 and len(v) != n_max:
+            if len(v) != 1 and len(v) != n_max:
                 oth = [names[i] for i, n in enumerate(values) if len(n) == n_max]
                 par = 'parameters' if len(oth) > 1 else 'parameter'
                 have = 'have' if len(oth) > 1 else 'has'
                 raise ValueError(f'Parameter {names[i]} has {len(v)} values, but {par} {", ".join(oth)} {have} {n_max}')
-        return n_max, names, zip(*[v if len(v) > 1 else Singular(v[0] if isinstance(v, MRange) else v.value, n_max) for v in values])
+        return n_max, names, zip(*[v if len(v) == n_max else [v[0]] * n_max for v in values])
 
 
 def _MRange_or_Singular(s: str):
-- 
2.43.0


From 843faf5e9f95a0127b38bd05cab1bcbd0dbcce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 043/146] fix: parameter values and output directories that
 contain spaces reach the instrument

---
 src/mccode_antlr/compiler/c.py |  5 +++--
 src/mccode_antlr/run/runner.py | 11 +++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index c84b0a0..cb468cb 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -276,7 +276,8 @@ def compile_instrument(
     return compile_c_instrument(instrument, target, output, replace, dump_source, **kwargs)
 
 
-def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, capture=False, dry_run: bool = False):
+def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: Union[str, list], capture=False, dry_run: bool = False):
+    """Run a compiled instrument with options, a list of arguments or a string of them separated by whitespace"""
     from subprocess import run, CalledProcessError
     from platform import system
     from mccode_antlr.config import config
@@ -310,7 +311,7 @@ def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, c
         raise RuntimeError(f'Can not execute {binary} since it does not exist.')
 
     # In normal operation, the binary is provided with options
-    command.extend([str(binary), *options.split()])
+    command.extend([str(binary), *(options.split() if isinstance(options, str) else options)])
     # which we then execute:
     if dry_run:
         logger.info(f'Would execute {command}')
diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0a09363..0942147 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -49,10 +49,8 @@ def mccode_runtime_dict_to_args_list(args: dict) -> list[str]:
     return out
 
 
-def mccode_runtime_parameters(args: dict, params: dict) -> str:
-    first = ' '.join(mccode_runtime_dict_to_args_list(args))
-    second = ' '.join(f'{k}={v}' for k, v in params.items())
-    return f'{first} {second}'
+def mccode_runtime_parameters(args: dict, params: dict) -> list[str]:
+    return mccode_runtime_dict_to_args_list(args) + [f'{k}={v}' for k, v in params.items()]
 
 
 def sort_args(args: list[str]) -> list[str]:
@@ -147,12 +145,13 @@ def mccode_compile(instr, directory, generator, target: dict | None = None, conf
     return binary, def_target
 
 
-def mccode_run_compiled(binary, target, directory: Path | str, parameters: str, capture: bool = True, dry_run: bool = False):
+def mccode_run_compiled(binary, target, directory: Path | str, parameters: str | list[str], capture: bool = True, dry_run: bool = False):
     from mccode_antlr.compiler.c import run_compiled_instrument
     from mccode_antlr.loader import read_mccode_dat
     from pathlib import Path
 
-    result = run_compiled_instrument(binary, target, f'--dir {directory} {parameters}', capture=capture, dry_run=dry_run)
+    options = ['--dir', str(directory), *(parameters.split() if isinstance(parameters, str) else parameters)]
+    result = run_compiled_instrument(binary, target, options, capture=capture, dry_run=dry_run)
     sim_files = list(Path(directory).glob('**/*.dat'))
     dats = {file.stem: read_mccode_dat(file) for file in sim_files}
     return result, dats
-- 
2.43.0


From d9db470d57f30f8a7f8a443f0ff6284451c6ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 044/146] fix: each point of a scan runs with its own parameter
 values

---
 src/mccode_antlr/run/runner.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0942147..6ea6e84 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -169,21 +169,20 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
         directory = Path(f'{name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
 
     # if there is only one point, we don't need to scan
-    if n_pts > 1:
+    if n_pts > 1 or (n_pts < 1 and len(parameters)):
         directory.mkdir(parents=True, exist_ok=True)
         results = []
         for number, values in enumerate(scan):
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(r_args, parameters)
+            pars = mccode_runtime_parameters(args, dict(zip(names, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
-        print(parameters)
-        pars = mccode_runtime_parameters(args, parameters)
+        pars = mccode_runtime_parameters(args, dict(zip(names, next(iter(scan), ()))))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
-- 
2.43.0


From 9ebb361204165e95671e30c4bd51dd769c66a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 045/146] fix: an output directory named on the command line
 works

---
 src/mccode_antlr/run/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 6ea6e84..fd63ffb 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -167,6 +167,7 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
     if directory is None:
         from datetime import datetime
         directory = Path(f'{name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
+    directory = Path(directory)
 
     # if there is only one point, we don't need to scan
     if n_pts > 1 or (n_pts < 1 and len(parameters)):
-- 
2.43.0


From 2650d37b7cd7af2aae3b247cae087f8ff7da3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 046/146] fix: --process-count N starts N processes

---
 src/mccode_antlr/run/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index fd63ffb..dc7698d 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -244,7 +244,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     target = dict(
         mpi=args.parallel,
         acc=args.gpu,
-        count=args.process_count,
+        count=args.process_count[0] if isinstance(args.process_count, list) else args.process_count,
         nexus=False
     )
     runtime = dict(
-- 
2.43.0


From 89e942c30d5abcf8ee1a7f8d60ff2f7ad8595d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:43 +0000
Subject: [PATCH 047/146] fix: an already compiled instrument can be run

---
 src/mccode_antlr/run/runner.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index dc7698d..65c023f 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -126,6 +126,12 @@ def parse_mccode_run_script(prog: str):
     return args, parameters
 
 
+def binary_target(target):
+    """The CBinaryTarget for a dictionary of target properties"""
+    from mccode_antlr.compiler.c import CBinaryTarget
+    return CBinaryTarget(**target) if isinstance(target, dict) else target
+
+
 def mccode_compile(instr, directory, generator, target: dict | None = None, config: dict | None = None, **kwargs):
     from mccode_antlr.compiler.c import compile_instrument, CBinaryTarget
     from loguru import logger
@@ -222,7 +228,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
     )
     out_dir = directory.joinpath(f'{instrument.name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
 
-    mccode_run_scan(instrument.name, binary_path, target, parameters, out_dir, mesh, **runtime)
+    mccode_run_scan(instrument.name, binary_path, binary_target(target), parameters, out_dir, mesh, **runtime)
 
 
 def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
@@ -290,7 +296,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
         logger.info(f"Execute `{binary} --list-parameters` to check expected parameters")
         return
 
-    mccode_run_scan(name, binary, target, parameters, args.directory, args.mesh, **runtime)
+    mccode_run_scan(name, binary, binary_target(target), parameters, args.directory, args.mesh, **runtime)
 
 
 def mcstas_cmd():
-- 
2.43.0


From e89d2dfe3b3c5bf174e3ebcee149f99f3eb0a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 048/146] fix: run command options may stand anywhere between
 the file name and the parameters

---
 src/mccode_antlr/run/runner.py | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 65c023f..d718c98 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -53,24 +53,6 @@ def mccode_runtime_parameters(args: dict, params: dict) -> list[str]:
     return mccode_runtime_dict_to_args_list(args) + [f'{k}={v}' for k, v in params.items()]
 
 
-def sort_args(args: list[str]) -> list[str]:
-    """Take the list of arguments and sort them into the correct order for McCode run."""
-    # TODO this is a bit of a hack, but it works for now
-    first, last = [], []
-    k = 0
-    while k < len(args):
-        if args[k].startswith('-'):
-            first.append(args[k])
-            k += 1
-            if '=' not in first[-1] and k < len(args) and not args[k].startswith('-') and '=' not in args[k]:
-                first.append(args[k])
-                k += 1
-        else:
-            last.append(args[k])
-            k += 1
-    return first + last
-
-
 def mccode_run_script_parser(prog: str):
     from argparse import ArgumentParser
     from pathlib import Path
@@ -118,10 +100,8 @@ def print_version_information():
 
 
 def parse_mccode_run_script(prog: str):
-    import sys
     from .range import parse_scan_parameters
-    sys.argv[1:] = sort_args(sys.argv[1:])
-    args = mccode_run_script_parser(prog).parse_args()
+    args = mccode_run_script_parser(prog).parse_intermixed_args()
     parameters = parse_scan_parameters(args.parameters)
     return args, parameters
 
-- 
2.43.0


From 736aa284ad1724bf21bbf91d46639a414469b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 049/146] fix: mcstas_run and mcxtrace_run call mccode_run with
 the arguments it takes

---
 src/mccode_antlr/run/runner.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index d718c98..bb63faa 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -208,7 +208,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
     )
     out_dir = directory.joinpath(f'{instrument.name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
 
-    mccode_run_scan(instrument.name, binary_path, binary_target(target), parameters, out_dir, mesh, **runtime)
+    return mccode_run_scan(instrument.name, binary_path, binary_target(target), parameters, out_dir, mesh, **runtime)
 
 
 def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
@@ -291,13 +291,11 @@ def mcxtrace_cmd():
     mccode_run_cmd('mcxtrace', MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
 
 
-def mcstas_run(instrument, directory):
-    from mccode_antlr.reader import MCSTAS_REGISTRY
+def mcstas_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCSTAS_GENERATOR
-    mccode_run(instrument, directory, MCSTAS_REGISTRY, MCSTAS_GENERATOR)
+    return mccode_run(instrument, MCSTAS_GENERATOR, parameters or {}, directory, **kwargs)
 
 
-def mcxtrace_run(instrument, directory):
-    from mccode_antlr.reader import MCXTRACE_REGISTRY
+def mcxtrace_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCXTRACE_GENERATOR
-    mccode_run(instrument,  directory, MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
+    return mccode_run(instrument, MCXTRACE_GENERATOR, parameters or {}, directory, **kwargs)
-- 
2.43.0


From f40ceef045aa183b9c125695acf7e6213cb9581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 050/146] fix: one-dimensional data with as many points as
 variables is read by columns

---
 src/mccode_antlr/loader/datfile.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 7fa3107..df5e8a3 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -141,12 +141,14 @@ class DatFile1D(DatFileCommon):
         nx = int(self.metadata['type'].split('(', 1)[1].strip(')'))
         nv = len(self.variables)
         if self.data.shape == (nv, nx):
-            # shortcut in case we're already in the right shape (e.g., from __add__)
             return
-        if self.data.shape[0] != nx or self.data.shape[1] != nv:
-            raise RuntimeError(f'Unexpected data shape {self.data.shape} for metadata specifying {nx=} and {nv=}')
-        # we always want the variables along the first dimension:
-        self.data = self.data.transpose((1, 0))
+        raise RuntimeError(f'Unexpected data shape {self.data.shape} for metadata specifying {nx=} and {nv=}')
+
+    @classmethod
+    def from_filename(cls, filename: str | Path):
+        common = DatFileCommon.from_filename(filename)
+        # a file has one row per point; we always want the variables along the first dimension:
+        return cls(common.source, common.metadata, common.parameters, common.variables, common.data.transpose((1, 0)))
 
     def dim_metadata(self) -> list[dict]:
         lower_limit, upper_limit = [float(x) for x in self['xlimits'].split()]
@@ -245,7 +247,7 @@ def read_mccode_dat(filename: str | Path):
         ndim, data_type = 2, DatFile2D
     if ndim < 0 or ndim > 2:
         raise RuntimeError(f'Unexpected number of dimensions: {ndim}')
-    return data_type(common.source, common.metadata, common.parameters, common.variables, common.data)
+    return data_type.from_filename(filename)
 
 
 def combine_scan_dicts(a: dict, b: dict):
-- 
2.43.0


From aae7f81636865fbc3dd9e19d51fc47e89f89a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 051/146] fix: zero-dimensional data files can be combined

---
 src/mccode_antlr/loader/datfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index df5e8a3..1662e89 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -122,7 +122,7 @@ class DatFile0D(DatFileCommon):
         return first, second
 
     def safe_to_combine(self, other):
-        if not isinstance(other, DatFile1D):
+        if not isinstance(other, DatFile0D):
             return False
         if self.variables != other.variables:
             return False
@@ -132,7 +132,7 @@ class DatFile0D(DatFileCommon):
 
     def __add__(self, other):
         both = super().__add__(other)
-        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data)
+        return DatFile0D(both.source, both.metadata, both.parameters, both.variables, both.data)
 
 
 @dataclass
@@ -281,11 +281,11 @@ def combine_scan_lists(a: list, b: list):
 def combine_scan_data(a: ndarray, b: ndarray):
     if a.shape != b.shape:
         raise RuntimeError(f'Incompatible shapes {a.shape} and {b.shape}')
-    if a.ndim == 2:
+    if a.ndim == 1 or a.ndim == 2:
         from copy import deepcopy
         # variables are _always_ (?) (..., I, I_err, N)
         c = deepcopy(a)
-        c[-3:, :] = a[-3:, :] + b[-3:, :]
+        c[-3:] = a[-3:] + b[-3:]
         return c
     elif a.ndim == 3:
         # but 3-D _only_ contains (I, I_err, N)
-- 
2.43.0


From eb26548620920a3b90f0e37def61d8ec233d5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:00 +0000
Subject: [PATCH 052/146] fix: errors of combined data files add in quadrature

---
 src/mccode_antlr/loader/datfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 1662e89..a391abc 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -279,6 +279,7 @@ def combine_scan_lists(a: list, b: list):
 
 
 def combine_scan_data(a: ndarray, b: ndarray):
+    from numpy import hypot
     if a.shape != b.shape:
         raise RuntimeError(f'Incompatible shapes {a.shape} and {b.shape}')
     if a.ndim == 1 or a.ndim == 2:
@@ -286,10 +287,14 @@ def combine_scan_data(a: ndarray, b: ndarray):
         # variables are _always_ (?) (..., I, I_err, N)
         c = deepcopy(a)
         c[-3:] = a[-3:] + b[-3:]
+        # independent errors add in quadrature
+        c[-2] = hypot(a[-2], b[-2])
         return c
     elif a.ndim == 3:
         # but 3-D _only_ contains (I, I_err, N)
-        return a + b
+        c = a + b
+        c[-2] = hypot(a[-2], b[-2])
+        return c
     else:
         raise RuntimeError(f'Unexpected number of dimensions: {a.ndim}')
 
-- 
2.43.0


From e0e2029428baa6a4edd065477d4f087e0beb3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 053/146] fix: data files of different parameters are never
 combined

---
 src/mccode_antlr/loader/datfile.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index a391abc..25be96a 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -79,7 +79,9 @@ class DatFileCommon:
         if not self.safe_to_combine(other):
             raise RuntimeError('Cannot combine these two dat files')
         metadata = combine_scan_dicts(self.metadata, other.metadata)
-        parameters = combine_scan_dicts(self.parameters, other.parameters)
+        if self.parameters != other.parameters:
+            raise RuntimeError(f'Incompatible parameters {self.parameters} and {other.parameters}')
+        parameters = dict(self.parameters)
         variables = combine_scan_lists(self.variables, other.variables)
         data = combine_scan_data(self.data, other.data)
         return DatFileCommon(Path(), metadata, parameters, variables, data)
@@ -257,12 +259,12 @@ def combine_scan_dicts(a: dict, b: dict):
     special_concatenate = 'Directory', 'filename', 'Date', 'Seed'
     special_ignore = 'signal', 'statistics', 'values'
     for k, v in b.items():
-        if any(s in k for s in special_add):
+        if k in special_add:
             c[k] = int(c[k]) + int(v)
-        elif any(s in k for s in special_concatenate):
-            if v not in c[k]:
+        elif k in special_concatenate:
+            if f' {v} ' not in f' {c[k]} ':
                 c[k] = f'{c[k]} {v}'
-        elif any(s in k for s in special_ignore):
+        elif k in special_ignore:
             pass
         elif k in c:
             if c[k] != v:
-- 
2.43.0


From 0c0d6a51eb3f1453fb81847f8d6e44b370e0dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 054/146] fix: data files are written with the metadata they
 have

---
 src/mccode_antlr/loader/datfile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 25be96a..0e08770 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -46,12 +46,16 @@ class DatFileCommon:
         if sink.exists():
             raise RuntimeError(f'{filename} already exists')
         first, second = self.parts()
+        # what this file does not have is left out, and what only it has is kept, but for titles of data blocks
+        blocks = tuple(f'{label} [' for label in ('Data', 'Errors', 'Events'))
+        other = [x for x in self.metadata if x not in first and x not in second and not x.startswith(blocks)]
         with sink.open('w') as file:
             for item in first:
-                print(f'# {item}: {self.metadata[item]}', file=file)
+                if item in self.metadata:
+                    print(f'# {item}: {self.metadata[item]}', file=file)
             for param in self.parameters:
                 print(f'# Param: {param}={self.parameters[param]}', file=file)
-            for item in second:
+            for item in (*other, *(x for x in second if x in self.metadata)):
                 print(f'# {item}: {self.metadata[item]}', file=file)
             self.print_data(file)
 
-- 
2.43.0


From 7e8a1fd5c441dd06c6f4f7c2c44edab33a19bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:35 +0000
Subject: [PATCH 055/146] fix: metadata of data files that ends in # is kept

---
 src/mccode_antlr/loader/datfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 0e08770..dfa0bda 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -25,7 +25,7 @@ class DatFileCommon:
         with source.open('r') as file:
             lines = file.readlines()
 
-        header = [x.strip(' #\n') for x in filter(lambda x: x[0] == '#', lines)]
+        header = [x[1:].strip() for x in filter(lambda x: x[0] == '#', lines)]
         meta = {k.strip(): v.strip() for k, v in
                 [x.split(':', 1) for x in filter(lambda x: not x.startswith('Param'), header)]}
         parm = {k.strip(): v.strip() for k, v in
-- 
2.43.0


From b2e441782da32ebdc08dec27c045318cccc6f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:59 +0000
Subject: [PATCH 056/146] fix: errors of combined simulation data add in
 quadrature

---
 src/mccode_antlr/loader/simfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 5e77c39..af48ce4 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -313,7 +313,7 @@ class SimFileData:
         # The values line is always "{float} {float} {int}" which _I think_ is <intensity>, <error>, and event count
         s_intensity, s_error, s_counts = split_values(self.values)
         o_intensity, o_error, o_counts = split_values(other.values)
-        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error + o_error)} {s_counts + o_counts}"
+        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error * o_error)} {s_counts + o_counts}"
 
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
         # we can combine min and max, but not mean (without knowing the number of points)
-- 
2.43.0


From 8e56f5c8b9c433acf5c97d0466140ba865586838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:04 +0000
Subject: [PATCH 057/146] fix: simulations with further parameters are not
 repeats

---
 src/mccode_antlr/loader/simfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index af48ce4..51ee279 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -180,7 +180,7 @@ class SimFileSimulation:
         return other.name == self.name and other.Format == self.Format and other.URL == self.URL and \
             other.Creator == self.Creator and other.Instrument == self.Instrument and \
             other.Trace == self.Trace and other.Gravitation == self.Gravitation and \
-            other.Directory == self.Directory and all(p in self.Params for p in other.Params)
+            other.Directory == self.Directory and sorted(other.Params) == sorted(self.Params)
 
     def combine(self, other):
         from copy import deepcopy
-- 
2.43.0


From cf7321ffeb5d70967ef8326ce669f8035adb6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 058/146] fix: simulations with a monitor that saw nothing can
 be combined

---
 src/mccode_antlr/loader/simfile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 51ee279..7b1651b 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -315,6 +315,10 @@ class SimFileData:
         o_intensity, o_error, o_counts = split_values(other.values)
         out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error * o_error)} {s_counts + o_counts}"
 
+        if s_counts + o_counts == 0:
+            # nothing was detected, the summaries weigh the same
+            s_counts = o_counts = 1
+
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
         # we can combine min and max, but not mean (without knowing the number of points)
         if 'None' in self.signal or 'None' in other.signal:
-- 
2.43.0


From 5ce18b21077ed47898a7a93954248254bb8c513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 059/146] fix: config unset removes the named value

---
 src/mccode_antlr/cli/management.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 40df507..7bc238f 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -46,10 +46,13 @@ def config_set(key, value):
 
 def config_unset(key):
     from mccode_antlr.config import config as c
-    levels = key.split('.')
-    for level in levels:
-        c = c[level]
-    del c
+    *levels, last = key.split('.')
+    for source in c.root().sources:
+        at = source
+        for level in levels:
+            at = at.get(level) if isinstance(at, dict) else None
+        if isinstance(at, dict):
+            at.pop(last, None)
 
 
 def config_save(path, verbose):
-- 
2.43.0


From 2b05ad6b5731983f2e7b51505481fed68806873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 060/146] fix: config list, get and save know every value of a
 group

---
 src/mccode_antlr/cli/management.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 7bc238f..a8ffd5a 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -7,11 +7,18 @@ def config_dump(config):
     return dump(config)
 
 
+def config_values(view):
+    """The value of part of the configuration, merged from all of its sources"""
+    from confuse import ConfigTypeError
+    try:
+        return view.flatten()
+    except ConfigTypeError:
+        return view.get()
+
+
 def config_list(regex):
-    from pathlib import Path
     from mccode_antlr.config import config as c
-    config_dir = Path(c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = {k: config_values(c[k]) for k in list(c)}
     print(config_dump(d))
 
 
@@ -30,7 +37,7 @@ def config_get(key, verbose):
                 return
             else:
                 return
-    d = c.get()
+    d = config_values(c)
     if key:
         d = {key: d}
     print(config_dump(d))
@@ -59,7 +66,7 @@ def config_save(path, verbose):
     from pathlib import Path
     from mccode_antlr.config import config as c
     config_dir = Path(path or c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = {k: config_values(c[k]) for k in list(c)}
     config_file = config_dir.joinpath('config.yaml')
     with config_file.open('w') as file:
         file.write(config_dump(d))
-- 
2.43.0


From 8a43c94f613a40f172d310028927745b84f74234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:19 +0000
Subject: [PATCH 061/146] fix: config list selects the keys that match

---
 src/mccode_antlr/cli/management.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index a8ffd5a..5019608 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -16,9 +16,26 @@ def config_values(view):
         return view.get()
 
 
+def config_select(values, regex, prefix=''):
+    """The part of nested configuration values for which the '.' separated key contains the regular expression"""
+    from re import search
+    selected = {}
+    for key, value in values.items():
+        full_key = f'{prefix}{key}'
+        if isinstance(value, dict):
+            value = config_select(value, regex, f'{full_key}.')
+            if len(value):
+                selected[key] = value
+        elif search(regex, full_key):
+            selected[key] = value
+    return selected
+
+
 def config_list(regex):
     from mccode_antlr.config import config as c
     d = {k: config_values(c[k]) for k in list(c)}
+    if regex is not None:
+        d = config_select(d, regex)
     print(config_dump(d))
 
 
-- 
2.43.0


From e002b76c0137cd925aded14dfa330dd17b42d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 062/146] fix: cache remove only removes named caches and
 versions

---
 src/mccode_antlr/cli/management.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 5019608..37c498d 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -125,12 +125,19 @@ def cache_path():
 
 
 def cache_remove(name, version, force):
+    from pathlib import Path
     from shutil import rmtree
     path = cache_path()
-    if name is not None:
-        path = path.joinpath(name)
-    if version is not None:
-        path = path.joinpath(version)
+    if name is None and version is not None:
+        raise ValueError('A version can only be removed of a named cache')
+    for part in (name, version):
+        if part is None:
+            break
+        if part in ('', '.', '..') or Path(part).name != part:
+            raise ValueError(f'{part!r} is not the name of a cache or version')
+        path = path.joinpath(part)
+        if path.is_symlink():
+            raise ValueError(f'{path} is a link to somewhere else')
     if not force:
         response = input(f'Remove {path} and all contents? [yN] ')
         if 'yes' == response.lower() or 'y' == response.lower():
-- 
2.43.0


From f9bcf659e2d5950a2326c4d14a3622349352faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:14 +0000
Subject: [PATCH 063/146] fix: config unset works before the configuration was
 read

---
 src/mccode_antlr/cli/management.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 37c498d..428c298 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -71,7 +71,7 @@ def config_set(key, value):
 def config_unset(key):
     from mccode_antlr.config import config as c
     *levels, last = key.split('.')
-    for source in c.root().sources:
+    for _, source in c.resolve():
         at = source
         for level in levels:
             at = at.get(level) if isinstance(at, dict) else None
-- 
2.43.0


From 87226c972dc6fe6e69f5e1de8bae5ead6ea09bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 064/146] fix: a file is not known to a remote registry because
 its name ends that of another one

---
 src/mccode_antlr/reader/registry.py | 32 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 8ff0fc5..e5ae870 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -96,6 +96,11 @@ def _name_plus_suffix(name: str, suffix: str = None):
     return path.as_posix()
 
 
+def _path_ends_with(path: str, name: str):
+    """Are the last part(s) of the path equal to name? Unlike str.endswith, 'Arm' is not the end of 'optics/FarArm'"""
+    return path == name or path.endswith(f'/{name}')
+
+
 def find_registry_file(name: str):
     """Find a registry file in the mccode_antlr package"""
     from importlib.resources import files
@@ -137,16 +142,16 @@ class RemoteRegistry(Registry):
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
         # the files *in* the registry are already posix paths, so that makes life easier
-        if any(x.endswith(compare) for x in self.pooch.registry_files):
+        if any(_path_ends_with(x, compare) for x in self.pooch.registry_files):
             return True
         # fall back to matching without the extension:
-        if any(Path(x).with_suffix('').as_posix().endswith(compare) for x in self.pooch.registry_files):
+        if any(_path_ends_with(Path(x).with_suffix('').as_posix(), compare) for x in self.pooch.registry_files):
             return True
         # Or matching *any* file that contains name
         return False if strict else any(name in x for x in self.pooch.registry_files)
 
     def unique(self, name: str):
-        return sum(name in x for x in self.pooch.registry_files) == 1
+        return sum(_path_ends_with(x, name) for x in self.pooch.registry_files) == 1
 
     def fullname(self, name: str, ext: str = None, exact: bool = True):
         compare = _name_plus_suffix(name, ext)
@@ -155,21 +160,20 @@ class RemoteRegistry(Registry):
         for registry_file in self.pooch.registry_files:
             if registry_file == compare:
                 return registry_file
-        # second step, exact match to filename:
+        # second step, exact match to filename, with any directories that are part of the name:
         for registry_file in self.pooch.registry_files:
-            if Path(registry_file).parts[-1] == compare:
+            if _path_ends_with(registry_file, compare):
                 return registry_file
         # fall back to matching without the extension:
-        if not exact:
-            for registry_file in self.pooch.registry_files:
-                if Path(registry_file).with_suffix('').as_posix() == compare:
-                    return registry_file
-            # nearly-giving-up match filename without extension against the comparison
-            for registry_file in self.pooch.registry_files:
-                if Path(registry_file).with_suffix('').parts[-1] == compare:
-                    return registry_file
+        matches = [x for x in self.pooch.registry_files
+                   if _path_ends_with(Path(x).with_suffix('').as_posix(), compare)]
+        if len(matches) and not exact:
+            return matches[0]
         # Or matching *any* file that contains name
-        matches = list(filter(lambda x: name in x, self.pooch.registry_files))
+        if not len(matches):
+            matches = list(filter(lambda x: name in x, self.pooch.registry_files))
+        if len(matches) == 0:
+            raise RuntimeError(f'No match for {name}:{ext} in {self.name}')
         if len(matches) != 1:
             raise RuntimeError(f'More than one match for {name}:{ext}, which is required of:\n{matches}')
         return matches[0]
-- 
2.43.0


From 16c2497ba11465a8d94347f93e77fa0aad1fdf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:33 +0000
Subject: [PATCH 065/146] fix: a folder named like a component does not hide
 the component in a local registry

---
 src/mccode_antlr/reader/registry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index e5ae870..f124dd1 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -316,15 +316,17 @@ class LocalRegistry(Registry):
         is_compare = list(self._exact_file_iterator(compare))
         if len(is_compare) == 1:
             return is_compare[0]
+        # A match in any folder, before considering e.g. a *folder* named like the file without its extension
+        ends_with_compare = list(self._file_iterator(compare))
+        if not exact and len(ends_with_compare) == 1:
+            return ends_with_compare[0]
+        if len(ends_with_compare) > 1:
+            raise RuntimeError(f'More than one match for {name}:{ext}, which is required of:\n{ends_with_compare}')
         # Complete match if name happens to be missing the extension
         is_name = list(self._exact_file_iterator(name))
         if len(is_name) == 1:
             return is_name[0]
         if not exact:
-            from loguru import logger
-            ends_with_compare = list(self._file_iterator(compare))
-            if len(ends_with_compare) == 1:
-                return ends_with_compare[0]
             # Complete match if name happens to be missing the extension
             ends_with_name = list(self._file_iterator(name))
             if len(ends_with_name) == 1:
-- 
2.43.0


From a414f319015d5bbf5b70d12c2993a0337f2f8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:39 +0000
Subject: [PATCH 066/146] fix: LocalRegistry.filenames lists files

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index f124dd1..246f80e 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -346,7 +346,7 @@ class LocalRegistry(Registry):
         return self.root.joinpath(self.fullname(name, ext, exact))
 
     def filenames(self) -> list[str]:
-        return [str(x) for x in self.root.glob('**')]
+        return [str(x) for x in self.root.glob('**/*') if x.is_file()]
 
     def __eq__(self, other):
         if not isinstance(other, Registry):
-- 
2.43.0


From ac2019a8dd88f35e323894d582864e513b5c8286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 067/146] fix: files of an in-memory registry can be included
 in an instrument

---
 src/mccode_antlr/reader/registry.py    | 10 ++++++++++
 src/mccode_antlr/translators/c.py      | 11 ++---------
 src/mccode_antlr/translators/target.py |  6 ++++++
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 246f80e..d40ec25 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -392,6 +392,16 @@ class InMemoryRegistry(Registry):
             return True
         return False
 
+    def unique(self, name: str):
+        return self.known(name)
+
+    def path(self, name: str, ext: str | None = None) -> Path:
+        """There is no such file, the path only identifies what contents returns"""
+        full_name = self.fullname(name, ext=ext)
+        if full_name is None:
+            raise KeyError(f'InMemoryRegistry does not know of {name if ext is None else name + ext}')
+        return Path(self.root).joinpath(full_name)
+
     def contents(self, name: str, ext: str | None = None):
         full_name = self.fullname(name, ext=ext)
         if full_name is not None and full_name in self.components:
diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index d20a7be..0a88bcc 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -45,15 +45,8 @@ def sort_include_hierarchy(includes: list[CInclude]):
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
     def _file_contents(self, filename, preserve_escapes=False):
-        # First try the McCode C runtime libraries:
-        path = self.include_path(filename)
-        # Then any registries used in reading the file(s)
-        if not path.is_file() and self.known(filename):
-            path = self.locate(filename)
-        if not path.is_file():
-            raise RuntimeError(f"Can not include the file {filename} because it is not locatable")
-        with path.open('r') as file:
-            lines = [line.strip('\n') for line in file.readlines()]
+        from io import StringIO
+        lines = [line.strip('\n') for line in StringIO(self.library_contents(filename))]
         if preserve_escapes:
             lines = [line.encode('unicode-escape').decode('utf-8') for line in lines]
         return '\n'.join(lines)
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 483949f..3a73f66 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -72,6 +72,12 @@ class TargetVisitor:
     def library_path(self, filename=None):
         return self.locate(filename)
 
+    def library_contents(self, filename: str) -> str:
+        for reg in self.registries:
+            if reg.known(filename):
+                return reg.contents(filename)
+        raise RuntimeError(f'{filename} not found in registries: {",".join(reg.name for reg in self.registries)}')
+
     def configure_file(self, filename: str, flavor: str):
         """McStasMcXtrace/McCode makes use of CMake configure_file to define runtime-header macros.
         These file(s) have the extension .h.in and are changed to .h after replacing all "@MCCODE_*@ keys
-- 
2.43.0


From 74596137386a43882dc8b80c7c059ea05b3bd991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 068/146] fix: a file with a similar name is not used instead
 of the named one

---
 src/mccode_antlr/instr/instr.py        |  2 +-
 src/mccode_antlr/reader/reader.py      | 53 ++++++++++++--------------
 src/mccode_antlr/translators/target.py | 10 ++---
 3 files changed, 30 insertions(+), 35 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index c4d5c00..dcffbef 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -225,7 +225,7 @@ class Instr:
     def _getpath(self, filename: str):
         from pathlib import Path
         for registry in self.registries:
-            if registry.known(filename):
+            if registry.known(filename, strict=True):
                 return registry.path(filename).absolute().resolve()
         return Path()
 
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index f262318..b443aa2 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -65,46 +65,40 @@ class Reader:
     def add_c_flags(self, flags):
         self.c_flags.append(flags)
 
-    def locate(self, name: str, which: str = None, ext: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.path(name, ext)
+    def _selected(self, which: str = None):
+        if which is None:
+            return self.registries
+        names = [which] if isinstance(which, str) else which
+        return [x for x in self.registries if x.name in names]
+
+    def _registry_of(self, name: str, which: str = None, ext: str = None, strict: bool = False):
+        registries = self._selected(which)
+        # any registry with the named file is preferred over one with a file that only has a similar name
+        for strictly in (True,) if strict else (True, False):
+            for reg in registries:
+                if reg.known(name, ext, strict=strictly):
+                    return reg
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
         raise RuntimeError(f'{name} not found in {msg}')
 
+    def locate(self, name: str, which: str = None, ext: str = None, strict: bool = False):
+        return self._registry_of(name, which, ext, strict).path(name, ext)
+
     def contents(self, name: str, which: str = None, ext: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries
-                                                            if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.contents(name, ext)
-        names = [reg.name for reg in registries]
-        msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(
-            names)
-        raise RuntimeError(f'{name} not found in {msg}')
+        return self._registry_of(name, which, ext, strict).contents(name, ext)
 
     def fullname(self, name: str, which: str = None, ext: str=None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.fullname(name, ext)
-        names = [reg.name for reg in registries]
-        msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
-        raise RuntimeError(f'{name} not found in {msg}')
+        return self._registry_of(name, which, ext, strict).fullname(name, ext)
 
     def known(self, name: str, which: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        return any([reg.known(name, strict=strict) for reg in registries])
+        return any([reg.known(name, strict=strict) for reg in self._selected(which)])
 
     def unique(self, name: str, which: str = None):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        return sum([1 for reg in registries if reg.unique(name)]) == 1
+        return sum([1 for reg in self._selected(which) if reg.unique(name)]) == 1
 
     def contain(self, name: str, which: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        return [reg.name for reg in registries if reg.known(name, strict=strict)]
+        return [reg.name for reg in self._selected(which) if reg.known(name, strict=strict)]
 
     def stream(self, name: str, which: str = None, strict: bool = False):
         from antlr4 import InputStream
@@ -155,8 +149,9 @@ class Reader:
         if path.exists() and path.is_file():
             source = path.read_text()
         else:
-            path = self.locate(path.name)  # include the .instr for the search
-            source = self.contents(path.name)
+            name_instr = path.name  # include the .instr for the search
+            path = self.locate(name_instr, strict=True)
+            source = self.contents(name_instr, strict=True)
         filename = str(path.resolve())
 
         stream = InputStream(source)
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 3a73f66..2954144 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -57,13 +57,13 @@ class TargetVisitor:
     def known(self, name: str, which: str = None):
         if self.registries is None:
             return False
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        return any([reg.known(name) for reg in registries])
+        registries = self.registries if which is None else [x for x in self.registries if x.name == which]
+        return any([reg.known(name, strict=True) for reg in registries])
 
     def locate(self, name: str, which: str = None):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
+        registries = self.registries if which is None else [x for x in self.registries if x.name == which]
         for reg in registries:
-            if reg.known(name):
+            if reg.known(name, strict=True):
                 return reg.path(name)
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
@@ -74,7 +74,7 @@ class TargetVisitor:
 
     def library_contents(self, filename: str) -> str:
         for reg in self.registries:
-            if reg.known(filename):
+            if reg.known(filename, strict=True):
                 return reg.contents(filename)
         raise RuntimeError(f'{filename} not found in registries: {",".join(reg.name for reg in self.registries)}')
 
-- 
2.43.0


From a6b98a4b50ab9515ca326353f52b59d6bd1031d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:44 +0000
Subject: [PATCH 069/146] fix: a parsed instrument has the registries of its
 reader, in their order

---
 src/mccode_antlr/loader/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 74c753e..47ba4be 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -23,7 +23,7 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
     instr.flags = tuple(dict.fromkeys(instr.flags + tuple(reader.c_flags)))
-    instr.registries += tuple(registries)
+    instr.registries += tuple(reader.registries)
     return instr
 
 
-- 
2.43.0


From ae8caa51bc31b7e804b4f6e7976c4969fcecdd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:34 +0000
Subject: [PATCH 070/146] fix: SEARCH of named or spaced directories, SEARCH
 SHELL and SHELL

---
 src/mccode_antlr/instr/visitor.py   | 13 ++++++-------
 src/mccode_antlr/reader/reader.py   | 13 +++++++------
 src/mccode_antlr/reader/registry.py |  9 ++++++---
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 3d5d37b..ff5f43f 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -350,18 +350,17 @@ class InstrVisitor(McInstrVisitor):
 
     def visitShell(self, ctx: McInstrParser.ShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split(' ')
-        run(args, shell=True, check=True)
+        run(str(ctx.StringLiteral())[1:-1], shell=True, check=True)
 
     def visitSearchPath(self, ctx: McInstrParser.SearchPathContext):
-        self.parent.handle_search_keyword(str(ctx.StringLiteral()))
+        self.parent.handle_search_keyword(str(ctx.StringLiteral())[1:-1])
 
     def visitSearchShell(self, ctx: McInstrParser.SearchShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split()
-        res = run(args, shell=True, capture_output=True, check=True)
-        for specs in res.stdout.decode().split('\n'):
-            self.parent.handle_search_keyword(specs)
+        res = run(str(ctx.StringLiteral())[1:-1], shell=True, capture_output=True, check=True)
+        for specs in res.stdout.decode().splitlines():
+            if specs.strip():
+                self.parent.handle_search_keyword(specs.strip())
 
     # TODO Make this and the identical list of visitors in comp/visitor.py a single definition ... somehow
     # FIXME There *are* no statements in McCode, so all identifiers always produce un-parsable values.
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index b443aa2..ff38ef3 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -55,12 +55,13 @@ class Reader:
         self.registries.append(reg)
 
     def handle_search_keyword(self, spec: str):
-        if not any(registries_match(reg, spec) for reg in self.registries):
-            reg = registry_from_specification(spec)
-            if reg is not None:
-                self.prepend_registry(reg)
-            else:
-                raise RuntimeError(f"Registry specification {spec} did not specify a valid registry!")
+        known = [reg for reg in self.registries if registries_match(reg, spec)]
+        reg = known[0] if known else registry_from_specification(spec)
+        if reg is None:
+            raise RuntimeError(f"Registry specification {spec} did not specify a valid registry!")
+        # what is searched for last is searched first, even if it was known before
+        self.registries[:] = [r for r in self.registries if r is not reg]
+        self.prepend_registry(reg)
 
     def add_c_flags(self, flags):
         self.c_flags.append(flags)
diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index d40ec25..e241098 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -418,7 +418,7 @@ def registries_match(registry: Registry, spec):
     if isinstance(spec, Registry):
         return registry == spec
     parts = spec.split()
-    path = Path(parts[1] if len(parts) == 2 else parts[0])
+    path = Path(spec if Path(spec).is_dir() else parts[1] if len(parts) == 2 else parts[0])
     if path.exists() and registry.root == path.resolve():
         return True
     url = parts[1] if len(parts) >= 2 else parts[0]
@@ -446,7 +446,10 @@ def registry_from_specification(spec: str):
     parts = spec.split()
     if len(parts) == 0:
         return None
-    elif len(parts) == 1:
+    if Path(spec).is_dir():
+        # the path of a folder can contain spaces
+        parts = [spec]
+    if len(parts) == 1:
         p1, p2, p3, p4 = parts[0], parts[0], None, None
     elif len(parts) < 4:
         p1, p2, p3, p4 = parts[0], parts[1], None if len(parts) < 3 else parts[2], None
@@ -463,7 +466,7 @@ def registry_from_specification(spec: str):
         return LocalRegistry(p1, str(Path(p2).resolve()))
 
     # (simple) URL validation:
-    if not simple_url_validator(p2, file_ok=True):
+    if p3 is None or not simple_url_validator(p2, file_ok=True):
         return None
 
     if Path(p3).exists() and Path(p3).is_file():
-- 
2.43.0


From 07b7bd73ccbff145b9cc12bcc687c4751127bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 071/146] fix: translation does not change the registries of
 the instrument

---
 src/mccode_antlr/instr/instr.py   |  3 ++-
 src/mccode_antlr/translators/c.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index dcffbef..1a798d1 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -224,7 +224,8 @@ class Instr:
 
     def _getpath(self, filename: str):
         from pathlib import Path
-        for registry in self.registries:
+        from ..reader import LIBC_REGISTRY
+        for registry in (*self.registries, LIBC_REGISTRY):
             if registry.known(filename, strict=True):
                 return registry.path(filename).absolute().resolve()
         return Path()
diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 0a88bcc..42d2bc2 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -44,6 +44,10 @@ def sort_include_hierarchy(includes: list[CInclude]):
 
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
+    @property
+    def registries(self):
+        return self._registries
+
     def _file_contents(self, filename, preserve_escapes=False):
         from io import StringIO
         lines = [line.strip('\n') for line in StringIO(self.library_contents(filename))]
@@ -196,13 +200,13 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         """
         # Make sure the registry list contains the C library registry, so that we can find and include files
         from packaging.version import Version
-        from ..reader.registry import ordered_registries
-        if not any(reg == LIBC_REGISTRY for reg in self.registries):
-            self.source.registries += (LIBC_REGISTRY, )
-        self.source.registries = tuple(ordered_registries(list(self.source.registries)))
+        # -- without changing the instrument, or the order of its registries (in which its components were found)
+        self._registries = tuple(self.source.registries)
+        if not any(reg == LIBC_REGISTRY for reg in self._registries):
+            self._registries += (LIBC_REGISTRY, )
 
         # Check that the LIBC registry is not too old for current translation
-        for reg in self.source.registries:
+        for reg in self.registries:
             # NeXus interface changed in v3.5.20 release of McStas/McXtrace == McCode
             if 'libc' == reg.name and Version(reg.version) < Version("3.5.20"):
                 logger.warning(f"Requested McCode libc version {reg.version} may"
-- 
2.43.0


From c95d038a0a6892efc2d559b73541f5c5fc81f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:39 +0000
Subject: [PATCH 072/146] fix: the compilation flags of an instrument have an
 order and are not repeated

---
 src/mccode_antlr/instr/instr.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 1a798d1..ac33968 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -294,14 +294,14 @@ class Instr:
         return flag
 
     @property
-    def unique_flags(self) -> set[str]:
-        # Each 'flag' in self.flags is from a single instrument component DEPENDENCY,
-        # and might contain duplicates: If we accept that white space differences
-        # matter, we can deduplicate the strings 'easily'
-        uf = set(self.flags)
-        if any(inst.cpu for inst in self.components):
-            uf.add('-DFUNNEL')
-        return uf
+    def unique_flags(self) -> list[str]:
+        # Each 'flag' in self.flags is from a single instrument component DEPENDENCY, and might repeat another:
+        # an instrument read from its own text has the flags of its components in one DEPENDENCY, and from them again
+        flags = []
+        for flag in (*self.flags, *(['-DFUNNEL'] if any(inst.cpu for inst in self.components) else [])):
+            if not any(f' {flag} ' in f' {x} ' for x in flags):
+                flags.append(flag)
+        return flags
 
     def decoded_flags(self) -> list[str]:
         # The dependency strings are allowed to contain any of
-- 
2.43.0


From 78f339a1183bd88ad5ac1ea77a8e2540b33a6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:08 +0000
Subject: [PATCH 073/146] fix: ENV, CMD and GETPATH are only directives if
 followed by a parenthesis

---
 src/mccode_antlr/instr/instr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index ac33968..6036de5 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -258,16 +258,14 @@ class Instr:
             if start not in chars:
                 return chars
             before, after = chars.split(start, 1)
-            if '(' != after[0]:
-                raise ValueError(f'Missing opening parenthesis in dependency string after {start}')
             if ')' not in after:
                 raise ValueError(f'Missing closing parenthesis in dependency string after {start}')
-            dep, after = after[1:].split(')', 1)
+            dep, after = after.split(')', 1)
             if start in dep:
                 raise ValueError(f'Nested {start} in dependency string')
             return before + replacer(dep) + replace(after, start, replacer)
 
-        for key, worker in zip(['ENV', 'GETPATH', 'CMD'], [eval_env, getpath, eval_cmd]):
+        for key, worker in zip(['ENV(', 'GETPATH(', 'CMD('], [eval_env, getpath, eval_cmd]):
             flags = replace(flags, key, worker)
 
         return flags
-- 
2.43.0


From de99049a770eaf9ad29304cab9ecb1589230c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:12 +0000
Subject: [PATCH 074/146] fix: backslashes of configured flags are kept in
 keyword replacements

---
 src/mccode_antlr/instr/instr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 6036de5..3b11735 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -272,21 +272,21 @@ class Instr:
 
     def _replace_keywords(self, flag):
         from mccode_antlr.config import config
-        from re import sub, findall
+        from re import findall
         if '@NEXUSFLAGS@' in flag:
-            flag = sub(r'@NEXUSFLAGS@', config['flags']['nexus'].as_str_expanded(), flag)
+            flag = flag.replace('@NEXUSFLAGS@', config['flags']['nexus'].as_str_expanded())
         if '@MCCODE_LIB@' in flag:
             print(f'The instrument {self.name} uses @MCCODE_LIB@ dependencies which no longer work.')
             print('Expect problems at compilation.')
-            flag = sub('@MCCODE_LIB@', '.', flag)
+            flag = flag.replace('@MCCODE_LIB@', '.')
         general_re = r'@(\w+)@'
         for replace in findall(general_re, flag):
             # Is this replacement something like XXXFLAGS?
             if replace.lower().endswith('flags') and replace.lower()[:-5] in config['flags']:
-                flag = sub(f'@{replace}@', config['flags'][replace.lower()[:-5]].as_str_expanded(), flag)
+                flag = flag.replace(f'@{replace}@', config['flags'][replace.lower()[:-5]].as_str_expanded())
             elif replace.lower().endswith('flags'):
                 # Punt, and just replace with the lowercase version of the keyword -- hopefully this was intended
-                flag = sub(f'@{replace}@', f'-l{replace.lower()[:-5]}', flag)
+                flag = flag.replace(f'@{replace}@', f'-l{replace.lower()[:-5]}')
             else:
                 logger.warning(f'Unknown keyword @{replace}@ in dependency string')
         return flag
-- 
2.43.0


From 4268dc74ec93c5dc2bd8b4e0be9334b69ef186e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 075/146] fix: an instrument has the flags of the components it
 uses, not of all that were read

---
 src/mccode_antlr/assembler/assembler.py |  5 +----
 src/mccode_antlr/loader/loader.py       |  2 +-
 src/mccode_antlr/reader/reader.py       | 24 ++++++++++++++++++++++--
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index 30123be..d664ace 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -80,15 +80,12 @@ class Assembler:
         comp_type = self.reader.get_component(type_name)
         if type_name != comp_type.name:
             raise RuntimeError(f"Component resolution failed for {type_name}, found {comp_type.name} instead")
-        if self.reader.c_flags:
-            unique_flags = list(self.instrument.flags)
-            unique_flags.extend(self.reader.c_flags)
-            self.instrument.flags = tuple(dict.fromkeys(unique_flags))
         at, ref = self._handle_at(at)
         instance = Instance(name, comp_type,
                             at_relative=(at, ref), rotate_relative=self._handle_rotate(rotate, ref),
                             **kwargs)
         self.instrument.add_component(instance)
+        self.instrument.flags = self.reader.instrument_flags(self.instrument)
         if isinstance(parameters, dict):
             instance.set_parameters(**parameters)
         return instance
diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 47ba4be..ad5ca7d 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -22,7 +22,7 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     reader = Reader(registries=registries)
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
-    instr.flags = tuple(dict.fromkeys(instr.flags + tuple(reader.c_flags)))
+    instr.flags = reader.instrument_flags(instr)
     instr.registries += tuple(reader.registries)
     return instr
 
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index ff38ef3..209b09a 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -41,12 +41,14 @@ class Reader:
     registries: list[Registry] = field(default_factory=list)
     components: dict[str, Comp] = field(default_factory=dict)
     c_flags: list[str] = field(default_factory=list)
+    component_flags: dict[str, list[str]] = field(default_factory=dict)
 
     def __post_init__(self):
         from .registry import ordered_registries
         if len(self.registries) == 0:
             self.registries = [MCSTAS_REGISTRY, ]
         self.registries = list(ordered_registries(self.registries))
+        self._reading = []
 
     def prepend_registry(self, reg: Registry):
         self.registries[:0] = [reg, ]
@@ -65,6 +67,13 @@ class Reader:
 
     def add_c_flags(self, flags):
         self.c_flags.append(flags)
+        if self._reading:
+            self.component_flags[self._reading[-1]].append(flags)
+
+    def instrument_flags(self, instr) -> tuple[str, ...]:
+        """The flags of an instrument, followed by those of the components it uses"""
+        used = [flag for comp in instr.component_types() for flag in self.component_flags.get(comp.name, [])]
+        return tuple(dict.fromkeys([*instr.flags, *used]))
 
     def _selected(self, which: str = None):
         if which is None:
@@ -119,9 +128,15 @@ class Reader:
         tree = McComp_parse(stream, 'prog', error_listener)
 
         visitor = CompVisitor(self, filename, instance_name=current_instance_name)  # The visitor needs to be able to call *this* method
-        res = visitor.visitProg(tree)
+        self.component_flags[name] = []
+        self._reading.append(name)
+        try:
+            res = visitor.visitProg(tree)
+        finally:
+            self._reading.pop()
         if not isinstance(res, Comp):
             raise RuntimeError(f'Parsing component file {filename} did not produce a component object!')
+        self.component_flags.setdefault(res.name, self.component_flags[name])
         if res.category is None:
             # guess the component category from the registered filename (not fully resolved path)
             fullname = self.fullname(name, ext='.comp', strict=True)
@@ -133,6 +148,9 @@ class Reader:
     def get_component(self, name: str, current_instance_name=None):
         if name not in self.components:
             self.add_component(name, current_instance_name=current_instance_name)
+        if self._reading:
+            # the component which is being read is a copy of this one, at least in part
+            self.component_flags[self._reading[-1]].extend(self.component_flags.get(name, []))
         return self.components[name]
 
     def get_instrument(self, name: str | Path, destination=None, mode: Mode | None = None):
@@ -167,6 +185,8 @@ class Reader:
             raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
         res.source = filename
         # the instrument can have flags of its own, in addition to those of its components
-        res.flags = tuple(dict.fromkeys(res.flags + tuple(self.c_flags)))
+        # -- if it is included in another one, that might not use all of them
+        if destination is None:
+            res.flags = self.instrument_flags(res)
         res.registries = tuple(self.registries)
         return res
-- 
2.43.0


From 883fb595ceb62fd18b9690a6da7814e14c209119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:01 +0000
Subject: [PATCH 076/146] fix: metadata of a copied instance has the name of
 the copy as source

---
 src/mccode_antlr/common/metadata.py | 5 +++--
 src/mccode_antlr/instr/instance.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/metadata.py b/src/mccode_antlr/common/metadata.py
index 81789bd..09f8506 100644
--- a/src/mccode_antlr/common/metadata.py
+++ b/src/mccode_antlr/common/metadata.py
@@ -73,5 +73,6 @@ class MetaData:
         from .utilities import escape_str_for_c as c
         return ','.join(c(x) for x in (self.source.name, self.name, self.mimetype, self.value))
 
-    def copy(self):
-        return MetaData(self.source, self.name, self.mimetype, self.value)
\ No newline at end of file
+    def copy(self, source: str = None):
+        source = self.source if source is None else DataSource(self.source._type, source)
+        return MetaData(source, self.name, self.mimetype, self.value)
\ No newline at end of file
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 709e68f..fca7ab7 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -100,7 +100,7 @@ class Instance:
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
                    jump=tuple([jmp for jmp in ref.jump]),
-                   metadata=tuple([md for md in ref.metadata]),
+                   metadata=tuple([md.copy(source=name) for md in ref.metadata]),
                    mode=ref.mode)
 
     def __post_init__(self):
-- 
2.43.0


From a41a810b11d6b7e4c3413343f93935da94daca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:31 +0000
Subject: [PATCH 077/146] fix: PREVIOUS (1) and NEXT (1) are the jumps PREVIOUS
 and NEXT

---
 src/mccode_antlr/instr/visitor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index ff5f43f..dd3ee94 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -240,14 +240,16 @@ class InstrVisitor(McInstrVisitor):
 
     def visitJumpPrevious(self, ctx: McInstrParser.JumpPreviousContext):
         i = ctx.IntegerLiteral()
-        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(str(i)))
+        count = 1 if i is None else int(str(i))
+        return "PREVIOUS" if count == 1 else f"PREVIOUS_{count}", -count
 
     def visitJumpMyself(self, ctx: McInstrParser.JumpMyselfContext):
         return "MYSELF", 0
 
     def visitJumpNext(self, ctx: McInstrParser.JumpNextContext):
         i = ctx.IntegerLiteral()
-        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(str(i)))
+        count = 1 if i is None else int(str(i))
+        return "NEXT" if count == 1 else f"NEXT_{count}", count
 
     def visitJumpIdentifier(self, ctx: McInstrParser.JumpIdentifierContext):
         return str(ctx.Identifier()), 0
-- 
2.43.0


From acb45c39c5b43db1fd0570101c58eb27d0895162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 078/146] fix: a copied instance has its own jumps

---
 src/mccode_antlr/instr/instance.py | 5 +++--
 src/mccode_antlr/instr/jump.py     | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index fca7ab7..117b25e 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -99,7 +99,7 @@ class Instance:
                    parameters=tuple([par for par in ref.parameters]),
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
-                   jump=tuple([jmp for jmp in ref.jump]),
+                   jump=tuple([jmp.copy() for jmp in ref.jump]),
                    metadata=tuple([md.copy(source=name) for md in ref.metadata]),
                    mode=ref.mode)
 
@@ -236,7 +236,8 @@ class Instance:
         return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
                         orientation=self.orientation, parameters=self.parameters,
                         removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=self.jump, metadata=self.metadata)
+                        group=self.group, extend=self.extend, jump=tuple(jmp.copy() for jmp in self.jump),
+                        metadata=self.metadata)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index d95205b..834a018 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -22,5 +22,8 @@ class Jump:
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
         print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
 
+    def copy(self):
+        return Jump(self.target, self.relative_target, self.iterate, self.condition, self.absolute_target)
+
     def __contains__(self, value):
         return value in self.condition
-- 
2.43.0


From 72d451e3bcd103c3310af8da9ec25a88d96df7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 079/146] fix: positions and angles given to the Assembler as
 strings are expressions

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 3b11735..75b612b 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -499,7 +499,7 @@ class Instr:
 
     def check_expr(self, expr: int | float | str | Expr | Value):
         if not isinstance(expr, Expr):
-            expr = Expr.best(expr)
+            expr = Expr.parse(expr) if isinstance(expr, str) else Expr.best(expr)
         # check whether the expression contains any identifiers which are actually InstrumentParameters
         expr.verify_parameters([x.name for x in self.parameters])
         # We then verify that no as-of-yet undefined identifiers exist, but can't in case they're defined in
-- 
2.43.0


From 305e3ec9514a8ec47a11c444627ddc3a74eb944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 080/146] fix: the metadata of an assembled instrument has its
 name as source

---
 src/mccode_antlr/assembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index d664ace..62a99da 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -163,7 +163,7 @@ class Assembler:
 
     def metadata(self, name: str, mimetype: str, value: str, source=None):
         from mccode_antlr.common.metadata import MetaData
-        self.instrument.add_metadata(MetaData.from_instrument_tokens(source, mimetype, name, value))
+        self.instrument.add_metadata(MetaData.from_instrument_tokens(source or self.name, mimetype, name, value))
 
 
 def _rawc_call(method, string: str, source: str = None, line: int = -1):
-- 
2.43.0


From c7b04762988076ef25a38817c7e4f5c975b1a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 081/146] fix: a list of values given as a string to an
 instance parameter is read as one

---
 src/mccode_antlr/common/expression.py | 4 +++-
 src/mccode_antlr/instr/instance.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 3ee2aaa..740010f 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -1158,7 +1158,9 @@ class Expr:
         from ..grammar import McInstr_parse
         from ..instr import InstrVisitor
         visitor = InstrVisitor(None, None)
-        return visitor.getExpr(McInstr_parse(InputStream(s), 'expr'))
+        # only a list of values starts with a brace
+        rule = 'initializerlist' if s.lstrip().startswith('{') else 'expr'
+        return visitor.getExpr(McInstr_parse(InputStream(s), rule))
 
     @classmethod
     def float(cls, value):
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 117b25e..8d059e7 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -140,11 +140,13 @@ class Instance:
             logger.debug(f'{p=}, {name=}, {value=}')
             raise RuntimeError(f"Provided value for parameter {name} is not compatible with {self.type.name}")
 
-        if p.value.is_vector and isinstance(value, str):
+        if p.value.is_vector and isinstance(value, str) and not value.lstrip().startswith('{'):
             # FIXME can this be more general? Do we _need_ to treat vectors differently?
             value = Expr(Value(value, data_type=p.value.data_type, shape_type=p.value.shape_type))
         elif isinstance(value, str):
             value = Expr.parse(value)
+            if value.is_vector:
+                value.data_type = p.value.data_type
         elif not isinstance(value, Expr):
             # Copy the data_type of the component definition parameter
             # -- thus if value is a str but an int or float is expected, we will know it is an identifier
-- 
2.43.0


From 3ecf6ec4fb4589b1b440316446fa8d0d2fb28ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 082/146] fix: instrument parameters are found in WHEN, SPLIT
 and JUMP of assembled instances

---
 src/mccode_antlr/instr/instance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 8d059e7..8246574 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -168,6 +168,9 @@ class Instance:
         instrument_parameter_names = [x.name for x in instrument_parameters]
         for par in self.parameters:
             par.value.verify_parameters(instrument_parameter_names)
+        for expr in (self.split, self.when, *(jump.condition for jump in self.jump)):
+            if expr is not None:
+                expr.verify_parameters(instrument_parameter_names)
 
     def get_parameter(self, name: str):
         for par in self.parameters:
-- 
2.43.0


From 1d113250c6e07d007965bb11e839dc401c6fa958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 083/146] fix: a sign applies to the operand of % next to it
 wherever it stands

---
 src/mccode_antlr/common/visitor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 875c2f2..380ce42 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -106,13 +106,13 @@ def visitOperators(obj, ctx):
             raise RuntimeError(f'Missing operand in expression {ctx.getText()}')
         if op == '!':
             return Expr(UnaryOp('__not__', grouped(_unary_precedence)))
-        # the sign in front of a sum's first term applies to the whole term
-        value = grouped(_unary_precedence if minimum > _operator_precedence[op] else _term_precedence)
+        # the sign in front of a sum's first term applies to the whole product
+        value = grouped(_unary_precedence) if minimum > _operator_precedence[op] else grouped(_term_precedence, '%')
         return -value if op == '-' else value
 
-    def grouped(minimum):
+    def grouped(minimum, excluded=''):
         left = prefixed(minimum)
-        while tokens and _operator_precedence[tokens[0]] >= minimum:
+        while tokens and _operator_precedence[tokens[0]] >= minimum and tokens[0] != excluded:
             op = tokens.pop(0)
             # all binary operators are left associative, except exponentiation
             right = grouped(_unary_precedence if op == '^' else _operator_precedence[op] + 1)
-- 
2.43.0


From 4a68c479e3c7af61f99ea69deb119cfedadf12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 084/146] fix: a copied expression shares no operand with the
 original

---
 src/mccode_antlr/common/expression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 740010f..1c11204 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -441,7 +441,7 @@ class TrinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.first, self.second, self.third))
 
     def copy(self):
-        return TrinaryOp(self.op, self.first, self.second, self.third)
+        return TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)])
 
     def __contains__(self, value):
         # first, second, and third are lists, so we need to check each element to avoid using __eq__
@@ -606,7 +606,7 @@ class BinaryOp(Op):
         return any(x.depends_on(name) for x in self._variable_operands())
 
     def copy(self):
-        return BinaryOp(self.op, self.left.copy(), self.right.copy())
+        return BinaryOp(self.op, *[[x.copy() for x in y] for y in (self.left, self.right)])
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
@@ -712,7 +712,7 @@ class UnaryOp(Op):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return UnaryOp(self.op, self.value.copy())
+        return UnaryOp(self.op, [x.copy() for x in self.value])
 
     def __contains__(self, value):
         # value is a list
-- 
2.43.0


From bb33d5749bac4a7da12f2b1cc22ed37efe2bc1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 085/146] fix: copied instances have their own parameters,
 conditions, extensions and metadata

---
 src/mccode_antlr/common/metadata.py   |  2 +-
 src/mccode_antlr/common/parameters.py |  3 +++
 src/mccode_antlr/instr/instance.py    | 17 ++++++++++-------
 src/mccode_antlr/instr/jump.py        |  2 +-
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/common/metadata.py b/src/mccode_antlr/common/metadata.py
index 09f8506..0d96b29 100644
--- a/src/mccode_antlr/common/metadata.py
+++ b/src/mccode_antlr/common/metadata.py
@@ -74,5 +74,5 @@ class MetaData:
         return ','.join(c(x) for x in (self.source.name, self.name, self.mimetype, self.value))
 
     def copy(self, source: str = None):
-        source = self.source if source is None else DataSource(self.source._type, source)
+        source = DataSource(self.source._type, self.source.name if source is None else source)
         return MetaData(source, self.name, self.mimetype, self.value)
\ No newline at end of file
diff --git a/src/mccode_antlr/common/parameters.py b/src/mccode_antlr/common/parameters.py
index 7c56d3b..85d5009 100644
--- a/src/mccode_antlr/common/parameters.py
+++ b/src/mccode_antlr/common/parameters.py
@@ -68,6 +68,9 @@ class ComponentParameter:
     def to_file(self, output, wrapper):
         print(wrapper.parameter(self.name) + '=' + wrapper.value(self.value), file=output)
 
+    def copy(self):
+        return ComponentParameter(self.name, self.value.copy())
+
     def compatible_value(self, value):
         return self.value.compatible(value, id_ok=True)
 
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 8246574..fcc02b8 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -96,9 +96,9 @@ class Instance:
         # from copy import deepcopy
         # copy each of: parameters, extend, group, jump, when, metadata
         return cls(name, ref.type, at, rotate,
-                   parameters=tuple([par for par in ref.parameters]),
-                   when=ref.when, group=ref.group,
-                   extend=tuple([ext for ext in ref.extend]),
+                   parameters=tuple([par.copy() for par in ref.parameters]),
+                   when=None if ref.when is None else ref.when.copy(), group=ref.group,
+                   extend=tuple([ext.copy() for ext in ref.extend]),
                    jump=tuple([jmp.copy() for jmp in ref.jump]),
                    metadata=tuple([md.copy(source=name) for md in ref.metadata]),
                    mode=ref.mode)
@@ -239,10 +239,13 @@ class Instance:
 
     def copy(self):
         return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
-                        orientation=self.orientation, parameters=self.parameters,
-                        removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=tuple(jmp.copy() for jmp in self.jump),
-                        metadata=self.metadata)
+                        orientation=self.orientation, parameters=tuple(par.copy() for par in self.parameters),
+                        removable=self.removable, cpu=self.cpu,
+                        split=None if self.split is None else self.split.copy(),
+                        when=None if self.when is None else self.when.copy(),
+                        group=self.group, extend=tuple(ext.copy() for ext in self.extend),
+                        jump=tuple(jmp.copy() for jmp in self.jump),
+                        metadata=tuple(md.copy() for md in self.metadata), mode=self.mode)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 834a018..ed68dc7 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -23,7 +23,7 @@ class Jump:
         print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
 
     def copy(self):
-        return Jump(self.target, self.relative_target, self.iterate, self.condition, self.absolute_target)
+        return Jump(self.target, self.relative_target, self.iterate, self.condition.copy(), self.absolute_target)
 
     def __contains__(self, value):
         return value in self.condition
-- 
2.43.0


From c42386a0f421d633630713b03cfe43554e94f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 086/146] fix: instances of a copied instrument refer to each
 other, not to the original

---
 src/mccode_antlr/instr/instr.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 75b612b..31afb69 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -311,20 +311,24 @@ class Instr:
 
     def copy(self, first=0, last=-1):
         """Return a copy of this instrument, optionally with only a subset of components"""
-        from copy import deepcopy
         copy = Instr(self.name, self.source)
-        copy.parameters = tuple(x for x in self.parameters)
+        copy.parameters = tuple(x.copy() for x in self.parameters)
         copy.metadata = tuple(x.copy() for x in self.metadata)
         if last < 0:
             last += 1 + len(self.components)
         copy.components = tuple(x.copy() for x in self.components[first:last])
+        # the copied instances are placed relative to each other, not to the instances they are copies of
+        copied = {id(x): y for x, y in zip(self.components[first:last], copy.components)}
+        for x in copy.components:
+            x.at_relative, x.rotate_relative = [(v, copied.get(id(ref), ref)) for v, ref in (x.at_relative, x.rotate_relative)]
         copy.included = tuple(x for x in self.included)
         copy.user = tuple(x.copy() for x in self.user)
         copy.declare = tuple(x.copy() for x in self.declare)
         copy.initialize = tuple(x.copy() for x in self.initialize)
         copy.save = tuple(x.copy() for x in self.save)
         copy.final = tuple(x.copy() for x in self.final)
-        copy.groups = {k: v.copy() for k, v in self.groups.items()}
+        if self.groups:
+            copy.determine_groups()
         copy.flags = tuple(x for x in self.flags)
         copy.registries = tuple(x for x in self.registries)
         return copy
-- 
2.43.0


From 407da442de514fae5d642127341638064b3d4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 087/146] fix: the copy of an operation has its data type

---
 src/mccode_antlr/common/expression.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 1c11204..4c0f232 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -256,6 +256,11 @@ class Op:
     def __int__(self):
         raise RuntimeError('No conversion to int for operations')
 
+    def _like(self, copied):
+        """The type of an operation can be set, e.g., that of a function call, and is the same for its copy"""
+        copied.data_type, copied.style = self.data_type, self.style
+        return copied
+
     @property
     def is_op(self):
         return True
@@ -441,7 +446,7 @@ class TrinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.first, self.second, self.third))
 
     def copy(self):
-        return TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)])
+        return self._like(TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)]))
 
     def __contains__(self, value):
         # first, second, and third are lists, so we need to check each element to avoid using __eq__
@@ -606,7 +611,7 @@ class BinaryOp(Op):
         return any(x.depends_on(name) for x in self._variable_operands())
 
     def copy(self):
-        return BinaryOp(self.op, *[[x.copy() for x in y] for y in (self.left, self.right)])
+        return self._like(BinaryOp(self.op, *[[x.copy() for x in y] for y in (self.left, self.right)]))
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
@@ -712,7 +717,7 @@ class UnaryOp(Op):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return UnaryOp(self.op, [x.copy() for x in self.value])
+        return self._like(UnaryOp(self.op, [x.copy() for x in self.value]))
 
     def __contains__(self, value):
         # value is a list
-- 
2.43.0


From 2c04d4af7e071745f4a7cf664440cbe8914dc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 088/146] fix: no name is in the value of a string parameter
 without a default

---
 src/mccode_antlr/common/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 4c0f232..40d157a 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -1123,7 +1123,7 @@ class Value:
             return any(value in x if isinstance(x, Expr) else value == x for x in self.elements)
         if self.is_str and isinstance(value, str) and (value[0] != '"' or value[-1] != '"'):
             # string Values are always wrapped in double quotes
-            return self.value.strip('"') == value.strip('"')
+            return self.has_value and self.value.strip('"') == value.strip('"')
         return self.value == value
 
     def verify_parameters(self, instrument_parameter_names: list[str]):
-- 
2.43.0


From bc70c662e6881e0f339f257e60a4c109cc7c2155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 089/146] fix: the two parts of an MCPL split have parameters
 of their own

---
 src/mccode_antlr/instr/instr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 31afb69..1e336e7 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -421,7 +421,7 @@ class Instr:
         first, second = self.split(after, remove_unused_parameters=remove_unused_parameters)
         mcpl_filename = InstrumentParameter.parse(f'string mcpl_filename = {filename}')
         first.add_parameter(mcpl_filename)
-        second.add_parameter(mcpl_filename)
+        second.add_parameter(mcpl_filename.copy())
 
         fc = first.components[-1]
         if fc.type.name != 'Arm':
@@ -442,9 +442,9 @@ class Instr:
         if input_component is None:
             input_component = 'MCPL_input'
         if input_parameters is None:
-            input_parameters = (filename_parameter,)
+            input_parameters = (filename_parameter.copy(),)
         elif not any(p.name == 'filename' for p in input_parameters):
-            input_parameters = (filename_parameter,) + input_parameters
+            input_parameters = (filename_parameter.copy(),) + input_parameters
         if not any(p.name == 'verbose' for p in input_parameters):
             input_parameters = (ComponentParameter('verbose', Expr.float(0)),) + input_parameters
         # # the MCPL input component _is_ the origin of its simulation, but must be placed relative to other components.
-- 
2.43.0


From 1a6bcd227501bbe78feba318dd12276f8ddd0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 090/146] fix: what the instances of a partial copy are placed
 relative to is in the copy

---
 src/mccode_antlr/instr/instr.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 1e336e7..494f98b 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -318,9 +318,16 @@ class Instr:
             last += 1 + len(self.components)
         copy.components = tuple(x.copy() for x in self.components[first:last])
         # the copied instances are placed relative to each other, not to the instances they are copies of
-        copied = {id(x): y for x, y in zip(self.components[first:last], copy.components)}
+        copied = {x.name: x for x in copy.components}
         for x in copy.components:
-            x.at_relative, x.rotate_relative = [(v, copied.get(id(ref), ref)) for v, ref in (x.at_relative, x.rotate_relative)]
+            (at, at_ref), (rotate, rotate_ref) = x.at_relative, x.rotate_relative
+            # or absolutely, if what they were placed relative to is not part of the copy
+            if at_ref is not None and at_ref.name not in copied:
+                at, at_ref = x.orientation.position(), None
+            if rotate_ref is not None and rotate_ref.name not in copied:
+                rotate, rotate_ref = x.orientation.angles(), None
+            x.at_relative = at, at_ref and copied[at_ref.name]
+            x.rotate_relative = rotate, rotate_ref and copied[rotate_ref.name]
         copy.included = tuple(x for x in self.included)
         copy.user = tuple(x.copy() for x in self.user)
         copy.declare = tuple(x.copy() for x in self.declare)
@@ -367,20 +374,6 @@ class Instr:
 
         second = self.copy(first=index)
         second.name = self.name + '_second'
-        # remove any dangling component references and re-reference into the new instrument's components:
-        for instance in second.components:
-            at_rel = instance.at_relative[1]
-            rot_rel = instance.rotate_relative[1]
-            if isinstance(at_rel, Instance):
-                if second.has_component_named(at_rel.name):
-                    instance.at_relative = instance.at_relative[0], second.get_component(at_rel.name)
-                else:
-                    instance.at_relative = instance.orientation.position(), None
-            if isinstance(rot_rel, Instance):
-                if second.has_component_named(rot_rel.name):
-                    instance.rotate_relative = instance.rotate_relative[0], second.get_component(rot_rel.name)
-                else:
-                    instance.rotate_relative = instance.orientation.angles(), None
         if second.check_instrument_parameters(remove=remove_unused_parameters) and not remove_unused_parameters:
             logger.info(f'Instrument {second.name} has unused instrument parameters')
 
-- 
2.43.0


From aab88f4236d3a822e442ce7f0623175906025420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 091/146] fix: the sine of -90 degrees, not of 180, is -1

---
 src/mccode_antlr/instr/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 1cf52fc..09c4483 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -351,7 +351,7 @@ def sin_value(v: Expr, degrees=True):
     pi = Expr.float(pi) if v.is_constant else Expr.id('PI')
     if (degrees and v.is_value(Expr.float(90))) or (not degrees and v.is_value(pi / Expr.float(2))):
         return Expr.float(1)
-    if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(-pi / Expr.float(2))):
+    if (degrees and v.is_value(Expr.float(-90))) or (not degrees and v.is_value(-pi / Expr.float(2))):
         return Expr.float(-1)
     return unary_expr(sin_degree if degrees else sin, 'sin', v)
 
-- 
2.43.0


From 45c8eebcafb76ab7f9f8b362923c5b5ade1ede03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 092/146] fix: rotations in radian are not converted as if they
 were in degrees, and say their angles in the unit asked for

---
 src/mccode_antlr/instr/orientation.py | 35 +++++++++++++++++----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 09c4483..ed58e36 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -400,9 +400,14 @@ def degree_to_radian(v: Expr):
     return v * Expr.float(pi / 180)
 
 
+def radian_to_degree(v: Expr):
+    from math import pi
+    return v * Expr.float(180 / pi)
+
+
 def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
-    cx, cy, cz = [cos_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
-    sx, sy, sz = [sin_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
+    cx, cy, cz = [cos_value(r, degrees=degrees) for r in rotated]
+    sx, sy, sz = [sin_value(r, degrees=degrees) for r in rotated]
     # Rotation matrices following the McCode first x then y then z method of applying rotations.
     # The 3x3 rotation matrix part (which rotates the *axes* of a coordinate system):
     axes = (cy * cz, sx * sy * cz + cx * sz, sx * sz - cx * sy * cz,
@@ -634,8 +639,12 @@ class RotationPart(Part):
         return self.rotation_axis, self.v, 'degrees' if self.degrees else 'radian'
 
     def _cos_sin_one_zero(self):
-        r = self.v if self.degrees else degree_to_radian(self.v)
-        return cos_value(r), sin_value(r), Expr.float(1), Expr.float(0)
+        return cos_value(self.v, self.degrees), sin_value(self.v, self.degrees), Expr.float(1), Expr.float(0)
+
+    def _angle(self, degrees):
+        if self.degrees == degrees or self.v.is_zero:
+            return self.v
+        return radian_to_degree(self.v) if degrees else degree_to_radian(self.v)
 
     def position(self, which=None) -> Vector:
         z = Expr.float(0)
@@ -662,7 +671,7 @@ class RotationX(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(self.v, z, z)
+        return Angles(self._angle(degrees), z, z)
 
     def __str__(self):
         return f'(0, 0, 0) [{self.v}, 0, 0]'
@@ -683,7 +692,7 @@ class RotationY(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(z, self.v, z)
+        return Angles(z, self._angle(degrees), z)
 
     def __str__(self):
         return f'(0, 0, 0) [0, {self.v}, 0]'
@@ -704,7 +713,7 @@ class RotationZ(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(z, z, self.v)
+        return Angles(z, z, self._angle(degrees))
 
     def __str__(self):
         return f'(0, 0, 0) [0, 0, {self.v}]'
@@ -912,7 +921,7 @@ class Orient:
         return cls(pos, rot, degrees)
 
     def angles(self, which=None) -> Angles:
-        return self._rotation.resolve().angles(which=which)
+        return self._rotation.resolve().angles(which=which, degrees=self._degrees)
 
     def position(self, which=None) -> Vector:
         return self._position.position(which=which)
@@ -927,10 +936,10 @@ class Orient:
         return self._rotation.reduce()
 
     def inverse(self):
-        return Orient(self._position.inverse(), self._rotation.inverse())
+        return Orient(self._position.inverse(), self._rotation.inverse(), self._degrees)
 
     def reduce(self):
-        return Orient(self._position.reduce(), self._rotation.reduce())
+        return Orient(self._position.reduce(), self._rotation.reduce(), self._degrees)
 
     def combine(self) -> Parts:
         # The position represents a coordinate and the rotation represents the axes of that coordinate system
@@ -942,9 +951,9 @@ class Orient:
 
     def __add__(self, other):
         if isinstance(other, Orient):
-            return Orient(self._position + other._position, self._rotation + other._rotation)
+            return Orient(self._position + other._position, self._rotation + other._rotation, self._degrees)
         elif isinstance(other, (Part, Parts)):
-            return Orient(self._position + other, self._rotation + other)
+            return Orient(self._position + other, self._rotation + other, self._degrees)
         else:
             raise ValueError(f"__add__ undefined for DependentOrientation and {type(other)}")
 
@@ -953,7 +962,7 @@ class Orient:
             pos = self._position - other._position
             return Orient(other._rotation + pos, self._rotation - other._rotation)
         elif isinstance(other, (Part, Parts)):
-            return Orient(self._position - other, self._rotation - other)
+            return Orient(self._position - other, self._rotation - other, self._degrees)
         else:
             raise ValueError(f"__sub__ undefined for DependentOrientation and {type(other)}")
 
-- 
2.43.0


From 4d43bd220d287a79602b7149c615a69abb31453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 093/146] fix: the trigonometric functions of angles in degrees
 are printed as such

---
 src/mccode_antlr/common/expression.py | 21 +++++++++++++++++----
 src/mccode_antlr/instr/orientation.py | 21 +++++++++++++--------
 src/mccode_antlr/io/hdf5.py           |  3 ++-
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 40d157a..a101906 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -639,7 +639,7 @@ class UnaryOp(Op):
 
     def as_type(self, pdt):
         value = [x.as_type(pdt) for x in self.value]
-        return UnaryOp(self.op, value)
+        return type(self)(self.op, value)
 
     def _str_repr_(self, vstr):
         if '__group__' == self.op:
@@ -707,17 +707,17 @@ class UnaryOp(Op):
         value = [v.simplify() for v in self.value]
         if self.op == '__group__' and len(value) == 1 and isinstance(value[0], Value):
             return value[0]  # Expr(value)
-        return UnaryOp(self.op, value)
+        return type(self)(self.op, value)
 
     def evaluate(self, known: dict):
         value = [x.evaluate(known) for x in self.value]
-        return UnaryOp(self.op, value).simplify()
+        return type(self)(self.op, value).simplify()
 
     def depends_on(self, name: str):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return self._like(UnaryOp(self.op, [x.copy() for x in self.value]))
+        return self._like(type(self)(self.op, [x.copy() for x in self.value]))
 
     def __contains__(self, value):
         # value is a list
@@ -728,6 +728,12 @@ class UnaryOp(Op):
             x.verify_parameters(instrument_parameter_names)
 
 
+class DegreesOp(UnaryOp):
+    """A trigonometric function of an angle in degrees, which in C (and Python) takes an angle in radian"""
+    def _str_repr_(self, vstr):
+        return f'{self.op}(DEG2RAD*({vstr}))' if 'C' == self.style else f'{self.op}(radians({vstr}))'
+
+
 class Value:
     def __init__(self, value, data_type=None, object_type=None, shape_type=None):
         self._value = value
@@ -1473,6 +1479,13 @@ def unary_expr(func, name, v):
     return Expr(UnaryOp(name, v))
 
 
+def degrees_expr(func, name, v):
+    """The function, e.g. sine, of an angle in degrees"""
+    expr = unary_expr(func, name, v)
+    op = expr.expr[0]
+    return Expr(DegreesOp(name, op.value)) if expr.is_op and isinstance(op, UnaryOp) and op.op == name else expr
+
+
 def binary_expr(func, name, left, right):
     ops = {'atan2': ('sin', 'cos')}
     if isinstance(left, Expr):
diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index ed58e36..55d4d8d 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -1,5 +1,6 @@
 from dataclasses import dataclass, field
 from ..common import Expr, unary_expr, binary_expr
+from ..common.expression import degrees_expr
 from typing import TypeVar, NamedTuple, Union
 from loguru import logger
 
@@ -210,10 +211,8 @@ class Rotation(NamedTuple):
     @staticmethod
     def from_angles(angles: Angles, degrees=True) -> RotationType:
         """Construct a rotation matrix from three angles"""
-        from math import cos, sin
-        from mccode_antlr.common import Expr, unary_expr
-        s = [unary_expr(sin_degree if degrees else sin, 'sin', j) for j in angles]
-        c = [unary_expr(cos_degree if degrees else cos, 'cos', j) for j in angles]
+        s = [sin_value(j, degrees) for j in angles]
+        c = [cos_value(j, degrees) for j in angles]
         z, o = Expr.float(0), Expr.float(1)
         rx = Rotation() if angles.x.is_zero else Rotation(o, z, z, z, c[0], s[0], z, -s[0], c[0])
         ry = Rotation() if angles.y.is_zero else Rotation(c[1], z, -s[1], z, o, z, s[1], z, c[1])
@@ -328,7 +327,10 @@ def acos_value(v: Expr, degrees=True):
         return pi / Expr.float(2)
     if v.is_value(-1) or v < Expr.float(-1):
         return pi
-    return unary_expr(acos_degree if degrees else acos, 'acos', v)
+    value = unary_expr(acos_degree if degrees else acos, 'acos', v)
+    if degrees and value.is_op and value.expr[0].op == 'acos':
+        value = value * Expr.id('RAD2DEG')
+    return value
 
 
 def cos_value(v: Expr, degrees=True):
@@ -341,7 +343,7 @@ def cos_value(v: Expr, degrees=True):
         return Expr.float(0)
     if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(pi)):
         return Expr.float(-1)
-    return unary_expr(cos_degree if degrees else cos, 'cos', v)
+    return degrees_expr(cos_degree, 'cos', v) if degrees else unary_expr(cos, 'cos', v)
 
 
 def sin_value(v: Expr, degrees=True):
@@ -353,7 +355,7 @@ def sin_value(v: Expr, degrees=True):
         return Expr.float(1)
     if (degrees and v.is_value(Expr.float(-90))) or (not degrees and v.is_value(-pi / Expr.float(2))):
         return Expr.float(-1)
-    return unary_expr(sin_degree if degrees else sin, 'sin', v)
+    return degrees_expr(sin_degree, 'sin', v) if degrees else unary_expr(sin, 'sin', v)
 
 
 def atan2_value(va: Expr, vb: Expr, degrees=True):
@@ -369,7 +371,10 @@ def atan2_value(va: Expr, vb: Expr, degrees=True):
         if va.is_op:
             return [-half, half]
         return [half if va > zero else -half]
-    return [binary_expr(atan2_degree if degrees else atan2, 'atan2', va, vb)]
+    value = binary_expr(atan2_degree if degrees else atan2, 'atan2', va, vb)
+    if degrees and value.is_op and value.expr[0].op == 'atan2':
+        value = value * Expr.id('RAD2DEG')
+    return [value]
 
 
 def cos_from_sin_value(v: Expr):
diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 808f0fc..5b072b1 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -395,7 +395,7 @@ class HDF5IO:
     import numpy as np
     from mccode_antlr.comp import Comp
     from mccode_antlr.common import InstrumentParameter, MetaData, ComponentParameter, RawC
-    from mccode_antlr.common.expression import Expr, TrinaryOp, BinaryOp, UnaryOp
+    from mccode_antlr.common.expression import Expr, TrinaryOp, BinaryOp, UnaryOp, DegreesOp
     from mccode_antlr.instr.jump import Jump
     from mccode_antlr.instr.orientation import (Matrix, Vector, Angles, Rotation, Seitz, RotationX, RotationY,
                                                 RotationZ, TranslationPart, Orient, Parts, Part)
@@ -435,6 +435,7 @@ class HDF5IO:
         'TrinaryOp': _op_io(TrinaryOp, ['first', 'second', 'third']),
         'BinaryOp': _op_io(BinaryOp, ['left', 'right']),
         'UnaryOp': _op_io(UnaryOp, ['value']),
+        'DegreesOp': _op_io(DegreesOp, ['value']),
         'list': ListIO,
         'tuple': TupleIO,
         'dict': DictIO,
-- 
2.43.0


From d55957fc00e8ab60c462e557a175299d91323483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 094/146] fix: the Euler angles of a rotation are those of that
 rotation

---
 src/mccode_antlr/instr/orientation.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 55d4d8d..3ae880d 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -363,13 +363,9 @@ def atan2_value(va: Expr, vb: Expr, degrees=True):
     zero = Expr.float(0)
     full = Expr.float(180) if degrees else Expr.id('PI')
     half = full / Expr.float(2)
-    if va.is_value(0):
-        if vb.is_op:
-            return [zero, full]
-        return [zero if vb > zero else full]
-    if vb.is_value(0):
-        if va.is_op:
-            return [-half, half]
+    if va.is_value(0) and vb.is_constant:
+        return [full if vb < zero else zero]
+    if vb.is_value(0) and va.is_constant:
         return [half if va > zero else -half]
     value = binary_expr(atan2_degree if degrees else atan2, 'atan2', va, vb)
     if degrees and value.is_op and value.expr[0].op == 'atan2':
@@ -428,12 +424,17 @@ def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
 
 def axes_euler_angles(m: Rotation, degrees) -> Angles:
     """Return the angles vector which could have been used to produce this 'axes' rotation matrix"""
-    rxs = atan2_value(-m.zy, m.zz, degrees=degrees)
-    rys = atan2_value(m.zx, cos_from_sin_value(m.zx), degrees=degrees)
-    rzs = atan2_value(-m.yx, m.xx, degrees=degrees)
-    rx = rxs[0] if len(rxs) == 1 else rxs[0]
-    ry = rys[0] if len(rys) == 1 else rys[0]
-    rz = rzs[0] if len(rzs) == 1 else rzs[0]
+    zero = Expr.float(0)
+    if all(x.is_zero for x in (m.xy, m.yx, m.yz, m.zy)) and m.yy.is_value(1):
+        # rotated around only the y axis, by any angle
+        return Angles(zero, atan2_value(m.zx, m.zz, degrees=degrees)[0], zero)
+    cos_ry = sqrt_value(m.zy * m.zy + m.zz * m.zz)
+    ry = atan2_value(m.zx, cos_ry, degrees=degrees)[0]
+    if cos_ry.is_constant and cos_ry < Expr.float(1e-8):
+        # The first and last rotation are around the same axis, so one of their angles can be chosen
+        return Angles(atan2_value(m.yz, m.yy, degrees=degrees)[0], ry, zero)
+    rx = atan2_value(-m.zy, m.zz, degrees=degrees)[0]
+    rz = atan2_value(-m.yx, m.xx, degrees=degrees)[0]
     return Angles(rx, ry, rz)
 
 
-- 
2.43.0


From 79447204f954e720767f13571e39b3f7b8578c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 095/146] fix: the sign of the rotation angle does not depend
 on rounding noise

---
 src/mccode_antlr/instr/orientation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 3ae880d..e2c9548 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -494,11 +494,13 @@ class Part:
         angle = Expr.float(acos_degree(cos_angle))
         axis = Vector(Expr.float(axis[0]), Expr.float(axis[1]), Expr.float(axis[2]))
 
-        # Check that the rotation matrix signs all match:
+        # Check that the rotation matrix signs match
         a = axis.cross_matrix()
-        r = Matrix.eye() + a * sin_value(angle, True) + (a * a) * (Expr.float(1) - cos_value(angle, True))
-        # and flip the sign of angle if not:
-        return axis, -angle if any(flat[index] * r[index] < Expr.float(0) for index in range(9)) else angle, 'degrees'
+        # and flip the sign of angle if not, where only its antisymmetric part, proportional to A, depends on the sign:
+        sign = Expr.float(0)
+        for index in range(9):
+            sign = sign + a[index] * flat[index]
+        return axis, -angle if sign < Expr.float(0) else angle, 'degrees'
 
     def __str__(self):
         x = [f'{x}' for x in self._axes]
-- 
2.43.0


From 6880965d275384a24727ed47e588bb8b2d8d6143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 096/146] fix: a small rotation is not the identity

---
 src/mccode_antlr/instr/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index e2c9548..5fa4dc1 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -465,7 +465,7 @@ class Part:
 
     @property
     def is_identity(self):
-        return not self.is_translation and self._axes.trace() == Expr.float(3.)
+        return not self.is_translation and self._axes.rotation() == Rotation()
 
     @property
     def rotation_axis_angle(self) -> tuple[Vector, Expr, str]:
-- 
2.43.0


From 3d0fce86a8812d9e5d168bc89c7c6fb45530d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 097/146] fix: an absolute rotation is absolute also if the
 position is relative

---
 src/mccode_antlr/instr/instance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index fcc02b8..3c6c580 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -111,9 +111,10 @@ class Instance:
             if rr[1] is None and ar[1] is not None:
                 logger.warning(f'Expected rotation reference to be specified when at reference is specified')
             at = ar[0] if isinstance(ar[0], Vector) else Vector(*ar[0])
-            an, ar = (ar[1].name, ar[1].orientation) if ar[1] else ("ABSOLUTE", None)
+            ar = ar[1].orientation if ar[1] else None
             rt = rr[0] if isinstance(rr[0], Angles) else Angles(*rr[0])
-            rn, rr = (rr[1].name, rr[1].orientation) if rr[1] else (an, ar)
+            # a rotation without reference is absolute, even if the position is relative to another instance
+            rr = rr[1].orientation if rr[1] else None
             self.orientation = Orient.from_dependent_orientations(ar, at, rr, rt)
         # check if the defining component is marked noacc, in which case this _is_ cpu only
         if not self.type.acc:
-- 
2.43.0


From 3b225023291a0e32ae6eb209d4c4651d98d384dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 098/146] fix: angles converted from degrees are printed as
 they are printed when read again

---
 src/mccode_antlr/common/expression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index a101906..52f952d 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -731,7 +731,9 @@ class UnaryOp(Op):
 class DegreesOp(UnaryOp):
     """A trigonometric function of an angle in degrees, which in C (and Python) takes an angle in radian"""
     def _str_repr_(self, vstr):
-        return f'{self.op}(DEG2RAD*({vstr}))' if 'C' == self.style else f'{self.op}(radians({vstr}))'
+        if 'C' != self.style:
+            return f'{self.op}(radians({vstr}))'
+        return f'{self.op}(DEG2RAD * {_parenthesize(self.value, vstr, _PRECEDENCE["*"] + 1)})'
 
 
 class Value:
-- 
2.43.0


From 59df063b91dd6402c6b283bac04f134fd234fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 099/146] fix: components after the MCPL input are placed
 relative to it

---
 src/mccode_antlr/instr/instr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 494f98b..bbd87c1 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -454,6 +454,12 @@ class Instr:
         second.make_instance(sc.name, input_component, sc.at_relative, sc.rotate_relative, parameters=input_parameters)
         # move the newly added component to the front of the list:
         second.components = (second.components[-1],) + second.components[:-1]
+        # components placed relative to the replaced component are now relative to its replacement
+        ic = second.components[0]
+        for x in second.components:
+            (at, at_ref), (rotate, rotate_ref) = x.at_relative, x.rotate_relative
+            x.at_relative = at, ic if at_ref is sc else at_ref
+            x.rotate_relative = rotate, ic if rotate_ref is sc else rotate_ref
 
         return first, second
 
-- 
2.43.0


From 403d786b8df75d7114b8cf29bea83e36a4d00cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 100/146] fix: make_instance passes on its group and whether
 the instance is removable

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index bbd87c1..3901ffb 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -391,7 +391,7 @@ class Instr:
             component = reader.get_component(component)
             self.flags += tuple(reader.c_flags)
         self.components += (Instance(name, component, at_relative, rotate_relative, orientation,
-                                     parameters, group, removable),)
+                                     parameters, group=group, removable=removable),)
 
     def mcpl_split(self,
                    after,
-- 
2.43.0


From 2ce38dd48b01856886c34612a313b3aba14d72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 101/146] fix: a parameter used in USERVARS is used

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 3901ffb..3fc0526 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -468,7 +468,7 @@ class Instr:
         for instance in self.components:
             if instance.parameter_used(name):
                 return True
-        for section in (self.declare, self.initialize, self.save, self.final):
+        for section in (self.declare, self.user, self.initialize, self.save, self.final):
             for block in section:
                 # A more complex check would see if the use itself leads to a parameter being used, but
                 # that would be language dependent and probably not worth the effort.
-- 
2.43.0


From 564a33dcde1f125dc0751fac8e6a232295514ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 102/146] fix: HDF5 keeps the data type of operations

---
 src/mccode_antlr/io/hdf5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 5b072b1..1375eb3 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -271,9 +271,8 @@ def _op_io(typename, fields: list[str]):
                 raise ValueError(f"Could not load values for {typename}")
             op = typename(attrs['op'], **values)
             op.style = attrs['style']
-            if op.data_type != DataType.from_name(attrs['data_type_name']):
-                raise ValueError(
-                    f"Loaded {typename} with data type {op.data_type}, but expected {attrs['data_type_name']}")
+            # the data type of an operation is not only determined by its operands, e.g., it can have been set
+            op.data_type = DataType.from_name(attrs['data_type_name'])
             return op
 
         @staticmethod
-- 
2.43.0


From 08593edf713ae97bc49fa772cad9bbf2dcf39f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 103/146] fix: HDF5 keeps the priority of registries

---
 src/mccode_antlr/io/hdf5.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 1375eb3..6890179 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -187,7 +187,7 @@ def RemoteRegistryIO(actual_type):
         @staticmethod
         def load(group, **kwargs) -> RemoteRegistry:
             _check_header(group, actual_type)
-            values = _standard_read(actual_type, group, actual_type.file_keys(), (), (), **kwargs)
+            values = _standard_read(actual_type, group, actual_type.file_keys() + ('priority',), (), (), **kwargs)
             try:
                 return actual_type(**values)
             except RuntimeError:
@@ -196,7 +196,7 @@ def RemoteRegistryIO(actual_type):
 
         @staticmethod
         def save(group, data, **kwargs):
-            _standard_save(actual_type, group, data, actual_type.file_keys(), (), **kwargs)
+            _standard_save(actual_type, group, data, actual_type.file_keys() + ('priority',), (), **kwargs)
 
     return _RemoteRegistryIO
 
@@ -206,7 +206,7 @@ class LocalRegistryIO:
 
     @staticmethod
     def load(group, **kwargs) -> Registry:
-        values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root'), (), (), **kwargs)
+        values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root', 'priority'), (), (), **kwargs)
         try:
             return LocalRegistryIO.LocalRegistry(**values)
         except RuntimeError:
@@ -215,7 +215,7 @@ class LocalRegistryIO:
 
     @staticmethod
     def save(group, data, **kwargs):
-        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name',), (), **kwargs)
+        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name', 'priority'), (), **kwargs)
         if data.root is not None:
             group.attrs['root'] = data.root.as_posix()
 
-- 
2.43.0


From 5b32fd76b6c90117a518b21b7fccc4133e4d4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 104/146] fix: instruments using an InMemoryRegistry can be
 loaded from HDF5

---
 src/mccode_antlr/io/hdf5.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 6890179..a538343 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -220,6 +220,25 @@ class LocalRegistryIO:
             group.attrs['root'] = data.root.as_posix()
 
 
+class InMemoryRegistryIO:
+    from mccode_antlr.reader.registry import InMemoryRegistry
+
+    @staticmethod
+    def load(group, **kwargs) -> InMemoryRegistry:
+        values = _standard_read(InMemoryRegistryIO.InMemoryRegistry, group, ('name', 'priority'), (), ('names', 'contents'), **kwargs)
+        registry = InMemoryRegistryIO.InMemoryRegistry(values['name'], values['priority'])
+        for name, contents in zip(values['names'], values['contents']):
+            registry.add(name, contents)
+        return registry
+
+    @staticmethod
+    def save(group, data, **kwargs):
+        _standard_save(InMemoryRegistryIO.InMemoryRegistry, group, data, ('name', 'priority'), (), **kwargs)
+        # file names can contain '/', so they can not be used as the names of groups
+        HDF5IO.save(group=group.create_group('names'), data=list(data.components.keys()), **kwargs)
+        HDF5IO.save(group=group.create_group('contents'), data=list(data.components.values()), **kwargs)
+
+
 def _seitz_part_io(actual_type):
     class _RotationPartIO:
         @staticmethod
@@ -411,6 +430,7 @@ class HDF5IO:
         'ModuleRemoteRegistry': RemoteRegistryIO(ModuleRemoteRegistry),
         'GitHubRegistry': RemoteRegistryIO(GitHubRegistry),
         'LocalRegistry': LocalRegistryIO,
+        'InMemoryRegistry': InMemoryRegistryIO,
         'ComponentParameter': _dataclass_io(ComponentParameter, attrs=('name',), required=('value',)),
         'Comp': _dataclass_io(Comp, attrs=('name', 'category', 'dependency', 'acc'),
                               optional=('define', 'setting', 'output', 'metadata', 'share', 'user',
-- 
2.43.0


From 4372e2331005cb3c4d50ec9aff0772a5f59195f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 105/146] fix: metadata sources are equal if they say the same

---
 src/mccode_antlr/common/metadata.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mccode_antlr/common/metadata.py b/src/mccode_antlr/common/metadata.py
index 0d96b29..4cfb92e 100644
--- a/src/mccode_antlr/common/metadata.py
+++ b/src/mccode_antlr/common/metadata.py
@@ -12,6 +12,17 @@ class DataSource:
         self._type = source_type
         self._name = name
 
+    def __eq__(self, other):
+        if not isinstance(other, DataSource):
+            return NotImplemented
+        return self._type == other._type and self._name == other._name
+
+    def __hash__(self):
+        return hash((self._type, self._name))
+
+    def __repr__(self):
+        return f'DataSource({self._type}, {self._name!r})'
+
     @property
     def name(self):
         return self._name
-- 
2.43.0


From f5ebd9836481c65d9e90ed4105e20cbda820f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 106/146] fix: attributes loaded from HDF5 are Python objects

---
 src/mccode_antlr/io/hdf5.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index a538343..9d0de72 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -25,9 +25,15 @@ def _check_header(group, data_type):
         raise RuntimeError(f"Group contains mccode_antlr type {name}, but asked to read type {data_type}")
 
 
+def _attribute(group, name):
+    """The Python (not numpy) object stored as an attribute, or None"""
+    value = group.attrs.get(name)
+    return value.item() if isinstance(value, HDF5IO.np.generic) else value
+
+
 def _standard_read(typename, group, attrs, optional, required, **kwargs):
     _check_header(group, typename)
-    values = {name: group.attrs.get(name) for name in attrs}
+    values = {name: _attribute(group, name) for name in attrs}
     for name in optional:
         if name in group:
             values[name] = HDF5IO.load(group[name], **kwargs)
-- 
2.43.0


From 0529a4d2c100dc7413de309a9dc154379e12467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 107/146] fix: the groups of an instrument split for MCPL are
 those of its components

---
 src/mccode_antlr/instr/instr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 3fc0526..21211ab 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -460,6 +460,10 @@ class Instr:
             (at, at_ref), (rotate, rotate_ref) = x.at_relative, x.rotate_relative
             x.at_relative = at, ic if at_ref is sc else at_ref
             x.rotate_relative = rotate, ic if rotate_ref is sc else rotate_ref
+        # a replaced component is not in its group any longer
+        if self.groups:
+            first.determine_groups()
+            second.determine_groups()
 
         return first, second
 
-- 
2.43.0


From 263e082dd663961df7b78404670480f6fe2b768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 108/146] fix: HDF5 keeps the mode of an instance

---
 src/mccode_antlr/io/hdf5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 9d0de72..cbdd73d 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -94,8 +94,12 @@ class InstanceIO:
 
     @staticmethod
     def load(group, instances: dict[str, Instance], components: dict[str, Comp], **kwargs) -> Instance:
+        from mccode_antlr.common import Mode
         values = _standard_read(InstanceIO.Instance, group, InstanceIO.attrs, InstanceIO.names, required=(), **kwargs)
-        # handle the special cases: type, at_relative, rotate_relative
+        # handle the special cases: mode, type, at_relative, rotate_relative
+        # mode: without it the orientation would be determined even if it was not before
+        if 'mode' in group.attrs:
+            values['mode'] = Mode[group.attrs['mode']]
         # type:
         type_name = group.attrs.get('type')
         if type_name not in components:
@@ -118,6 +122,7 @@ class InstanceIO:
     @staticmethod
     def save(group, data: Instance, **kwargs):
         _standard_save(InstanceIO.Instance, group, data, InstanceIO.attrs, InstanceIO.names, **kwargs)
+        group.attrs['mode'] = data.mode.name
         # type, at_relative, rotate_relative should be _references_ to other HDF5 objects?
         # Maybe we can get away with only keeping their names, since those are unique in the instrument
         # component _type_ name:
-- 
2.43.0


From 731eb79283d7de5775ad7e3a57d30dc42beb1bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 109/146] fix: in-memory registries are equal if they hold the
 same

---
 src/mccode_antlr/reader/registry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index e241098..fa89039 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -408,6 +408,11 @@ class InMemoryRegistry(Registry):
             return self.components[full_name]
         raise KeyError(f'InMemoryRegistry does not know of {name if ext is None else name + ext}')
 
+    def __eq__(self, other):
+        if not isinstance(other, InMemoryRegistry):
+            return False
+        return self.name == other.name and self.components == other.components
+
 
 def ordered_registries(registries: list[Registry]):
     """Sort the registries by their priority"""
-- 
2.43.0


From 703de27439872176d22b9451640404cb37185f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 110/146] fix: parameters used by an instrument read in minimal
 mode can be found

---
 src/mccode_antlr/instr/instance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 3c6c580..b636e10 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -251,7 +251,10 @@ class Instance:
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
             return True
-        if name in self.at_relative[0] or name in self.rotate_relative[0] or name in self.orientation:
+        if name in self.at_relative[0] or name in self.rotate_relative[0]:
+            return True
+        # (the orientation is not determined in minimal mode)
+        if self.orientation is not None and name in self.orientation:
             return True
         if name in (self.split or []) or name in (self.when or []):
             return True
-- 
2.43.0


From 9924cd68dc35425ae9ee4dc6dc586ff01a3b4bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 111/146] fix: take array sizes of C declarations from their
 parse tree

---
 src/mccode_antlr/translators/c_listener.py | 46 ++++++++++++----------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 38e7d26..b0f3793 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import re
 from dataclasses import dataclass, field
 from typing import TypeVar
 
@@ -18,6 +19,11 @@ def literal_string(ctx, until=None):
     return string_between_tokens(ctx.start, until.stop)
 
 
+def text_after(first, ctx) -> str:
+    """The source text of a context which follows that of its first child"""
+    return literal_string(ctx)[len(literal_string(first)):].strip()
+
+
 def make_error_listener(super_class, source: str, pre=5, post=2):
     class ErrorListener(super_class):
         def __init__(self):
@@ -60,6 +66,7 @@ class CFuncPointer:
     declare: TCDeclarator
     modifiers: str | None = None
     args: str | None = None
+    after: str = ''
 
     @property
     def name(self) -> str:
@@ -70,6 +77,7 @@ class CFuncPointer:
             declare=self.declare.copy(suffix=suffix),
             modifiers=self.modifiers,
             args=self.args,
+            after=self.after,
         )
 
     def __eq__(self, other: TCFuncPointer) -> bool:
@@ -79,11 +87,12 @@ class CFuncPointer:
             return False
         if not_both_None_or_not_equal(self.modifiers, other.modifiers):
             return False
-        return self.declare == other.declare
+        return self.declare == other.declare and self.after == other.after
 
     def string(self, dec_str):
         f = f'({self.modifiers} {dec_str})' if self.modifiers else f'({dec_str})'
-        return f'{f}({self.args})' if self.args else f'{f}()'
+        # without arguments this is no function, but, e.g., a pointer to an array
+        return f'{f}{self.after}' if self.args is None else f'{f}({self.args})'
 
     def __str__(self):
         return self.string(str(self.declare))
@@ -320,26 +329,21 @@ class DeclaresCVisitor(CVisitor):
 
     def visitDeclarator(self, ctx:CParser.DeclaratorContext):
         ptr = self.visit(ctx.pointer()) if ctx.pointer() else None
-        dec = self.visit(ctx.directDeclarator())
+        direct = ctx.directDeclarator()
+        # the sizes of a (multidimensional) array follow whatever it is an array of
+        nums = []
+        while (dd := direct.directDeclarator()) is not None and direct.getChild(1).getText() == '[':
+            nums.insert(0, text_after(dd, direct)[1:-1].strip())
+            direct = dd
+        dec = self.visit(direct)
         extensions = [self.visit(x) for x in ctx.gccDeclaratorExtension()]
         elements = None
         if isinstance(dec, CFuncPointer):
-            # elements = dec.declare.elements
-            # dec.declare.elements = None
-            pass
-        elif all(x in dec for x in ('[', ']')):
-            dec, post = dec.split('[', 1)
-            nums = tuple()
-            while ']' in post:
-                num, post = post.split(']', 1)
-                nums += (num,)
-                if '[' in post:
-                    _, post = post.split('[', 1)
-            try:
-                elements = tuple(int(n) if len(n) else 0 for n in nums)
-            except ValueError as er:
-                logger.info(f"Could not convert an integer from {nums} due to {er}")
-                elements = nums
+            # the array is not what is declared, but what it points to
+            dec.after = ''.join(f'[{n}]' for n in nums)
+        elif nums:
+            # only plain (decimal) numbers are known here, any other size is for the C compiler to work out
+            elements = tuple(int(n) if n == '0' or re.fullmatch(r'[1-9]\d*', n) else n or 0 for n in nums)
         return CDeclarator(pointer=ptr, declare=dec, extensions=extensions, elements=elements)
 
     def visitPointer(self, ctx:CParser.PointerContext):
@@ -355,10 +359,10 @@ class DeclaresCVisitor(CVisitor):
             return literal_string(ctx)
 
         dd = ctx.directDeclarator()
-        after_dd_str = literal_string(ctx).replace(literal_string(dd), '')
+        after_dd_str = text_after(dd, ctx)
         dec = self.visit(dd)
         if isinstance(dec, CFuncPointer):
-            dec.args = after_dd_str.strip('()')
+            dec.args = after_dd_str[1:-1]
             return dec
         return dec + after_dd_str
 
-- 
2.43.0


From c4bb066d5f8d08acc6f3eb79c754c4921fec1dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 112/146] fix: find the aliases of typedefs with declarators

---
 src/mccode_antlr/translators/c_listener.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index b0f3793..fc463a5 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -248,12 +248,13 @@ class DeclaresCVisitor(CVisitor):
             #   typedef typeInformation aliasIdentifier;
             if specs[0] != 'typedef':
                 self.debug(f"Expected typedef ... identifier; not\n{literal_string(ctx)}")
-            if len(inits):
+            if any(init is not None for _, init in inits):
                 self.debug(f'Expected no initializer with typedef, but found {inits}')
-            alias = specs[-1]
-            if alias in self.typedefs:
-                self.info(f'Re-definition of typedef alias {alias}?')
-            self.typedefs.append(alias)
+            # -- the declarators name the alias(es) if they are not plain identifiers, e.g., of a pointer type
+            for alias in [decl.name.split('(')[0] for decl, _ in inits] or specs[-1:]:
+                if alias in self.typedefs:
+                    self.info(f'Re-definition of typedef alias {alias}?')
+                self.typedefs.append(alias)
         elif len(inits):
             for decl, init in inits:
                 decl.dtype = ' '.join(specs)
-- 
2.43.0


From c2e1ab207985a68ecc94e8c332266c3a75ba3313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 113/146] fix: do not take local variables of functions for
 declared variables

---
 src/mccode_antlr/translators/c_listener.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index fc463a5..54a9476 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -265,6 +265,10 @@ class DeclaresCVisitor(CVisitor):
             decl.dtype = ' '.join(specs[:-1])
             self.declares.append(decl)
 
+    def visitFunctionDefinition(self, ctx:CParser.FunctionDefinitionContext):
+        # what is declared inside of a function is local to it
+        return
+
     # Five declaration specifiers
     def visitStorageClassSpecifier(self, ctx:CParser.StorageClassSpecifierContext):
         self.debug(f'StorageClassSpecifier {literal_string(ctx)}')
-- 
2.43.0


From f6b6fb9525fcaf1b2518b5855ad4ad64ddc58627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 114/146] fix: declarations with and without array size,
 pointer or initial value differ

---
 src/mccode_antlr/translators/c_listener.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 54a9476..05dbb10 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -53,11 +53,6 @@ def make_error_listener(super_class, source: str, pre=5, post=2):
 TCDeclarator = TypeVar('TCDeclarator', bound='CDeclarator')
 TCFuncPointer = TypeVar('TCFuncPointer', bound='CFuncPointer')
 
-def not_both_None_or_not_equal(a, b):
-    if (a is None and b is not None) or (a is not None and b is None):
-        return False
-    return a is not None and b is not None and a != b
-
 def same_type(a, b):
     return type(a) == type(b)
 
@@ -83,9 +78,9 @@ class CFuncPointer:
     def __eq__(self, other: TCFuncPointer) -> bool:
         if not isinstance(other, CFuncPointer):
             raise ValueError('Type mismatch')
-        if not_both_None_or_not_equal(self.args, other.args):
+        if self.args != other.args:
             return False
-        if not_both_None_or_not_equal(self.modifiers, other.modifiers):
+        if self.modifiers != other.modifiers:
             return False
         return self.declare == other.declare and self.after == other.after
 
@@ -158,7 +153,7 @@ class CDeclarator:
                 return False
         for a, b in zip((self.pointer, self.elements, self.dtype, self.init),
                         (other.pointer, other.elements, other.dtype, other.init)):
-            if not_both_None_or_not_equal(a, b):
+            if a != b:
                 return False
         return same_type(self.declare, other.declare) and self.declare == other.declare
 
-- 
2.43.0


From e07fedad92645d592d2d1b556c92e81b214c5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 115/146] fix: determine array sizes from any kind of initial
 value

---
 src/mccode_antlr/translators/c_listener.py | 77 +++++++++++++++-------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 05dbb10..01914fb 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -172,24 +172,35 @@ class CDeclarator:
     def __hash__(self):
         return hash(str(self))
 
+    def initialized_size(self) -> tuple:
+        """The array size(s) required by the initial value"""
+        init = self.init.strip()
+        if not init.startswith('{'):
+            # a string, or the name of one
+            return f'sizeof({init})',
+        size = extract_initializer_size(init)
+        dims = len(self.elements or ())
+        if size == (1,) and dims == 1 and not self.is_pointer and init[1:].lstrip().startswith('"'):
+            # a string in braces
+            return f'sizeof({init[1:-1].strip().rstrip(",")})',
+        if len(size) == 1 and dims > 1 and '"' not in init:
+            # the braces of the inner arrays have been left out
+            inner = '*'.join(f'({n})' for n in self.elements[1:])
+            return (f'({size[0]}+{inner}-1)/({inner})',) + self.elements[1:]
+        return size
+
     def as_struct_member(self, dims: int = 0, max_array_length: int = 16384):
-        if self.init:
-            max_array_length = extract_initializer_size(self.init)
-        dims = len(self.elements) if self.elements else 0
-        mal = max_array_length if isinstance(max_array_length, tuple) else (max_array_length,)
-        if len(mal) < dims:
-            mal *= dims // len(mal)
-        no = self.elements if self.elements else mal
-        if not isinstance(no, tuple):
-            raise RuntimeError(f'{no} should be a tuple but is a {type(no)}')
+        if self.init and self.is_array:
+            max_array_length = self.initialized_size()
         if isinstance(self.declare, CFuncPointer):
-            return self.string(self.declare.as_struct_member(dims=dims, max_array_length=no))
-        elif self.elements is not None:
-            if 0 in no:
-                # Is this a bad idea?
-                no = tuple(m if x == 0 else x for x, m in zip(no, mal))
-            return f"{self}{''.join(f'[{n}]' for n in no)}"
-        return str(self)
+            return self.string(self.declare.as_struct_member(dims=dims, max_array_length=max_array_length))
+        if self.elements is None:
+            return str(self)
+        mal = max_array_length if isinstance(max_array_length, tuple) else (max_array_length,)
+        mal += mal[-1:] * (len(self.elements) - len(mal))
+        # Is this a bad idea?
+        no = tuple(m if x == 0 else x for x, m in zip(self.elements, mal))
+        return self.string(f"{self.declare}{''.join(f'[{n}]' for n in no)}")
 
 
 def extract_initializer_size(init: str) -> tuple[int,...]:
@@ -202,15 +213,35 @@ def extract_initializer_size(init: str) -> tuple[int,...]:
 
     >>> extract_initializer_size('{{{0}, {1}}, {{2}, {3}}, {{4}, {5}}, {{6}, {7}}}')
     (4, 2, 1)
+
+    >>> extract_initializer_size('{"a, b", "{}", f(1, 2),}')
+    (3,)
     """
-    import re
+    tokens = re.compile(r'''/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[^\s]''', re.DOTALL)
     size = []
-    inner = re.compile('{([^{}]*)}')
-    x = init
-    while len(y:=inner.findall(x)):
-        size.append(len(y[0].split(',')))
-        x = inner.sub('_', x)
-    return tuple(reversed(size))
+    lists = []  # for every list not yet closed: its number of complete elements, and whether another one has begun
+    parens = 0
+    for token in tokens.findall(init):
+        if token.startswith(('/*', '//')):
+            continue
+        if lists and (parens or token not in '{},'):
+            lists[-1][1] = 1
+        if token in '()[]':
+            parens += 1 if token in '([' else -1
+        elif parens:
+            continue
+        elif token == '{':
+            if lists:
+                lists[-1][1] = 1
+            lists.append([0, 0])
+            if len(size) < len(lists):
+                size.append(0)
+        elif token == '}':
+            depth = len(lists) - 1
+            size[depth] = max(size[depth], sum(lists.pop()))
+        elif token == ',' and lists:
+            lists[-1] = [lists[-1][0] + 1, 0]
+    return tuple(size)
 
 
 class DeclaresCVisitor(CVisitor):
-- 
2.43.0


From 42fde68c0cf99a9eb60ab668644e4df5bdd0b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 116/146] fix: keep attributes of C declarations

---
 src/mccode_antlr/translators/c_listener.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 01914fb..a95ec69 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -377,6 +377,9 @@ class DeclaresCVisitor(CVisitor):
             elements = tuple(int(n) if n == '0' or re.fullmatch(r'[1-9]\d*', n) else n or 0 for n in nums)
         return CDeclarator(pointer=ptr, declare=dec, extensions=extensions, elements=elements)
 
+    def visitGccDeclaratorExtension(self, ctx:CParser.GccDeclaratorExtensionContext):
+        return literal_string(ctx)
+
     def visitPointer(self, ctx:CParser.PointerContext):
         self.debug(f'pointer {literal_string(ctx)}')
         return literal_string(ctx)
-- 
2.43.0


From a12bcd5318755d8a0508bbbd4b91656e526c0ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 117/146] fix: initialise arrays, structures and constants
 declared by components

---
 src/mccode_antlr/translators/c_initialise.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 1eeff26..a335636 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -198,15 +198,14 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     # <<< Start of second call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "PRIVATE")`
     for c_dec in component_declared_parameters[comp.type.name]:
         # c_dec is a CDeclare named tuple with (name, type, init, is_pointer, is_array, orig)
-        initialized_value = 'NULL' if (c_dec.is_pointer and c_dec.init is None) else c_dec.init
+        # (an array without an initial value is static, and its elements are zero or NULL already)
+        initialized_value = 'NULL' if (c_dec.is_pointer and not c_dec.is_array and c_dec.init is None) else c_dec.init
         fullname = f'_{comp.name}_var._parameters.{c_dec.name}'
-        if c_dec.is_array and initialized_value is not None:
-            for i, val in enumerate(initialized_value.strip('{}').split(',')):
-                lines.append(f'  {fullname}[{i}] = {val.strip()};')
-        # elif c_dec.is_struct and initialized_value is not None:
-        #     # deal with a structured initializer ...
-        #     # = {.x=#, .y=#, ...}
-        #     pass
+        is_const = 'const' in (c_dec.pointer if c_dec.is_pointer else c_dec.dtype)
+        if c_dec.init is not None and (c_dec.is_array or is_const or c_dec.init.lstrip().startswith('{')):
+            # the value of an array, a structure or a constant can only be given in a declaration
+            lines.append(f'  {{ {c_dec.as_struct_member()} = {c_dec.init};')
+            lines.append(f'    memcpy((void *) &{fullname}, (void *) &{c_dec.name}, sizeof({fullname})); }}')
         elif initialized_value is not None:
             lines.append(f'  {fullname} = {initialized_value};')
     # >>> End of second call to `cogen_comp_init_par`
-- 
2.43.0


From af0e456de9346474f8b7c2d75cff1fc39df7f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 118/146] fix: do not assign NULL to constant pointers of
 components

---
 src/mccode_antlr/translators/c_initialise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index a335636..f2fa6bf 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -198,10 +198,11 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     # <<< Start of second call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "PRIVATE")`
     for c_dec in component_declared_parameters[comp.type.name]:
         # c_dec is a CDeclare named tuple with (name, type, init, is_pointer, is_array, orig)
-        # (an array without an initial value is static, and its elements are zero or NULL already)
-        initialized_value = 'NULL' if (c_dec.is_pointer and not c_dec.is_array and c_dec.init is None) else c_dec.init
+        # (the elements of an array, or a constant, without an initial value are zero or NULL already)
         fullname = f'_{comp.name}_var._parameters.{c_dec.name}'
         is_const = 'const' in (c_dec.pointer if c_dec.is_pointer else c_dec.dtype)
+        sets_null = c_dec.is_pointer and not c_dec.is_array and not is_const and c_dec.init is None
+        initialized_value = 'NULL' if sets_null else c_dec.init
         if c_dec.init is not None and (c_dec.is_array or is_const or c_dec.init.lstrip().startswith('{')):
             # the value of an array, a structure or a constant can only be given in a declaration
             lines.append(f'  {{ {c_dec.as_struct_member()} = {c_dec.init};')
-- 
2.43.0


From 564d309bd915c0df6bb63f24820474fe1a8812e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 119/146] fix: find the name of a C variable in front of its
 attributes

---
 src/mccode_antlr/translators/c_listener.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index a95ec69..404a70a 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -287,8 +287,12 @@ class DeclaresCVisitor(CVisitor):
                 decl.init = init
                 self.declares.append(decl)
         elif len(specs) > 1:
-            decl = CDeclarator(pointer=None, declare=specs[-1], extensions=[])
-            decl.dtype = ' '.join(specs[:-1])
+            # the name of the variable is the last specifier, unless attributes follow it
+            last = len(specs) - 1
+            while last > 1 and specs[last].startswith('__attribute__'):
+                last -= 1
+            decl = CDeclarator(pointer=None, declare=specs[last], extensions=specs[last + 1:])
+            decl.dtype = ' '.join(specs[:last])
             self.declares.append(decl)
 
     def visitFunctionDefinition(self, ctx:CParser.FunctionDefinitionContext):
-- 
2.43.0


From cd04db6e8a2741464498aea5592541ab5167aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 120/146] fix: a placement relative to an unknown component is
 refused, not made absolute

---
 src/mccode_antlr/instr/visitor.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index dd3ee94..c0250a8 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -264,15 +264,13 @@ class InstrVisitor(McInstrVisitor):
                 return self.state.last_component(count, removable_ok=True)
             elif self.destination is not None:
                 return self.destination.last_component(count - instances, removable_ok=True)
-            else:
-                logger.error(f'Too large PREVIOUS count {count} for instrument with {instances} component instances')
+            raise RuntimeError(f'{self.filename}: Too large PREVIOUS count {count} for instrument with {instances} component instances')
         name = str(ctx.Identifier())
         if any(inst.name == name for inst in self.state.components):
             return self.state.get_component(name)
         elif self.destination is not None:
             return self.destination.get_component(name)
-        else:
-            logger.error(f'Unknown component reference for instance named {name}')
+        raise RuntimeError(f'{self.filename}: Unknown component reference for instance named {name}')
 
     def visitCoords(self, ctx: McInstrParser.CoordsContext):
         # FIXME 2023-10-16 previously Coordinate parsing forced all returned Expression objects to be floats
-- 
2.43.0


From 448a28ff5f9e578ab54cf4f78607df5a7d16625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 121/146] fix: a jump before the first or after the last
 component is refused

---
 src/mccode_antlr/translators/target.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 2954144..6d5c143 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -233,9 +233,13 @@ class TargetVisitor:
             # Any already set target index could be for another instrument, if the components have been copied
             if jump.relative_target == 0 and jump.target.lower() != 'myself':
                 # the target is another named component:
-                jump.absolute_target = [i for i, c in enumerate(self.source.components) if jump.target == c.name][0]
+                targets = [i for i, c in enumerate(self.source.components) if jump.target == c.name]
             else:
-                jump.absolute_target = index + jump.relative_target
+                targets = [i for i, _ in enumerate(self.source.components) if i == index + jump.relative_target]
+            if not targets:
+                name = self.source.components[index].name
+                raise RuntimeError(f'The target {jump.target} of a JUMP from component instance {name} does not exist')
+            jump.absolute_target = targets[0]
 
     def enter_trace(self):
         pass
-- 
2.43.0


From bf09a4e4162a756ad10edc98c200892d81756746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 122/146] fix: a component definition which is a copy of itself
 is refused by name

---
 src/mccode_antlr/reader/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index 209b09a..bbdb89e 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -117,6 +117,8 @@ class Reader:
     def add_component(self, name: str, current_instance_name=None):
         if name in self.components:
             raise RuntimeError("The named component is already known.")
+        if name in self._reading:
+            raise RuntimeError(f'The definition of component {name} is a copy of itself: {" COPY ".join([*self._reading, name])}')
         from antlr4 import InputStream
         from ..grammar import McComp_ErrorListener, McComp_parse
         from ..comp import CompVisitor
-- 
2.43.0


From b3156aaf0b46782eed01bd5c057872b01c5b447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 123/146] fix: a component with a refused parameter is not left
 in the instrument

---
 src/mccode_antlr/assembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index 62a99da..6182158 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -84,10 +84,10 @@ class Assembler:
         instance = Instance(name, comp_type,
                             at_relative=(at, ref), rotate_relative=self._handle_rotate(rotate, ref),
                             **kwargs)
-        self.instrument.add_component(instance)
-        self.instrument.flags = self.reader.instrument_flags(self.instrument)
         if isinstance(parameters, dict):
             instance.set_parameters(**parameters)
+        self.instrument.add_component(instance)
+        self.instrument.flags = self.reader.instrument_flags(self.instrument)
         return instance
 
     def parameter(self, par, ignore_repeated=False):
-- 
2.43.0


From 18cd73376e1dc22160b8a06c1be91068c54fee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 124/146] fix: the type of a parameter with an operation as its
 default value is known in C

---
 src/mccode_antlr/common/expression.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 52f952d..e644670 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -308,6 +308,17 @@ class Op:
     def vector_known(self):
         return False
 
+    @property
+    def mccode_c_type(self):
+        """The C type of the result, e.g., of a default value which is an operation"""
+        return self.data_type.mccode_c_type + ('*' if self.is_vector else '')
+
+    @property
+    def mccode_c_type_name(self):
+        if self.is_vector:
+            return 'instr_type_vector'
+        return {'double': 'instr_type_double', 'int': 'instr_type_int', 'char *': 'instr_type_string'}[self.mccode_c_type]
+
     def __add__(self, other):
         other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
@@ -1414,8 +1425,6 @@ class Expr:
     def mccode_c_type(self):
         if len(self.expr) != 1:
             raise RuntimeError('No McCode C type for array Expr objects')
-        if not isinstance(self.expr[0], Value):
-            logger.critical(f'Why is {self.expr[0]} not a Value?')
         return self.expr[0].mccode_c_type
 
     @property
-- 
2.43.0


From b8fa910cba9751ffc695f6c7a3a995db7ec19768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 125/146] fix: a list of values is refused for a parameter with
 a scalar operation as its default value

---
 src/mccode_antlr/common/expression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index e644670..461d421 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -294,7 +294,9 @@ class Op:
         if isinstance(other, Op):
             return id_ok
         value = other if isinstance(other, Value) else Value.best(other)
-        return (id_ok and (value.is_str or value.is_id)) or self.data_type.compatible(value.data_type)
+        if id_ok and (value.is_str or value.is_id):
+            return True
+        return self.data_type.compatible(value.data_type) and self.is_vector == value.is_vector
 
     @property
     def is_scalar(self):
-- 
2.43.0


From df1c578911c56c5d7ee6dcb0562b8e25e044d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 126/146] fix: a textually included file can ask for a library

---
 src/mccode_antlr/translators/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 42d2bc2..dbf0447 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -58,7 +58,7 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
     def _handle_raw_c_include(self, parent: str, raw_c: str):
         import re
         re_lib = re.compile(r'^\s*%include\s*"(?P<libname>[^"\n\.]+)"\s*$', re.MULTILINE)
-        re_inc = re.compile(r'^\s*%include\s*"(?P<filename>[^"\n]+)"\s*$', re.MULTILINE)
+        re_inc = re.compile(r'^\s*%include\s*"(?P<filename>[^"\n\.]*\.[^"\n]*)"\s*$', re.MULTILINE)
         # Include statements without an extension are library includes (.h, plus .c if embedding the runtime)
         # McCode3 would insert the library immediately on first-encounter, but we want to collect all libraries
         # and ensure they're included before all components.
-- 
2.43.0


From 12d2e73bb0535332c50db7a1761cd997e8b06306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 127/146] fix: a library asked for by several source files is
 included only once

---
 src/mccode_antlr/translators/c.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index dbf0447..f35a8a6 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -301,14 +301,16 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         self.info(f'include {source} source')
         # c files can %include *more* files! If the specified files have already been included, there's nothing
         # to do. Otherwise, panic.
-        lib_names = [lib.name for lib in self.includes]
         c_name = f'{source.name}.c'
         c_libraries, c_content = self._handle_raw_c_include(c_name, self._file_contents(c_name))
-        for c_lib in [c_lib for c_lib in c_libraries if c_lib.name not in lib_names]:
+        for c_lib in sort_include_hierarchy(c_libraries):
+            if any(lib.name == c_lib.name for lib in self.includes):
+                continue
             logger.info(f'{c_name} requested {c_lib.name} but is has not been included yet!')
+            # remember it, so that the next file to request it does not include it again
+            self.includes.append(c_lib)
             self.include_header(c_lib)
             self.include_source(c_lib)
-            #self.includes.append(c_lib)
         self.out(f'/* Contents of {source.name}.c (requested from {source.parent}) */')
         self.out(c_content)
 
@@ -327,7 +329,8 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
         self.info('Include runtime / list dependencies')
         if self.config.get('include_runtime'):
-            for include in self.includes:
+            # including a source can add the further libraries which it requests
+            for include in list(self.includes):
                 self.include_source(include)
         else:
             for include in self.includes:
-- 
2.43.0


From 75ba39fb36fc4664e16034c055fa273963c40393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 128/146] fix: an instrument loaded from a file knows its
 source

---
 src/mccode_antlr/loader/loader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index ad5ca7d..35dfbbd 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -22,6 +22,7 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     reader = Reader(registries=registries)
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
+    instr.source = source
     instr.flags = reader.instrument_flags(instr)
     instr.registries += tuple(reader.registries)
     return instr
-- 
2.43.0


From 690bde2dcdc75874314aae9704ce7785b0805d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 129/146] fix: a binary target updated in part keeps NeXus

---
 src/mccode_antlr/compiler/c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index cb468cb..c2d32d7 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -33,6 +33,7 @@ class CBinaryTarget:
         self.count = d.get('count', self.count)
         d_mpi = d.get('mpi', self.type & CBinaryTarget.Type.mpi)
         d_acc = d.get('acc', self.type & CBinaryTarget.Type.acc)
+        d_nexus = d.get('nexus', self.type & CBinaryTarget.Type.nexus)
         if d_mpi and d_acc:
             self.type = CBinaryTarget.Type.acc | CBinaryTarget.Type.mpi
         elif d_mpi:
@@ -41,7 +42,7 @@ class CBinaryTarget:
             self.type = CBinaryTarget.Type.acc
         else:
             self.type = CBinaryTarget.Type.single
-        if d.get('nexus', self.type & CBinaryTarget.Type.nexus):
+        if d_nexus:
             self.type |= CBinaryTarget.Type.nexus
 
     @property
-- 
2.43.0


From ee81c0e55ae7c8f2396760dfcefd4241074cc03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 130/146] fix: a NeXus program with a string parameter that has
 no default compiles

---
 src/mccode_antlr/translators/c_initialise.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index f2fa6bf..e62899a 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -101,6 +101,7 @@ def cogen_comp_init_position(index, comp, last, instr):
 
 def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     from ..common import Expr
+    from ..common.utilities import escape_str_for_c
 
     def parameter_line(default):
         # cogen_comp_init_par skipped any parameters which had "val" which evaluates False
@@ -150,6 +151,12 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
             pl.append(f'  {fullname} = {p.value if p.value.has_value else 0};')
         return '\n'.join(pl)
 
+    def nexus_value(value, is_str):
+        if not value.is_op and not value.first.has_value:
+            return '""'
+        # the value of a string is stored, any other value as its text
+        return f'{value:p}' if is_str else f'"{escape_str_for_c(f"{value:p}")}"'
+
     def nexus_lines():
         # If NeXus output is requested, add a group for this instance,
         # and loop over its parameter values, adding them to the group:
@@ -166,11 +173,9 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         # loop over component instance parameters and set their values in the NeXus group ...
         for default in comp.type.define + comp.type.setting:
             p = comp.get_parameter(default.name)
-            dstr = f'{default.value:p}'
-            vstr = f'{p.value:p}'
+            is_str = default.value.is_str or p.value.is_str
+            dstr, vstr = [nexus_value(x, is_str) for x in (default.value, p.value)]
             tstr = f'"{default.value.mccode_c_type}"'
-            if not (default.value.is_str or p.value.is_str):
-                dstr, vstr = [f'"{x}"' for x in (dstr, vstr)]
             lns.append(f'    mccomp_param_nexus(nxhandle, {gstr}, "{default.name}", {dstr}, {vstr}, {tstr});')
 
         return '\n'.join(lns + ['    );','    }','  }', '#endif'])
-- 
2.43.0


From 9beabda0898b44b503a204c95ad1fa3ac8f78f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 131/146] fix: a translator used again puts late libraries in
 the same place

---
 src/mccode_antlr/translators/c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index f35a8a6..d89b4fe 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -330,8 +330,11 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         self.info('Include runtime / list dependencies')
         if self.config.get('include_runtime'):
             # including a source can add the further libraries which it requests
-            for include in list(self.includes):
+            requested = list(self.includes)
+            for include in requested:
                 self.include_source(include)
+            # they come with the source whenever it is included: another translation starts without them
+            self.includes = requested
         else:
             for include in self.includes:
                 print(f'Dependency: {include.name}.o')
-- 
2.43.0


From facd4a3dd42ca514e8df14f2e137926b6522bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 132/146] fix: text of the user cannot end the header comment
 of the generated C

---
 src/mccode_antlr/translators/c_header.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 3d6632c..c9d23e9 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -85,14 +85,18 @@ def header_pre_runtime(
     mcgetstate = ', '.join(f'{t} {n}' for n, t in getstate_signature_members(is_mcstas).items())
     mcinitstate = ', '.join(setstate_signature_call(is_mcstas))
 
+    def in_comment(text):
+        # text from the user must not end the comment it is put in
+        return str(text).replace('*/', '* /')
+
     contents = dedent(f"""/* Automatically generated file. Do not edit.
      * Format:     ANSI C source code
      * Creator:    {runtime.get("fancy")} <{runtime.get("url")}>
      * Generator:  mccode-antlr {version()} <https://github.com/McStasMcXtrace/mccode-antlr.git>
-     * Instrument: {source.source} ({source.name})
+     * Instrument: {in_comment(source.source)} ({source.name})
      * Date: {datetime.now()}
-     * File: {config.get('output')}
-     * CFLAGS={' '.join(source.unique_flags)}
+     * File: {in_comment(config.get('output'))}
+     * CFLAGS={in_comment(' '.join(source.unique_flags))}
      */
 
     #ifndef WIN32
-- 
2.43.0


From ee9e6c422f0c1402bd00d42f19b24e84acdca521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 133/146] fix: sim files with different values of a parameter
 are not combined

---
 src/mccode_antlr/loader/simfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 7b1651b..dac20ef 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -192,6 +192,12 @@ class SimFileSimulation:
                 from loguru import logger
                 logger.warning('combining two simulations with the same seed is not statistically valid')
             return out
+        values = dict(p.partition('=')[::2] for p in self.Params)
+        for param in other.Params:
+            key, _, value = param.partition('=')
+            if values.get(key, value) != value:
+                # one can have more parameters than the other, but those in common must agree
+                raise RuntimeError(f'Incompatible values for parameter "{key}": {values[key]} and {value}')
         if other in self:
             return self
         elif self in other:
-- 
2.43.0


From 2bdcf8f80d2c67c9b175ee255773c9c062e32773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 134/146] fix: whether a remote file is available can be asked

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index fa89039..d6c0acb 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -179,7 +179,7 @@ class RemoteRegistry(Registry):
         return matches[0]
 
     def is_available(self, name: str, ext: str = None, exact: bool = True):
-        return self.pooch.registry_files(self.fullname(name, ext, exact))
+        return self.pooch.is_available(self.fullname(name, ext, exact))
 
     def path(self, name: str, ext: str = None, exact: bool = True) -> Path:
         return Path(self.pooch.fetch(self.fullname(name, ext, exact)))
-- 
2.43.0


From f71045c3dd641aee94fe121a453a23963fbb89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 135/146] fix: the listing of a remote registry is written
 completely or not at all

---
 src/mccode_antlr/reader/registry.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index d6c0acb..909f6f7 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -246,6 +246,7 @@ class GitHubRegistry(RemoteRegistry):
                 registry = {k: v for k, v in [x.strip().split(maxsplit=1) for x in file.readlines() if len(x)]}
         else:
             import requests
+            from uuid import uuid4
             # We allow a full-dictionary to be provided, otherwise we expect the registry file to be available from the
             # base_url where all subsequent files are also expected to be available
             if not isinstance(registry, dict):
@@ -255,8 +256,14 @@ class GitHubRegistry(RemoteRegistry):
                 registry = {k: v for k, v in [x.split(maxsplit=1) for x in r.text.split('\n') if len(x)]}
             # stash-away the registry file to be re-read next time
             registry_file_path.parent.mkdir(parents=True, exist_ok=True)
-            with registry_file_path.open('w') as file:
-                file.writelines('\n'.join([f'{k} {v}' for k, v in registry.items()]))
+            # complete, or not at all: the same file can be read at any time, and writing it can fail or be interrupted
+            temporary_path = registry_file_path.with_name(f'.{registry_file}.{uuid4().hex}')
+            try:
+                with temporary_path.open('w') as file:
+                    file.writelines('\n'.join([f'{k} {v}' for k, v in registry.items()]))
+                temporary_path.replace(registry_file_path)
+            finally:
+                temporary_path.unlink(missing_ok=True)
 
         self.pooch = pooch.create(
             path=cache_path,
-- 
2.43.0


From e8302adbe194d8b885b97bc8ab60889d284f7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 136/146] fix: the tag of a pre-release is not taken for the
 release

---
 src/mccode_antlr/reader/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 909f6f7..af2dda0 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -496,7 +496,8 @@ def _mccode_pooch_registries():
         import git
         g = git.cmd.Git()
         res = g.ls_remote(url, sort='-v:refname', tags=True)
-        ex = re.compile(r'v\d+(?:\.\d+(?:\.\d+)?)?')
+        # a whole tag: 'v3.6.0-rc1' does not say that there is a 'v3.6.0'
+        ex = re.compile(r'refs/tags/(v\d+(?:\.\d+(?:\.\d+)?)?)$', re.MULTILINE)
         return ex.findall(res)
 
     def source_registry_tag():
-- 
2.43.0


From b18c01c47a56936c36bf1f0500c1f9e383f46553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 137/146] fix: an expression does not hold an expression

---
 src/mccode_antlr/common/expression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 461d421..2e45507 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -1160,7 +1160,9 @@ ExprNode = Union[ExprNodeSingular, list[ExprNodeSingular]]
 
 class Expr:
     def __init__(self, expr: ExprNode):
-        self.expr = expr if isinstance(expr, list) else [expr]
+        expr = expr if isinstance(expr, list) else [expr]
+        # simplifying or evaluating a node can give an expression, which is not a node
+        self.expr = [y for x in expr for y in (x.expr if isinstance(x, Expr) else [x])]
 
     def __str__(self):
         return ','.join(str(x) for x in self.expr)
-- 
2.43.0


From 3fc83d17922c67038a9bea26a6364cd61b36e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 138/146] fix: elements of an array of pointers are pointers

---
 src/mccode_antlr/translators/c_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index c9d23e9..adb0c7e 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -62,7 +62,7 @@ def header_pre_runtime(
 
     # an array -- need to know how many elements we're copying
     setvar_void_array = '\n'.join(
-        [f'  if(!str_comp("{x.name}",name)){{memcpy(&(p->{x.name}), value, elements * sizeof({x.dtype})); rval=0;}}'
+        [f'  if(!str_comp("{x.name}",name)){{memcpy(&(p->{x.name}), value, elements * sizeof({x.dtype} {x.pointer or ""})); rval=0;}}'
          for x in uservars if x.is_array or x.is_pointer])
 
     restore = '\n'.join(
-- 
2.43.0


From 7cacacd4a5446fbeb2b24a2904be044edb895e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 139/146] fix: floor division by one rounds down, and divides
 identifiers

---
 src/mccode_antlr/common/expression.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 2e45507..85b073b 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -1031,10 +1031,6 @@ class Value:
         pdt = self.data_type // other.data_type
         if self.is_zero:
             return Value(0, DataType.int)
-        if other.is_value(1):
-            return Value.int(round(self.value))
-        if other.is_value(-1):
-            return -Value.int(round(self.value))
         if other.is_zero:
             raise RuntimeError('Division by zero!')
         if other.is_op or self.is_id or other.is_id:
-- 
2.43.0


From e8b95fcf20791682cf097c9515d75703d6063fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 140/146] fix: rounding an operation on an identifier of
 unknown type is kept

---
 src/mccode_antlr/common/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 85b073b..f941954 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -563,7 +563,7 @@ class BinaryOp(Op):
         return self.left == other.left and self.right == other.right
 
     def __round__(self, n=None):
-        return self if self.data_type.is_int else UnaryOp('round', self)
+        return UnaryOp('round', self)
 
     @property
     def is_scalar(self):
@@ -695,7 +695,7 @@ class UnaryOp(Op):
         return self.op == other.op and self.value == other.value
 
     def __round__(self, n=None):
-        return self if self.data_type.is_int else UnaryOp('round', self)
+        return UnaryOp('round', self)
 
     @property
     def is_scalar(self):
-- 
2.43.0


From 3866aa3638937d25b28ad9a06eee3588cfcd9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:54 +0000
Subject: [PATCH 141/146] fix: a vector which is given by an operation is not
 dropped

---
 src/mccode_antlr/translators/c_initialise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index e62899a..9a9897a 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -141,8 +141,8 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
             elif p.value.is_id:
                 pl.append(f'  {fullname} = {value};')
             else:
-                # it's a string (if not None), and should be an identifier that is a pointer to the data
-                pl.append(f'  {fullname} = {value if p.value.has_value else "NULL"};')
+                # it's a string (if not None), or an operation, and should be a pointer to the data
+                pl.append(f'  {fullname} = {value if p.value.is_op or p.value.has_value else "NULL"};')
         # elif p.value.is_a(Value.Type.symbol):
         #   symbol is not handled (yet) but should be initialized to zero
         elif p.value.is_id or p.value.is_op:
-- 
2.43.0


From af0a8b86597dd102e91d8b082219fe83d36cdc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 142/146] fix: numbers are read in every spelling of C

---
 src/mccode_antlr/common/visitor.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 380ce42..fbb4aa1 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -18,8 +18,19 @@ def visitExpressionUnaryPM(obj, ctx):
 def visitExpressionGrouping(obj, ctx):
     return Expr(UnaryOp('__group__', obj.visit(ctx.expr())))
 
+def _c_float(text):
+    """The value of a floating point literal as C reads it: single precision with the suffix f"""
+    from struct import pack, unpack
+    value = float(text.rstrip('fFlL'))
+    return unpack('f', pack('f', value))[0] if text[-1] in 'fF' else value
+
+def _c_int(text):
+    """The value of an integer literal as C reads it: decimal, octal, hexadecimal or binary, with any suffix"""
+    digits = text.replace("'", '').rstrip('uUlL')
+    return int(digits, 8 if digits.startswith('0') and digits.isdecimal() else 0)
+
 def visitExpressionFloat(obj, ctx):
-    return Expr.float(str(ctx.FloatingLiteral()))
+    return Expr.float(_c_float(str(ctx.FloatingLiteral())))
 
 def visitMember(obj, ctx):
     # the name of a struct member is never an instrument parameter
@@ -48,7 +59,7 @@ def visitExpressionIdentifier(obj, ctx):
     return Expr(Value(name, data_type=dat, object_type=obj))
 
 def visitExpressionInteger(obj, ctx):
-    return Expr.int(str(ctx.IntegerLiteral()))
+    return Expr.int(_c_int(str(ctx.IntegerLiteral())))
 
 def visitExpressionZero(obj, ctx):
     return Expr.int(0)
-- 
2.43.0


From fbdc514927b8efa7bd760a45d13f912afbc5967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 143/146] fix: text of the user is not markup in the HTML form

---
 src/mccode_antlr/common/textwrap.py | 8 +++++---
 src/mccode_antlr/instr/instance.py  | 6 +++---
 src/mccode_antlr/instr/instr.py     | 2 +-
 src/mccode_antlr/instr/jump.py      | 2 +-
 src/mccode_antlr/reader/registry.py | 2 +-
 5 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index d6cfe5a..d5db064 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -242,7 +242,7 @@ class HTMLWrapper(BaseWrapper):
         return '</details>'
 
     def block(self, name: str, content: str) -> str:
-        return '<br>'.join([self.bold(name) + ' %{' + self.hide(f'<pre>{content}</pre><br>') + '%} '])
+        return '<br>'.join([self.bold(name) + ' %{' + self.hide(f'<pre>{self.escape(content)}</pre><br>') + '%} '])
 
     def line(self, name: str, items: list[str], sep: str = ' ') -> str:
         return ''.join(self.wrap(f'<b>{name}</b> {sep.join(items)}')) + '<br>'
@@ -255,7 +255,9 @@ class HTMLWrapper(BaseWrapper):
 
     @staticmethod
     def metadata_group(name: str, mimetype: str, item: str, value: str) -> str:
-        return f'<b>{name}</b> <code>"{mimetype}"</code>" <var>{item}</var> %{{<pre>{value}</pre>%}}'
+        item = item if item[:1] == '"' else f'"{item}"'
+        mimetype, item, value = [HTMLWrapper.escape(x) for x in (mimetype, item, value)]
+        return f'<b>{name}</b> <code>&quot;{mimetype}&quot;</code> <var>{item}</var> %{{<pre>{value}</pre>%}}'
 
     @staticmethod
     def datatype(data_type: str) -> str:
@@ -267,7 +269,7 @@ class HTMLWrapper(BaseWrapper):
 
     @staticmethod
     def unit(unit: str) -> str:
-        return f'/{unit}'
+        return f'/{HTMLWrapper.escape(unit)}'
 
     def value(self, value: str) -> str:
         return f'<code>{self.escape(str(value))}</code>'
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index b636e10..6612ca3 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -55,7 +55,7 @@ class Instance:
         def rf(which, x, required=False):
             absolute = wrapper.bold('ABSOLUTE')
             relative = wrapper.bold('RELATIVE')
-            return _triplet_ref_str(wrapper.bold(which), x, absolute, relative, required)
+            return _triplet_ref_str(wrapper.bold(which), x, absolute, relative, required, wrapper.escape)
 
         # The "AT ..." statement is required even when it is "AT (0, 0, 0) ABSOLUTE"
         line += rf('AT', self.at_relative, required=True) + ' '
@@ -267,10 +267,10 @@ class Instance:
         return False
 
 
-def _triplet_ref_str(which, tr: Union[VectorReference, AnglesReference], absolute, relative, required=False):
+def _triplet_ref_str(which, tr: Union[VectorReference, AnglesReference], absolute, relative, required=False, escape=str):
     pos, ref = tr
     if isinstance(pos, tuple):
         pos = Vector(*pos)
     if pos.is_null() and ref is None and not required:
         return ''
-    return f'{which} {pos} {absolute if ref is None else f"{relative} {ref.name}"}'
+    return f'{which} {escape(str(pos))} {absolute if ref is None else f"{relative} {ref.name}"}'
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 21211ab..789ec71 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -60,7 +60,7 @@ class Instr:
             for flag in self.flags:
                 if not any(f' {flag} ' in f' {x} ' for x in flags):
                     flags.append(flag)
-            print(wrapper.quoted_line('DEPENDENCY ', flags), file=output)
+            print(wrapper.quoted_line('DEPENDENCY ', [wrapper.escape(flag) for flag in flags]), file=output)
 
         if self.declare:
             print(wrapper.block('DECLARE', _join_rawc_tuple(self.declare)), file=output)
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index ed68dc7..7a75237 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -20,7 +20,7 @@ class Jump:
         if abs(self.relative_target) > 1:
             jump_name += f' ({abs(self.relative_target)})'
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
-        print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
+        print(wrapper.line('JUMP', [jump_name, when_iter, wrapper.escape(str(self.condition))]), file=output)
 
     def copy(self):
         return Jump(self.target, self.relative_target, self.iterate, self.condition.copy(), self.absolute_target)
diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index af2dda0..2a2c16b 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -54,7 +54,7 @@ class Registry:
         return output.getvalue()
 
     def to_file(self, output, wrapper):
-        print('Registry<>', file=output)
+        print(wrapper.escape('Registry<>'), file=output)
 
     def known(self, name: str, ext: str = None, strict: bool = False):
         pass
-- 
2.43.0


From 848f2f69e8ec2cb9e624a16fcc9283ed25e23e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 144/146] fix: a compiler configured with a variable of the
 environment is found

---
 src/mccode_antlr/compiler/check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/compiler/check.py b/src/mccode_antlr/compiler/check.py
index cfed4b6..08c62c3 100644
--- a/src/mccode_antlr/compiler/check.py
+++ b/src/mccode_antlr/compiler/check.py
@@ -9,7 +9,7 @@ def check_for_mccode_antlr_compiler(path: str) -> bool:
     cc = config
     for key in path.split('/'):
         cc = cc[key]
-    cc = cc.get(str)
+    cc = cc.as_str_expanded()
 
     if not which(cc):
         logger.info(f"Compiler '{cc}' not found.")
-- 
2.43.0


From 036ca3f02b43da8301febf956084f0ea2ae9cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 145/146] fix: parts of combined sim files are compared whole

---
 src/mccode_antlr/loader/simfile.py | 42 +++++++++++++++++-------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index dac20ef..50b80b1 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -15,6 +15,12 @@ def read_keywords(lines: list[str], keywords: list[str], delim: str = None):
         yield value.strip()
 
 
+def _includes(text: str, other: str, delim: str = ' + ') -> bool:
+    """Whether all (combined) parts of `other` are parts of `text`, which is more than that it contains their characters"""
+    parts = text.split(delim)
+    return all(part in parts for part in other.split(delim) if part)
+
+
 @dataclass
 class SimFileHeader:
     description: str
@@ -39,7 +45,7 @@ class SimFileHeader:
     def __contains__(self, other):
         if not isinstance(other, SimFileHeader):
             raise RuntimeError(f"Cannot compare header with {other}")
-        return other.description in self.description and other.Date in self.Date and other.Program in self.Program
+        return _includes(self.description, other.description) and _includes(self.Date, other.Date) and _includes(self.Program, other.Program)
 
     def combine(self, other):
         if other in self:
@@ -47,9 +53,9 @@ class SimFileHeader:
         if self in other:
             return other
         # combine from the right, so self.description might already have other.description in it
-        desc = self.description if other.description in self.description else f'{self.description} + {other.description}'
-        date = self.Date if other.Date in self.Date else f"{self.Date} + {other.Date}"
-        program = self.Program if other.Program in self.Program else f"{self.Program} + {other.Program}"
+        desc = self.description if _includes(self.description, other.description) else f'{self.description} + {other.description}'
+        date = self.Date if _includes(self.Date, other.Date) else f"{self.Date} + {other.Date}"
+        program = self.Program if _includes(self.Program, other.Program) else f"{self.Program} + {other.Program}"
         return SimFileHeader(description=desc, Date=date, Program=program)
 
 
@@ -91,8 +97,8 @@ class SimFileInstrument:
     def __contains__(self, other):
         if not isinstance(other, SimFileInstrument):
             raise RuntimeError(f"Cannot compare instrument with {other}")
-        return other.name in self.name and other.File in self.File and other.Source in self.Source and \
-            other.Parameters in self.Parameters and other.Trace_enabled == self.Trace_enabled and \
+        return _includes(self.name, other.name) and _includes(self.File, other.File) and _includes(self.Source, other.Source) and \
+            _includes(self.Parameters, other.Parameters, ' ') and other.Trace_enabled == self.Trace_enabled and \
             other.Default_main == self.Default_main and other.Embedded_runtime == self.Embedded_runtime
 
     def combine(self, other):
@@ -101,9 +107,9 @@ class SimFileInstrument:
         if self in other:
             return other
         # combine from the right, so self.name might already have other.name in it
-        name = self.name if other.name in self.name else f'{self.name} + {other.name}'
-        file = self.File if other.File in self.File else f"{self.File} + {other.File}"
-        source = self.Source if other.Source in self.Source else f"{self.Source} + {other.Source}"
+        name = self.name if _includes(self.name, other.name) else f'{self.name} + {other.name}'
+        file = self.File if _includes(self.File, other.File) else f"{self.File} + {other.File}"
+        source = self.Source if _includes(self.Source, other.Source) else f"{self.Source} + {other.Source}"
         # parameters are a bit different in that we want their ordered union:
         pars = dict.fromkeys([p.strip() for p in self.Parameters.split(' ')])
         pars.update(dict.fromkeys([p.strip() for p in other.Parameters.split(' ')]))
@@ -169,10 +175,10 @@ class SimFileSimulation:
     def __contains__(self, other):
         if not isinstance(other, SimFileSimulation):
             raise RuntimeError(f"Cannot compare simulation with {other}")
-        return other.name in self.name and other.Format in self.Format and other.URL in self.URL and \
-            other.Creator in self.Creator and other.Instrument in self.Instrument and \
+        return _includes(self.name, other.name) and _includes(self.Format, other.Format) and _includes(self.URL, other.URL) and \
+            _includes(self.Creator, other.Creator) and _includes(self.Instrument, other.Instrument) and \
             other.Trace == self.Trace and other.Gravitation == self.Gravitation and \
-            other.Directory in self.Directory and all(p in self.Params for p in other.Params)
+            _includes(self.Directory, other.Directory) and all(p in self.Params for p in other.Params)
 
     def __eq__(self, other):
         if not isinstance(other, SimFileSimulation):
@@ -203,17 +209,17 @@ class SimFileSimulation:
         elif self in other:
             return other
         # combine from the right, so self.name might already have other.name in it
-        name = self.name if other.name in self.name else f'{self.name} + {other.name}'
-        format = self.Format if other.Format in self.Format else f"{self.Format} + {other.Format}"
-        url = self.URL if other.URL in self.URL else f"{self.URL} + {other.URL}"
-        creator = self.Creator if other.Creator in self.Creator else f"{self.Creator} + {other.Creator}"
-        instrument = self.Instrument if other.Instrument in self.Instrument else f"{self.Instrument} + {other.Instrument}"
+        name = self.name if _includes(self.name, other.name) else f'{self.name} + {other.name}'
+        format = self.Format if _includes(self.Format, other.Format) else f"{self.Format} + {other.Format}"
+        url = self.URL if _includes(self.URL, other.URL) else f"{self.URL} + {other.URL}"
+        creator = self.Creator if _includes(self.Creator, other.Creator) else f"{self.Creator} + {other.Creator}"
+        instrument = self.Instrument if _includes(self.Instrument, other.Instrument) else f"{self.Instrument} + {other.Instrument}"
         # TODO this is *not* a repeat. What do we do with the number of particles?
         ncount = min(self.Ncount, other.Ncount)
         trace = self.Trace and other.Trace
         gravitation = self.Gravitation and other.Gravitation
         seed = self.Seed if self.Seed == other.Seed else -1
-        directory = self.Directory if other.Directory in self.Directory else f"{self.Directory} + {other.Directory}"
+        directory = self.Directory if _includes(self.Directory, other.Directory) else f"{self.Directory} + {other.Directory}"
         params = dict.fromkeys(self.Params)
         params.update(dict.fromkeys(other.Params))
         params = list(params.keys())
-- 
2.43.0


From 3cd8c0535d888aff7712ba898680e643322cff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 146/146] fix: names of files are not patterns

---
 src/mccode_antlr/reader/registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 2a2c16b..ce70340 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import pooch
+from glob import escape
 from pathlib import Path
 from re import Pattern
 from mccode_antlr.version import version as mccode_antlr_version
@@ -304,11 +305,12 @@ class LocalRegistry(Registry):
     def _filetype_iterator(self, filetype: str):
         return self.root.glob(f'**/*.{filetype}')
 
+    # a name is not a pattern, even if it contains the special characters of one
     def _file_iterator(self, name: str):
-        return self.root.glob(f'**/{name}')
+        return self.root.glob(f'**/{escape(name)}')
 
     def _exact_file_iterator(self, name: str):
-        return self.root.glob(name)
+        return self.root.glob(escape(name))
 
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
-- 
2.43.0

