From 4cd10a8c83298172cd70fb0b9dd3ad3d155367dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 001/192] fix: Transform.to_euler_xyz extracts the intrinsic
 XYZ angles from_euler_xyz composes

---
 src/yapcad/kinematics/transform.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/kinematics/transform.py b/src/yapcad/kinematics/transform.py
index 5563a03..556c7e3 100644
--- a/src/yapcad/kinematics/transform.py
+++ b/src/yapcad/kinematics/transform.py
@@ -300,17 +300,17 @@ class Transform:
         """
         R = self.matrix[:3, :3]
 
-        # Extract angles using atan2 for robustness
-        sy = math.sqrt(R[0, 0] ** 2 + R[1, 0] ** 2)
-
-        if sy > 1e-6:
-            rx = math.atan2(R[2, 1], R[2, 2])
-            ry = math.atan2(-R[2, 0], sy)
-            rz = math.atan2(R[1, 0], R[0, 0])
+        # R = Rx @ Ry @ Rz, so R[0, 2] = sin(ry).  Extract angles using
+        # atan2 for robustness.
+        cy = math.sqrt(R[0, 0] ** 2 + R[0, 1] ** 2)
+        ry = math.atan2(R[0, 2], cy)
+
+        if cy > 1e-6:
+            rx = math.atan2(-R[1, 2], R[2, 2])
+            rz = math.atan2(-R[0, 1], R[0, 0])
         else:
-            # Gimbal lock
-            rx = math.atan2(-R[1, 2], R[1, 1])
-            ry = math.atan2(-R[2, 0], sy)
+            # Gimbal lock: only the combination of rx and rz is defined
+            rx = math.atan2(R[2, 1], R[1, 1])
             rz = 0
 
         return (
-- 
2.43.0


From 945edcbf0fd3fee86cfd6d2036a548b05b947942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 002/192] fix: DSL 'x = value' rebinds a visible variable
 instead of shadowing it

---
 src/yapcad/dsl/ast.py                 |  3 +++
 src/yapcad/dsl/checker.py             | 11 +++++++++++
 src/yapcad/dsl/parser.py              |  3 ++-
 src/yapcad/dsl/runtime/interpreter.py |  2 ++
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/ast.py b/src/yapcad/dsl/ast.py
index 0f85da2..c0f7fa5 100644
--- a/src/yapcad/dsl/ast.py
+++ b/src/yapcad/dsl/ast.py
@@ -329,6 +329,9 @@ class VarDecl(Statement):
     name: str
     type_annotation: Optional[TypeNode]
     initializer: Optional[Expression]
+    # True for a bare "x = value": rebinds x when it is already visible,
+    # declares it otherwise.
+    may_rebind: bool = False
 
 
 # Keep LetStatement as alias for backward compatibility during transition
diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 2584f2f..bbc046c 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -378,6 +378,17 @@ class TypeChecker:
         """Check a let statement."""
         init_type = self._check_expression(stmt.initializer)
 
+        if stmt.may_rebind:
+            existing = self.symbols.lookup(stmt.name)
+            if existing is not None and existing.kind in (SymbolKind.VARIABLE, SymbolKind.PARAMETER):
+                if not existing.type.is_assignable_from(init_type) and init_type != ERROR:
+                    self._error(
+                        f"Cannot assign '{init_type}' to variable of type '{existing.type}'",
+                        stmt.initializer.span,
+                        "E212"
+                    )
+                return
+
         if stmt.type_annotation is not None:
             declared_type = self._resolve_type_node(stmt.type_annotation)
             if not declared_type.is_assignable_from(init_type):
diff --git a/src/yapcad/dsl/parser.py b/src/yapcad/dsl/parser.py
index 457c7da..e0f4ed0 100644
--- a/src/yapcad/dsl/parser.py
+++ b/src/yapcad/dsl/parser.py
@@ -823,7 +823,8 @@ class Parser:
             span=self._span_from(start),
             name=name,
             type_annotation=None,
-            initializer=initializer
+            initializer=initializer,
+            may_rebind=True
         )
 
     def _parse_let_statement(self) -> LetStatement:
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3deb662..e91833a 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -320,6 +320,8 @@ class Interpreter:
     def _execute_let(self, stmt: LetStatement, ctx: ExecutionContext) -> None:
         """Execute a let statement."""
         value = self._evaluate(stmt.initializer, ctx)
+        if stmt.may_rebind and ctx.update_variable(stmt.name, value):
+            return
         ctx.set_variable(stmt.name, value)
 
     def _execute_assignment(self, stmt: AssignmentStatement, ctx: ExecutionContext) -> None:
-- 
2.43.0


From c25882b2101bb10032263d41ad8255b5e9b6d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 003/192] fix: DSL emit ends the command, as the language guide
 documents

---
 src/yapcad/dsl/runtime/interpreter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index e91833a..41f9a15 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -351,6 +351,7 @@ class Interpreter:
                 for key, expr in stmt.metadata.items():
                     metadata[key] = self._evaluate(expr, ctx).data
         ctx.set_emit(value, metadata)
+        ctx.signal_return(value)  # emit is a return: nothing after it runs
 
     def _execute_for(self, stmt: ForStatement, ctx: ExecutionContext) -> None:
         """Execute a for loop."""
-- 
2.43.0


From 895996c2c8724b2d8d27eb38805b63ab1fe8b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 004/192] fix: DSL and/or do not evaluate an operand the left
 one decides

---
 src/yapcad/dsl/runtime/interpreter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 41f9a15..fc5a119 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -569,17 +569,19 @@ class Interpreter:
     def _eval_binary_op(self, op: BinaryOp, ctx: ExecutionContext) -> Value:
         """Evaluate a binary operation."""
         left = self._evaluate(op.left, ctx)
-        right = self._evaluate(op.right, ctx)
 
-        # Short-circuit for logical operators
+        # Short-circuit for logical operators: the right operand is only
+        # evaluated when the left one does not decide the result
         if op.operator == TokenType.AND:
             if not left.is_truthy():
                 return bool_val(False)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
         elif op.operator == TokenType.OR:
             if left.is_truthy():
                 return bool_val(True)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
+
+        right = self._evaluate(op.right, ctx)
 
         # Arithmetic operators
         if op.operator == TokenType.PLUS:
-- 
2.43.0


From fae79cc4fe0b2dd1d450ce6d387832be27323ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 005/192] fix: DSL runtime errors such as division by zero
 become a failed result

---
 src/yapcad/dsl/runtime/interpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index fc5a119..3355e0d 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -178,6 +178,12 @@ class Interpreter:
                 error_message=str(e),
                 require_failures=ctx.require_failures,
             )
+        except Exception as e:
+            return ExecutionResult(
+                success=False,
+                error_message=f"{type(e).__name__}: {e}",
+                require_failures=ctx.require_failures,
+            )
 
         # Apply @meta(...) hint to the emitted solid (Phase 1c bridge).
         # The parser already merges all @meta decorators into
-- 
2.43.0


From 863166af3e85b7bfe089b632b8595271da87328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 006/192] fix: DSL contracts broken in a helper command fail
 the run, and require messages are text

---
 src/yapcad/dsl/runtime/interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3355e0d..87cfebc 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -340,7 +340,9 @@ class Interpreter:
         """Execute a require statement."""
         condition = self._evaluate(stmt.condition, ctx)
         if not condition.is_truthy():
-            message = stmt.message if stmt.message else "Constraint violated"
+            message = "Constraint violated"
+            if stmt.message is not None:
+                message = str(self._evaluate(stmt.message, ctx).data)
             ctx.add_require_failure(message)
 
     def _execute_emit(self, stmt: EmitStatement, ctx: ExecutionContext) -> None:
@@ -745,6 +747,8 @@ class Interpreter:
             # Create a new context for the command execution
             module_name = self.current_module.name if self.current_module else "unknown"
             cmd_ctx = create_context(module_name, command.name, param_dict, "")
+            # A contract broken in a helper fails the whole evaluation
+            cmd_ctx.require_failures = parent_ctx.require_failures
 
             # Execute the command body
             self._execute_command(command, cmd_ctx)
-- 
2.43.0


From f42d425697546f262faf6aaa84f2794f12f3cabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 007/192] fix: DSL calls honour named arguments mixed with
 positional ones, and defaults see earlier parameters

---
 src/yapcad/dsl/runtime/interpreter.py | 82 ++++++++++++++++++---------
 1 file changed, 55 insertions(+), 27 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 87cfebc..b51afbb 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -255,6 +255,8 @@ class Interpreter:
                 # Evaluate default value expression using temporary context
                 default_val = self._evaluate(param.default_value, temp_ctx)
                 wrapped[param.name] = default_val
+            if param.name in wrapped:
+                temp_ctx.set_variable(param.name, wrapped[param.name])
         return wrapped
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
@@ -684,28 +686,35 @@ class Interpreter:
         if self.current_module is not None:
             for cmd in self.current_module.commands:
                 if cmd.name == func_name:
-                    # Resolve named_arguments into positional order if present
-                    named = getattr(call, 'named_arguments', {})
-                    if named and not args:
-                        # Build positional arg list from named_arguments
-                        # matching command parameter order
-                        resolved = []
-                        for param in cmd.parameters:
-                            if param.name in named:
-                                resolved.append(self._evaluate(named[param.name], ctx))
-                            elif param.default_value is not None:
-                                resolved.append(self._evaluate(param.default_value, ctx))
-                            else:
-                                raise RuntimeError(
-                                    f"Command '{func_name}' missing required argument '{param.name}'"
-                                )
-                        args = resolved
-                    return self._call_command(cmd, args, ctx)
-
-        # Call the built-in function
+                    named = {
+                        name: self._evaluate(expr, ctx)
+                        for name, expr in getattr(call, 'named_arguments', {}).items()
+                    }
+                    return self._call_command(cmd, args, ctx, named)
+
+        # Call the built-in function, with named arguments put in position
+        named_exprs = dict(getattr(call, 'named_arguments', None) or {})
+        if named_exprs:
+            builtin = get_builtin_registry().get_function(func_name)
+            params = builtin.signature.params if builtin is not None else []
+            for param in params[len(args):]:
+                if param[0] not in named_exprs:
+                    break
+                args.append(self._evaluate(named_exprs.pop(param[0]), ctx))
+            if named_exprs:
+                raise RuntimeError(
+                    f"Function '{func_name}' cannot take named argument(s) "
+                    f"{', '.join(sorted(named_exprs))} here"
+                )
         return call_builtin(func_name, args)
 
-    def _call_command(self, command: Command, args: List[Value], parent_ctx: ExecutionContext) -> Value:
+    def _call_command(
+        self,
+        command: Command,
+        args: List[Value],
+        parent_ctx: ExecutionContext,
+        named: Optional[Dict[str, Value]] = None,
+    ) -> Value:
         """Call a command as a function from within another command."""
         # Check recursion depth limit
         self.call_depth += 1
@@ -723,7 +732,8 @@ class Interpreter:
             # Count required parameters (those without defaults)
             required_count = sum(1 for p in command.parameters if p.default_value is None)
 
-            if len(args) < required_count or len(args) > len(command.parameters):
+            named = named or {}
+            if not named and len(args) < required_count or len(args) > len(command.parameters):
                 if required_count == len(command.parameters):
                     raise RuntimeError(
                         f"Command '{command.name}' expects {len(command.parameters)} arguments, got {len(args)}"
@@ -737,12 +747,30 @@ class Interpreter:
             for param, arg in zip(command.parameters, args):
                 param_dict[param.name] = arg
 
-            # Fill in default values for missing parameters
-            for i in range(len(args), len(command.parameters)):
-                param = command.parameters[i]
-                if param.default_value is not None:
-                    default_val = self._evaluate(param.default_value, parent_ctx)
-                    param_dict[param.name] = default_val
+            # Fill in named arguments
+            for name, value in named.items():
+                if name in param_dict:
+                    raise RuntimeError(
+                        f"Command '{command.name}' got argument '{name}' twice"
+                    )
+                if all(p.name != name for p in command.parameters):
+                    raise RuntimeError(
+                        f"Command '{command.name}' has no parameter '{name}'"
+                    )
+                param_dict[name] = value
+
+            # Fill in default values for missing parameters.  A default sees
+            # the parameters before it, not the variables of the caller.
+            default_ctx = ExecutionContext()
+            default_ctx.require_failures = parent_ctx.require_failures
+            for param in command.parameters:
+                if param.name not in param_dict:
+                    if param.default_value is None:
+                        raise RuntimeError(
+                            f"Command '{command.name}' missing required argument '{param.name}'"
+                        )
+                    param_dict[param.name] = self._evaluate(param.default_value, default_ctx)
+                default_ctx.set_variable(param.name, param_dict[param.name])
 
             # Create a new context for the command execution
             module_name = self.current_module.name if self.current_module else "unknown"
-- 
2.43.0


From b5956e9a5ce9088df33286650ec622e4fdf24482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 008/192] fix: DSL lists that mix int and float hold floats,
 and an empty list fits any list type

---
 src/yapcad/dsl/runtime/interpreter.py | 24 ++++++++++++++++++++----
 src/yapcad/dsl/types.py               |  2 ++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index b51afbb..cf61fdd 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -602,7 +602,9 @@ class Interpreter:
                 combined = left.data + right.data
                 # Use the element type from the ListType, not from the data
                 # Create Value directly since combined contains raw data (not Value objects)
-                elem_type = left.type.element_type
+                elem_type = self._element_type(
+                    [v.type.element_type for v in (left, right) if v.data]
+                )
                 return Value(combined, ListType(elem_type))
             result = left.data + right.data
             if left.type == INT and right.type == INT:
@@ -878,8 +880,22 @@ class Interpreter:
             return list_val([], INT)  # Empty list, default to int
 
         values = [self._evaluate(elem, ctx) for elem in lst.elements]
-        elem_type = values[0].type if values else INT
-        return list_val(values, elem_type)
+        return list_val(values, self._element_type([v.type for v in values]))
+
+    @staticmethod
+    def _element_type(types: List[Type]) -> Type:
+        """Element type of a list holding values of the given types.
+
+        A list that mixes int and float holds floats; otherwise the first
+        element decides.
+        """
+        if not types:
+            return INT
+        result = types[0]
+        for other in types[1:]:
+            if result != other and other.is_assignable_from(result):
+                result = other
+        return result
 
     def _eval_list_comprehension(self, comp: ListComprehension, ctx: ExecutionContext) -> Value:
         """Evaluate a list comprehension with one or more for clauses.
@@ -911,7 +927,7 @@ class Interpreter:
             self._eval_comprehension_clauses(comp.clauses, comp.element_expr, ctx, results)
 
         if results:
-            return list_val(results, results[0].type)
+            return list_val(results, self._element_type([v.type for v in results]))
         return list_val([], INT)
 
     def _eval_comprehension_clauses(
diff --git a/src/yapcad/dsl/types.py b/src/yapcad/dsl/types.py
index 1b13200..9dd1acf 100644
--- a/src/yapcad/dsl/types.py
+++ b/src/yapcad/dsl/types.py
@@ -207,6 +207,8 @@ class ListType(Type):
     def is_assignable_from(self, other: "Type") -> bool:
         if not isinstance(other, ListType):
             return False
+        if isinstance(other.element_type, UnknownType):
+            return True  # the empty list literal fits any list type
         return self.element_type.is_assignable_from(other.element_type)
 
 
-- 
2.43.0


From dc27d202510477c4bd610a920e9f234a3b33aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 009/192] fix: DSL checker no longer crashes on a return
 statement

---
 src/yapcad/dsl/checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index bbc046c..806d292 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -550,8 +550,8 @@ class TypeChecker:
 
     def _check_return_statement(self, stmt: ReturnStatement) -> None:
         """Check a return statement (for Python blocks)."""
-        value_type = self._check_expression(stmt.value)
-        declared_type = self._resolve_type_node(stmt.return_type)
+        if stmt.value is not None:
+            self._check_expression(stmt.value)
 
         # The declared type is the bridge type - we trust the user's annotation
         # but flag it as requiring review
-- 
2.43.0


From 8be4c3a0fd731d26f881e3e9e70f96b9bdad5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 010/192] fix: DSL list parameters keep their element type

---
 src/yapcad/dsl/runtime/interpreter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index cf61fdd..5d034e6 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -224,6 +224,15 @@ class Interpreter:
             provenance=provenance,
         )
 
+    @staticmethod
+    def _annotated_type(node: Any) -> Optional[Type]:
+        """Type named by a parameter annotation, including list<T>."""
+        type_args = getattr(node, "type_args", None)
+        if node.name == "list" and type_args and hasattr(type_args[0], "name"):
+            elem_type = Interpreter._annotated_type(type_args[0])
+            return ListType(elem_type if elem_type is not None else FLOAT)
+        return resolve_type_name(node.name)
+
     def _wrap_parameters(self, command: Command, parameters: Dict[str, Any]) -> Dict[str, Value]:
         """Wrap raw parameter values as DSL Values."""
         wrapped = {}
@@ -237,7 +246,7 @@ class Interpreter:
                 raw_value = parameters[param.name]
                 # Handle optional type annotations (new Pythonic syntax)
                 if param.type_annotation is not None and hasattr(param.type_annotation, 'name'):
-                    param_type = resolve_type_name(param.type_annotation.name)
+                    param_type = self._annotated_type(param.type_annotation)
                 else:
                     # Infer type from the raw value
                     if isinstance(raw_value, bool):
-- 
2.43.0


From 732f751a8d909bc5ac06b418c3a51e6cccbe7936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 011/192] fix: DSL checker rejects iteration over a scalar

---
 src/yapcad/dsl/checker.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 806d292..946925a 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -489,10 +489,8 @@ class TypeChecker:
         # Determine element type from iterable
         if isinstance(iterable_type, ListType):
             elem_type = iterable_type.element_type
-        elif isinstance(iterable_type, RangeExpr):
-            elem_type = INT
         else:
-            # Range expressions parsed as RangeExpr, check for int range
+            self._check_iterable(iterable_type, stmt.iterable)
             elem_type = INT  # Assume numeric iteration
 
         # Create new scope for loop body
@@ -513,6 +511,15 @@ class TypeChecker:
 
     # NOTE: _check_while_statement removed - while loops not supported for static verifiability
 
+    def _check_iterable(self, iterable_type: Type, expr: Expression) -> None:
+        """Reject iteration over a scalar, which can only fail at run time."""
+        if isinstance(iterable_type, PrimitiveType):
+            self._error(
+                f"Cannot iterate over '{iterable_type}'",
+                expr.span,
+                "E222"
+            )
+
     def _check_if_statement(self, stmt: IfStatement) -> None:
         """Check a block-level if statement."""
         cond_type = self._check_expression(stmt.condition)
@@ -1059,6 +1066,7 @@ class TypeChecker:
             if isinstance(iterable_type, ListType):
                 iter_elem_type = iterable_type.element_type
             else:
+                self._check_iterable(iterable_type, clause.iterable)
                 iter_elem_type = INT  # Assume range
 
             # Define the loop variable for this clause
-- 
2.43.0


From c35edc1857ffe19fb3733ff7c8f9c8e99999d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 012/192] fix: DSL checker checks the number and names of
 command call arguments

---
 src/yapcad/dsl/checker.py | 45 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 946925a..00fbfcb 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -83,6 +83,8 @@ class TypeChecker:
         self._call_graph: Dict[str, set] = {}
         # Set of command names (to distinguish from builtins/native functions)
         self._command_names: set = set()
+        # Command definitions by name, for checking calls
+        self._commands: Dict[str, Command] = {}
 
     def check(self, module: Module) -> CheckResult:
         """Type check a complete module."""
@@ -113,6 +115,7 @@ class TypeChecker:
         for command in module.commands:
             self._register_command(command)
             self._command_names.add(command.name)
+            self._commands.setdefault(command.name, command)
             self._call_graph[command.name] = set()
 
         # Third pass: check command/function bodies (populates call graph)
@@ -818,6 +821,9 @@ class TypeChecker:
                                     arg.span,
                                     "E274"
                                 )
+                command = self._commands.get(callee_name)
+                if command is not None:
+                    self._check_command_arguments(command, func_type, expr)
                 return func_type.return_type
             return UNKNOWN
 
@@ -828,6 +834,45 @@ class TypeChecker:
         )
         return ERROR
 
+    def _check_command_arguments(self, command: Command, func_type: FunctionType,
+                                 expr: FunctionCall) -> None:
+        """Check the number and the names of the arguments of a command call."""
+        params = command.parameters
+        count = len(expr.arguments)
+        if count > len(params):
+            self._error(
+                f"Command '{command.name}' takes at most {len(params)} arguments, got {count}",
+                expr.span,
+                "E275"
+            )
+        positions = {param.name: i for i, param in enumerate(params)}
+        for name, arg in expr.named_arguments.items():
+            arg_type = self._check_expression(arg)
+            index = positions.get(name)
+            if index is None or index < count:
+                reason = "has no parameter" if index is None else "already got argument"
+                self._error(
+                    f"Command '{command.name}' {reason} '{name}'",
+                    arg.span,
+                    "E276"
+                )
+                continue
+            param_type = func_type.param_types[index]
+            if param_type != UNKNOWN and not param_type.is_assignable_from(arg_type):
+                if arg_type != ERROR:
+                    self._error(
+                        f"Argument '{name}' expects '{param_type}', got '{arg_type}'",
+                        arg.span,
+                        "E274"
+                    )
+        for param in params[count:]:
+            if param.default_value is None and param.name not in expr.named_arguments:
+                self._error(
+                    f"Command '{command.name}' missing required argument '{param.name}'",
+                    expr.span,
+                    "E275"
+                )
+
     def _check_builtin_call(self, sig: FunctionSignature, expr: FunctionCall) -> Type:
         """Check a call to a built-in function."""
         # Check argument count
-- 
2.43.0


From 4c957707422a24190d3f8db48a80b5486c664b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 013/192] fix: DSL block comments and triple-quoted strings no
 longer break the layout of the line they are on

---
 src/yapcad/dsl/lexer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/lexer.py b/src/yapcad/dsl/lexer.py
index f7e1fec..90e966e 100644
--- a/src/yapcad/dsl/lexer.py
+++ b/src/yapcad/dsl/lexer.py
@@ -178,10 +178,12 @@ class Lexer:
         if self._peek() == '#':
             self._skip_comment()
             return None
-        if self._peek() == '/' and self._peek(1) == '*':
+        while self._peek() == '/' and self._peek(1) == '*':
             self._skip_multiline_comment()
-            # After multiline comment, check if we're at line start again
-            return None
+            self._skip_whitespace_within_line()
+            # A comment alone on its line(s) does not affect indentation
+            if self._peek() in '\n\0#':
+                return None
 
         self.at_line_start = False
 
@@ -274,6 +276,8 @@ class Lexer:
                 self._advance()
                 self._advance()
                 value = ''.join(chars)
+                # Newlines inside the literal do not end the logical line
+                self.at_line_start = False
                 return self._make_token(TokenType.STRING_LITERAL, value, start)
 
             ch = self._peek()
@@ -478,7 +482,11 @@ class Lexer:
             if self._peek() == '#':
                 self._skip_comment()
             else:
+                # A comment that spans lines does not end the logical line
+                mid_line = not self.at_line_start
                 self._skip_multiline_comment()
+                if mid_line:
+                    self.at_line_start = False
             self._skip_whitespace_within_line()
 
         # Check for newline
-- 
2.43.0


From bc10e086b3e6027a58bfee38b397ff6257bae156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 014/192] fix: DSL checker rejects list concatenation of unlike
 elements, types nested empty lists, and checks every argument of variadic and
 named builtin calls

---
 src/yapcad/dsl/checker.py | 30 +++++++++++++++++++++++++-----
 src/yapcad/dsl/types.py   |  9 +++++++++
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 00fbfcb..278cf96 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -697,8 +697,7 @@ class TypeChecker:
                 elem_common = common_type(left_type.element_type, right_type.element_type)
                 if elem_common is not None:
                     return make_list_type(elem_common)
-                # If no common type, use left element type
-                return left_type
+                # Otherwise the concatenation is an error, reported below
 
             if left_type != ERROR and right_type != ERROR:
                 self._error(
@@ -900,17 +899,38 @@ class TypeChecker:
                             arg.span,
                             "E272"
                         )
+            elif sig.is_variadic and sig.params:
+                # Further arguments repeat the last parameter
+                param_name, param_type, _ = sig.params[-1]
+                if not (param_type == UNKNOWN
+                        or param_type.is_assignable_from(arg_type)
+                        or make_list_type(param_type).is_assignable_from(arg_type)):
+                    if arg_type != ERROR:
+                        self._error(
+                            f"Argument '{param_name}' expects '{param_type}', "
+                            f"got '{arg_type}'",
+                            arg.span,
+                            "E272"
+                        )
 
         # Check named arguments
-        param_names = {p[0] for p in sig.params}
+        param_types = {p[0]: p[1] for p in sig.params}
         for name, arg in expr.named_arguments.items():
             arg_type = self._check_expression(arg)
-            if name not in param_names:
+            if name not in param_types:
                 self._error(
                     f"Unknown parameter '{name}' for function '{sig.name}'",
                     arg.span,
                     "E273"
                 )
+            elif (param_types[name] != UNKNOWN and arg_type != ERROR
+                    and not param_types[name].is_assignable_from(arg_type)):
+                self._error(
+                    f"Argument '{name}' expects '{param_types[name]}', "
+                    f"got '{arg_type}'",
+                    arg.span,
+                    "E272"
+                )
 
         # Infer return type for list functions based on argument types
         return_type = sig.return_type
@@ -1077,7 +1097,7 @@ class TypeChecker:
 
         for i, elem in enumerate(expr.elements[1:], start=1):
             t = self._check_expression(elem)
-            if not elem_type.is_assignable_from(t):
+            if isinstance(t, ListType) or not elem_type.is_assignable_from(t):
                 ct = common_type(elem_type, t)
                 if ct is not None:
                     elem_type = ct
diff --git a/src/yapcad/dsl/types.py b/src/yapcad/dsl/types.py
index 9dd1acf..dac9959 100644
--- a/src/yapcad/dsl/types.py
+++ b/src/yapcad/dsl/types.py
@@ -491,6 +491,15 @@ def common_type(t1: Type, t2: Type) -> Optional[Type]:
 
     Returns None if no common type exists.
     """
+    # Lists: the common type of the elements; an empty list takes the other's
+    if isinstance(t1, ListType) and isinstance(t2, ListType):
+        if isinstance(t1.element_type, UnknownType):
+            return t2
+        if isinstance(t2.element_type, UnknownType):
+            return t1
+        element = common_type(t1.element_type, t2.element_type)
+        return None if element is None else make_list_type(element)
+
     if t1.is_assignable_from(t2):
         return t1
     if t2.is_assignable_from(t1):
-- 
2.43.0


From eb7a1d74aadcbda1408e90c8459bbec8efb02ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 015/192] fix: DSL runs report bad, missing or failing
 parameters and @meta hints as a failed result

---
 src/yapcad/dsl/runtime/interpreter.py | 91 +++++++++++++++++++--------
 1 file changed, 66 insertions(+), 25 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 5d034e6..ca29e16 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -4,6 +4,7 @@ Tree-walking interpreter for DSL execution.
 Evaluates AST nodes to produce geometry and other values.
 """
 
+import numbers
 import os
 from dataclasses import dataclass, field
 from typing import Any, Dict, List, Optional, Callable, Union
@@ -158,20 +159,27 @@ class Interpreter:
                 error_message=f"Command '{command_name}' not found in module '{module.name}'"
             )
 
-        # Wrap parameters as Values
-        wrapped_params = self._wrap_parameters(command, parameters)
-
         # Create execution context
         ctx = create_context(
             module_name=module.name,
             command_name=command_name,
-            parameters=wrapped_params,
+            parameters={},
             source=source,
         )
 
-        # Execute the command body
+        # Bind the parameters and execute the command body
         try:
+            wrapped_params = self._wrap_parameters(command, parameters, ctx)
+            ctx.parameters = {k: v.data for k, v in wrapped_params.items()}
             self._execute_command(command, ctx)
+
+            # Apply @meta(...) hint to the emitted solid (Phase 1c bridge).
+            # The parser already merges all @meta decorators into
+            # ``command.meta_hint`` (a flat dict). meta_apply.apply_meta_hint
+            # dispatches each key to the right ``yapcad.metadata`` helper,
+            # which is what downstream consumers (add_part datum lifting,
+            # mechatron_export) read.
+            self._apply_command_meta_hint(command, ctx)
         except RuntimeError as e:
             return ExecutionResult(
                 success=False,
@@ -185,14 +193,6 @@ class Interpreter:
                 require_failures=ctx.require_failures,
             )
 
-        # Apply @meta(...) hint to the emitted solid (Phase 1c bridge).
-        # The parser already merges all @meta decorators into
-        # ``command.meta_hint`` (a flat dict). meta_apply.apply_meta_hint
-        # dispatches each key to the right ``yapcad.metadata`` helper,
-        # which is what downstream consumers (add_part datum lifting,
-        # mechatron_export) read.
-        self._apply_command_meta_hint(command, ctx)
-
         # Build provenance
         provenance = create_provenance(
             module_name=module.name,
@@ -233,13 +233,45 @@ class Interpreter:
             return ListType(elem_type if elem_type is not None else FLOAT)
         return resolve_type_name(node.name)
 
-    def _wrap_parameters(self, command: Command, parameters: Dict[str, Any]) -> Dict[str, Value]:
-        """Wrap raw parameter values as DSL Values."""
-        wrapped = {}
+    @staticmethod
+    def _fit_parameter(name: str, param_type: Optional[Type], value: Any) -> Any:
+        """Check a caller's value against the declared scalar or list type."""
+        is_number = isinstance(value, numbers.Real) and not isinstance(value, bool)
+        if isinstance(param_type, ListType):
+            fits = isinstance(value, (list, tuple))
+            if fits:
+                value = [
+                    Interpreter._fit_parameter(f"{name}[{i}]", param_type.element_type, item)
+                    for i, item in enumerate(value)
+                ]
+        elif param_type == INT:
+            fits = is_number and (
+                isinstance(value, numbers.Integral) or float(value).is_integer()
+            )
+            if fits:
+                value = int(value)
+        elif param_type == FLOAT:
+            fits = is_number
+        elif param_type == BOOL:
+            fits = isinstance(value, bool)
+        elif param_type == STRING:
+            fits = isinstance(value, str)
+        else:
+            fits = True  # geometry is checked where it is used
+        if not fits:
+            raise RuntimeError(
+                f"Parameter '{name}' expects '{param_type}', got {type(value).__name__} {value!r}"
+            )
+        return value
 
-        # Create a temporary context for evaluating default values
-        from .context import ExecutionContext
-        temp_ctx = ExecutionContext()
+    def _wrap_parameters(
+        self,
+        command: Command,
+        parameters: Dict[str, Any],
+        ctx: ExecutionContext,
+    ) -> Dict[str, Value]:
+        """Wrap raw parameter values as DSL Values and bind them in ``ctx``."""
+        wrapped = {}
 
         for param in command.parameters:
             if param.name in parameters:
@@ -247,6 +279,7 @@ class Interpreter:
                 # Handle optional type annotations (new Pythonic syntax)
                 if param.type_annotation is not None and hasattr(param.type_annotation, 'name'):
                     param_type = self._annotated_type(param.type_annotation)
+                    raw_value = self._fit_parameter(param.name, param_type, raw_value)
                 else:
                     # Infer type from the raw value
                     if isinstance(raw_value, bool):
@@ -261,11 +294,13 @@ class Interpreter:
                         param_type = FLOAT  # Default fallback
                 wrapped[param.name] = wrap_value(raw_value, param_type)
             elif param.default_value is not None:
-                # Evaluate default value expression using temporary context
-                default_val = self._evaluate(param.default_value, temp_ctx)
-                wrapped[param.name] = default_val
-            if param.name in wrapped:
-                temp_ctx.set_variable(param.name, wrapped[param.name])
+                # A default is evaluated where the earlier parameters are bound
+                wrapped[param.name] = self._evaluate(param.default_value, ctx)
+            else:
+                raise RuntimeError(
+                    f"Missing required parameter '{param.name}' for command '{command.name}'"
+                )
+            ctx.set_variable(param.name, wrapped[param.name])
         return wrapped
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
@@ -1178,7 +1213,13 @@ def compile_and_run(
         )
 
     # Type check
-    check_result = check(module)
+    try:
+        check_result = check(module)
+    except Exception as e:
+        return ExecutionResult(
+            success=False,
+            error_message=f"Type check error: {type(e).__name__}: {e}",
+        )
     if check_result.has_errors:
         error_msgs = [str(d) for d in check_result.diagnostics if d.severity.name == 'ERROR']
         return ExecutionResult(
-- 
2.43.0


From ac849ccea8bed7b0da309586c1356d56c2440d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 016/192] fix: @meta hints tag only the emitted solid, do not
 share values and are idempotent

---
 src/yapcad/dsl/meta_apply.py          | 18 ++++++++++--------
 src/yapcad/dsl/runtime/interpreter.py |  5 +++++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/dsl/meta_apply.py b/src/yapcad/dsl/meta_apply.py
index e7e4d1e..4990066 100644
--- a/src/yapcad/dsl/meta_apply.py
+++ b/src/yapcad/dsl/meta_apply.py
@@ -60,7 +60,8 @@ the field so callers can fall back to the Python helpers.
 
 from __future__ import annotations
 
-from typing import Any, Dict, List, Optional
+import copy
+from typing import Any, Dict
 
 from yapcad.metadata import (
     get_solid_metadata,
@@ -73,6 +74,7 @@ from yapcad.metadata import (
     add_datum,
     add_surface,
     add_keepout,
+    add_tags,
 )
 
 # ---------------------------------------------------------------------------
@@ -126,6 +128,9 @@ def _apply_assembly_list_field(
             )
         try:
             helper(meta, **entry)
+            entries = get_assembly_metadata(meta)[field]
+            if entries[-1] in entries[:-1]:
+                entries.pop()  # the same hint was applied before
         except TypeError as exc:
             # Surface a more helpful message than "got an unexpected keyword
             # argument" — helps DSL authors find the typo'd key fast.
@@ -221,11 +226,8 @@ def _apply_root(meta: Dict[str, Any], field: str, value: Any) -> None:
         root["layer"] = str(value)
     elif field == "tags":
         # Append a single tag string or extend with a list
-        tags: List[str] = root.setdefault("tags", [])
-        if isinstance(value, list):
-            tags.extend(str(t) for t in value)
-        else:
-            tags.append(str(value))
+        values = value if isinstance(value, list) else [value]
+        add_tags(root, [str(t) for t in values])
     else:
         # Free-form root field — store verbatim
         root[field] = value
@@ -269,7 +271,7 @@ def apply_meta_hint(solid: list, meta_hint: Dict[str, Any]) -> None:
     # Get or create the metadata dict for this solid
     meta = get_solid_metadata(solid, create=True)
 
-    for key, value in meta_hint.items():
+    for key, value in copy.deepcopy(meta_hint).items():
         if not isinstance(key, str) or not key:
             continue  # skip malformed keys silently
 
@@ -300,7 +302,7 @@ def apply_meta_hint_to_raw(meta: Dict[str, Any], meta_hint: Dict[str, Any]) -> N
     if not isinstance(meta_hint, dict):
         raise TypeError(f"meta_hint must be a dict, got {type(meta_hint).__name__}")
 
-    for key, value in meta_hint.items():
+    for key, value in copy.deepcopy(meta_hint).items():
         if not isinstance(key, str) or not key:
             continue
 
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index ca29e16..44fc8f5 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -4,6 +4,7 @@ Tree-walking interpreter for DSL execution.
 Evaluates AST nodes to produce geometry and other values.
 """
 
+import copy
 import numbers
 import os
 from dataclasses import dataclass, field
@@ -339,7 +340,11 @@ class Interpreter:
             return
         if not isinstance(data, list) or not issolid(data):
             return
+        # The hint belongs to the solid this command emits: a solid that was
+        # passed in and is emitted again stays as the caller knows it.
+        data = [*data[:4], *copy.deepcopy(data[4:])]
         apply_meta_hint(data, meta_hint)
+        ctx.emit_result.value = wrap_value(data, emitted.type)
 
     def _execute_statement(self, stmt: Statement, ctx: ExecutionContext) -> None:
         """Execute a statement."""
-- 
2.43.0


From 1e89be92f6d096194230fe47bf3898da02c55a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 017/192] fix: package validation reports malformed manifests
 instead of raising

Every referenced file must be inside the package, exist and match its recorded
hash (with whichever algorithm recorded it); non-mapping sections and entries
become errors rather than AttributeError/KeyError/TypeError.
---
 src/yapcad/package/validator.py | 91 +++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 34 deletions(-)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 5d09164..1368a66 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -13,18 +13,29 @@ from .core import PackageManifest, _compute_hash
 VALID_SOURCE_TYPES = {"standard", "vendor", "custom", "tested"}
 
 
-def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]:
-    messages: List[str] = []
-    if not path.exists():
-        messages.append(f"ERROR: missing file {path}")
-        return False, messages
-    actual_hash = _compute_hash(path)
-    if expected_hash and expected_hash.lower() != actual_hash.lower():
-        messages.append(
+def _check_file(root: Path, entry: Any, label: str) -> Tuple[bool, List[str]]:
+    """Check one file reference of the manifest: inside the package, present, unchanged."""
+    rel = entry.get("path") if isinstance(entry, dict) else None
+    if not isinstance(rel, str) or not rel:
+        return False, [f"ERROR: {label} entry has no path"]
+    path = root / rel
+    if not path.resolve().is_relative_to(root.resolve()):
+        return False, [f"ERROR: {label} path {rel} is outside the package"]
+    if not path.is_file():
+        return False, [f"ERROR: missing file {path}"]
+    expected_hash = entry.get("hash")
+    if expected_hash is None:
+        return True, []
+    algorithm = str(expected_hash).lower().partition(":")[0]
+    try:
+        actual_hash = _compute_hash(path, algorithm)
+    except (ValueError, TypeError):
+        return False, [f"ERROR: unsupported hash {expected_hash} for {path}"]
+    if str(expected_hash).lower() != actual_hash.lower():
+        return False, [
             f"ERROR: hash mismatch for {path} (expected {expected_hash}, got {actual_hash})"
-        )
-        return False, messages
-    return True, messages
+        ]
+    return True, []
 
 
 def _validate_material(mat_id: str, mat_def: Dict[str, Any], strict: bool) -> Tuple[bool, List[str]]:
@@ -38,24 +49,34 @@ def _validate_material(mat_id: str, mat_def: Dict[str, Any], strict: bool) -> Tu
         messages.append(f"ERROR: material '{mat_id}' missing required 'source' field")
         return False, messages
 
+    if not isinstance(source, dict):
+        messages.append(f"ERROR: material '{mat_id}' 'source' must be a dictionary")
+        return False, messages
+
     source_type = source.get("type")
     if not source_type:
         messages.append(f"ERROR: material '{mat_id}' missing required 'source.type' field")
         ok = False
-    elif source_type not in VALID_SOURCE_TYPES:
+    elif not isinstance(source_type, str) or source_type not in VALID_SOURCE_TYPES:
         messages.append(f"ERROR: material '{mat_id}' has invalid source.type '{source_type}'")
         ok = False
     else:
         # Validate source type-specific fields
         if source_type == "standard":
-            std = source.get("standard", {})
+            std = source.get("standard") or {}
+            if not isinstance(std, dict):
+                messages.append(f"ERROR: material '{mat_id}' source.standard must be a dictionary")
+                return False, messages
             if not std.get("body"):
                 messages.append(f"WARNING: material '{mat_id}' (type=standard) missing source.standard.body")
             if not std.get("designation"):
                 messages.append(f"WARNING: material '{mat_id}' (type=standard) missing source.standard.designation")
 
     # Validate visual properties if present
-    visual = mat_def.get("visual", {})
+    visual = mat_def.get("visual") or {}
+    if not isinstance(visual, dict):
+        messages.append(f"ERROR: material '{mat_id}' visual must be a dictionary")
+        return False, messages
     color = visual.get("color")
     if color:
         if not isinstance(color, list) or len(color) != 3:
@@ -115,21 +136,22 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
         return False, [f"ERROR: failed to load manifest: {exc}"]
 
     data = manifest.data
+    if not isinstance(data, dict):
+        return False, ["ERROR: manifest is not a mapping"]
     if data.get("schema") != "ycpkg-spec-v0.1":
         messages.append(f"ERROR: unsupported package schema {data.get('schema')}")
 
     # Geometry primary
-    try:
-        primary_path = manifest.geometry_primary_path()
-    except Exception as exc:
-        messages.append(f"ERROR: geometry.primary missing: {exc}")
+    geometry = data.get("geometry")
+    if not isinstance(geometry, dict) or not geometry.get("primary"):
+        messages.append("ERROR: geometry.primary missing")
         return False, messages
 
-    ok, file_messages = _check_file(primary_path, data.get("geometry", {}).get("primary", {}).get("hash"))
+    ok, file_messages = _check_file(manifest.root, geometry["primary"], "geometry.primary")
     messages.extend(file_messages)
     if ok:
         try:
-            with primary_path.open("r", encoding="utf-8") as fp:
+            with manifest.geometry_primary_path().open("r", encoding="utf-8") as fp:
                 doc = json.load(fp)
             geometry_from_json(doc)
         except Exception as exc:
@@ -138,22 +160,23 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
 
     overall_ok = ok and not any(msg.startswith("ERROR") for msg in messages)
 
-    # Derived geometry
-    derived_entries = data.get("geometry", {}).get("derived", []) or []
-    for entry in derived_entries:
-        derived_path = manifest.root / entry["path"]
-        ok_entry, msgs = _check_file(derived_path, entry.get("hash"))
-        messages.extend(msgs)
-        overall_ok = overall_ok and ok_entry
-
-    # Exports and attachments
-    for section in ("exports", "attachments"):
-        for entry in data.get(section, []) or []:
-            file_path = manifest.root / entry["path"]
-            ok_entry, msgs = _check_file(file_path, entry.get("hash"))
+    # Derived geometry, exports and attachments
+    for section, entries in (
+        ("geometry.derived", geometry.get("derived")),
+        ("exports", data.get("exports")),
+        ("attachments", data.get("attachments")),
+    ):
+        entries = entries or []
+        if not isinstance(entries, list):
+            messages.append(f"ERROR: {section} must be a list")
+            overall_ok = False
+            continue
+        for entry in entries:
+            ok_entry, msgs = _check_file(manifest.root, entry, section)
             messages.extend(msgs)
             overall_ok = overall_ok and ok_entry
-            if strict and entry.get("hash") is None:
+            if (strict and section != "geometry.derived"
+                    and isinstance(entry, dict) and entry.get("hash") is None):
                 messages.append(f"WARNING: {section} entry {entry.get('id')} missing hash")
 
     # Materials validation
-- 
2.43.0


From a9917fc34249e5be42a9fc35a4fcf10d07794267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 018/192] fix: keep .ycpkg manifests consistent: atomic save,
 one entry per file

set_material() metadata no longer breaks package creation, an interrupted or
failed save keeps the previous manifest, add_geometry_file rejects unknown
categories and destinations outside the package before copying, and a file
recorded again under another category drops its stale entry.
---
 src/yapcad/package/core.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 04dba65..3d8f025 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -6,6 +6,7 @@ import datetime as _dt
 import hashlib
 import shutil
 import json
+import os
 import uuid
 from dataclasses import dataclass, field
 from pathlib import Path
@@ -64,6 +65,8 @@ def _collect_material_refs(entities: Iterable[list]) -> List[str]:
         else:
             continue
         mat_ref = meta.get("material")
+        if isinstance(mat_ref, dict):  # material block written by set_material()
+            mat_ref = mat_ref.get("name")
         if mat_ref and mat_ref not in seen:
             refs.append(mat_ref)
             seen.add(mat_ref)
@@ -120,8 +123,11 @@ class PackageManifest:
         self.root.mkdir(parents=True, exist_ok=True)
         import yaml
 
-        with self.manifest_path.open("w", encoding="utf-8") as fp:
+        # write aside and rename, so that an interrupted save keeps the old manifest
+        tmp_path = self.manifest_path.with_name(self.manifest_name + ".tmp")
+        with tmp_path.open("w", encoding="utf-8") as fp:
             yaml.safe_dump(self.data, fp, sort_keys=False)
+        os.replace(tmp_path, self.manifest_path)
 
     def recompute_hashes(self, *, algorithm: str = "sha256") -> None:
         geom = self.data.get("geometry", {})
@@ -265,18 +271,20 @@ def add_geometry_file(
     src_path = Path(source)
     if not src_path.exists():
         raise FileNotFoundError(f"geometry source not found: {src_path}")
+    if category not in ("derived", "attachments"):
+        raise ValueError(f"unsupported category for geometry file: {category}")
 
     if dest_relative is None:
         if category == "derived":
             dest_relative_path = Path("geometry") / "derived" / src_path.name
-        elif category == "attachments":
-            dest_relative_path = Path("attachments") / src_path.name
         else:
-            dest_relative_path = Path(src_path.name)
+            dest_relative_path = Path("attachments") / src_path.name
     else:
         dest_relative_path = Path(dest_relative)
         if dest_relative_path.is_absolute():
             raise ValueError("dest_relative must be a relative path")
+        if ".." in dest_relative_path.parts:
+            raise ValueError("dest_relative must stay inside the package")
 
     dest_path = manifest.root / dest_relative_path
     dest_path.parent.mkdir(parents=True, exist_ok=True)
@@ -300,20 +308,17 @@ def add_geometry_file(
     if metadata:
         entry.update(metadata)
 
+    # the file now has this content, whichever section recorded it before
+    geometry = manifest.data.setdefault("geometry", {})
+    for section, key in ((geometry, "derived"), (manifest.data, "attachments")):
+        if section.get(key):
+            section[key] = [item for item in section[key] if item.get("path") != entry["path"]]
+
     if category == "derived":
-        geometry = manifest.data.setdefault("geometry", {})
-        derived = geometry.setdefault("derived", [])
-        derived = [item for item in derived if item.get("path") != entry["path"]]
-        derived.append(entry)
-        geometry["derived"] = derived
-    elif category == "attachments":
-        attachments = manifest.data.setdefault("attachments", [])
-        attachments = [item for item in attachments if item.get("path") != entry["path"]]
-        entry.setdefault("id", dest_relative_path.stem)
-        attachments.append(entry)
-        manifest.data["attachments"] = attachments
+        geometry["derived"] = (geometry.get("derived") or []) + [entry]
     else:
-        raise ValueError(f"unsupported category for geometry file: {category}")
+        entry.setdefault("id", dest_relative_path.stem)
+        manifest.data["attachments"] = (manifest.data.get("attachments") or []) + [entry]
 
     return entry
 
-- 
2.43.0


From b69b8340d79c41f54ebba78e1f8984c398de0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 019/192] fix: package signatures are verified
 cryptographically and against the trust store

SSH signatures are checked with their own key, then matched to the principals
of the allowed-signers file ('-I *' matched none); GPG results come from the
status lines, so custom keyrings work, untrusted keys are VALID_UNTRUSTED and a
missing key is ERROR; added signatures no longer overwrite existing files; YAML
dates, malformed manifests and unreadable signature files no longer raise.
---
 src/yapcad/package/signing.py | 209 ++++++++++++++++++++++------------
 1 file changed, 139 insertions(+), 70 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 0bda5de..922926e 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -23,6 +23,7 @@ from __future__ import annotations
 
 import hashlib
 import json
+import os
 import subprocess
 import tempfile
 from dataclasses import dataclass, field
@@ -108,6 +109,15 @@ class VerificationError(Exception):
     pass
 
 
+def _load_manifest(manifest_path: Path) -> Dict[str, Any]:
+    """Load a manifest, which must be a YAML mapping."""
+    with open(manifest_path, 'r', encoding='utf-8') as f:
+        data = yaml.safe_load(f)
+    if not isinstance(data, dict):
+        raise ValueError("manifest is not a mapping")
+    return data
+
+
 def _compute_canonical_manifest_hash(manifest_path: Path) -> str:
     """Compute canonical hash of manifest for signing.
     
@@ -118,15 +128,15 @@ def _compute_canonical_manifest_hash(manifest_path: Path) -> str:
     4. Serializing to JSON
     5. Computing SHA-256
     """
-    with open(manifest_path, 'r', encoding='utf-8') as f:
-        data = yaml.safe_load(f)
+    data = _load_manifest(manifest_path)
     
     # Remove signatures section (we're signing the content, not the signatures)
     if 'signatures' in data:
         data = {k: v for k, v in data.items() if k != 'signatures'}
     
-    # Canonicalize: sort keys, compact JSON
-    canonical = json.dumps(data, sort_keys=True, separators=(',', ':'))
+    # Canonicalize: sort keys, compact JSON (YAML dates have no JSON form: use ISO 8601)
+    canonical = json.dumps(data, sort_keys=True, separators=(',', ':'),
+                           default=lambda value: value.isoformat())
     
     # Compute hash
     hash_bytes = hashlib.sha256(canonical.encode('utf-8')).digest()
@@ -149,7 +159,7 @@ def _sign_with_gpg(content: bytes, key_id: Optional[str] = None) -> tuple[str, s
     
     Returns: (signature_armored, signer_id, key_id)
     """
-    cmd = ["gpg", "--armor", "--detach-sign"]
+    cmd = ["gpg", "--armor", "--status-fd", "2", "--detach-sign"]
     if key_id:
         cmd.extend(["--local-user", key_id])
     
@@ -161,6 +171,10 @@ def _sign_with_gpg(content: bytes, key_id: Optional[str] = None) -> tuple[str, s
             check=True
         )
         signature = result.stdout.decode('utf-8')
+        # the key that was used, which need not be the only one matching key_id
+        for line in result.stderr.decode('utf-8', 'replace').split('\n'):
+            if line.startswith('[GNUPG:] SIG_CREATED '):
+                key_id = line.split()[-1]
     except subprocess.CalledProcessError as e:
         raise SigningError(f"GPG signing failed: {e.stderr.decode('utf-8')}")
     except FileNotFoundError:
@@ -254,28 +268,40 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
         sig_file = f.name
     
     try:
-        cmd = ["gpg", "--verify", sig_file, content_file]
+        cmd = ["gpg", "--batch", "--status-fd", "1"]
         if keyring:
-            cmd.extend(["--keyring", str(keyring)])
+            # a name without a slash would be looked up in the GnuPG home directory
+            cmd.extend(["--keyring", str(keyring.expanduser().resolve())])
+        cmd.extend(["--verify", sig_file, content_file])
         
         result = subprocess.run(cmd, capture_output=True)
-        stderr = result.stderr.decode('utf-8')
+        stderr = result.stderr.decode('utf-8', 'replace')
         
-        if result.returncode == 0:
-            # Extract signer from output
-            signer = "unknown"
-            for line in stderr.split('\n'):
-                if 'Good signature from' in line:
-                    # Extract quoted name
-                    start = line.find('"') + 1
-                    end = line.rfind('"')
-                    if start > 0 and end > start:
-                        signer = line[start:end]
-            return VerificationStatus.VALID, signer, None
-        elif "Can't check signature: No public key" in stderr:
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "Public key not found"
-        else:
+        # Machine-readable status lines: "[GNUPG:] KEYWORD args..."
+        status: Dict[str, str] = {}
+        for line in result.stdout.decode('utf-8', 'replace').split('\n'):
+            if line.startswith('[GNUPG:] '):
+                keyword, _, args = line[len('[GNUPG:] '):].partition(' ')
+                status[keyword] = args
+        
+        if 'BADSIG' in status:
             return VerificationStatus.INVALID, "unknown", stderr
+        if 'NO_PUBKEY' in status:
+            return VerificationStatus.ERROR, "unknown", "Public key not found"
+        if 'VALIDSIG' not in status:
+            return VerificationStatus.ERROR, "unknown", stderr or "No valid signature found"
+        for keyword, problem in (('EXPSIG', "Signature expired"),
+                                 ('EXPKEYSIG', "Signing key expired"),
+                                 ('REVKEYSIG', "Signing key revoked")):
+            if keyword in status:
+                signer = status[keyword].partition(' ')[2] or "unknown"
+                return VerificationStatus.VALID_UNTRUSTED, signer, problem
+        signer = status.get('GOODSIG', '').partition(' ')[2] or "unknown"
+        if result.returncode == 0 and any(
+                level in status
+                for level in ('TRUST_MARGINAL', 'TRUST_FULLY', 'TRUST_ULTIMATE')):
+            return VerificationStatus.VALID, signer, None
+        return VerificationStatus.VALID_UNTRUSTED, signer, "Signing key is not trusted"
             
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "GPG not found"
@@ -303,30 +329,38 @@ def _verify_ssh_signature(
         sig_file = f.name
     
     try:
-        if allowed_signers and allowed_signers.exists():
-            # Verify with allowed signers (trusted verification)
-            # Need to figure out principal - for now use wildcard
-            cmd = [
-                "ssh-keygen", "-Y", "verify",
-                "-f", str(allowed_signers),
-                "-I", "*",  # Match any principal
-                "-n", namespace,
-                "-s", sig_file
-            ]
-            result = subprocess.run(cmd, input=content, capture_output=True)
-            
-            if result.returncode == 0:
-                return VerificationStatus.VALID, "verified", None
-            else:
-                stderr = result.stderr.decode('utf-8')
-                if "Could not verify" in stderr:
-                    return VerificationStatus.INVALID, "unknown", stderr
-                else:
-                    return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
-        else:
-            # Without allowed_signers, we can only check signature format validity
-            # This is a limitation - can't verify without knowing the public key
+        # The signature carries its public key: first check it cryptographically
+        result = subprocess.run(
+            ["ssh-keygen", "-Y", "check-novalidate", "-n", namespace, "-s", sig_file],
+            input=content, capture_output=True
+        )
+        if result.returncode != 0:
+            stderr = result.stderr.decode('utf-8', 'replace')
+            if "incorrect signature" in stderr:
+                return VerificationStatus.INVALID, "unknown", stderr
+            return VerificationStatus.ERROR, "unknown", stderr
+        
+        if not (allowed_signers and allowed_signers.exists()):
             return VerificationStatus.VALID_UNTRUSTED, "unknown", "No allowed_signers file provided"
+        
+        # Then look for an allowed signer with this key (trusted verification)
+        result = subprocess.run(
+            ["ssh-keygen", "-Y", "find-principals", "-f", str(allowed_signers), "-s", sig_file],
+            capture_output=True
+        )
+        principals = result.stdout.decode('utf-8', 'replace').replace('\n', ',').split(',')
+        for principal in filter(None, (p.strip() for p in principals)):
+            result = subprocess.run(
+                ["ssh-keygen", "-Y", "verify",
+                 "-f", str(allowed_signers),
+                 "-I", principal,
+                 "-n", namespace,
+                 "-s", sig_file],
+                input=content, capture_output=True
+            )
+            if result.returncode == 0:
+                return VerificationStatus.VALID, principal, None
+        return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
             
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "ssh-keygen not found"
@@ -367,9 +401,26 @@ def sign_package(
         method = SignatureMethod(method.lower())
     
     # Compute manifest hash
-    manifest_hash = _compute_canonical_manifest_hash(manifest_path)
+    try:
+        manifest = _load_manifest(manifest_path)
+        manifest_hash = _compute_canonical_manifest_hash(manifest_path)
+    except (OSError, ValueError, TypeError, AttributeError, yaml.YAMLError) as e:
+        raise SigningError(f"Unreadable package manifest: {e}")
     content = _create_signable_content(manifest_hash)
     
+    # Signatures to keep, whose files must not be overwritten
+    kept = manifest.get("signatures") if add else None
+    if not isinstance(kept, list):
+        kept = []
+    used_files = {str(e.get("signature_file")) for e in kept if isinstance(e, dict)}
+    
+    def free_file(name: str, suffix: str = "") -> Path:
+        candidate, n = name + suffix, 1
+        while f"signatures/{candidate}" in used_files:
+            n += 1
+            candidate = f"{name}.{n}{suffix}"
+        return sig_dir / candidate
+    
     # Create signatures directory
     sig_dir = pkg_path / "signatures"
     sig_dir.mkdir(exist_ok=True)
@@ -379,7 +430,7 @@ def sign_package(
     
     if method == SignatureMethod.GPG:
         signature, signer_id, actual_key_id = _sign_with_gpg(content, key_id)
-        sig_file = sig_dir / "manifest.sig.asc"
+        sig_file = free_file("manifest.sig", ".asc")
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
@@ -396,7 +447,7 @@ def sign_package(
         
         # Generate unique filename for SSH signatures
         safe_name = signer_id.replace('@', '_').replace(' ', '_').replace('/', '_')[:20]
-        sig_file = sig_dir / f"manifest.sig.{safe_name}"
+        sig_file = free_file(f"manifest.sig.{safe_name}")
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
@@ -408,9 +459,6 @@ def sign_package(
         )
     
     # Update manifest
-    with open(manifest_path, 'r', encoding='utf-8') as f:
-        manifest = yaml.safe_load(f)
-    
     sig_entry = {
         "signer": sig_info.signer,
         "method": sig_info.method.value,
@@ -419,13 +467,13 @@ def sign_package(
         "signature_file": sig_info.signature_file,
     }
     
-    if add and "signatures" in manifest:
-        manifest["signatures"].append(sig_entry)
-    else:
-        manifest["signatures"] = [sig_entry]
+    manifest["signatures"] = kept + [sig_entry]
     
-    with open(manifest_path, 'w', encoding='utf-8') as f:
+    # write aside and rename, so that an interrupted signing keeps the old manifest
+    tmp_path = manifest_path.with_name(manifest_path.name + ".tmp")
+    with open(tmp_path, 'w', encoding='utf-8') as f:
         yaml.safe_dump(manifest, f, default_flow_style=False, sort_keys=False)
+    os.replace(tmp_path, manifest_path)
     
     return sig_info
 
@@ -456,13 +504,17 @@ def verify_package(
         )
     
     # Compute expected manifest hash
-    manifest_hash = _compute_canonical_manifest_hash(manifest_path)
+    try:
+        manifest_hash = _compute_canonical_manifest_hash(manifest_path)
+        manifest = _load_manifest(manifest_path)
+    except (OSError, ValueError, TypeError, AttributeError, yaml.YAMLError) as e:
+        return VerificationResult(
+            package_path=str(pkg_path),
+            manifest_hash="",
+            errors=[f"Unreadable package manifest: {e}"]
+        )
     content = _create_signable_content(manifest_hash)
     
-    # Load manifest
-    with open(manifest_path, 'r', encoding='utf-8') as f:
-        manifest = yaml.safe_load(f)
-    
     result = VerificationResult(
         package_path=str(pkg_path),
         manifest_hash=f"sha256:{manifest_hash}",
@@ -472,9 +524,15 @@ def verify_package(
     if not signatures:
         result.warnings.append("Package has no signatures")
         return result
+    if not isinstance(signatures, list):
+        result.errors.append("Malformed signatures section")
+        return result
     
     # Verify each signature
     for sig_entry in signatures:
+        if not isinstance(sig_entry, dict):
+            result.errors.append(f"Malformed signature entry: {sig_entry!r}")
+            continue
         method_str = sig_entry.get("method", "gpg")
         try:
             method = SignatureMethod(method_str)
@@ -482,8 +540,17 @@ def verify_package(
             result.errors.append(f"Unknown signature method: {method_str}")
             continue
         
-        sig_file_path = pkg_path / sig_entry.get("signature_file", "")
-        if not sig_file_path.exists():
+        sig_file_path = pkg_path / str(sig_entry.get("signature_file") or "")
+        try:
+            if not sig_file_path.resolve().is_relative_to(pkg_path.resolve()):
+                raise FileNotFoundError
+            signature = sig_file_path.read_text()
+            problem = None
+        except FileNotFoundError:
+            problem = "Signature file not found"
+        except (OSError, ValueError) as e:
+            problem = f"Signature file unreadable: {e}"
+        if problem:
             sig_info = SignatureInfo(
                 signer=sig_entry.get("signer", "unknown"),
                 method=method,
@@ -491,13 +558,11 @@ def verify_package(
                 timestamp=sig_entry.get("timestamp", ""),
                 signature_file=sig_entry.get("signature_file", ""),
                 status=VerificationStatus.ERROR,
-                error_message="Signature file not found"
+                error_message=problem
             )
             result.signatures.append(sig_info)
             continue
         
-        signature = sig_file_path.read_text()
-        
         if method == SignatureMethod.GPG:
             status, signer, error = _verify_gpg_signature(
                 content, signature, 
@@ -538,13 +603,17 @@ def list_signatures(package_path: str | Path) -> List[SignatureInfo]:
     if not manifest_path.exists():
         return []
     
-    with open(manifest_path, 'r', encoding='utf-8') as f:
-        manifest = yaml.safe_load(f)
+    try:
+        manifest = _load_manifest(manifest_path)
+    except (OSError, ValueError, yaml.YAMLError):
+        return []
     
-    signatures = manifest.get("signatures", [])
+    signatures = manifest.get("signatures")
     result = []
     
-    for sig_entry in signatures:
+    for sig_entry in signatures if isinstance(signatures, list) else []:
+        if not isinstance(sig_entry, dict):
+            continue
         try:
             method = SignatureMethod(sig_entry.get("method", "gpg"))
         except ValueError:
-- 
2.43.0


From 7d5bfb00da8efdcfdaaa4d65f41732f2ede47b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 020/192] fix: geometry JSON keeps every entity of a document

Documents mixing solids with sketches or free surfaces lost everything but the
solids; copies sharing an id, nested geometry lists, points and the z of sketch
lines were dropped; non-finite numbers are refused as the schema requires; the
document no longer shares metadata dictionaries with the live geometry.
---
 src/yapcad/io/geometry_json.py | 303 ++++++++++++++++++---------------
 1 file changed, 169 insertions(+), 134 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 73c0a4a..8d051af 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -5,6 +5,8 @@ Implements the draft schema described in ``docs/geometry_json_schema.md``.
 
 from __future__ import annotations
 
+import copy
+import math
 import uuid
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Sequence
 
@@ -23,6 +25,8 @@ from yapcad.geom import (
     iscircle,
     isgeomlist,
     isline,
+    ispoint,
+    ispoly,
     length,
     line,
     sample,
@@ -41,8 +45,15 @@ from yapcad.metadata import (
 SCHEMA_ID = "yapcad-geometry-json-v0.1"
 
 
+def _finite(value: float) -> float:
+    value = float(value)
+    if not math.isfinite(value):
+        raise ValueError(f"cannot serialize non-finite number {value}")
+    return value
+
+
 def _float_vec(vec: Iterable[float]) -> List[float]:
-    return [float(c) for c in vec]
+    return [_finite(c) for c in vec]
 
 
 def _int_vec(vec: Iterable[int]) -> List[int]:
@@ -58,10 +69,10 @@ def _bbox_or_none(box: Optional[List[List[float]]]) -> Optional[List[float]]:
 
 def _point_components(pt: Sequence[float]) -> List[float]:
     """Return point components including homogeneous coordinate."""
-    x = float(pt[0])
-    y = float(pt[1])
-    z = float(pt[2]) if len(pt) > 2 else 0.0
-    w = float(pt[3]) if len(pt) > 3 else 1.0
+    x = _finite(pt[0])
+    y = _finite(pt[1])
+    z = _finite(pt[2]) if len(pt) > 2 else 0.0
+    w = _finite(pt[3]) if len(pt) > 3 else 1.0
     return [x, y, z, w]
 
 
@@ -94,7 +105,7 @@ def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]
         "id": metadata.get("entityId", surface_id),
         "type": "surface",
         "name": metadata.get("name"),
-        "metadata": metadata,
+        "metadata": copy.deepcopy(metadata),
         "boundingBox": bbox,
         "properties": {},
         "vertices": [_float_vec(v) for v in verts],
@@ -190,7 +201,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         "id": metadata.get("entityId", solid_id),
         "type": "solid",
         "name": metadata.get("name"),
-        "metadata": metadata,
+        "metadata": copy.deepcopy(metadata),
         "boundingBox": bbox,
         "properties": {},
         "shell": shell_ids,
@@ -199,7 +210,24 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
 
 
 def _polyline_points(sequence: List[float]) -> List[float]:
-    return [float(sequence[0]), float(sequence[1])]
+    return [_finite(sequence[0]), _finite(sequence[1])]
+
+
+def _primitive_point(pt: Sequence[float]) -> List[float]:
+    """Coordinates of a primitive's point: ``[x, y]``, or ``[x, y, z]`` off the XY plane."""
+    coords = _point_components(pt)
+    return coords[:3] if coords[2] != 0.0 else coords[:2]
+
+
+def _flatten_geomlist(geomlist: list) -> List[list]:
+    elements: List[list] = []
+    for element in geomlist:
+        if isgeomlist(element) and not (ispoint(element) or isline(element) or ispoly(element)
+                                        or isarc(element)):
+            elements.extend(_flatten_geomlist(element))
+        else:
+            elements.append(element)
+    return elements
 
 
 def _sample_geometry_element(element: list, min_segments: int = 8) -> List[List[float]]:
@@ -224,21 +252,21 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
     poly_vectors: List[List[List[float]]] = []
     primitives: List[Dict[str, Any]] = []
 
-    for element in geomlist:
-        if isline(element):
-            start = _polyline_points(element[0])
-            end = _polyline_points(element[1])
-            poly_vectors.append([start, end])
+    for element in _flatten_geomlist(geomlist):
+        if ispoint(element):
+            primitives.append({"kind": "point", "point": _primitive_point(element)})
+        elif isline(element):
+            poly_vectors.append([_polyline_points(element[0]), _polyline_points(element[1])])
             primitives.append(
                 {
                     "kind": "line",
-                    "start": start,
-                    "end": end,
+                    "start": _primitive_point(element[0]),
+                    "end": _primitive_point(element[1]),
                 }
             )
         elif iscircle(element):
             center = _point_components(element[0])
-            radius = float(element[1][0])
+            radius = _finite(element[1][0])
             primitive: Dict[str, Any] = {
                 "kind": "circle",
                 "center": center,
@@ -251,9 +279,9 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             poly_vectors.append(_sample_geometry_element(element))
         elif isarc(element):
             center = _point_components(element[0])
-            radius = float(element[1][0])
-            start_angle = float(element[1][1])
-            end_angle = float(element[1][2])
+            radius = _finite(element[1][0])
+            start_angle = _finite(element[1][1])
+            end_angle = _finite(element[1][2])
             primitive = {
                 "kind": "arc",
                 "center": center,
@@ -307,7 +335,9 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             coords = [_polyline_points(pt) for pt in element]
             if coords:
                 poly_vectors.append(coords)
-                primitives.append({"kind": "polyline", "points": coords})
+                primitives.append(
+                    {"kind": "polyline", "points": [_primitive_point(pt) for pt in element]}
+                )
 
     box = bbox2d(geomlist)
     if box:
@@ -372,7 +402,12 @@ def geometry_to_json(
                     set_layer(meta, layer)
                 meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
             surface_entry = _serialize_surface(entity, metadata_override)
-            surface_cache.setdefault(surface_entry["id"], surface_entry)
+            if surface_entry["id"] in surface_cache:  # a copy, or listed twice
+                new_id = uuid.uuid4().hex
+                surface_entry["id"] = new_id
+                surface_entry["metadata"]["entityId"] = new_id
+                surface_entry["metadata"]["id"] = new_id
+            surface_cache[surface_entry["id"]] = surface_entry
         elif isgeomlist(entity):
             sketch_entry = _serialize_sketch(entity, metadata_override)
             serialized_entities.append(sketch_entry)
@@ -407,6 +442,106 @@ def _rehydrate_surface(entry: Dict[str, Any]) -> list:
     return surface
 
 
+def _rehydrate_sketch(sketch: Dict[str, Any]) -> list:
+    primitives = sketch.get("primitives") or []
+    elements: List[list] = []
+    for prim in primitives:
+        kind = prim.get("kind")
+        if kind == "line":
+            start = prim.get("start", [])
+            end = prim.get("end", [])
+            if len(start) >= 2 and len(end) >= 2:
+                elements.append(line(_point_from_components(start), _point_from_components(end)))
+        elif kind == "point":
+            elements.append(_point_from_components(prim.get("point", [0.0, 0.0])))
+        elif kind == "circle":
+            center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
+            radius = float(prim.get("radius", 0.0))
+            orientation = int(prim.get("orientation", -1))
+            vect_data = vect(radius, 0.0, 360.0, orientation)
+            normal = prim.get("normal")
+            if normal is not None:
+                elements.append(arc(center, vect_data, _point_from_components(normal)))
+            else:
+                elements.append(arc(center, vect_data))
+        elif kind == "arc":
+            center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
+            radius = float(prim.get("radius", 0.0))
+            start_angle = float(prim.get("start", 0.0))
+            end_angle = float(prim.get("end", 0.0))
+            orientation = int(prim.get("orientation", -1))
+            vect_data = vect(radius, start_angle, end_angle, orientation)
+            normal = prim.get("normal")
+            if normal is not None:
+                elements.append(arc(center, vect_data, _point_from_components(normal)))
+            else:
+                elements.append(arc(center, vect_data))
+        elif kind == "ellipse":
+            center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
+            semi_major = float(prim.get("semi_major", 1.0))
+            semi_minor = float(prim.get("semi_minor", 1.0))
+            rotation = float(prim.get("rotation", 0.0))
+            start = prim.get("start", 0)
+            end = prim.get("end", 360)
+            normal = prim.get("normal")
+            elements.append(
+                ellipse(
+                    center,
+                    semi_major,
+                    semi_minor,
+                    rotation=rotation,
+                    start=start,
+                    end=end,
+                    normal=normal,
+                )
+            )
+        elif kind == "polyline":
+            coords = prim.get("points", [])
+            pts = [_point_from_components(pt) for pt in coords if len(pt) >= 2]
+            for idx in range(len(pts) - 1):
+                elements.append(line(pts[idx], pts[idx + 1]))
+        elif kind == "catmullrom":
+            ctrl_points = [_point_from_components(pt) for pt in prim.get("points", [])]
+            params = prim.get("params") or {}
+            elements.append(
+                catmullrom(
+                    ctrl_points,
+                    closed=bool(params.get("closed", False)),
+                    alpha=float(params.get("alpha", 0.5)),
+                )
+            )
+        elif kind == "nurbs":
+            ctrl_points = [_point_from_components(pt) for pt in prim.get("points", [])]
+            params = prim.get("params") or {}
+            degree = int(params.get("degree", 3))
+            weights = params.get("weights")
+            knots = params.get("knots")
+            elements.append(
+                nurbs(
+                    ctrl_points,
+                    degree=degree,
+                    weights=weights,
+                    knots=knots,
+                )
+            )
+    if elements:
+        return elements
+
+    polylines = []
+    for poly in sketch.get("polylines", []):
+        if len(poly) < 2:
+            continue
+        pts = []
+        for pt in poly:
+            x, y = pt
+            pts.append(point(x, y))
+        segments = []
+        for idx in range(len(pts) - 1):
+            segments.append(line(pts[idx], pts[idx + 1]))
+        polylines.extend(segments)
+    return polylines
+
+
 def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
     """Deserialize geometry JSON into yapCAD list structures."""
     if doc.get("schema") != SCHEMA_ID:
@@ -420,7 +555,8 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         entries_by_id[entry_id] = entry
 
     surfaces: Dict[str, list] = {}
-    solids: List[list] = []
+    used_surfaces = set()  # surfaces that belong to a solid
+    results: List[list] = []
 
     # First pass: instantiate surfaces explicitly listed
     for entry in doc.get("entities", []):
@@ -429,6 +565,11 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
 
     # Second pass: instantiate solids (and any referenced surfaces/voids)
     for entry in doc.get("entities", []):
+        if entry.get("type") == "sketch":
+            geomlist = _rehydrate_sketch(entry)
+            if geomlist:
+                results.append(geomlist)
+            continue
         if entry.get("type") != "solid":
             continue
         shell_surfaces: List[list] = []
@@ -441,6 +582,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 surface = _rehydrate_surface(surf_entry)
                 surfaces[sid] = surface
             shell_surfaces.append(surface)
+            used_surfaces.add(sid)
 
         voids: List[List[list]] = []
         for void_ids in entry.get("voids", []):
@@ -454,6 +596,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     surface = _rehydrate_surface(surf_entry)
                     surfaces[sid] = surface
                 void_surfaces.append(surface)
+                used_surfaces.add(sid)
             voids.append(void_surfaces)
 
         solid = ['solid', shell_surfaces, voids, []]
@@ -461,118 +604,10 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         if metadata:
             set_solid_metadata(solid, metadata)
         brep_from_solid(solid)
-        solids.append(solid)
-
-    if solids:
-        return solids
-    sketches = [
-        entry for entry in doc.get("entities", []) if entry.get("type") == "sketch"
-    ]
-    if sketches:
-        geomlists: List[list] = []
-        for sketch in sketches:
-            primitives = sketch.get("primitives") or []
-            elements: List[list] = []
-            for prim in primitives:
-                kind = prim.get("kind")
-                if kind == "line":
-                    start = prim.get("start", [])
-                    end = prim.get("end", [])
-                    if len(start) >= 2 and len(end) >= 2:
-                        p0 = point(float(start[0]), float(start[1]))
-                        p1 = point(float(end[0]), float(end[1]))
-                        elements.append(line(p0, p1))
-                elif kind == "circle":
-                    center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
-                    radius = float(prim.get("radius", 0.0))
-                    orientation = int(prim.get("orientation", -1))
-                    vect_data = vect(radius, 0.0, 360.0, orientation)
-                    normal = prim.get("normal")
-                    if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
-                    else:
-                        elements.append(arc(center, vect_data))
-                elif kind == "arc":
-                    center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
-                    radius = float(prim.get("radius", 0.0))
-                    start_angle = float(prim.get("start", 0.0))
-                    end_angle = float(prim.get("end", 0.0))
-                    orientation = int(prim.get("orientation", -1))
-                    vect_data = vect(radius, start_angle, end_angle, orientation)
-                    normal = prim.get("normal")
-                    if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
-                    else:
-                        elements.append(arc(center, vect_data))
-                elif kind == "ellipse":
-                    center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
-                    semi_major = float(prim.get("semi_major", 1.0))
-                    semi_minor = float(prim.get("semi_minor", 1.0))
-                    rotation = float(prim.get("rotation", 0.0))
-                    start = prim.get("start", 0)
-                    end = prim.get("end", 360)
-                    normal = prim.get("normal")
-                    elements.append(
-                        ellipse(
-                            center,
-                            semi_major,
-                            semi_minor,
-                            rotation=rotation,
-                            start=start,
-                            end=end,
-                            normal=normal,
-                        )
-                    )
-                elif kind == "polyline":
-                    coords = prim.get("points", [])
-                    pts = [point(float(pt[0]), float(pt[1])) for pt in coords if len(pt) >= 2]
-                    for idx in range(len(pts) - 1):
-                        elements.append(line(pts[idx], pts[idx + 1]))
-                elif kind == "catmullrom":
-                    ctrl_points = [_point_from_components(pt) for pt in prim.get("points", [])]
-                    params = prim.get("params") or {}
-                    elements.append(
-                        catmullrom(
-                            ctrl_points,
-                            closed=bool(params.get("closed", False)),
-                            alpha=float(params.get("alpha", 0.5)),
-                        )
-                    )
-                elif kind == "nurbs":
-                    ctrl_points = [_point_from_components(pt) for pt in prim.get("points", [])]
-                    params = prim.get("params") or {}
-                    degree = int(params.get("degree", 3))
-                    weights = params.get("weights")
-                    knots = params.get("knots")
-                    elements.append(
-                        nurbs(
-                            ctrl_points,
-                            degree=degree,
-                            weights=weights,
-                            knots=knots,
-                        )
-                    )
-            if elements:
-                geomlists.append(elements)
-                continue
-
-            polylines = []
-            for poly in sketch.get("polylines", []):
-                if len(poly) < 2:
-                    continue
-                pts = []
-                for pt in poly:
-                    x, y = pt
-                    pts.append(point(x, y))
-                segments = []
-                for idx in range(len(pts) - 1):
-                    segments.append(line(pts[idx], pts[idx + 1]))
-                polylines.extend(segments)
-            if polylines:
-                geomlists.append(polylines)
-        if geomlists:
-            return geomlists
-    return list(surfaces.values())
+        results.append(solid)
+
+    results.extend(surface for sid, surface in surfaces.items() if sid not in used_surfaces)
+    return results
 
 
 __all__ = [
-- 
2.43.0


From b38ddb72dd948f11cf8989797616a82c594b01b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 021/192] fix: geometry JSON keeps the sampling direction of
 arcs

---
 src/yapcad/io/geometry_json.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 8d051af..c52601e 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -461,9 +461,10 @@ def _rehydrate_sketch(sketch: Dict[str, Any]) -> list:
             vect_data = vect(radius, 0.0, 360.0, orientation)
             normal = prim.get("normal")
             if normal is not None:
-                elements.append(arc(center, vect_data, _point_from_components(normal)))
+                elements.append(arc(center, vect_data, _point_from_components(normal),
+                                    samplereverse=(orientation == -2)))
             else:
-                elements.append(arc(center, vect_data))
+                elements.append(arc(center, vect_data, samplereverse=(orientation == -2)))
         elif kind == "arc":
             center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
             radius = float(prim.get("radius", 0.0))
@@ -473,9 +474,10 @@ def _rehydrate_sketch(sketch: Dict[str, Any]) -> list:
             vect_data = vect(radius, start_angle, end_angle, orientation)
             normal = prim.get("normal")
             if normal is not None:
-                elements.append(arc(center, vect_data, _point_from_components(normal)))
+                elements.append(arc(center, vect_data, _point_from_components(normal),
+                                    samplereverse=(orientation == -2)))
             else:
-                elements.append(arc(center, vect_data))
+                elements.append(arc(center, vect_data, samplereverse=(orientation == -2)))
         elif kind == "ellipse":
             center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
             semi_major = float(prim.get("semi_major", 1.0))
-- 
2.43.0


From e6e62804e912164023a904fbac0a811be5bbf0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 022/192] fix: NURBS end point and closed B-splines

A NURBS with interior knots was wrong at u=1 (every non-empty span counted as
the last), and closed B-splines of degree 2 or more ran off the end of a knot
vector that was too short.
---
 src/yapcad/spline.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index 47c419f..9ba6ca4 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -246,8 +246,8 @@ def _uniform_knot_vector(n: int, degree: int, closed: bool = False) -> List[floa
         Uniform knot vector
     """
     if closed:
-        # Periodic knot vector for closed curves
-        m = n + degree + 1
+        # Periodic knot vector for closed curves (n + degree basis functions)
+        m = n + 2 * degree + 1
         return [float(i - degree) / n for i in range(m)]
     else:
         # Clamped uniform knot vector (curve passes through endpoints)
@@ -341,7 +341,7 @@ def bspline_point(control_points, t: float, degree: int = 3, closed: bool = Fals
         knots = _uniform_knot_vector(n, degree, closed=True)
         # Map t to the active knot domain
         u_min = knots[degree]
-        u_max = knots[n]
+        u_max = knots[n + degree]
         u = u_min + t * (u_max - u_min)
 
         x = y = z = 0.0
@@ -679,7 +679,8 @@ def _nurbs_point(ctrl: Sequence[list], weights: Sequence[float], knots: Sequence
 
 def _nip(i: int, p: int, u: float, knots: Sequence[float]) -> float:
     if p == 0:
-        if knots[i] <= u < knots[i + 1] or (u == knots[-1] and knots[i] < knots[i + 1]):
+        # the last non-empty span is closed on the right
+        if knots[i] <= u < knots[i + 1] or (u == knots[-1] and knots[i] < knots[i + 1] == u):
             return 1.0
         return 0.0
 
-- 
2.43.0


From aaae7ec73601a5d19f755f9a32ac6fb721b2e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 023/192] fix: define MateType.ALIGNED, which every
 FaceToFaceMate.compute_transform refers to

---
 src/yapcad/assembly/mate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index 9f9e8cb..71cf378 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -78,6 +78,7 @@ class MateType(Enum):
     Basic Mates (geometric constraints):
     ------------------------------------
     COINCIDENT: Points, edges, or faces share same location (1-3 DOF removed)
+    ALIGNED: Like COINCIDENT, but facing the same direction (1-3 DOF removed)
     CONCENTRIC: Cylindrical axes are colinear (4 DOF removed: 2t + 2r)
     PARALLEL: Directions remain parallel (2 DOF removed)
     PERPENDICULAR: Directions maintain 90-degree angle (1 DOF removed)
@@ -117,6 +118,7 @@ class MateType(Enum):
 
     # Geometric constraints (standard mates)
     COINCIDENT = "coincident"
+    ALIGNED = "aligned"
     CONCENTRIC = "concentric"
     PARALLEL = "parallel"
     PERPENDICULAR = "perpendicular"
@@ -499,6 +501,7 @@ class Mate:
 
             # Geometric constraints (approximate - depends on combination)
             MateType.COINCIDENT: 3,  # Typically removes 3 DOF
+            MateType.ALIGNED: 3,     # As COINCIDENT, normals not opposed
             MateType.CONCENTRIC: 2,  # Translation + rotation on axis
             MateType.PARALLEL: 4,    # 2 rotational DOF removed
             MateType.PERPENDICULAR: 5,  # 1 rotational DOF removed
-- 
2.43.0


From 3e6b7d6abbdf138f9ccb916ba93d43ea799fd8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 024/192] fix: a FaceToFaceMate's cached transform is relative
 to the parent, and validates for every constraint

---
 src/yapcad/assembly/face_mate.py | 49 +++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 10b5c71..1c3499d 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -165,7 +165,7 @@ class FaceToFaceMate:
             return None
 
         if self._computed_transform is not None:
-            return self._computed_transform
+            return self._place(parent_world_transform)
 
         # Load datums from registry
         from .datum_registry import DatumRegistry
@@ -203,11 +203,15 @@ class FaceToFaceMate:
             raise ValueError(f"Unsupported constraint type: {self.constraint}")
 
         # Apply parent world transform if provided
-        if parent_world_transform is not None:
-            tf = parent_world_transform @ tf
-
+        # The cache holds the transform relative to the parent only
         self._computed_transform = tf
-        return tf
+        return self._place(parent_world_transform)
+
+    def _place(self, parent_world_transform: Optional[Any]) -> Any:
+        """Return the cached relative transform, placed in the world."""
+        if parent_world_transform is None:
+            return self._computed_transform.copy()
+        return parent_world_transform @ self._computed_transform
 
     def validate(self,
                  tolerance_mm: float = 0.1,
@@ -250,22 +254,24 @@ class FaceToFaceMate:
 
         parent_origin = np.array(self._parent_datum_obj.origin[:3])
 
-        # Check distance
-        distance = float(np.linalg.norm(child_transformed - parent_origin))
+        parent_normal = _datum_axis(self._parent_datum_obj)
+
+        # Check distance; PARALLEL leaves the position free, every other
+        # constraint puts the origins the requested offset apart
+        distance = 0.0
+        if self.constraint != MateType.PARALLEL:
+            target_origin = parent_origin + self.offset_distance * parent_normal
+            distance = float(np.linalg.norm(child_transformed - target_origin))
         distance_ok = distance <= tolerance_mm
 
-        # Check angle (for PLANE/AXIS datums)
+        # Check angle (points have no direction)
         angle_error = 0.0
         angle_ok = True
 
-        if self._parent_datum_obj.datum_type in (DatumType.PLANE, DatumType.CIRCLE):
-            parent_normal = np.array(self._parent_datum_obj.normal[:3])
-            parent_normal = parent_normal / np.linalg.norm(parent_normal)
-
-            child_normal = np.array(self._child_datum_obj.normal[:3])
-            child_normal_transformed = self._computed_transform[:3, :3] @ child_normal
-            child_normal_transformed = child_normal_transformed / \
-                                       np.linalg.norm(child_normal_transformed)
+        if DatumType.POINT not in (self._parent_datum_obj.datum_type,
+                                   self._child_datum_obj.datum_type):
+            child_normal_transformed = self._computed_transform[:3, :3] @ \
+                _datum_axis(self._child_datum_obj)
 
             # For COINCIDENT, normals should be opposite
             if self.constraint == MateType.COINCIDENT:
@@ -489,6 +495,17 @@ def compute_parallel_transform(parent_datum: Datum,
 # Helper Functions
 # =============================================================================
 
+def _datum_axis(datum: Datum) -> Any:
+    """Unit vector along a datum: its direction, its normal, or else Z."""
+    if datum.direction is not None:
+        axis = np.array(datum.direction[:3])
+    elif datum.normal is not None:
+        axis = np.array(datum.normal[:3])
+    else:
+        axis = np.array([0.0, 0.0, 1.0])
+    return axis / np.linalg.norm(axis)
+
+
 def _rotation_between_vectors(v1: Any, v2: Any) -> Any:
     """Compute rotation matrix to rotate v1 to v2 using Rodrigues' formula.
 
-- 
2.43.0


From 2b8cb50e0996a8d8546c2c55b364dc59b4e61f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 025/192] fix: compute_parallel_transform uses the direction of
 axis datums

---
 src/yapcad/assembly/face_mate.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 1c3499d..f18a7cf 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -467,11 +467,8 @@ def compute_parallel_transform(parent_datum: Datum,
         raise RuntimeError("NumPy required for transform computation")
 
     # Get normals
-    P_normal = np.array(parent_datum.normal[:3]) if parent_datum.normal else np.array([0, 0, 1])
-    C_normal = np.array(child_datum.normal[:3]) if child_datum.normal else np.array([0, 0, 1])
-
-    P_normal = P_normal / np.linalg.norm(P_normal)
-    C_normal = C_normal / np.linalg.norm(C_normal)
+    P_normal = _datum_axis(parent_datum)
+    C_normal = _datum_axis(child_datum)
 
     # Rotation to make parallel
     R = _rotation_between_vectors(C_normal, P_normal)
-- 
2.43.0


From 8c35e5e3b2ad632c1c6536aea1b72b2a04a24cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 026/192] fix: mate solver rotates directions that are nearly
 parallel into place

---
 src/yapcad/assembly/solver.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index f5e4d59..1fc661d 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -613,10 +613,12 @@ class MateConstraintSolver:
         v2 = v2 / np.linalg.norm(v2)
 
         # Check for parallel vectors
+        axis = np.cross(v1, v2)
+        sin = np.linalg.norm(axis)
         dot = np.dot(v1, v2)
-        if dot > 0.9999:
-            return np.eye(3)  # Already aligned
-        if dot < -0.9999:
+        if sin < 1e-10:
+            if dot > 0:
+                return np.eye(3)  # Already aligned
             # Opposite directions - rotate 180 around any perpendicular axis
             if abs(v1[0]) < 0.9:
                 perp = np.cross(v1, [1, 0, 0])
@@ -626,11 +628,7 @@ class MateConstraintSolver:
             return self._rodrigues_rotation(perp, math.pi)
 
         # Rodrigues formula
-        axis = np.cross(v1, v2)
-        axis = axis / np.linalg.norm(axis)
-        angle = math.acos(np.clip(dot, -1.0, 1.0))
-
-        return self._rodrigues_rotation(axis, angle)
+        return self._rodrigues_rotation(axis / sin, math.atan2(sin, dot))
 
     def _rodrigues_rotation(self, axis: Any, angle: float) -> Any:
         """Compute rotation matrix from axis-angle using Rodrigues' formula.
-- 
2.43.0


From 7d58b8846b470bf76093a4b332cffc71b90652c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 027/192] fix: DISTANCE mates place the child's datum, not its
 origin, at the distance

---
 src/yapcad/assembly/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 1fc661d..72cf42e 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -537,11 +537,12 @@ class MateConstraintSolver:
     def _solve_distance(self, datum_a: Datum, datum_b: Datum, offset: float) -> Any:
         """Solve DISTANCE constraint (fixed offset along normal)."""
         origin_a = np.array(datum_a.origin[:3])
+        origin_b = np.array(datum_b.origin[:3])
         normal_a = self._get_datum_direction(datum_a)
 
-        # Position child at offset distance from parent along normal
+        # Position child datum at offset distance from parent along normal
         transform = np.eye(4)
-        transform[:3, 3] = origin_a + normal_a * offset
+        transform[:3, 3] = origin_a + normal_a * offset - origin_b
 
         return transform
 
-- 
2.43.0


From 6c21fe1c5a7a239f0c6e441831e89a6cf135563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 028/192] fix: the mate solver takes Mate.angle in radians, as
 documented

---
 src/yapcad/assembly/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 72cf42e..5f31873 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -547,13 +547,13 @@ class MateConstraintSolver:
         return transform
 
     def _solve_angle(
-        self, datum_a: Datum, datum_b: Datum, angle_deg: float
+        self, datum_a: Datum, datum_b: Datum, angle: float
     ) -> Any:
-        """Solve ANGLE constraint (fixed angular relationship)."""
+        """Solve ANGLE constraint (fixed angular relationship, in radians)."""
         axis_a = self._get_datum_direction(datum_a)
 
         # Rotate around parent axis by specified angle
-        R = self._rodrigues_rotation(axis_a, math.radians(angle_deg))
+        R = self._rodrigues_rotation(axis_a, angle)
 
         transform = np.eye(4)
         transform[:3, :3] = R
-- 
2.43.0


From c573651d22131b6f127affc1a66e855f374a6117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 029/192] fix: the mate solver's cache no longer answers for
 another parent transform or datum

---
 src/yapcad/assembly/solver.py | 36 ++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 5f31873..a7c18af 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -238,7 +238,8 @@ class MateConstraintSolver:
         self.tolerance = tolerance
         self.angle_tolerance = angle_tolerance
         self._use_cache = use_cache
-        self._cache: Dict[str, MateMateSolveResult] = {}
+        # (mate name, mate axis) -> (inputs, result)
+        self._cache: Dict[Tuple[str, str], Tuple[Any, MateMateSolveResult]] = {}
 
     def solve_mate(
         self,
@@ -256,11 +257,6 @@ class MateConstraintSolver:
         The returned transform positions the child part origin in the parent
         part's coordinate frame such that the mate constraint is satisfied.
         """
-        # Check cache
-        cache_key = f"{mate.name}:{mate_axis}"
-        if self._use_cache and cache_key in self._cache:
-            return self._cache[cache_key]
-
         try:
             # Get datums from registry
             datum_a = self._get_datum(mate.part_a, mate.datum_a)
@@ -277,6 +273,15 @@ class MateConstraintSolver:
                     error_message=f"Datum not found: {mate.part_b}.{mate.datum_b}"
                 )
 
+            # A cached result stands only for the inputs it was solved from
+            cache_key = (mate.name, mate_axis)
+            inputs = self._solve_inputs(mate, datum_a, datum_b,
+                                        parent_world_transform)
+            if self._use_cache and cache_key in self._cache:
+                cached_inputs, cached = self._cache[cache_key]
+                if cached_inputs == inputs:
+                    return cached
+
             # Dispatch to constraint-specific solver
             transform = self._solve_constraint(mate.mate_type, datum_a, datum_b, mate)
 
@@ -300,7 +305,7 @@ class MateConstraintSolver:
 
             # Cache result
             if self._use_cache:
-                self._cache[cache_key] = result
+                self._cache[cache_key] = (inputs, result)
 
             return result
 
@@ -397,8 +402,8 @@ class MateConstraintSolver:
         if mate_name is None:
             self._cache.clear()
         else:
-            # Remove all cache entries starting with mate_name
-            keys_to_remove = [k for k in self._cache if k.startswith(mate_name)]
+            # Remove all cache entries for this mate
+            keys_to_remove = [k for k in self._cache if k[0] == mate_name]
             for key in keys_to_remove:
                 del self._cache[key]
 
@@ -568,6 +573,19 @@ class MateConstraintSolver:
     # Private: Helper Functions
     # =========================================================================
 
+    @staticmethod
+    def _solve_inputs(mate: Mate, datum_a: Datum, datum_b: Datum,
+                      parent_world_transform: Optional[Any]) -> Tuple[Any, ...]:
+        """Return everything a solved transform depends on."""
+        geometry = tuple(
+            (d.datum_type,) + tuple(
+                None if v is None else tuple(v[:3])
+                for v in (d.origin, d.direction, d.normal))
+            for d in (datum_a, datum_b))
+        parent = (None if parent_world_transform is None
+                  else np.asarray(parent_world_transform).tolist())
+        return (mate.mate_type, mate.offset, mate.angle, geometry, parent)
+
     def _get_datum(self, part_id: str, datum_name: str) -> Optional[Datum]:
         """Retrieve a datum from the registry.
 
-- 
2.43.0


From 5a97d01557fdc4e0a5523cd7787d3e3ea13d8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 030/192] fix: DatumRegistry.register_part iterates over the
 part's datums, not their names

---
 src/yapcad/assembly/datum_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 1707267..d5693aa 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -219,7 +219,7 @@ class DatumRegistry:
         """
         instance = cls._get_instance()
 
-        datums = {d.name: d for d in part.datums}
+        datums = {d.name: d for d in part.datums.values()}
         cls.register_source(
             source_id=part.name,
             datums=datums,
-- 
2.43.0


From f2581a767d2ac7322f6732f58de036746f1a244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 031/192] fix: a malformed datum or datum file no longer takes
 the good datums down with it

---
 src/yapcad/assembly/datum_registry.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index d5693aa..acbf27a 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -346,7 +346,9 @@ class DatumRegistry:
         try:
             with open(json_path, 'r') as f:
                 data = json.load(f)
-        except (json.JSONDecodeError, IOError) as e:
+            if not isinstance(data, dict):
+                raise ValueError("top level is not an object")
+        except (ValueError, IOError) as e:
             logger.error(f"Failed to load surrogate JSON '{json_path}': {e}")
             self._sources[source_id] = DatumSource(
                 source_id=source_id,
@@ -358,11 +360,15 @@ class DatumRegistry:
             return
 
         datums = {}
-        for name, datum_data in data.get('datums', {}).items():
+        entries = data.get('datums') or {}
+        if not isinstance(entries, dict):
+            logger.warning(f"'datums' of '{json_path}' is not an object")
+            entries = {}
+        for name, datum_data in entries.items():
             try:
                 datum = self._datum_from_dict(name, datum_data)
                 datums[name] = datum
-            except (KeyError, ValueError) as e:
+            except (KeyError, ValueError, TypeError, AttributeError) as e:
                 logger.warning(f"Failed to parse datum '{name}' from "
                              f"'{json_path}': {e}")
 
@@ -398,7 +404,7 @@ class DatumRegistry:
         with the same name but .datums.json extension.
         """
         # Check for sidecar JSON
-        sidecar_path = dsl_path.replace('.dsl', '.datums.json')
+        sidecar_path = dsl_path[:-len('.dsl')] + '.datums.json'
         if os.path.exists(sidecar_path):
             self._load_surrogate_json(source_id, sidecar_path)
         else:
-- 
2.43.0


From 220809cbe9e86c4ac9823dd4b7b0fcbbb3de3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 032/192] fix: looking up an unknown datum source no longer
 hides it when it appears later

---
 src/yapcad/assembly/datum_registry.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index acbf27a..6eb2f69 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -199,6 +199,9 @@ class DatumRegistry:
         """
         instance = cls._get_instance()
 
+        if source_id not in instance._loaded_sources:
+            instance._load_source(source_id)
+
         if source_id not in instance._sources:
             instance._sources[source_id] = DatumSource(
                 source_id=source_id,
@@ -298,7 +301,9 @@ class DatumRegistry:
             # Try as a part name in already-loaded sources
             self._try_part_name_lookup(source)
 
-        self._loaded_sources.add(source)
+        # A source that was not found may still appear later
+        if source in self._sources:
+            self._loaded_sources.add(source)
 
     def _find_source_file(self, source: str) -> Optional[str]:
         """Find the source file in search paths.
@@ -374,7 +379,7 @@ class DatumRegistry:
 
         # Also register by part_name if present
         part_names = {source_id}
-        if 'part_name' in data:
+        if data.get('part_name'):
             part_names.add(data['part_name'])
 
         source = DatumSource(
@@ -394,8 +399,10 @@ class DatumRegistry:
         self._sources[source_id] = source
 
         # Also register by part name for easy lookup
-        if 'part_name' in data and data['part_name'] != source_id:
-            self._sources[data['part_name']] = source
+        part_name = data.get('part_name')
+        if part_name and part_name not in self._sources:
+            self._sources[part_name] = source
+            self._loaded_sources.add(part_name)
 
     def _load_dsl_datums(self, source_id: str, dsl_path: str) -> None:
         """Load datums from a DSL file via sidecar JSON.
@@ -427,13 +434,6 @@ class DatumRegistry:
                 self._sources[source] = src
                 return
 
-        # Not found - create empty source
-        self._sources[source] = DatumSource(
-            source_id=source,
-            source_type="not_found",
-            datums={}
-        )
-
     def _datum_from_dict(self, name: str, data: Dict[str, Any]) -> Datum:
         """Create a Datum from a dictionary representation.
 
-- 
2.43.0


From 247f6705e3ca916ff1bcd02d87b565046e5965e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 033/192] fix: datum_to_transform_matrix returns a rigid matrix
 for every frame datum

---
 src/yapcad/assembly/datum_registry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 6eb2f69..d0d58e1 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -513,8 +513,10 @@ def datum_to_transform_matrix(datum: Datum) -> Optional[Any]:
         # Full frame with explicit axes
         x_axis = np.array(datum.x_axis[:3]) if datum.x_axis else np.array([1, 0, 0])
         y_axis = np.array(datum.y_axis[:3]) if datum.y_axis else np.array([0, 1, 0])
+        x_axis = x_axis / np.linalg.norm(x_axis)
         z_axis = np.cross(x_axis, y_axis)
         z_axis = z_axis / np.linalg.norm(z_axis)
+        y_axis = np.cross(z_axis, x_axis)
 
     elif datum.datum_type == DatumType.PLANE:
         # Normal becomes Z-axis, derive X and Y
-- 
2.43.0


From 3a365c3bbef02e46ea75859754ac61f5944193d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 034/192] fix: Assembly.validate_and_raise and report name the
 failures instead of crashing on them

---
 src/yapcad/assembly/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index b8cf829..90999d6 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -623,7 +623,7 @@ class Assembly:
             lines = [f"Assembly '{self.name}' validation failed:"]
             for name in result.failed_constraints:
                 cr = result.constraint_results[name]
-                lines.append(f"  - {name}: {cr.message}")
+                lines.append(f"  - {name}: {cr.error_message}")
 
             raise AssemblyError(
                 "\n".join(lines),
@@ -877,7 +877,7 @@ class Assembly:
                 lines.append(f"  STATUS: INVALID ({len(result.failed_constraints)} failures)")
                 for name in result.failed_constraints:
                     cr = result.constraint_results[name]
-                    lines.append(f"    FAILED: {name} - {cr.message}")
+                    lines.append(f"    FAILED: {name} - {cr.error_message}")
 
             if result.warnings:
                 lines.append(f"  WARNINGS: {len(result.warnings)}")
-- 
2.43.0


From 8e1cca0b777f322c6de4c423cac4b2adf2fc9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 035/192] fix: define MateType.FLUSH, documented and used by
 get_degrees_of_freedom, as COINCIDENT

---
 src/yapcad/assembly/mate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index 71cf378..27646ff 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -118,6 +118,7 @@ class MateType(Enum):
 
     # Geometric constraints (standard mates)
     COINCIDENT = "coincident"
+    FLUSH = "coincident"  # alias of COINCIDENT
     ALIGNED = "aligned"
     CONCENTRIC = "concentric"
     PARALLEL = "parallel"
-- 
2.43.0


From fd5f0cc6ab40ed1a2e9f49684850c363413930ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 036/192] fix: Assembly imports the transforms KinematicChain
 exports, all of them or none

---
 src/yapcad/assembly/assembly.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index 90999d6..7481283 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -717,11 +717,16 @@ class Assembly:
                 assembly_name=self.name
             )
 
+        imported = {}
         for part_name, part_data in data["parts"].items():
             if part_name not in self.parts:
                 # Skip parts not in this assembly
                 continue
 
+            # KinematicChain.export_json nests the matrix in world_transform
+            if "world_transform" in part_data:
+                part_data = {"transform": part_data["world_transform"].get("matrix")}
+
             if "transform" not in part_data:
                 raise AssemblyError(
                     f"Part '{part_name}' missing 'transform' in JSON",
@@ -751,8 +756,10 @@ class Assembly:
                     part_name=part_name
                 )
 
-            self.transforms[part_name] = transform
+            imported[part_name] = transform
 
+        # Only a file that is good throughout changes anything
+        self.transforms.update(imported)
         self._solved = True  # Mark as solved since transforms are imported
 
     def export_to_urdf(self, output_path: Union[str, Path]) -> None:
-- 
2.43.0


From 0111c9cb1c0a8d05fe8c313a3afe9e1cfcd22183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 037/192] fix: an exactly radial datum meets a radial
 constraint with zero tolerance

---
 src/yapcad/assembly/constraint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/assembly/constraint.py b/src/yapcad/assembly/constraint.py
index 28cdd96..b551b2c 100644
--- a/src/yapcad/assembly/constraint.py
+++ b/src/yapcad/assembly/constraint.py
@@ -411,12 +411,12 @@ class Constraint:
         if self.direction == "outward":
             # Normal should point same direction as radial (dot > 0)
             cos_tolerance = math.cos(math.radians(self.tolerance_deg))
-            satisfied = dot > cos_tolerance
+            satisfied = dot >= cos_tolerance
             expected = "outward (+radial)"
         else:  # inward
             # Normal should point opposite to radial (dot < 0)
             cos_tolerance = math.cos(math.radians(self.tolerance_deg))
-            satisfied = dot < -cos_tolerance
+            satisfied = dot <= -cos_tolerance
             expected = "inward (-radial)"
 
         angle_error = math.degrees(math.acos(min(1.0, abs(dot))))
@@ -842,6 +842,6 @@ def is_radial_from_center(point: Tuple[float, float, float],
     cos_tolerance = math.cos(math.radians(tolerance_deg))
 
     if direction == "outward":
-        return dot > cos_tolerance
+        return dot >= cos_tolerance
     else:  # inward
-        return dot < -cos_tolerance
+        return dot <= -cos_tolerance
-- 
2.43.0


From abc603e10e88ef7a131caacf627de4137b99a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 038/192] fix: the assembly resolver applies operations to
 yapCAD solids

---
 src/yapcad/assembly/resolver.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index 6eb7902..119931d 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -165,18 +165,15 @@ class AssemblyResolver(ABC):
         """
         # Import lazily to avoid circular deps and optional-dep failures.
         # Strategy: try yapCAD geom3d first, fall back to direct OCC.
-        try:
-            from ..geom3d import boolean3d  # type: ignore[import]
-            op_map = {"subtract": "difference", "intersect": "intersection", "union": "union"}
-            op_name = op_map.get(kind, kind)
-            kwargs: Dict[str, Any] = {}
-            if engine:
-                kwargs["engine"] = engine
-            return boolean3d(target_geom, cutter_geom, op_name, **kwargs)
-        except (ImportError, AttributeError):
-            pass
+        from ..geom3d import issolid, solid_boolean
+
+        op_map = {"subtract": "difference", "intersect": "intersection", "union": "union"}
+        if kind not in op_map:
+            raise RuntimeError(f"Unknown boolean kind: {kind!r}")
+        if issolid(target_geom) and issolid(cutter_geom):
+            return solid_boolean(target_geom, cutter_geom, op_map[kind], engine=engine)
 
-        # Direct OCC fallback (yapcad-brep conda env)
+        # Not yapCAD solids: raw OCC shapes
         try:
             from OCC.Core.BRepAlgoAPI import (
                 BRepAlgoAPI_Cut, BRepAlgoAPI_Common, BRepAlgoAPI_Fuse,
@@ -186,10 +183,7 @@ class AssemblyResolver(ABC):
                 "intersect": BRepAlgoAPI_Common,
                 "union": BRepAlgoAPI_Fuse,
             }
-            op_cls = _occ_ops.get(kind)
-            if op_cls is None:
-                raise RuntimeError(f"Unknown boolean kind: {kind!r}")
-            algo = op_cls(target_geom, cutter_geom)
+            algo = _occ_ops[kind](target_geom, cutter_geom)
             algo.Build()
             if not algo.IsDone():
                 raise RuntimeError(f"OCC boolean {kind!r} failed: IsDone=False")
@@ -198,8 +192,8 @@ class AssemblyResolver(ABC):
             pass
 
         raise RuntimeError(
-            "No boolean engine available: install OCC (yapcad-brep conda env) "
-            "or ensure geom3d.boolean3d is importable"
+            "No boolean engine available: operands are not yapCAD solids, "
+            "and OCC (yapcad-brep conda env) is not installed"
         )
 
     @staticmethod
-- 
2.43.0


From 043a1dc6d92ccea251fa13608ed9cbe5633b341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 039/192] fix: StagedResolver keeps the warnings, errors and
 retained cutters of each stage

---
 src/yapcad/assembly/resolver.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index 119931d..d7a7874 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -400,7 +400,7 @@ class StagedResolver(AssemblyResolver):
         # Run each stage in order
         current_parts = dict(parts)
         current_meta = dict(meta_map)
-        accumulated_ops: Dict[str, List[str]] = {}  # pid → all applied_operations across stages
+        accumulated: Dict[str, ResolvedPart] = {}  # pid → record across stages
 
         for stage_name in self.stages:
             bucket = stage_buckets[stage_name]
@@ -434,14 +434,22 @@ class StagedResolver(AssemblyResolver):
 
             # Merge applied_operations into accumulator and feed geometry into next stage
             for pid, rp in stage_result.parts.items():
-                prev = accumulated_ops.get(pid, [])
-                accumulated_ops[pid] = prev + rp.applied_operations
+                prev = accumulated.get(pid)
+                if prev is not None:
+                    rp = ResolvedPart(
+                        pid, rp.geometry,
+                        prev.applied_operations + rp.applied_operations,
+                        prev.retained_cutters + rp.retained_cutters,
+                        warnings=prev.warnings + rp.warnings,
+                        errors=prev.errors + rp.errors,
+                    )
+                accumulated[pid] = rp
             current_parts = {pid: rp.geometry for pid, rp in stage_result.parts.items()}
 
         # Produce final ResolvedPart objects carrying the full applied_operations list
         final_parts: Dict[str, ResolvedPart] = {}
         for pid, geom in current_parts.items():
-            final_parts[pid] = ResolvedPart(pid, geom, accumulated_ops.get(pid, []), [])
+            final_parts[pid] = accumulated.get(pid) or ResolvedPart(pid, geom, [], [])
 
         return ResolveResult(
             parts=final_parts,
-- 
2.43.0


From 77c6677b68c6e46ee59e2c49b7b06113c98d8844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 040/192] fix: Datum.transform applies numpy matrices instead
 of taking them for the identity

---
 src/yapcad/assembly/datum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/datum.py b/src/yapcad/assembly/datum.py
index 7a509db..375b7bd 100644
--- a/src/yapcad/assembly/datum.py
+++ b/src/yapcad/assembly/datum.py
@@ -318,8 +318,11 @@ class Datum:
             new_datum = datum.transform(T)
             # new_datum.origin is now [10, 20, 30, 1]
         """
-        # Convert to Matrix if needed
+        # Convert to Matrix if needed (numpy arrays, as held by Assembly and the
+        # solvers, go through nested lists)
         if not isinstance(matrix, Matrix):
+            if hasattr(matrix, 'tolist'):
+                matrix = matrix.tolist()
             matrix = Matrix(matrix)
 
         # Helper to transform a point (w=1)
-- 
2.43.0


From 1c44ed3c04473d16935b67ee0fc60b1d0ed220d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 041/192] fix: Rotation accepts axes that are not unit vectors

---
 src/yapcad/xform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index d25a419..126e089 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -204,7 +204,7 @@ def Rotation(axis,angle,inverse=False):
     if m < geom.epsilon:
         raise ValueError('zero-length rotation axis not allowed')
     if not geom.close(m,1.0):
-        u = geom.geom.scale3(axis,1.0/m)
+        u = geom.scale3(axis,1.0/m)
 
     if inverse:
         angle *= -1.0
-- 
2.43.0


From 181251ccf5ec2622669729371c189951ab7fb30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 042/192] fix: a Matrix does not share its rows with copies of
 it or with the vectors it was set from

---
 src/yapcad/xform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index 126e089..00339ed 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -125,7 +125,7 @@ class Matrix:
                     self.m[2][i],
                     self.m[3][i]]
         else:
-            return self.m[i]
+            return list(self.m[i])
         
     def getcol(self,j):
         if j < 0 or j > 3:
@@ -136,7 +136,7 @@ class Matrix:
                     self.m[2][j],
                     self.m[3][j]]
         else:
-            return self.m[j]
+            return list(self.m[j])
 
     def setrow(self,i,x):
         if not geom.isvect(x):
@@ -149,7 +149,7 @@ class Matrix:
             self.m[2][i] = x[2]
             self.m[3][i] = x[3]
         else:
-            self.m[i] = x
+            self.m[i] = list(x)
         
     def setcol(self,j,x):
         if not geom.isvect(x):
@@ -162,7 +162,7 @@ class Matrix:
             self.m[2][j] = x[2]
             self.m[3][j] = x[3]
         else:
-            self.m[j] = x
+            self.m[j] = list(x)
         
 
     # matrix multiply.  If x is a matrix, compute MX.  If x is a
-- 
2.43.0


From 08efe128e6a5a1a18d71c052eaafd8af81c2f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 043/192] fix: Matrix refuses what is not a matrix instead of
 becoming the identity

---
 src/yapcad/xform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index 00339ed..31f3dfd 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -74,6 +74,8 @@ class Matrix:
                                 self.m[i][j]=x
                             else:
                                 raise ValueError('bad element in matrix initialization: {}'.format(x))
+                else:
+                    raise ValueError('bad thing used in attempt to initialize matrix: {}'.format(a))
             elif len(a)==16:
                 for i in range(4):
                     for j in range(4):
@@ -85,10 +87,11 @@ class Matrix:
                         else:
                             raise ValueError('bad element in matrix initialization: {}'.format(x))
 
-            elif a == False:
-                pass
             else:
-                raise ValueError('bad thing used in attempt to initialize matrix: ()'.format(a))
+                raise ValueError('bad thing used in attempt to initialize matrix: {}'.format(a))
+
+        elif a is not False and a is not None:
+            raise ValueError('bad thing used in attempt to initialize matrix: {}'.format(a))
         self.trans=trans
                             
     def __repr__(self):
-- 
2.43.0


From 22873caf870700974259dfee0217a8e864c8f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 044/192] fix: validate_datums compares directions that are not
 unit vectors

---
 src/yapcad/assembly/datum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/datum.py b/src/yapcad/assembly/datum.py
index 375b7bd..da7e949 100644
--- a/src/yapcad/assembly/datum.py
+++ b/src/yapcad/assembly/datum.py
@@ -518,7 +518,8 @@ class PartDefinition:
                             d2 = other.direction if other.direction else other.normal
                             if d1 and d2:
                                 # Check if parallel (dot product near 1)
-                                dot = abs(geom.dot(d1, d2))
+                                dot = abs(geom.dot(d1, d2)) / (
+                                    geom.mag(d1) * geom.mag(d2))
                                 if dot > (1.0 - geom.epsilon):
                                     issues.append(
                                         f"Datums '{name}' and '{other_name}' "
-- 
2.43.0


From 03802f03cf8b08864c12d1ccd1d1c20849663a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 045/192] fix: kinematic constraints with an unusable second
 axis fail instead of crashing or passing

---
 src/yapcad/assembly/kinematic_integration.py | 64 ++++++++++++++++----
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 1be2163..7ec1cea 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1042,11 +1042,21 @@ class KinematicConstraint:
 
         if tf_b is not None:
             origin_b = self._get_origin(tf_b)
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            local_axis_b = self._get_local_axis(self.axis_b)
+            if local_axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid axis_b specification: {self.axis_b}"
+                )
+            axis_b = self._transform_vector(tf_b, local_axis_b)
         elif self.reference_axis is not None and self.reference_center is not None:
             origin_b = np.array(self.reference_center)
-            axis_b = np.array(self.reference_axis)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_axis)
+            if axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid reference_axis: {self.reference_axis}"
+                )
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
@@ -1093,10 +1103,20 @@ class KinematicConstraint:
         axis_a = self._transform_vector(tf_a, local_axis_a)
 
         if tf_b is not None:
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            local_axis_b = self._get_local_axis(self.axis_b)
+            if local_axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid axis_b specification: {self.axis_b}"
+                )
+            axis_b = self._transform_vector(tf_b, local_axis_b)
         elif self.reference_axis is not None:
-            axis_b = np.array(self.reference_axis)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_axis)
+            if axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid reference_axis: {self.reference_axis}"
+                )
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
@@ -1133,10 +1153,20 @@ class KinematicConstraint:
         axis_a = self._transform_vector(tf_a, local_axis_a)
 
         if tf_b is not None:
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            local_axis_b = self._get_local_axis(self.axis_b)
+            if local_axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid axis_b specification: {self.axis_b}"
+                )
+            axis_b = self._transform_vector(tf_b, local_axis_b)
         elif self.reference_axis is not None:
-            axis_b = np.array(self.reference_axis)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_axis)
+            if axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid reference_axis: {self.reference_axis}"
+                )
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
@@ -1323,11 +1353,21 @@ class KinematicConstraint:
 
         if tf_b is not None:
             origin_b = self._get_origin(tf_b)
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            local_axis_b = self._get_local_axis(self.axis_b)
+            if local_axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid axis_b specification: {self.axis_b}"
+                )
+            axis_b = self._transform_vector(tf_b, local_axis_b)
         elif self.reference_center is not None and self.reference_normal is not None:
             origin_b = np.array(self.reference_center)
-            axis_b = np.array(self.reference_normal)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_normal)
+            if axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid reference_normal: {self.reference_normal}"
+                )
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
-- 
2.43.0


From cac71ca4cc90af5f4a8850b3f8ce2b5a9a0eb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 046/192] fix: a kinematic constraint on a face that cannot be
 found fails instead of using the part origin

---
 src/yapcad/assembly/kinematic_integration.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 7ec1cea..79d38dc 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -936,6 +936,19 @@ class KinematicConstraint:
         self._face_pos_b = face_pos_b
         self._face_warnings = face_warnings
 
+        # A face that cannot be located would silently be taken for the part
+        # origin, so a constraint measured from it has no answer.
+        if face_warnings and self.constraint_type in (
+            KinematicConstraintType.COINCIDENT,
+            KinematicConstraintType.AT_DISTANCE,
+            KinematicConstraintType.MIN_DISTANCE,
+        ):
+            return ConstraintEvaluationResult(
+                satisfied=False,
+                error_message="; ".join(face_warnings),
+                details={"face_warnings": list(face_warnings)}
+            )
+
         # Dispatch to appropriate evaluation method
         if self.constraint_type == KinematicConstraintType.COINCIDENT:
             return self._evaluate_coincident(tf_a, tf_b)
-- 
2.43.0


From e3313d9ebb34a17dc85cb38f71d42767b9abcd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 047/192] fix: MIN_DISTANCE measures the distance between the
 boxes, not the smallest gap along an axis

---
 src/yapcad/assembly/kinematic_integration.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 79d38dc..4535ead 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1716,12 +1716,10 @@ class KinematicConstraint:
         dist_z = max(aabb_a[0][2] - aabb_b[1][2], aabb_b[0][2] - aabb_a[1][2])
 
         # If any distance is positive, boxes are separated
-        # Return the maximum distance (most separated axis)
         # If all negative, return the minimum (most penetration)
         if dist_x > 0 or dist_y > 0 or dist_z > 0:
-            # Separated - return minimum positive distance
-            positive_dists = [d for d in [dist_x, dist_y, dist_z] if d > 0]
-            return min(positive_dists) if positive_dists else 0.0
+            # Separated - distance between the closest points of the boxes
+            return math.sqrt(sum(max(d, 0.0) ** 2 for d in (dist_x, dist_y, dist_z)))
         else:
             # Overlapping - return negative (penetration depth)
             return max(dist_x, dist_y, dist_z)  # Least penetration
-- 
2.43.0


From 69e38dbef41408bc4988484866b76225d2aa3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 048/192] fix: MIN_DISTANCE to a reference point no longer
 crashes when bounds are given

---
 src/yapcad/assembly/kinematic_integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 4535ead..465d3a4 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1452,7 +1452,7 @@ class KinematicConstraint:
 
         # If bounding boxes are provided, calculate minimum separation
         # (bounding box method takes precedence over face positions for collision detection)
-        if self.bounds_a is not None and self.bounds_b is not None:
+        if self.bounds_a is not None and self.bounds_b is not None and tf_b is not None:
             # Transform bounding boxes to world coordinates
             actual_distance = self._calculate_bbox_separation(
                 tf_a, self.bounds_a, tf_b, self.bounds_b
-- 
2.43.0


From 0bde5c2f0b616cac2e9aab48c01ae17306f9e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 049/192] fix: Z_STACK_CLEARANCE uses the real Z range of parts
 that are flipped or tilted

---
 src/yapcad/assembly/kinematic_integration.py | 26 ++++----------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 465d3a4..1208a1e 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1522,27 +1522,11 @@ class KinematicConstraint:
         height_a = self.bounds_a[1][2] - self.bounds_a[0][2]  # max_z - min_z
         height_b = self.bounds_b[1][2] - self.bounds_b[0][2]
 
-        # Get local Z offsets to top/bottom surfaces
-        top_a_local = self.bounds_a[1][2]  # max_z in local coords
-        bottom_a_local = self.bounds_a[0][2]  # min_z in local coords
-        top_b_local = self.bounds_b[1][2]
-        bottom_b_local = self.bounds_b[0][2]
-
-        # Transform local top/bottom points to world Z
-        # For simplified check, assume Z-axis alignment (after rotations)
-        # Get world Z-axis direction for each part
-        local_z_a = self._get_local_axis("z")
-        local_z_b = self._get_local_axis("z")
-        world_z_a = self._transform_vector(tf_a, local_z_a)
-        world_z_b = self._transform_vector(tf_b, local_z_b)
-
-        # Calculate world Z positions of top/bottom faces
-        # For a part with local bounds, world top Z = origin_z + local_max_z (if Z aligned)
-        # If rotated, this is more complex - simplified version uses origin + projected height
-        top_a_world = origin_a[2] + top_a_local * abs(world_z_a[2])
-        bottom_a_world = origin_a[2] + bottom_a_local * abs(world_z_a[2])
-        top_b_world = origin_b[2] + top_b_local * abs(world_z_b[2])
-        bottom_b_world = origin_b[2] + bottom_b_local * abs(world_z_b[2])
+        # World Z range of each part, from its transformed bounding box
+        aabb_a = self._transform_aabb(tf_a, self.bounds_a)
+        aabb_b = self._transform_aabb(tf_b, self.bounds_b)
+        bottom_a_world, top_a_world = aabb_a[0][2], aabb_a[1][2]
+        bottom_b_world, top_b_world = aabb_b[0][2], aabb_b[1][2]
 
         # Determine overlap in Z
         # Parts overlap if top_a > bottom_b AND top_b > bottom_a
-- 
2.43.0


From 616055bf6ad86fcae4bc8f264e5acfc9461b2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 050/192] fix: arcs that start at 0 or end at 360 degrees
 sample over their own sweep

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 807fc49..b41f409 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2413,7 +2413,7 @@ def samplearc(c,u,polar=False):
     w=c[1][3]
     if w == -2: # if arc is flagged as sample-reversed, flip u
         u=1.0-u
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
@@ -2464,7 +2464,7 @@ def unsamplearc(c,p):
     #     start = 0
     #     end = 360
         
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
-- 
2.43.0


From e47ba7f1f0212dc5ace4532e6ce656fa31cca7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 051/192] fix: unsamplearc maps the ends of an arc to 0 and 1
 despite rounding

---
 src/yapcad/geom.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index b41f409..bf18394 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2481,6 +2481,13 @@ def unsamplearc(c,p):
     ang = (atan2(x[1],x[0]) % pi2)*360/pi2
     if end > 360.0 and ang <= end-360.0:
         ang = ang + 360.0
+    if ang < start or ang > end:
+        # a point at either end of the arc may be off by a rounding error
+        tol = epsilon*360/(pi2*max(r,epsilon))
+        if abs((ang-start+180.0) % 360.0 - 180.0) <= tol:
+            ang = start
+        elif abs((ang-end+180.0) % 360.0 - 180.0) <= tol:
+            ang = end
     u = (ang-start)/(end-start)
     if c[1][3] == -2: #samplereverse
         u = 1.0-u
-- 
2.43.0


From 26513e44e81d240d72d8de8b8e1bc3497fdceebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 052/192] fix: the bounding box of an arc includes the quadrant
 points it passes

---
 src/yapcad/geom.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index bf18394..fb73f06 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2500,10 +2500,15 @@ def arcbbox(c):
         rr=point(c[1][0],c[1][0])
         return [sub(c[0],rr),add(c[0],rr)]
     else:
-        pp = []
-        for i in range(5):
-            u = i/4
-            pp.append(samplearc(c,u))
+        pp = [samplearc(c,0.0),samplearc(c,1.0)]
+        start = c[1][1] % 360.0
+        end = c[1][2] % 360.0
+        if end < start:
+            end += 360.0
+        # points where the arc is tangent to the sides of its box
+        for ang in (90,180,270,360,450,540,630):
+            if start < ang < end:
+                pp.append(add(c[0],scale3(vect(cos(radians(ang)),sin(radians(ang))),c[1][0])))
         return polybbox(pp)
 
 def isinsidearcXY(c,p):
-- 
2.43.0


From 7dfcee6d2224a1256b1bb5d3744c7f3a21ee19e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 053/192] fix: segmentarc keeps a whole circle whole and runs
 backwards when u2 < u1

---
 src/yapcad/geom.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index fb73f06..6d508d5 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2442,6 +2442,13 @@ def segmentarc(c,u1,u2):
     pol1=samplearc(c,u1,polar=True)
     pol2=samplearc(c,u2,polar=True)
     sr= (c[1][3] == -2)
+    if u2 < u1 and not iscircle(c): # backwards along the arc
+        pol1, pol2 = pol2, pol1
+        if sr:
+            return arc(pol1[0],pol1[1],pol2[2],pol1[2])
+        return arc(pol1[0],pol1[1],pol1[2],pol2[2],samplereverse=True)
+    if iscircle(c) and abs(u2-u1) == 1.0:
+        return arc(c)
     if sr:
         return arc(pol1[0],pol1[1],pol2[2],pol1[2],samplereverse=True)
     else:
-- 
2.43.0


From 7f298a0467dc8a3ac8a559a691b22fdf6dd9e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 054/192] fix: unsampleline measures the distance from the
 line, not the distance times its length

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 6d508d5..8b5bc23 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2034,9 +2034,9 @@ def unsampleline(l,p):
     v2 = sub(p,l[0])
     z = cross(v1,v2)            # magnitude of cross product is zero
                                 # if vectors parallel
-    if mag(z) > epsilon:        #  not parallel case
-        return False
     len1 = mag(v1)
+    if mag(z) > epsilon*len1:   #  not parallel case
+        return False
     len2 = mag(v2)
     if dot(v1,v2) > 0:
         return len2/len1
-- 
2.43.0


From ec93bc95392ed4894c4796903009bd5970748ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 055/192] fix: unsamplearc refuses points above or below the
 plane of a large arc

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 8b5bc23..90caeaa 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2483,7 +2483,7 @@ def unsamplearc(c,p):
         norm = c[2]
         if dist(norm,vect(0,0,1)) > epsilon:
             raise NotImplementedError('non x-y plane arc unsampling not yet supported')
-    if abs(mag(x)-r) > epsilon:
+    if abs(sqrt(x[0]*x[0]+x[1]*x[1])-r) > epsilon or abs(x[2]) > epsilon:
         return False            # point is not on arc circle
     ang = (atan2(x[1],x[0]) % pi2)*360/pi2
     if end > 360.0 and ang <= end-360.0:
-- 
2.43.0


From f716d0e8b586fe2c03a84edfd473bc21e5ef312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 056/192] fix: sampling polys with repeated points and lists
 with points no longer divides by zero

---
 src/yapcad/geom.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 90caeaa..2ae3338 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3186,7 +3186,14 @@ def samplepoly(a,u):
 
     if closed:
         u=u%1.0
-        
+
+    if length <= 0.0:
+        return point(a[0])
+
+    # repeated points make segments that can't be sampled
+    lines = [ lines[i] for i in range(len(lines)) if lengths[i] > 0.0 ]
+    lengths = [ l for l in lengths if l > 0.0 ]
+
     dst = u * length;
     d = 0
     if u < 1.0:
@@ -3456,7 +3463,14 @@ def samplegeomlist(gl,u):
         raise ValueError('non-geomlist passed to samplegeomlist')
     
     lengths,leng = __geomlistlength(gl)
-        
+
+    if leng <= 0.0:
+        return sample(gl[0],0.0)
+
+    # points and other zero-length elements are ignored
+    gl = [ gl[i] for i in range(len(gl)) if lengths[i] > 0.0 ]
+    lengths = [ l for l in lengths if l > 0.0 ]
+
     dst = u * leng
     d = 0
     if u < 1.0:
-- 
2.43.0


From 2c5de26852f737685f17cd118bc8cc511b9d8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 057/192] fix: unsamplepoly finds points at the ends of any
 segment before trying the extensions

---
 src/yapcad/geom.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2ae3338..65ec3c4 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3264,26 +3264,24 @@ def unsamplepoly(a,p):
     lines,lengths,length = __lineslength(a)
     if len(lines) == 1:
         return unsampleline(lines[0],p)
-    else:
-        uu1 = unsampleline(lines[0],p)
-        if not isinstance(uu1,bool) and uu1 < 1.0 and\
-           (not closed or uu1 >= 0.0):
-            return uu1*lengths[0]/length
-        dst = lengths[0]
-        if len(lines) > 2:
-            for i in range(1,len(lines)-1):
-                uu = unsampleline(lines[i],p)
-                if not isinstance(uu,bool) and uu >= 0.0 and uu < 1.0:
-                    return (uu*lengths[i]+dst)/length
-                else:
-                    dst = dst+lengths[i]
-        uu2 = unsampleline(lines[-1],p)
-        
-        if not isinstance(uu2,bool) and uu2 >= 0.0 and\
-           (not closed or uu2 <= 1.0):
-            return (uu2*lengths[-1]+dst)/length
-        else:
-            return False
+    dst = 0.0
+    uus = []
+    for i in range(len(lines)):
+        uu = False
+        if lengths[i] > 0.0:
+            uu = unsampleline(lines[i],p)
+        if not isinstance(uu,bool):
+            slack = epsilon/lengths[i]
+            if uu >= -slack and uu <= 1.0+slack:
+                return (min(max(uu,0.0),1.0)*lengths[i]+dst)/length
+        uus.append(uu)
+        dst = dst+lengths[i]
+    if not closed: # not on the poly itself, try the ends extended
+        if not isinstance(uus[0],bool) and uus[0] < 0.0:
+            return uus[0]*lengths[0]/length
+        if not isinstance(uus[-1],bool) and uus[-1] > 1.0:
+            return (uus[-1]*lengths[-1]+dst-lengths[-1])/length
+    return False
 
 
 ## ccompute the intersection between non-compound geometric element g,
-- 
2.43.0


From 28ba031768ca078e3d742434f1b7720d757e22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 058/192] fix: unsample works on geometry lists

---
 src/yapcad/geom.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 65ec3c4..6875fbe 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3491,35 +3491,23 @@ def unsamplegeomlist(gl,p):
     False if the point is more than epsilon away from any poly line
     segment
     """
-    if not isgeomlist(g):
+    if not isgeomlist(gl):
         raise ValueError('non geometry list passed to unsamplegeomlist')
 
     lengths,leng = __geomlistlength(gl)
     if len(gl) == 1:
         return unsample(gl[0],p)
-    else:
-        uu1 = unsample(gl[0],p)
-        if (not isinstance(uu1,bool)
-            and uu1 < 1.0 and uu1 >= 0.0):
-            return uu1*lengths[0]/leng
-        dst = lengths[0]
-        if len(gl) > 2:
-            for i in range(1,len(gl)-1):
-                if lengths[i] <= epsilon:
-                    continue
-                uu = unsample(gl[i],p)
-                if (not isinstance(uu,bool)
-                    and uu >= 0.0 and uu < 1.0):
-                    return (uu*lengths[i]+dst)/length
-                else:
-                    dst = dst+lengths[i]
-        uu2 = unsample(gl[-1],p)
-        
-        if (not isinstance(uu2,bool) and
-            uu2 >= 0.0 and uu2 <= 1.0):
-            return (uu2*lengths[-1]+dst)/length
-        else:
-            return False
+    dst = 0.0
+    for i in range(len(gl)):
+        if lengths[i] <= epsilon:
+            continue
+        uu = unsample(gl[i],p)
+        slack = epsilon/lengths[i]
+        if (not isinstance(uu,bool)
+            and uu >= -slack and uu <= 1.0+slack):
+            return (min(max(uu,0.0),1.0)*lengths[i]+dst)/leng
+        dst = dst+lengths[i]
+    return False
 
 
 
-- 
2.43.0


From cb7c4eb6caf5e0ccd9270d7b65cb974a2be97711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 059/192] fix: reverseGeomList reverses polys and arcs that are
 already reversed

---
 src/yapcad/geom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 6875fbe..98baa12 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3524,10 +3524,11 @@ def reverseGeomList(gl):
             rgl.insert(0,line(g[1],g[0]))
         elif isarc(g):
             c = deepcopy(g)
-            c[1][3] = -2 # set samplereverse flag
+            c[1][3] = -1 if c[1][3] == -2 else -2 # toggle samplereverse flag
             rgl.insert(0,c)
         elif ispoly(g):
-            ply = deepcopy(g).reverse()
+            ply = deepcopy(g)
+            ply.reverse()
             rgl.insert(0,ply)
         elif isgeomlist(g):
             rgl.insert(0,reverseGeomList(g))
-- 
2.43.0


From 9ccbc93c65a6a268a36c5b96e11679391b95648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 060/192] fix: segmentpoly slices backwards and up to or across
 the seam of a polygon

---
 src/yapcad/geom.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 98baa12..bfffbf7 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3219,16 +3219,17 @@ def segmentpoly(a,u1,u2):
         closed = True
 
     if closed:
-        u1%= 1.0
-        u2%= 1.0
+        if u1 != u2: # the end of the poly is not its start
+            u1%= 1.0
+            u2 = u2%1.0 or 1.0
         if u2 < u1:
-            return segmentpoly(a,u1,1.0-epsilon) + segmentpoly(a,0.0,u2)
+            return segmentpoly(a,u1,1.0) + segmentpoly(a,0.0,u2)[1:]
         
     else:
         if u1 < 0 or u2 < 0 or u1 > 1 or u2 > 1:
             raise ValueError('parameters fall outside 0,1 interval: {},{}'.format(u1,u2))
     if u2 < u1:
-        a = deepcopy(a).reverse()
+        a = a[::-1]
         u1 = 1.0-u1
         u2 = 1.0-u2
         
@@ -3237,8 +3238,8 @@ def segmentpoly(a,u1,u2):
 
     ply = []
     for l in sgl:
-        ply.append(l[0])
-    ply.append(sgl[-1][1])
+        ply.append(point(l[0]))
+    ply.append(point(sgl[-1][1]))
 
     return ply
 
-- 
2.43.0


From e11e5152d5d2c38fe4120041726814fe1fe71851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:28 +0000
Subject: [PATCH 061/192] fix: segmentgeomlist does not pass parameters rounded
 below zero to nested lists

---
 src/yapcad/geom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index bfffbf7..ff243e1 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3578,16 +3578,16 @@ def segmentgeomlist(gl,u1,u2,closed=False,reverse=False):
             continue
         if dst1 <= d+l:
             if not STARTED:
-                uu = 1.0 - (d+l-dst1)/l
+                uu = max(0.0, 1.0 - (d+l-dst1)/l)
                 uu2 = 1.0
                 if dst2 < d+l:
-                    uu2 = 1.0 - (d+l-dst2)/l
+                    uu2 = max(uu, 1.0 - (d+l-dst2)/l)
                     DONE=True
                 rgl.append(_segment(gl[i],uu,uu2))
                 STARTED=True
                                       
             elif dst2 <= d+l:
-                uu = 1.0 - (d+l-dst2)/l
+                uu = max(0.0, 1.0 - (d+l-dst2)/l)
                 rgl.append(_segment(gl[i],0.0,uu))
                 DONE=True
             else:
-- 
2.43.0


From 1e29152ae66f5888c4201991068a57a0c614044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 062/192] fix: linePointXY returns the parameter, not its
 complement, and the exact closest point

---
 src/yapcad/geom.py | 126 +++++++--------------------------------------
 1 file changed, 18 insertions(+), 108 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index ff243e1..3d8ec9e 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2135,123 +2135,33 @@ def linePointXY(l,p,inside=True,distance=False,params=False):
     a=l[0]
     b=l[1]
     # check for degenerate case of zero-length line
-    abdist = dist(a,b)
-    if abdist < epsilon:
-        #raise ValueError('zero-length line passed to linePointXY')
-        print('zero-length line passed to linePointXY')
-        return False
-
     if distance and params:
         raise ValueError('incompatible distance and params parameters passed to linePointXY')
 
-    x0=p[0]
-    y0=p[1]
-    z0=p[2]
-    x1=a[0]
-    y1=a[1]
-    z1=a[2]
-    x2=b[0]
-    y2=b[1]
-    z2=b[2]
-
-    ## check to see if all three points lie in the same x,y plane
+    # Since this may be called a lot, check only what the calculation
+    # below relies on
     if not isXYPlanar([p,a,b]):
         raise ValueError('non-XY points in linePointXY call')
-        return false
-    # if abs(z1-z0) > epsilon or abs(z2-z0) > epsilon:
-    #    return False
-
-    linedist = abs( ((y2-y1)*x0 - (x2-x1)*y0 + x2*y1 - y2*x1)/abdist)
-
-    ## this is the fast case:
-    if not inside and distance:
-        return linedist
-    
-    ## find out where the intersection between the original line and a
-    ## line defined by the point and an orthogonal direction vector
-    ## is.  We do this by constructing two direction vectors
-    ## orthogonal to the orgiginal line scaled by the line distance,
-    ## and adding them to the point in question.  Assuming that the
-    ## line distance is not zero, only one of these constructed points
-    ## will fall on the line
-
-    ## compute unit direction vector for original line
-    dir = sub(b,a)
-    dir = scale3(dir,1.0/mag(dir))
-
-    ## compute two orthogonal direction vectors of length linedist
-    ordir1 = scale3(orthoXY(dir),linedist)
-    ordir2 = scale3(ordir1, -1.0)
-    
-    ## there are two possible intersection points
-    pi1 = add(p,ordir1)
-    pi2 = add(p,ordir2)
-
-    ## compute distances
-    d1pa = dist(a,pi1)
-    d1pb = dist(pi1,b)
-    d1 =  d1pa+d1pb # "triangle" with pi1
-
-    d2pa = dist(a,pi2)
-    d2pb = dist(pi2,b)
-    d2 =  d2pa+d2pb # "triangle" with pi2
-
-    ## the shortest "triangle" distance will signal the point that
-    ## is actually on the line, even if that point falls outside
-    ## the a,b line interval
-    
-    if params or not inside: # if we don't care about being inside the
-                             # line segment
-        if d1 <= d2:
-            if distance:
-                return d1
-            elif params:
-                return d1pb/abdist
-            else:
-                return pi1
-        else:
-            if distance:
-                return d2
-            elif params:
-                return d2pb/abdist
-            else:
-                return pi2
-        
-    
-    ## if the closest point on the line to point p lies between
-    ## the endpoints of the line, then either d1 or d2 will equal
-    ## abdist.  IF neither do, then we know that the closest point lies
-    ## outside the endpoints
 
-    if abs(d1-abdist) < epsilon:
-        if distance:
-            return linedist
-        else:
-            return pi1
-
-    if  abs(d2-abdist) < epsilon:
+    abdist = dist(a,b)
+    if abdist < epsilon:
         if distance:
-            return linedist
-        else:
-            return pi2
-
-    ## closest point is outside the interval.  That means that the
-    ## distance from point p to whichever endpoint is smaller is the
-    ## closest distance
+            return dist(a,p)
+        # degenerate line
+        print('zero-length line passed to linePointXY')
+        return False
 
-    d3 = dist(a,p)
-    d4 = dist(b,p)
+    # parameter of the foot of the perpendicular from p
+    u = ((p[0]-a[0])*(b[0]-a[0])+(p[1]-a[1])*(b[1]-a[1]))/(abdist*abdist)
+    if inside:
+        u = min(max(u,0.0),1.0)
 
-    if d3 < d4:
-        if distance:
-            return d3
-        else:
-            return a
-    else:
-        if distance:
-            return d4
-        else:
-            return b
+    if params:
+        return u
+    q = sampleline(l,u)
+    if distance:
+        return dist(p,q)
+    return q
 
 ## convenience function for fast distance calc
 def linePointXYDist(l,p,inside=True):
-- 
2.43.0


From da444b40ef9a28652f29eb4aefede88f0191bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 063/192] fix: short lines intersect; lines are parallel by
 their angle, not their length

---
 src/yapcad/geom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 3d8ec9e..1403ea0 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2090,7 +2090,8 @@ def lineLineIntersectXY(l1,l2,inside=True,params=False):
 
     ## do lines intersect anywhere?
     denom=(x1-x2)*(y3-y4)-(y1-y2)*(x3-x4)
-    if denom*denom < epsilon:
+    scl=sqrt(((x1-x2)**2+(y1-y2)**2)*((x3-x4)**2+(y3-y4)**2))
+    if abs(denom) <= 1e-9*scl:
         return False
 
     ## the lines do intersect, so let's see if they intersect
-- 
2.43.0


From 53169b01a8dcbeba50ffe892cf51dc2c07094a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 064/192] fix: line-arc intersection keeps a point at the end
 of the line and accepts near-tangent lines

---
 src/yapcad/geom.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 1403ea0..1849070 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2713,12 +2713,10 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     cc = mpP0*mpP0+mpP1*mpP1-mpr*mpr
     d = b*b-4*a*cc
     ## Check to see if we are within epsilon, scaled by the length of the line
-    if mpm.fabs(d) < mpm.sqrt(a)*2*mpepsilon: # one point of intersection
+    ## (d < 0 means the line passes within epsilon of the circle)
+    if d < 0 or mpm.fabs(d) < mpm.sqrt(a)*2*mpepsilon: # one point of intersection
         b0 = -b/(2*a)
         b1 = False
-    elif d < 0:
-        print("value of d: ",d,"  value of sqrt(a)*epsilon",sqrt(a)*epsilon)
-        raise ValueError("imaginary solution to circle line intersection -- shouldn't happen here")
     else: # two points of intersection
         b0 = (-b + mpm.sqrt(d))/(2*a)
         b1 = (-b - mpm.sqrt(d))/(2*a)
@@ -2726,7 +2724,7 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     # use computed parameters to calculate solutions, still in
     # circle-at-origin coordinates
     s = [ add(scale3(V,float(b0)),p1) ]
-    if b1:
+    if b1 is not False:
         s = s + [ add(scale3(V,float(b1)),p1) ]
 
     if not inside or circle or params:              # transform back into world
-- 
2.43.0


From 7ad2b2f0f0acd8fadec9ec9debcc62c0354a4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 065/192] fix: lineArcIntersectXY only returns points within
 the line segment when inside is true

---
 src/yapcad/geom.py | 50 ++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 1849070..b8b19dc 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2727,35 +2727,41 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     if b1 is not False:
         s = s + [ add(scale3(V,float(b1)),p1) ]
 
-    if not inside or circle or params:              # transform back into world
-                                          # coordinates
-        pp = list(map(lambda q: add(q,x),s))
-        if params:
-            uu1 = []
-            uu2 = []
-            for i in range(len(pp)):
-                uu1 = uu1 + [ unsampleline(l,pp[i]) ]
-                uu2 = uu2 + [ unsamplearc(c,pp[i]) ]
-            return [uu1, uu2]
-        else:
-            return pp
+    # transform back into world coordinates
+    pp = list(map(lambda q: add(q,x),s))
+    if not inside and not params:
+        return pp
 
-    ## see if any of the intersections we've found lie between
-    ## start and end of the arc
-    
-    ss = []
-    for i in s:
-        ang = (atan2(i[1],i[0]) % pi2)*360.0/pi2
+    # sampling parameters; the point at l[0] has b == 1.0
+    uu1 = [ 1.0-float(bb) for bb in (b0,b1) if bb is not False ]
+    uu2 = [ _arcparam(c,p) for p in pp ]
+    if params:
+        good = [ i for i in range(len(pp)) if not isinstance(uu2[i],bool) ]
+        if len(good) == 0:
+            return False
+        return [ [ uu1[i] for i in good ],[ uu2[i] for i in good ] ]
 
-        if end > start and ang >= start and ang <= end:
-            ss = ss + [ add(x,i) ]
-        elif end < start and (ang >= start or ang<= end):
-            ss = ss + [ add(x,i) ]
+    ## see if any of the intersections we've found lie between the
+    ## ends of the line and the start and end of the arc
 
+    slack = epsilon/dist(l[0],l[1])
+    ss = [ pp[i] for i in range(len(pp))
+           if uu1[i] >= -slack and uu1[i] <= 1.0+slack and
+           (circle or (not isinstance(uu2[i],bool) and
+                       uu2[i] >= 0.0 and uu2[i] <= 1.0)) ]
     if len(ss) == 0:
         return False
     return ss
 
+## sampling parameter of the point on arc c that lies in the direction
+## of point p from the center
+def _arcparam(c,p):
+    v = sub(p,c[0])
+    m = mag(v)
+    if m < epsilon:
+        return False
+    return unsamplearc(c,add(c[0],scale3(v,c[1][0]/m)))
+
 ## value-safe wrapper for line-arc intersection function
 def lineArcIntersectXY(l,c,inside=True,params=False):
     """
-- 
2.43.0


From fdb095c30e8b6c79257ac61740ebe99d9df120f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 066/192] fix: arc-arc intersection parameters of arcs that
 pass through zero degrees

---
 src/yapcad/geom.py | 98 ++++++++--------------------------------------
 1 file changed, 17 insertions(+), 81 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index b8b19dc..cbb7c31 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2469,8 +2469,6 @@ def _arcArcIntersectXY(c1,c2,inside=True,params=False):
     r2=c2[1][0]
 
     # check for sample reverse condition
-    sr1 = c1[1][3]==-2
-    sr2 = c2[1][3]==-2
 
     ## first check for non-intersection due to distance between the
     ## centers of the arcs, treating both arcs as circles for the moment
@@ -2541,92 +2539,30 @@ def _arcArcIntersectXY(c1,c2,inside=True,params=False):
     if not inside and not params:
         return s
     
-    ## jump back to arc1 and arc2 space and check angles
-
-    s1 = list(map(lambda x: sub(x,x1),s))
-    s2 = list(map(lambda x: sub(x,x2),s))
-
-    ## compute start and end angles for arcs
-    start1=c1[1][1]
-    end1=c1[1][2]
-    if not (start1 == 0 and end1 == 360):
-        start1 = start1 % 360.0
-        end1 = end1 % 360.0
-        if end1 < start1:
-            end1 = end1 + 360.0
-        
-    start2=c2[1][1]
-    end2=c2[1][2]
-    
-    if not (start2 == 0 and end2 == 360):
-        start2 = start2 % 360.0
-        end2 = end2 % 360.0
-        if end2 < start2:
-            end2 = end2 + 360.0
-        
+    ## jump back to arc1 and arc2 space and check the sampling parameters
 
-    ## check each intersection against angles for each arc.  
     ss = []
     uparam1 = []
     uparam2 = []
-    for i in range(len(s)):
-        p1 =s1[i]
-        p2 =s2[i]
-        ang1 = (atan2(p1[1],p1[0]) % pi2)*360.0/pi2
-        ang2 = (atan2(p2[1],p2[0]) % pi2)*360.0/pi2
-
+    for p in s:
+        u1 = _arcparam(c1,p)
+        u2 = _arcparam(c2,p)
+        if isinstance(u1,bool) or isinstance(u2,bool):
+            continue # zero-length arc
         if params:
-            u1 = 0
-            u2 = 0
-            if end1 <= 360.0 or ang1 >= start1 or \
-               ( end1 > 360.0 and ang1 > end1-360.0):
-                u1 = (ang1-start1)/(end1-start1)
-                if sr1:
-                    u1 = 1.0-u1
-            elif end1 > 360.0:
-                u1 = (ang1+360.0-start1)/(end1-start1)
-                if sr1:
-                    u1 = 1.0-u1
-            uparam1 = uparam1 + [ u1 ]
-                
-            if end2 <= 360.0 or ang2 >= start2 or \
-               ( end2 > 360.0 and ang2 > end1-360.0):
-                u2 = (ang2-start2)/(end2-start2)
-                if sr2:
-                    u2 = 1.0-u2
-            elif end2 > 360.0:
-                u2 = (ang2+360.0-start2)/(end2-start2)
-                if sr2:
-                    u2 = 1.0-u2
-            uparam2 = uparam2 + [ u2]
-                
-        else:
-            good = False
-            ## check angle against first arc
-            if end1 <= 360.0 and ang1 >= start1 and ang1 <= end1:
-                good = True
-            elif end1 > 360.0 and (ang1 >= start1 or ang1<= end1-360.0):
-                good = True
-
-            ## check angle against second arc
-            if end2 <= 360.0 and  ang2 >= start2 and ang2 <= end2:
-                good = good and True
-            elif end2 > 360.0 and (ang2 >= start2 or ang2<= end2-360.0):
-                good = good and True
-            else:
-                good = False
+            uparam1.append(u1)
+            uparam2.append(u2)
+        elif u1 >= 0.0 and u1 <= 1.0 and u2 >= 0.0 and u2 <= 1.0:
+            ss.append(p)
 
-            ## only add instersection to the list if both checks were passed
-            if good:
-                ss = ss + [ s[i] ]
-                
-    if not params and len(ss) == 0:
+    if params:
+        if len(uparam1) == 0:
+            return False
+        return [uparam1,uparam2]
+    if len(ss) == 0:
         return False
-    else:
-        if params:
-            return [uparam1,uparam2]
-        else:
-            return ss
+    return ss
+
 
 ## value-safe wrapper for arc-arc intersection function
 def arcArcIntersectXY(c1,c2,inside=True,params=False):
-- 
2.43.0


From e54009b3a6c1d73c8763eb042c4c762b3bf50cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 067/192] fix: poly-poly intersection returns each poly's own
 parameters, over its whole length

---
 src/yapcad/geom.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index cbb7c31..b77449f 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2601,8 +2601,6 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     if c[1][1] == 0 and c[1][2] == 360:
         circle = True
         
-    start=c[1][1] % 360.0
-    end=c[1][2] %360.0
 
     ## what is the shortest distance between the line and the center
     ## of the arc?  If that is greater than r, then there is no
@@ -3140,7 +3138,7 @@ def unsamplepoly(a,p):
 ## and poly a.
 def intersectSimplePolyXY(g,a,inside=True,params=False):
     if not (ispoly(a) and isXYPlanar(a)):
-        raise ValueError('non-XY-planar or bad poly argument to intersectSimplePOlyXY: {}'.format(vstr(p)))
+        raise ValueError('non-XY-planar or bad poly argument to intersectSimplePOlyXY: {}'.format(vstr(a)))
     closed = False
     ARC=False
     LINE=False
@@ -4271,7 +4269,8 @@ def intersectXY(g1,g2,inside=True,params=False):
             closed = False
             if len(g1) > 2 and dist(g1[0],g1[-1]) < epsilon:
                 closed= True
-            uu1s = uu2s = []
+            uu1s = []
+            uu2s = []
             pnts = []
             lines, lengths, leng =  __lineslength(g1)
             if lines == []:
@@ -4296,9 +4295,10 @@ def intersectXY(g1,g2,inside=True,params=False):
                                    (uu[0][j] >= 0.0 and uu[0][j] <= 1.0) and \
                                    (uu[1][j] >= 0.0 and uu[1][j] <= 1.0):
                                     pnts.append(sample(g2,uu[1][j]))
+                dst = dst+lengths[i]
             if params:
                 if len(uu1s) > 0:
-                    return [ uu2s, uu1s]
+                    return [ uu1s, uu2s]
                 else:
                     return False
             else:
-- 
2.43.0


From a84fabcf51579ad4a3fdab7bf3acb74a7576b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 068/192] fix: intersections with nested geometry lists, and of
 polys with lists of polys

---
 src/yapcad/geom.py | 122 +++++++--------------------------------------
 1 file changed, 19 insertions(+), 103 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index b77449f..f0db6bc 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3524,115 +3524,31 @@ def isgeomlistXYPlanar(gl):
 def intersectGeomListXY(g,gl,inside=True,params=False):
     if not isgeomlistXYPlanar(gl + [ g ]):
         raise ValueError('non-XY-planar or geometry arguments to intersectSimpleGeomListXY: {}'.format(vstr(gl + [ g])))
-    gTypes = ('point','line','arc','poly','glist')
-    def typeString(geom):
-        if ispoint(geom):
-            return 'point'
-        elif isline(geom):
-            return 'simple'
-        elif isarc(geom):
-            return 'simple'
-        elif ispoly(geom):
-            return 'poly'
-        elif isgeomlist(g):
-            return 'glist'
-        else:
-            return False
-    gtype = typeString(g)
-    if not gtype or gtype == 'point':
+    if ispoint(g):
         raise ValueError('bad geometry argument passed to intersectGeomListXY: {}'.format(vstr(g)))
     pnts = []
     uu1s = []
     uu2s = []
-    lengths, leng = __geomlistlength(gl)
-    if len(gl) == 1:
-        if gtype == 'simple':
-            return _intersectSimpleXY(g,gl[0],inside,params)
-        if gtype == 'poly':
-            r = intersectSimplePolyXY(gl[0],g,inside,params)
-            if params:
-                return [ r[1], r[0] ]
-            else:
-                return r
-        if gtype == 'glist':
-            r = intersectGeomListXY(gl[0],g,inside,params)
-            if params:
-                if isinstance(r,bool):
-                    return r
-                return [ r[1], r[0] ]
-            else:
-                return r
-        else:
-            raise ValueError('bad gtype in intersectGeomListXY, this should never happen')
-        
-    dst = 0.0
-    if len(gl) > 1:
-        for i in range(len(gl)):
-            g2 = gl[i]
-            uu = []
-            gtype2 = typeString(g2)
-            if not gtype2:
-                raise ValueError('This should never happen: bad contents of geometry list after checks in intersectGeomListXY')
-            if gtype2 == 'point':
-                continue
-            elif gtype == 'simple' and  gtype2 == 'simple':
-                try:
-                    uu = _intersectSimpleXY(g,g2,params=True)
-                except ValueError:
-                    print('simple intersection problem with: ',vstr(g),' and ',vstr(g2))
-                    raise
-            elif gtype == 'simple' and  gtype2 == 'poly':
-                uu = intersectSimplePolyXY(g,g2,params=True)
-            elif gtype == 'poly' and gtype2 == 'simple':
-                z = intersectSimplePolyXY(g2,g,params=True)
-                if not isinstance(z,bool):
-                    uu = [z[1],z[0]]
-            elif gtype == 'poly' and gtype2 == 'poly':
-                zz1 = []
-                zz2 = []
-                for j in range(1,len(g)):
-                    zz = intersectSimplePolyXY(line(g[j-1],g[j]),
-                                               g2, params=True)
-                    if not isinstance(zz,bool):
-                        zz1 = zz1 + zz[0]
-                        zz2 = zz2 + zz[1]
-                if len(zz1) > 0:
-                    uu = [ zz1,zz2 ]
-            elif gtype == 'simple' and gtype2 == 'glist':
-                uu = intersectGeomListXY(g,g2,params=True)
-            elif gtype == 'glist' and gtype2 == 'simple':
-                z = intersectGeomListXY(g2,g,params=True)
-                if not isinstance(z,bool):
-                    uu = [z[1],z[0]]
-            elif gtype == 'glist' and gtype2 == 'glist':
-                zz1 = []
-                zz2 = []
-                for gg in g:
-                    zz = intersectGeomListXY(gg,g2,params=True)
-                    if not isinstance(z,bool):
-                        zz1.append(zz[0])
-                        zz2.append(zz[1])
-                if len(zz1) > 0:
-                    uu = [zz1,zz2 ]
-            else:
-                raise ValueError('Aaaaahhhhh.... this should never happen')
 
-            ## if there was at least one intersection
-            if not isinstance(uu,bool) and len(uu) > 0:
-                for j in range(len(uu[0])):
-                    if params:
-                        if ((not inside) or \
-                            (uu[0][j] >= 0.0 and uu[0][j] <= 1.0)) and \
-                            (uu[1][j] >= 0.0 and uu[1][j] <= 1.0):
-                            uu1s.append(uu[0][j])
-                            uu2s.append((uu[1][j]*lengths[i]+dst)/leng)
-                    else:
-                        if ((not inside) or \
-                           (uu[0][j] >= 0.0 and uu[0][j] <= 1.0)) and \
-                           (uu[1][j] >= 0.0 and uu[1][j] <= 1.0):
-                            pnts.append(sample(g,uu[0][j]))
-            dst = dst+lengths[i]
+    if len(gl) == 1:
+        return intersectXY(g,gl[0],inside,params)
 
+    lengths, leng = __geomlistlength(gl)
+    dst = 0.0
+    for i in range(len(gl)):
+        uu = intersectXY(g,gl[i],inside=False,params=True)
+        if not isinstance(uu,bool):
+            for j in range(len(uu[0])):
+                if uu[1][j] < 0.0 or uu[1][j] > 1.0:
+                    continue
+                if inside and (uu[0][j] < 0.0 or uu[0][j] > 1.0):
+                    continue
+                if params:
+                    uu1s.append(uu[0][j])
+                    uu2s.append((uu[1][j]*lengths[i]+dst)/leng)
+                else:
+                    pnts.append(sample(g,uu[0][j]))
+        dst = dst+lengths[i]
     if params:
         if len(uu1s) > 0:
             return [ uu1s, uu2s]
-- 
2.43.0


From 61f91ebb76af02f347d92b4385b5132c789dba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 069/192] fix: polylines of two segments take part in
 intersections

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index f0db6bc..8db6ed2 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3160,7 +3160,7 @@ def intersectSimplePolyXY(g,a,inside=True,params=False):
         else:
             return lineArcIntersectXY(lines[0],g,inside,params)
     dst = 0.0
-    if len(lines) > 2:
+    if len(lines) > 1:
         for i in range(len(lines)):
             if LINE:
                 uu = lineLineIntersectXY(lines[i],g,params=True)
-- 
2.43.0


From e72686935050a99eb84ad0a8af9fc5e3750a9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 070/192] fix: intersection points at the gaps of a
 discontinuous geometry list

---
 src/yapcad/geom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 8db6ed2..5a686f8 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3546,8 +3546,10 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
                 if params:
                     uu1s.append(uu[0][j])
                     uu2s.append((uu[1][j]*lengths[i]+dst)/leng)
-                else:
+                elif issimple(g) or ispoly(g):
                     pnts.append(sample(g,uu[0][j]))
+                else: # where g jumps between elements, its parameter is ambiguous
+                    pnts.append(sample(gl[i],uu[1][j]))
         dst = dst+lengths[i]
     if params:
         if len(uu1s) > 0:
-- 
2.43.0


From c3c15ed486f71a13cc6c7d593b61b0b7a8a472e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 071/192] fix: isInsideConvexPolyXY covers the whole polygon

---
 src/yapcad/geom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 5a686f8..2584cae 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3607,12 +3607,14 @@ def _isInsideConvexPolyXY(a,poly): #no value checking version
         return _isInsideTriangleXY(a,poly)
     else:
         return _isInsideTriangleXY(a,poly[0:3]) or \
-               _isInsideConvexPolyXY(a,poly[1:len(poly)])
+               _isInsideConvexPolyXY(a,poly[0:1]+poly[2:len(poly)])
 
 # value-safe wrapper for convex polygon inside testing function
 def isInsideConvexPolyXY(a,poly):
     if len(poly) < 3 or not isXYPlanar(poly + [ a]):
         raise ValueError('bad poly length or non-XY points in insidepolyXY call')
+    if len(poly) > 3 and dist(poly[0],poly[-1]) < epsilon:
+        poly = poly[0:-1]
     return _isInsideConvexPolyXY(a,poly)
 
 ## Generalized computational geometry functions
-- 
2.43.0


From 3fa9f9e68965d659f29d0091f4f86f4d2183d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 072/192] fix: isinsideXY of an arc tests the arc, as
 documented, not its sector

---
 src/yapcad/geom.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2584cae..0aa0c22 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2437,24 +2437,10 @@ def isinsidearcXY(c,p):
 
     """
 
-    x = c[0]
-    r = c[1][0]
-    if dist(x,p) > r:
-        return False
     if iscircle(c):
-        return True
-    start = c[1][1]%360.0
-    end = c[1][2]%360.0
-    if end < start:
-        end+= 360.0
-    p2 = sub(p,x)
-    ang = (atan2(p2[1],p2[0]) % pi2)*360/pi2
-
-    if end <= 360.0:
-        return (ang >= start and ang <= end)
-    else:
-        return ang >= start or ang <= (end-360.0)
-        
+        return dist(c[0],p) <= c[1][0]+epsilon
+    u = unsamplearc(c,p)
+    return (not isinstance(u,bool)) and u >= 0.0 and u <= 1.0
 
 ## Intersection functions for arcs and circles
 ## we can compute the intersection of an arc and a line, or an arc and
-- 
2.43.0


From 1e4f71f4c7d8e6e07ad831ca685ad906e2121b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 073/192] fix: inside tests of polygons and geometry lists for
 points in line with a vertex or on the boundary

---
 src/yapcad/geom.py | 82 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 23 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 0aa0c22..d2b7245 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2956,26 +2956,66 @@ def isinsidepolyXY(a,p):
 
     ## if not closed, use "unsample" test to determine if ``p`` lies
     ## on the polyline
+    u = unsamplepoly(a,p)
+    if not isinstance(u,bool) and u >= 0.0 and u <= 1.0:
+        return True
     if not closed:
-        if unsamplepoly(a,p) == False:
-            return False
-        else:
-            return True
+        return False
     ## poly is closed polygon
     bb = polybbox(a)
     ## do quick bounding box check
     if not isinsidebbox(bb,p):
         return False
-    ## inside the bounding box, do intersection testing
-    p2 = add([0.01,0.01,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
-    pp = intersectSimplePolyXY(l,a)
-    if pp == False:
-        return False
-    return len(pp) % 2 == 1
+    ## inside the bounding box, count the edges crossed by a ray
+    return _raycrossingsXY(a,p) % 2 == 1
+
+## count how often the ray from ``p`` in the +x direction crosses figure
+## ``g``. A joint that lies on the ray counts for just one of the elements
+## it joins, which makes the parity reliable, unlike that of a list of
+## intersection points.
+def _raycrossingsXY(g,p):
+    px = p[0]
+    py = p[1] + 1e-9 # keep clear of rounding errors at joints
+    def crossline(x1,y1,x2,y2):
+        if (y1 > py) == (y2 > py):
+            return 0
+        return 1 if x1 + (x2-x1)*(py-y1)/(y2-y1) > px else 0
+    if ispoint(g):
+        return 0
+    elif isline(g):
+        return crossline(g[0][0],g[0][1],g[1][0],g[1][1])
+    elif isarc(g):
+        cx = g[0][0]
+        cy = g[0][1]
+        r = g[1][0]
+        start = g[1][1]
+        end = g[1][2]
+        if not iscircle(g):
+            start = start % 360.0
+            end = end % 360.0
+            if end < start:
+                end += 360.0
+        # pieces of the arc that run only up or only down
+        angs = [ start ] + [ a for a in (90.0,270.0,450.0,630.0)
+                             if start < a < end ] + [ end ]
+        n = 0
+        for a0,a1 in zip(angs,angs[1:]):
+            y0 = cy+r*sin(radians(a0))
+            y1 = cy+r*sin(radians(a1))
+            if (y0 > py) != (y1 > py):
+                dx = sqrt(max(0.0,r*r-(py-cy)*(py-cy)))
+                if cos(radians((a0+a1)/2.0)) < 0.0:
+                    dx = -dx
+                if cx+dx > px:
+                    n += 1
+        return n
+    elif ispoly(g):
+        return sum([ crossline(g[i-1][0],g[i-1][1],g[i][0],g[i][1])
+                     for i in range(1,len(g)) ])
+    elif isgeomlist(g):
+        return sum([ _raycrossingsXY(x,p) for x in g ])
+    else:
+        raise ValueError('bad thing passed to inside: {}'.format(g))
 
 ## is it a polygon with all points in the same x-y plane
 def ispolygonXY(a):
@@ -3470,16 +3510,12 @@ def isinsidegeomlistXY(a,p):
     bb = geomlistbbox(a)
     if not isinsidebbox(bb,p):
         return False
-    p2 = add([0.1,0.1,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
 
-    pp = intersectGeomListXY(l,a)
-    if pp == False:
-        return False
-    return len(pp) % 2 == 1
+    ## on the boundary?
+    u = unsamplegeomlist(a,p)
+    if not isinstance(u,bool) and u >= 0.0 and u <= 1.0:
+        return True
+    return _raycrossingsXY(a,p) % 2 == 1
 
 
 ## determint if the contents of a geometry list lie in the same x-y
-- 
2.43.0


From 4c5c9b0da9b0da78a04053aef990f97bbb73b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 074/192] fix: points on the boundary of a geometry list are
 inside despite rounding of its bounding box

---
 src/yapcad/geom.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index d2b7245..2434b8c 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3507,14 +3507,13 @@ def geomlistbbox(gl):
 ## intersections is odd.
 def isinsidegeomlistXY(a,p):
 
-    bb = geomlistbbox(a)
-    if not isinsidebbox(bb,p):
-        return False
-
-    ## on the boundary?
+    ## on the boundary, to within epsilon?
     u = unsamplegeomlist(a,p)
     if not isinstance(u,bool) and u >= 0.0 and u <= 1.0:
         return True
+    bb = geomlistbbox(a)
+    if not isinsidebbox(bb,p):
+        return False
     return _raycrossingsXY(a,p) % 2 == 1
 
 
-- 
2.43.0


From 0f8f29cd3b3990fb9aef5ad8c022fc5728e4a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:37 +0000
Subject: [PATCH 075/192] fix: inside test of a polygon closed only to within
 epsilon

---
 src/yapcad/geom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2434b8c..51b1d2f 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3011,7 +3011,8 @@ def _raycrossingsXY(g,p):
         return n
     elif ispoly(g):
         return sum([ crossline(g[i-1][0],g[i-1][1],g[i][0],g[i][1])
-                     for i in range(1,len(g)) ])
+                     for i in range(0 if dist(g[0],g[-1]) < epsilon else 1,
+                                    len(g)) ])
     elif isgeomlist(g):
         return sum([ _raycrossingsXY(x,p) for x in g ])
     else:
-- 
2.43.0


From b15bc820ba4564834ca999312fb3c03eb293da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 076/192] fix: scale honours the y factor when the z factor is
 left out

---
 src/yapcad/geom.py  | 7 +++++--
 src/yapcad/xform.py | 8 +++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 51b1d2f..36faf84 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3941,8 +3941,11 @@ def translate(x,delta):
 
 def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
     """ return a scaled version of the figure"""
-    if sy == False and sz == False:
-        sy = sz = sx
+    # unspecified factors are the same as sx
+    if isinstance(sy,bool):
+        sy = sx
+    if isinstance(sz,bool):
+        sz = sx
     if vclose(point(sx,sy,sz),point(1.0,1.0,1.0)):
         return deepcopy(x)
     if not mat:
diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index 31f3dfd..f20fad8 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -255,11 +255,9 @@ def Scale(x,y=False,z=False,inverse=False):
     sx = sy = sz = 1.0
     if geom.isgoodnum(x):
         sx = x
-        if geom.isgoodnum(y) and geom.isgoodnum(z):
-            sy = y
-            sz = z
-        else:
-            sy = sz = x
+        # unspecified factors are the same as x
+        sy = y if geom.isgoodnum(y) else x
+        sz = z if geom.isgoodnum(z) else x
     elif geom.isvect(x):
         sx = x[0]
         sy = x[1]
-- 
2.43.0


From 21ceb5e9223a249a621e2727b6562beecb7c6cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 077/192] fix: scaling about a center leaves the center where
 it is

---
 src/yapcad/geom.py   | 4 ++--
 src/yapcad/geom3d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 36faf84..86e915c 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3952,9 +3952,9 @@ def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
         if vclose(cent,point(0,0,0)):
             mat = xform.Scale(sx,sy,sz)
         else:
-            mat = xform.Translation(cent,inverse=True)
+            mat = xform.Translation(cent)
             mat = mat.mul(xform.Scale(sx,sy,sz))
-            mat = mat.mul(xform.Translation(cent))
+            mat = mat.mul(xform.Translation(cent,inverse=True))
 
     if ispoint(x):
         return mat.mul(x)
diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5343f5c..aa2cc5b 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -702,9 +702,9 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     if vclose(cent, point(0,0,0)):
         mat = xform.Scale(sx, sy, sz)
     else:
-        mat = xform.Translation(cent, inverse=True)
+        mat = xform.Translation(cent)
         mat = mat.mul(xform.Scale(sx, sy, sz))
-        mat = mat.mul(xform.Translation(cent))
+        mat = mat.mul(xform.Translation(cent, inverse=True))
 
     s2 = deepcopy(s)
     # Transform vertices
-- 
2.43.0


From b55c91ce5a462c3086ab830e9c213ae45f9d1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 078/192] fix: mirrored arcs keep their place in a figure: same
 sampling order, and unchanged angles for 'xy'

---
 src/yapcad/geom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 86e915c..3a36050 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4085,6 +4085,10 @@ def mirror(x,plane):
     elif isarc(x):
         a2=arc(x)
         a2[0] = mul(x[0],flip)
+        if plane == 'xy': # no change within the plane of the arc
+            return a2
+        # sample in the same order as the original
+        a2[1][3] = -1 if x[1][3] == -2 else -2
         start = x[1][1]
         end  = x[1][2]
         if not (start == 0 and end == 360):
-- 
2.43.0


From 9de64fe2b79d8a57f12c973c2fb06df9dbf4fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 079/192] fix: scaling an arc by a negative factor turns it
 instead of making its radius negative

---
 src/yapcad/geom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 3a36050..2c96680 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3966,7 +3966,10 @@ def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
         if not close(sx,sy):
             raise ValueError('asymmetric scaling of XY-plane arcs not allowed')
         c[0] = mat.mul(x[0])
-        c[1][0] *= sx
+        c[1][0] *= abs(sx)
+        if sx < 0.0 and not iscircle(c): # half a turn around the center
+            c[1][1] += 180.0
+            c[1][2] += 180.0
         return c
 
     elif ispoly(x):
-- 
2.43.0


From e4d19b9d11d9a9418db6ca470ec745effab271b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 080/192] fix: scaling surfaces and solids by negative factors
 keeps faces and normals turned outwards

---
 src/yapcad/geom3d.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index aa2cc5b..7bf2fa9 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -693,8 +693,11 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     surface
         A scaled copy of the input surface.
     """
-    if sy is False and sz is False:
-        sy = sz = sx
+    # unspecified factors are the same as sx
+    if sy is False:
+        sy = sx
+    if sz is False:
+        sz = sx
     if vclose(point(sx, sy, sz), point(1.0, 1.0, 1.0)):
         return deepcopy(s)
 
@@ -713,7 +716,7 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     # Normals need special handling for non-uniform scaling
     # For non-uniform scale, normals transform by inverse-transpose
     # For uniform scale, normals stay the same (just need normalization)
-    if not close(sx, sy) or not close(sy, sz):
+    if not close(sx, sy) or not close(sy, sz) or sx < 0:
         # Non-uniform scaling - normals need inverse transpose
         # Normal transform matrix is inverse-transpose of vertex transform
         inv_scale = xform.Scale(1.0/sx, 1.0/sy, 1.0/sz)
@@ -725,6 +728,8 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
             length = (n_scaled[0]**2 + n_scaled[1]**2 + n_scaled[2]**2)**0.5
             if length > 1e-10:
                 s2[2][i] = vect(n_scaled[0]/length, n_scaled[1]/length, n_scaled[2]/length, 0)
+    if sx*sy*sz < 0: # a reflection, keep the faces turned outwards
+        s2[3] = list(map(lambda x: [x[0],x[2],x[1]],s2[3]))
     return s2
 
 def solid(*args):
@@ -932,8 +937,11 @@ def scalesolid(x, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     """
     if not issolid(x):
         raise ValueError('bad solid passed to scalesolid')
-    if sy is False and sz is False:
-        sy = sz = sx
+    # unspecified factors are the same as sx
+    if sy is False:
+        sy = sx
+    if sz is False:
+        sz = sx
     if vclose(point(sx, sy, sz), point(1.0, 1.0, 1.0)):
         return deepcopy(x)
 
-- 
2.43.0


From e43b81226f6caf570140920ff6253be762285bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 081/192] fix: Geometry drops its cached bounding box and
 surface when it changes, and mirrors lone arcs and points

---
 src/yapcad/geometry.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 38dacd5..006842e 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -466,8 +466,11 @@ class Geometry:
                 self._setUpdate(True)
             return
         nelm = mirror(self.__elem,plane)
-        if keepSign:
-            nelm = reverseGeomList(nelm)
+        if keepSign and not ispoint(nelm):
+            if isarc(nelm):
+                nelm = reverseGeomList([nelm])[0]
+            else:
+                nelm = reverseGeomList(nelm)
         self._setElem(nelm)
         self._setUpdate(True)
 
@@ -555,6 +558,9 @@ class Geometry:
     def _setUpdate(self,bln):
         """method to set status of __update, accessible from derived classes"""
         self.__update = bln
+        if bln: # the figure has changed
+            self.__bbox = None
+            self._clearSurfaceCache()
 
     @update.setter
     def update(self,bln):
-- 
2.43.0


From fbb10072bcf3ca559332e70ca77b8002a07f967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:25 +0000
Subject: [PATCH 082/192] fix: scaling a Geometry that holds a solid keeps it a
 valid solid

---
 src/yapcad/geometry.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 006842e..9feb434 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -358,26 +358,8 @@ class Geometry:
                 self._setUpdate(True)
                 return
             # fallback: scale vertices of each surface (uniform only)
-            def _scale_point(p):
-                return point(
-                    cent[0] + sx * (p[0] - cent[0]),
-                    cent[1] + sx * (p[1] - cent[1]),
-                    cent[2] + sx * (p[2] - cent[2]),
-                )
-            new_surfaces = []
-            for surf in self.__elem[1]:
-                new_pts = [_scale_point(v) for v in surf[1]]
-                new_surf = [new_pts, list(deepcopy(surf[2])), list(deepcopy(surf[3]))]
-                # boundaries/holes/metadata if present
-                if len(surf) > 4:
-                    new_surf.append(deepcopy(surf[4]))
-                if len(surf) > 5:
-                    new_surf.append(deepcopy(surf[5]))
-                if len(surf) > 6:
-                    new_surf.append(deepcopy(surf[6]))
-                new_surfaces.append(new_surf)
-            meta = self.__elem[3] if len(self.__elem) > 3 else []
-            self._setElem(['solid', new_surfaces, [] , meta])
+            from yapcad.geom3d import scalesolid
+            self._setElem(scalesolid(self.__elem, sx, cent=cent))
             self._setUpdate(True)
             return
         if is_brep(self.__elem):
-- 
2.43.0


From 0b3c0b821972675af876feb9ec97ed571b419111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:25 +0000
Subject: [PATCH 083/192] fix: the center of a Geometry that holds a solid is
 that of the whole solid

---
 src/yapcad/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 9feb434..7873f48 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -510,7 +510,7 @@ class Geometry:
                             self.__bbox = [point(xmin, ymin, zmin), point(xmax, ymax, zmax)]
                     if not self.__bbox:
                         self.__bbox = solidbbox(self.__elem)
-                    self.__center = center(self.__elem[1][0]) if self.__elem[1] else point(0,0,0)
+                    self.__center = center(self.__elem) if self.__elem[1] else point(0,0,0)
                 except Exception:
                     self.__bbox = None
                     self.__center = None
@@ -520,7 +520,7 @@ class Geometry:
                     self.__length = 0.0
                     try:
                         self.__bbox = solidbbox(self.__elem)
-                        self.__center = center(self.__elem[1][0]) if self.__elem[1] else point(0,0,0)
+                        self.__center = center(self.__elem) if self.__elem[1] else point(0,0,0)
                     except Exception:
                         self.__bbox = None
                         self.__center = None
-- 
2.43.0


From e4b1ba4a1130d63ba5a1d4bf93325c5a4282c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 084/192] fix: boolean combination of figures that cross many
 times or have several outlines

---
 src/yapcad/geom_util.py | 379 +++++++++++-----------------------------
 1 file changed, 103 insertions(+), 276 deletions(-)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 63616ad..52fb8f0 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -23,6 +23,7 @@
 # SOFTWARE.
 
 from yapcad.geom import *
+from yapcad.geom import _raycrossingsXY
 from yapcad.spline import sample_catmullrom, sample_nurbs
 import math
 import random
@@ -628,292 +629,118 @@ def combineglist(g1,g2,operation):
 
     ``g1`` and ``g2`` are closed figure geometry lists.
     ``operation`` is one of ``["union","intersection","difference"]``
-    
+
     result is a potentially zero-length geometry list representing the
     result, which may or may not be simply connected, but should
-    always be a closed figure.
+    always be a closed figure.  A result that consists of a single
+    outline is the list of its lines and arcs, one that consists of
+    several (separate parts, or an outline and its holes) is a list of
+    such lists.  The inside of the result is on the left of its
+    outlines.
 
     """
-
-    def poly2lines(pol):
-        l = []
-        for i in range(1,len(pol)):
-            l.append([pol[i-1],pol[i]])
-        return l
-
-    if ispoly(g1):
-        g1 = poly2lines(g1)
-
-    if ispoly(g2):
-        g2 = poly2lines(g2)
-        
-    # if not (isclosedgeomlist(g1) and isclosedgeomlist(g2)):
-    #     raise ValueError("bad arguments passed to combineglist")
-
     if not operation in ["union","intersection","difference"]:
         raise ValueError("bad operation specified for combineglist")
-    
-    bbox1 = bbox(g1)
-    bbox2 = bbox(g2)
-    try :
-        inter = intersectXY(g1,g2,params=True)
-    except ValueError:
-        print("had a problem intersecting following geometries:")
-        print("g1: ",g1)
-        print("g2: ",g2)
-        raise
-
-    if inter != False and (inter[0] == False or inter[1] == False):
-        raise ValueError('bad intersection list: ',inter)
-    # Given parameter values that define two potential sub-arcs of
-    # a figure, determine which sub-arc is valid by looking for
-    # intersections between these parameter values. In the
-    # condition where u2 is smaller than u1, it's possible that
-    # this represents an arc in the counter-clockwise direction
-    # between u2 and u1.  It also could represent a clockwise arc
-    # that "wraps around" from u1 to (u2+1).  We will check for
-    # values x1, x2 in ilist that are u2 < x1 < u1 and u1 < x2 <
-    # (u2+1.0).  The existance of x1 or x2 rules out the
-    # corresponding arc.  If neither x1 nor x2 exists, we bias
-    # towards the counter-clockwise arc.
-
-    def between(u1,u2,ilist):
-        if len(ilist) < 2:
-            raise ValueError('bad ilist')
-            
-        if u1 > u2 :
-            if len(ilist) == 2:
-                return u1,u2+1.0,False
-            x1s = list(filter(lambda x: x > u2 and x < u1,ilist))
-            x2s = list(filter(lambda x: x > u1 or x < u2,ilist))
-            l1 = len(x1s)
-            l2 = len(x2s)
-            #print("u1: ",u1," u2: ",u2," ilist: ",ilist," x1s: ",x1s," x2s: ",x2s)
-            #if l1 > 0 and l2 > 0:
-            #    print('WARNING: intersections on both sides')
-
-            if l1 > l2:
-                # print("AA")
-                if True or operation == 'union':
-                    return u1,u2+1.0,False
-                else:
-                    return u2,u1,True
-            else:
-                # print("A-")
-                return u2,u1,True
 
-        else:
-            if len(ilist) == 2:
-                return u1,u2,False
-            x1s = list(filter(lambda x: x > u1 and x < u2,ilist))
-            x2s = list(filter(lambda x: x > u2 or x < u1,ilist))
-            l1 = len(x1s)
-            l2 = len(x2s)
-            #print("u1: ",u1," u2: ",u2," ilist: ",ilist," x1s: ",x1s," x2s: ",x2s)
-            #if l1 > 0 and l2 > 0:
-            #    print('WARNING: intersections on both sides')
-                
-            if l1 > l2:
-                # print("BB")
-
-                if True or operation == 'union':
-                    return u2,u1+1,False
-                else:
-                    return u1,u2,False
-            else:
-                # print("B-")
-                return u1,u2,False
-            
-
-    ## utility to perform combination on one "segment"
-    def cmbin(g1,g2,itr):
-        if not isgeomlist(g1):
-            g1 = [ g1 ]
-
-        if not isgeomlist(g2):
-            g2 = [ g2 ]
-        
-        g1s = itr[0][0]
-        g1e = itr[0][1]
-        g2s = itr[1][0]
-        g2e = itr[1][1]
-        
-        seg = []
-        ZLEN1=close(g1s,g1e)
-        ZLEN2=close(g2s,g2e)
-
-        g1reverse=False
-        g2reverse=False
-            
-        if True or operation == 'difference':
-            if g1e < g1s:
-                g1e+=1.0
-            #g1s,g1e,g1reverse = between(g1s,g1e,inter[0])
-            #import pdb ; pdb.set_trace()
-            g2s,g2e,g2reverse = between(g2s,g2e,inter[1])
-            g2reverse = False
-        else:
-            if g1e < g1s:
-                g1e+=1.0
-            if g2e < g2s:
-                g2e += 1.0
-
-        #p1=sample(g1,((g1s+g1e)/2)%1.0)
-
-        p1inside=0
-        for i in range(5):
-            u = (i+1)/6.0
-            p = sample(g1,(u*g1e+(1.0-u)*g1s)%1.0)
-            if isinsideXY(g2,p):
-                p1inside=p1inside+1
-
-        p2inside = 0
-        for i in range(5):
-            u = (i+1)/6.0
-            p = sample(g2,(u*g2e+(1.0-u)*g2s)%1.0)
-            if isinsideXY(g1,p):
-                p2inside=p2inside+1
-                
-        #if p1inside > 0 and p2inside > 0:
-        #    print("warning: inside test succeeded for both p1s and p2s: ",
-        #          p1inside," ",p2inside)
-
-        #if p1inside == 0 and p2inside == 0:
-        #    print("warning: inside test failed for both p1s and p2s")
-                
-        #p2=sample(g2,((g2s+g2e)/2)%1.0)
-
-        if ZLEN1 and ZLEN2:
-            print ('both segments zero length')
-            return []
-        elif ZLEN2 and not ZLEN1:
-            print ('zero length segment 2')
-            if operation=='union':
-                return segmentgeomlist(g1,g1s,g1e,closed=True)
-            elif operation=='difference':
-                return []
-            else: #intersection
-                return []
-        elif ZLEN1 and not ZLEN2:
-            print ('zero length segment 1')
-            if operation=='union':
-                if g2e < g2s:
-                    g2e += 1.0
-                return segmentgeomlist(g2,g2s,g2e,closed=True)
-            else: # difference or intersection
-                return []
-            
+    def member(in1,in2):
         if operation == 'union':
-            #if isinsideXY(g2,p1):
-            if p1inside > p2inside:
-                # if g2e < g2s:
-                #     g2e += 1.0
-                seg += segmentgeomlist(g2,g2s,g2e,closed=True)
-            else:
-                seg += segmentgeomlist(g1,g1s,g1e,closed=True)
+            return in1 or in2
         elif operation == 'intersection':
-            #if isinsideXY(g2,p1):
-            if p1inside > p2inside:
-                seg += segmentgeomlist(g1,g1s,g1e,closed=True)
-            else:
-                # if g2e < g2s:
-                #     g2e += 1.0
-                #seg += segmentgeomlist(g2,g2s,g2e,reverse=g2reverse)
-                seg += segmentgeomlist(g2,g2s,g2e,closed=True)
-        elif operation == 'difference':
-            s = []
-            #if isinsideXY(g2,p1):
-            if p1inside > p2inside:
-                pass
-            else:
-                # print("rsort: ",vstr(inter))
-                seg += segmentgeomlist(g1,g1s,g1e,closed=True)
-                # print("g2s: ",g2s," g2e: ",g2e," g2reverse: ",g2reverse)
-                s = segmentgeomlist(g2,g2s,g2e,closed=True,reverse=g2reverse)
-                s = reverseGeomList(s)
-                seg += s
-            if len(inter[0]) > 2:
-                pass
-                #combineDebugGL.append(s)
-                # print("seg: ",vstr(seg))
-
-        return seg
-
-    ## utility function to sort intersections into non-decreasing
-    ## order
-    def rsort(il):
-        nl = []
-        rl = []
-        rr = []
-        for i in range(len(il[0])):
-            nl.append([il[0][i],il[1][i]])
-        nl.sort(key=lambda x: x[0])
-        for i in range(len(nl)):
-            rl.append(nl[i][0])
-            rr.append(nl[i][1])
-        return [rl,rr]
-
-    if inter == False: # disjoint, but bounding boxes might be
-        # null or one could be inside the other
-        if not bbox1 and bbox2: # g1 is empty, but g2 contains geometry
-            if operation=='union':
-                return g2
-            else:
-                return []
-        if bbox1 and not bbox2: # g2 is empty, but g1 isn't
-            if operation=='union' or operation=='difference':
-                return g1
-        if not bbox1 and not bbox2: # no geometry at all
-            return []
-        ## OK, no intersection but it is possible that one profile
-        ## could be inside the other.  Do fast bounding box checks
-        ## before doing intersection-based checking.
-        if isinsidebbox(bbox1,bbox2[0]) and isinsidebbox(bbox1,bbox2[1]) \
-           and isinsideXY(g1,sample(g2,0.0)): # g2 is inside g1
-            ## g2 is inside g1
-            if operation == 'union':
-                return g1
-            elif operation == 'intersection':
-                return g2
-            else: #difference, g2 is a hole in g1
-                return [g1,g2]
-        elif isinsidebbox(bbox2,bbox1[0]) and isinsidebbox(bbox2,bbox1[1]) \
-             and isinsideXY(g2,sample(g1,0.0)): # g1 is inside g2
-            ## g1 is indside g2
-            if operation == 'union':
-                return g2
-            elif operation == 'intersection':
-                return g1
-            else: #difference, g2 has eaten g1
-                return []
-        else: # g1 and g2 are disjoint
-            if operation == 'union':
-                return [g1,g2]
-            elif operation == 'difference':
-                return g1
-            else: #intersection
-                return []
-    if len(inter[0]) == 1 and len(inter[1]) == 1:
-    ## single point of intersection:
-        if operation == 'union':
-            return [g1, g2]
-        elif operation == 'difference':
-            return g1
-        else: #intersection
+            return in1 and in2
+        else:
+            return in1 and not in2
+
+    ## the lines and arcs of a figure
+    def elements(g):
+        if ispoint(g):
             return []
-    ## There are two or more points of intersection.
-    inter = rsort(inter)
-    #print("rsort: ",vstr(inter))
-
-    if len(inter[0]) %2 != 0:
-        print("WARNING: odd number of intersections (",len(inter[0]),", unpredictable behavior may result")
-    r = []
-    for i in range(1,len(inter[0])+1):
-        r += cmbin(g1,g2,[[inter[0][i-1],
-                           inter[0][i%len(inter[0])]],
-                          [inter[1][i-1],
-                           inter[1][i%len(inter[1])]]])
-    return r
+        elif isline(g) or isarc(g):
+            return [ g ] if length(g) > epsilon else []
+        elif ispoly(g):
+            return [ l for i in range(1,len(g)) for l in elements([g[i-1],g[i]]) ]
+        elif isgeomlist(g):
+            return [ l for x in g for l in elements(x) ]
+        raise ValueError("bad geometry passed to combineglist: {}".format(g))
+
+    el1 = elements(g1)
+    el2 = elements(g2)
+
+    def inside(els,p):
+        return _raycrossingsXY(els,p) % 2 == 1
+
+    ## sampling parameters at which an element crosses or touches the
+    ## other figure, starting with 0 and ending with 1
+    def cuts(e,others):
+        box = bbox(e)
+        slack = epsilon/length(e)
+        uus = []
+        for o,obox in others:
+            if (obox[0][0] > box[1][0]+epsilon or obox[1][0] < box[0][0]-epsilon or
+                obox[0][1] > box[1][1]+epsilon or obox[1][1] < box[0][1]-epsilon):
+                continue
+            uu = intersectXY(e,o,params=True)
+            if uu != False:
+                oslack = epsilon/length(o)
+                uus += [ u for u,v in zip(uu[0],uu[1])
+                         if v >= -oslack and v <= 1.0+oslack ]
+            for p in (sample(o,0.0),sample(o,1.0)):
+                u = unsample(e,p)
+                if not isinstance(u,bool):
+                    uus.append(u)
+        cc = [ 0.0 ]
+        for u in sorted(uus):
+            if u > cc[-1]+slack and u < 1.0-slack:
+                cc.append(u)
+        return cc + [ 1.0 ]
+
+    ## the boundary of the result consists of the pieces of both
+    ## figures that have just one side in the result
+    def pieces(els,others,skip):
+        boxed = [ [o,bbox(o)] for o in others ]
+        result = []
+        for e in els:
+            cc = cuts(e,boxed)
+            for i in range(1,len(cc)):
+                mid = sample(e,(cc[i-1]+cc[i])/2.0)
+                if skip and any([ not isinstance(u,bool) and u >= 0.0 and u <= 1.0
+                                  for u in [ unsample(o,mid) for o in others ]]):
+                    continue # the other figure has this piece too
+                if isline(e):
+                    left = orthoXY(sub(e[0],e[1]))
+                else:
+                    left = sub(e[0],mid)
+                    if e[1][3] == -2: # clockwise
+                        left = scale3(left,-1.0)
+                left = scale3(left,4*epsilon/mag(left))
+                sides = [ member(inside(el1,p),inside(el2,p))
+                          for p in (add(mid,left),sub(mid,left)) ]
+                if sides[0] == sides[1]:
+                    continue
+                piece = e if len(cc) == 2 else segment(e,cc[i-1],cc[i])
+                if sides[1]:
+                    piece = _reverse_element(piece)
+                result.append(piece)
+        return result
+
+    ## join the pieces end to end
+    todo = [ [p,sample(p,0.0),sample(p,1.0)] for p in
+             pieces(el1,el2,False) + pieces(el2,el1,True) ]
+    loops = []
+    while todo:
+        p,start,end = todo.pop(0)
+        loop = [ p ]
+        while dist(start,end) > 10*epsilon:
+            follow = [ i for i in range(len(todo))
+                       if dist(todo[i][1],end) <= 10*epsilon ]
+            if not follow:
+                break
+            p,_,end = todo.pop(follow[0])
+            loop.append(p)
+        loops.append(loop)
+
+    if len(loops) == 1:
+        return loops[0]
+    return loops
 
 
 def radial_pattern(geometry, count, center=None, axis=None, angle=None):
-- 
2.43.0


From 03c46e85ce0b929af3c52f9228bb7d1b9b9e0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 085/192] fix: a Boolean can be measured, sampled and
 intersected before its geom is read

---
 src/yapcad/combine.py  | 13 +++++++++----
 src/yapcad/geometry.py |  3 +++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index 3054d28..1467b3c 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -17,6 +17,7 @@ class Boolean(Geometry):
         super().__init__()
         self._setClosed(True)
         self._setSampleable(True)
+        self._setIntersectable(True)
         if not type in self.types:
             raise ValueError('invalid type passed to Boolean(): {}'.format(type))
         for p in polys:
@@ -116,8 +117,7 @@ class Boolean(Geometry):
         for p in self.elem:
             p.transform(m)
             
-    @property
-    def geom(self):
+    def _updateInternals(self):
         if self.update:
             if len(self.elem) < 2:
                 raise ValueError('Boolean requires at least two operands')
@@ -128,9 +128,14 @@ class Boolean(Geometry):
 
             self.__outline = cullZeroLength(result)
             self._setUpdate(False)
-            self._setBbox(bbox(self.__outline))
-            self._setLength(length(self.__outline))
+            self._setBbox(bbox(self.__outline) if self.__outline else None)
+            self._setLength(length(self.__outline) if self.__outline else 0.0)
             self._setCenter(self._calcCenter())
+
+    @property
+    def geom(self):
+        if self.update:
+            self._updateInternals()
         return deepcopy(self.__outline)
         
         
diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 7873f48..4ae63b4 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -242,6 +242,9 @@ class Geometry:
     def intersectable(self):
         return self.__intersectable
 
+    def _setIntersectable(self,bln):
+        self.__intersectable=bln
+
     def isintersectable(self):
         """is the figure intersectable?"""
         return self.__intersectable
-- 
2.43.0


From 7fa80b5bffedb0e443574ad9b67840b60dacb1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 086/192] fix: Polygon figures can be unsampled and intersected

---
 src/yapcad/poly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 82a198e..a2be1e2 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -51,6 +51,8 @@ class Polygon(Geometry):
         super().__init__()
         self._setDerived(True)
         self._setClosed(True)
+        self._setSampleable(True)
+        self._setIntersectable(True)
         self.__lengths=0
         self.__outline=[]
         
-- 
2.43.0


From 562ed5337bc100907c8aa30861d98ef5d20c5352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 087/192] fix: a Boolean of more than two operands keeps every
 part of its intermediate results

---
 src/yapcad/combine.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index 1467b3c..bc36a7b 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -49,23 +49,22 @@ class Boolean(Geometry):
         else:
             gl = geom_obj
 
-        # If gl is a single arc/line/poly, wrap it in a list for geomlist2poly_with_holes
+        # If gl is a single arc/line/poly, wrap it in a list for geomlist2poly_components
         if isarc(gl) or isline(gl) or ispoly(gl):
             gl = [gl]
 
         try:
-            outer, holes = geomlist2poly_with_holes(gl, self.__minang, self.__minlen, checkcont=False)
+            components = geomlist2poly_components(gl, self.__minang, self.__minlen, checkcont=False)
         except Exception:
             if isgeomlist(gl):
                 return gl
             return []
 
-        if not outer:
-            return []
-
-        segments = self._poly_to_segments(outer)
-        for hole in holes:
-            segments.extend(self._poly_to_segments(hole))
+        segments = []
+        for outer, holes in components:
+            segments.extend(self._poly_to_segments(outer))
+            for hole in holes:
+                segments.extend(self._poly_to_segments(hole))
         return segments
 
     def _combine_geom(self,g1,g2):
-- 
2.43.0


From 736cff96aff16b4842c3b2a9e96611000487b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 088/192] fix: boolean combination of figures lists outlines
 before their holes

---
 src/yapcad/geom_util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 52fb8f0..6437d1a 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -740,6 +740,13 @@ def combineglist(g1,g2,operation):
 
     if len(loops) == 1:
         return loops[0]
+
+    ## outlines before their holes
+    def boxarea(l):
+        b = bbox(l)
+        return (b[1][0]-b[0][0])*(b[1][1]-b[0][1])
+
+    loops.sort(key=boxarea,reverse=True)
     return loops
 
 
-- 
2.43.0


From 51997c6340280b49fda53ab3bdb6ea0b69486fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 089/192] fix: holes and parts of a figure are told apart by
 where their outlines are, not by the average of their points

---
 src/yapcad/geom_util.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 6437d1a..52bbaf0 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -332,7 +332,6 @@ def _assemble_components(loop_points):
             'points': pts,
             'area': area,
             'abs_area': abs(area),
-            'centroid': _polygon_centroid_xy(pts),
             'parent': None,
             'children': [],
         })
@@ -347,7 +346,7 @@ def _assemble_components(loop_points):
                 continue
             if candidate['abs_area'] <= node['abs_area'] + epsilon:
                 continue
-            if _point_in_polygon_xy(candidate['points'], node['centroid']):
+            if _loop_in_polygon_xy(candidate['points'], node['points']):
                 if parent_idx is None or candidate['abs_area'] < nodes[parent_idx]['abs_area']:
                     parent_idx = jdx
         node['parent'] = parent_idx
@@ -394,18 +393,20 @@ def geomlist2poly_with_holes(gl, minang=5.0, minlen=0.25, checkcont=False):
     return components[0]
 
 
-def _polygon_centroid_xy(pts):
-    if not pts:
-        return (0.0, 0.0)
-    sx = sy = 0.0
-    count = 0
-    for p in pts:
-        sx += p[0]
-        sy += p[1]
-        count += 1
-    if count == 0:
-        return (0.0, 0.0)
-    return (sx / count, sy / count)
+def _loop_in_polygon_xy(poly, pts):
+    """Is the loop ``pts``, which does not cross ``poly``, inside of it?
+    Tests the point of the loop that is farthest from ``poly``, as
+    the loops may have points in common."""
+
+    def clearance(p):
+        return min([linePointXYDist([poly[i-1],poly[i]], p)
+                    for i in range(1,len(poly))
+                    if dist(poly[i-1],poly[i]) > epsilon])
+
+    best = max([p for i in range(1,len(pts))
+                for p in (pts[i], scale3(add(pts[i-1],pts[i]),0.5))],
+               key=clearance)
+    return _point_in_polygon_xy(poly, (best[0], best[1]))
 
 
 def _point_in_polygon_xy(poly, pt):
-- 
2.43.0


From 862f00c21d137de76d2d76a99e3d3b7ece930f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 090/192] fix: difference2d removes what its tool covers when
 holes meet it or the region has several parts

---
 src/yapcad/dsl/runtime/builtins.py | 78 +-----------------------------
 1 file changed, 2 insertions(+), 76 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 972b13f..7fc355c 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -1207,10 +1207,6 @@ class BuiltinRegistry:
         def _difference2d(a: Value, b: Value) -> Value:
             """Boolean difference of two 2D regions (a minus b).
 
-            Handles chained difference operations where a may already contain holes
-            from a previous difference operation. Also works around a known issue
-            in combineglist where isinsideXY can fail for points near corners.
-
             Args:
                 a: Region to subtract from (may be region with existing holes)
                 b: Region to subtract
@@ -1218,79 +1214,9 @@ class BuiltinRegistry:
             Returns:
                 Difference (a - b) as a region2d
             """
-            from yapcad.geom import (isgeomlist, isline, isarc, bbox, isinsidebbox,
-                                     sample, intersectXY)
             from yapcad.geom_util import combineglist
-
-            a_data = a.data
-            b_data = b.data
-
-            # Detect if a_data is a "region with holes" structure:
-            # [outer_boundary, hole1, hole2, ...]
-            # where each element is itself a geomlist of primitives
-            def is_region_with_holes(data):
-                """Check if data is a list of geomlists (region with holes)."""
-                if not isinstance(data, list) or len(data) < 2:
-                    return False
-                first = data[0]
-                if not isinstance(first, list) or len(first) == 0:
-                    return False
-                first_elem = first[0]
-                if isline(first_elem) or isarc(first_elem):
-                    return True
-                return False
-
-            def is_b_inside_a(outer, inner):
-                """Check if inner is completely inside outer using robust method.
-
-                Uses bounding box check + intersection check to avoid isinsideXY
-                corner issues.
-                """
-                bbox_outer = bbox(outer)
-                bbox_inner = bbox(inner)
-                if not bbox_outer or not bbox_inner:
-                    return False
-                # Inner bbox must be inside outer bbox
-                if not (isinsidebbox(bbox_outer, bbox_inner[0]) and
-                        isinsidebbox(bbox_outer, bbox_inner[1])):
-                    return False
-                # Check for intersections - if none, inner is either fully inside or outside
-                inter = intersectXY(outer, inner, params=True)
-                if inter is False or (inter[0] == [] and inter[1] == []):
-                    # No intersections - inner is fully inside (already passed bbox check)
-                    return True
-                return False
-
-            def do_difference(outer, hole):
-                """Perform difference, handling the case where hole is inside outer."""
-                result = combineglist(outer, hole, "difference")
-                # Check if combineglist returned outer unchanged (missed the hole)
-                if isgeomlist(result) and not is_region_with_holes(result):
-                    # Result is flat geomlist - check if hole was missed
-                    if is_b_inside_a(outer, hole):
-                        # Hole should have created [outer, hole] but didn't
-                        return [outer, hole]
-                return result
-
-            if is_region_with_holes(a_data):
-                # a_data is [outer, hole1, hole2, ...]
-                outer = a_data[0]
-                existing_holes = a_data[1:]
-
-                result = do_difference(outer, b_data)
-
-                if is_region_with_holes(result):
-                    new_outer = result[0]
-                    new_holes = result[1:]
-                    return region2d_val([new_outer] + existing_holes + new_holes)
-                else:
-                    if result:
-                        return region2d_val([result] + existing_holes)
-                    else:
-                        return region2d_val([])
-            else:
-                result = do_difference(a_data, b_data)
-                return region2d_val(result)
+            result = combineglist(a.data, b.data, "difference")
+            return region2d_val(result)
 
         def _intersection2d(a: Value, b: Value) -> Value:
             """Boolean intersection of two 2D regions.
-- 
2.43.0


From adf0de32c5eba3487333abae7e7d816dc38f4602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 091/192] fix: no point is inside an empty figure

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2c96680..e2ee3ed 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3513,7 +3513,7 @@ def isinsidegeomlistXY(a,p):
     if not isinstance(u,bool) and u >= 0.0 and u <= 1.0:
         return True
     bb = geomlistbbox(a)
-    if not isinsidebbox(bb,p):
+    if not bb or not isinsidebbox(bb,p): # an empty figure has no bounding box
         return False
     return _raycrossingsXY(a,p) % 2 == 1
 
-- 
2.43.0


From baa285af8b86800e76bbcbcd623b8c877bd263ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 092/192] fix: a circle Geometry has a surface

---
 src/yapcad/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 4ae63b4..50390ee 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -711,6 +711,8 @@ class Geometry:
             ply = geo
             holes = []
         else:
+            if isarc(geo): # a lone circle
+                geo = [geo]
             ply, holes = geomlist2poly_with_holes(geo, minang, minlen)
 
         self.__surface,bnd = poly2surface(ply, holepolys=holes, checkclosed=False)
-- 
2.43.0


From 16ff34668395dd1c27d982a1809adb47bccd875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 093/192] fix: a Polygon does not share elements with the list
 it was made from

---
 src/yapcad/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index a2be1e2..0de9df6 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -62,11 +62,11 @@ class Polygon(Geometry):
         elif isgeomlist(a):
             for i in a:
                 if ispoint(i) or isarc(i):
-                    self.elem.append(i)
+                    self.elem.append(deepcopy(i))
                 elif isline(i):
                     pass
                 elif ispoly(i):
-                    self._setElem(self.elem + i)
+                    self._setElem(self.elem + deepcopy(i))
                 else:
                     raise ValueError("bad argument to Polygon constructor")
 
-- 
2.43.0


From 15720ecae499bc82d6aa8396fe9b31a37eec399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 094/192] fix: mirroring a Geometry that holds a solid without
 BREP data mirrors it

---
 src/yapcad/geometry.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 50390ee..4842ef3 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -425,17 +425,10 @@ class Geometry:
 
         """
         if issolid(self.__elem, fast=False):
-            try:
-                from yapcad.brep import mirror_brep_solid
-                mirror_brep_solid(self.__elem, plane)
-                self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
-                self._clearSurfaceCache()
-                self._setUpdate(True)
-                return
-            except Exception:
-                pass
+            # mirrors the BREP data, if there is any, as well
             from yapcad.geom3d import mirror as mirror_solid
-            self._setElem(mirror_solid(self.__elem, plane))
+            mirrored = mirror_solid(self.__elem, plane)
+            self._setElem(_retessellate_brep_solid(mirrored) or mirrored)
             self._setUpdate(True)
             self._clearSurfaceCache()
             return
-- 
2.43.0


From 092cb91632dc3ff88f711491508fbad79ea04c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:33 +0000
Subject: [PATCH 095/192] fix: octree elements keep tags that are zero or empty

---
 src/yapcad/octtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 1b7d2d9..f90f245 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -455,7 +455,7 @@ class NTree():
         the tree -- yet """
         if not isgeomlist(element):
             raise ValueError('bad element passed to addElement')
-        if not tag:
+        if tag is None:
             gl = [ element ]
         else:
             gl = [ (element,tag) ]
-- 
2.43.0


From 35a81bf59b469e134489c77a71d21273ff130f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:33 +0000
Subject: [PATCH 096/192] fix: asking an empty octree for elements gives none

---
 src/yapcad/octtree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index f90f245..779e1ce 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -591,6 +591,8 @@ class NTree():
         overalp the provided bounding box, or the empty list if none.
 
         """
+        if self.__geom == []:
+            return []
         if self.__update:
             self.updateTree()
 
-- 
2.43.0


From 3879db03e507d75a6bc693ee2b8ac35eb680b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:33 +0000
Subject: [PATCH 097/192] fix: octree center is computed from the elements it
 holds now

---
 src/yapcad/octtree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 779e1ce..349b025 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -473,6 +473,7 @@ class NTree():
             return
 
         if not center:
+            self.__bbox = bbox(untag(self.__geom))
             self.__center = scale3(add(self.__bbox[0],
                                        self.__bbox[1]),0.5)
         else:
-- 
2.43.0


From 4c94100e950d3be937dac96d2d4b0f6ce9498828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:33 +0000
Subject: [PATCH 098/192] fix: adding elements to an octree does not change the
 list it was made from

---
 src/yapcad/octtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 349b025..d6adc51 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -431,7 +431,7 @@ class NTree():
             ugeom = untag(geom)
             if isgeomlist(ugeom):
                 self.__bbox= bbox(ugeom)
-                self.__geom= geom
+                self.__geom= list(geom)
             else:
                 raise ValueError('geom must be valid geometry list, or None')
 
-- 
2.43.0


From 33f63d34b568134192159eb7fae5361235a57d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:29 +0000
Subject: [PATCH 099/192] fix: geometry lists hold Bezier curves, B-splines,
 parabolas and hyperbolas

---
 src/yapcad/geom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index e2ee3ed..e56e00d 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3278,6 +3278,8 @@ def isgeomlist(a):
     b = list(filter(lambda x: not (ispoint(x) or isline(x) \
                                    or isarc(x) or isellipse(x) or ispoly(x) \
                                    or iscatmullrom(x) or isnurbs(x) \
+                                   or isbezier(x) or isbspline(x) \
+                                   or isparabola(x) or ishyperbola(x) \
                                    or isgeomlist(x)),a))
     return not len(b) > 0
 
@@ -3491,7 +3493,9 @@ def geomlistbbox(gl):
             ply = ply + arcbbox(g)
         elif isellipse(g):
             ply = ply + ellipse_bbox(g)
-        elif iscatmullrom(g) or isnurbs(g):
+        elif isparabola(g) or ishyperbola(g):
+            ply = ply + bbox(g)
+        elif iscatmullrom(g) or isnurbs(g) or isbezier(g) or isbspline(g):
             segs = 64
             for i in range(segs + 1):
                 ply.append(sample(g, i / segs))
-- 
2.43.0


From 210e711cace2b5d650c9cc8e613328db43db5f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:29 +0000
Subject: [PATCH 100/192] fix: tangents of conics lie in the plane of the conic

---
 src/yapcad/geom.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index e56e00d..2f30377 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -951,7 +951,18 @@ def ellipse_tangent(e, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _conic_direction(dx_rot/mag, dy_rot/mag, meta['normal'])
+
+
+def _conic_direction(x, y, normal):
+    """Turn a direction in the XY plane to the plane of a conic with the
+    given unit normal, like the points of the conic are."""
+    nx, ny, nz = normal[0], normal[1], normal[2]
+    if (nx**2 + ny**2)**0.5 < 1e-10:
+        return [x, y if nz > 0 else -y, 0.0, 0.0]
+    # rotation about z cross n by the angle between z and n
+    f = (nx*x + ny*y) / (1.0 + nz)
+    return [x - nx*f, y - ny*f, -(nx*x + ny*y), 0.0]
 
 
 def ellipse_length(e, segments=100):
@@ -1224,7 +1235,7 @@ def parabola_tangent(p, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _conic_direction(dx_rot/mag, dy_rot/mag, meta['normal'])
 
 
 def parabola_length(p, segments=100):
@@ -1512,7 +1523,7 @@ def hyperbola_tangent(h, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _conic_direction(dx_rot/mag, dy_rot/mag, meta['normal'])
 
 
 def hyperbola_length(h, segments=100):
-- 
2.43.0


From c462b2d0129493df0498b27f443a7bb128363c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:29 +0000
Subject: [PATCH 101/192] fix: unsample finds the points between the steps of
 its scan of a curve

---
 src/yapcad/geom.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2f30377..9fc68c4 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3882,16 +3882,30 @@ def _unsample_curve(curve, target, evaluator, *, steps=200):
     """Return approximate parameter for ``target`` on ``curve`` or ``False``."""
 
     target = point(target)
-    best_u = 0.0
-    best_d = float('inf')
-    for i in range(steps + 1):
-        u = i / steps
-        sample_pt = evaluator(curve, u)
-        d = dist(sample_pt, target)
-        if d < best_d:
-            best_d = d
-            best_u = u
-    return best_u if best_d <= epsilon * 10 else False
+
+    def distance(u):
+        return dist(evaluator(curve, u), target)
+
+    points = [evaluator(curve, i / steps) for i in range(steps + 1)]
+    dists = [dist(p, target) for p in points]
+    best = min(range(steps + 1), key=lambda i: dists[i])
+    if dists[best] <= epsilon * 10:
+        return best / steps
+
+    # the point may lie between two steps: narrow down on those it adds
+    # the smallest detour to
+    likely = sorted(range(steps), key=lambda i: dists[i] + dists[i+1] - dist(points[i], points[i+1]))
+    for i in likely[:8]:
+        lo = i / steps
+        hi = (i+1) / steps
+        for _ in range(8):
+            us = [lo + (hi - lo) * j / 16 for j in range(17)]
+            ds = [distance(u) for u in us]
+            j = min(range(17), key=lambda j: ds[j])
+            if ds[j] <= epsilon * 10:
+                return us[j]
+            lo, hi = us[max(j-1, 0)], us[min(j+1, 16)]
+    return False
 
 def segment(x,u1,u2):
     """ given a figure x, create a new figure spanning the specified interval in the original figure
-- 
2.43.0


From c0f5a45b4ae964837c5e9e0dd314c50c8b764dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:29 +0000
Subject: [PATCH 102/192] fix: Bezier curves can be sampled and measured in the
 DSL

---
 src/yapcad/dsl/runtime/builtins.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 7fc355c..c0277f1 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -790,7 +790,7 @@ class BuiltinRegistry:
 
             Works with line, arc, ellipse, catmullrom, and nurbs curves.
             """
-            from yapcad.geom import point, isline, isarc, isellipse
+            from yapcad.geom import point, isline, isarc, isellipse, isbezier
             from yapcad.geom import sample as geom_sample, ellipse_sample
             from yapcad.spline import is_catmullrom, evaluate_catmullrom
             from yapcad.spline import is_nurbs, evaluate_nurbs
@@ -807,7 +807,7 @@ class BuiltinRegistry:
             elif isellipse(data):
                 pt = ellipse_sample(data, u)
                 return point_val(pt, is_2d=False)
-            elif isline(data) or isarc(data):
+            elif isline(data) or isarc(data) or isbezier(data):
                 pt = geom_sample(data, u)
                 return point_val(pt, is_2d=False)
             else:
@@ -818,7 +818,7 @@ class BuiltinRegistry:
 
             Returns a list of points along the curve.
             """
-            from yapcad.geom import point, isline, isarc, isellipse
+            from yapcad.geom import point, isline, isarc, isellipse, isbezier
             from yapcad.geom import sample as geom_sample, ellipse_sample
             from yapcad.spline import is_catmullrom, evaluate_catmullrom
             from yapcad.spline import is_nurbs, evaluate_nurbs
@@ -837,7 +837,7 @@ class BuiltinRegistry:
                     pt = evaluate_nurbs(data, u)
                 elif isellipse(data):
                     pt = ellipse_sample(data, u)
-                elif isline(data) or isarc(data):
+                elif isline(data) or isarc(data) or isbezier(data):
                     pt = geom_sample(data, u)
                 else:
                     raise ValueError(f"Cannot sample curve of type {type(data)}")
@@ -848,7 +848,7 @@ class BuiltinRegistry:
         def _curve_length(curve: Value) -> Value:
             """Compute the approximate length of a curve."""
             from yapcad.geom import length as geom_length, isline, isarc, isellipse
-            from yapcad.geom import ellipse_length
+            from yapcad.geom import ellipse_length, isbezier
             from yapcad.spline import is_catmullrom, sample_catmullrom
             from yapcad.spline import is_nurbs, sample_nurbs
 
@@ -875,7 +875,7 @@ class BuiltinRegistry:
                 return float_val(total)
             elif isellipse(data):
                 return float_val(ellipse_length(data))
-            elif isline(data) or isarc(data):
+            elif isline(data) or isarc(data) or isbezier(data):
                 return float_val(geom_length(data))
             else:
                 raise ValueError(f"Cannot compute length for curve of type {type(data)}")
-- 
2.43.0


From 619366ab952f1a92eff4192e442ec4c7b27b2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:29 +0000
Subject: [PATCH 103/192] fix: DSL splines refuse too few points and mismatched
 weights, and small segment counts

---
 src/yapcad/dsl/runtime/builtins.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index c0277f1..bb9e2d9 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -667,6 +667,9 @@ class BuiltinRegistry:
                     coords.append(1)
                 pts.append(coords[:4])
 
+            if len(pts) < 2:
+                raise ValueError("catmullrom requires at least 2 points")
+
             # Optional parameters
             closed = args[0].data if len(args) > 0 else False
             alpha = args[1].data if len(args) > 1 else 0.5
@@ -715,8 +718,12 @@ class BuiltinRegistry:
                 weights = list(args[0].data)
             else:
                 weights = [1.0] * n
+            if len(weights) != n:
+                raise ValueError("nurbs requires as many weights as points")
 
             degree = int(args[1].data) if len(args) > 1 else 3
+            if degree < 1 or n < degree + 1:
+                raise ValueError(f"nurbs of degree {degree} requires at least {degree + 1} points")
 
             # Generate open uniform knot vector
             # For n control points and degree p, we need n + p + 1 knots
@@ -1402,7 +1409,7 @@ class BuiltinRegistry:
             segments = int(args[0].data) if args else 64
 
             if is_catmullrom(data):
-                pts = sample_catmullrom(data, segments_per_span=segments // max(1, len(data[1]) - 1))
+                pts = sample_catmullrom(data, segments_per_span=max(1, segments // max(1, len(data[1]) - 1)))
             elif is_nurbs(data):
                 pts = sample_nurbs(data, samples=segments)
             else:
-- 
2.43.0


From eff44a397c3c00d71c38f220ba265169bb26170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 104/192] fix: triangulation keeps every point of the outline
 and holes, and full precision

---
 src/yapcad/triangulator.py | 64 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/triangulator.py b/src/yapcad/triangulator.py
index 30a6450..3ee7267 100644
--- a/src/yapcad/triangulator.py
+++ b/src/yapcad/triangulator.py
@@ -9,6 +9,7 @@ triangle vertex tuples.
 
 from __future__ import annotations
 
+import math
 from typing import Iterable, List, Sequence, Tuple
 
 import numpy as np
@@ -61,15 +62,72 @@ def triangulate_polygon(outer: Sequence[Sequence[float]],
             continue
         _append(loop)
 
-    vertices = np.asarray(point_map, dtype=np.float32)
+    vertices = np.asarray(point_map, dtype=np.float64)
     ring_array = np.asarray(ring_ends, dtype=np.uint32)
-    indices = _earcut.triangulate_float32(vertices, ring_array)
+    indices = _earcut.triangulate_float64(vertices, ring_array)
     triangles: List[List[Point2D]] = []
     for i in range(0, len(indices), 3):
         triangles.append([point_map[indices[i]],
                           point_map[indices[i + 1]],
                           point_map[indices[i + 2]]])
-    return triangles
+
+    edges = set()
+    start = 0
+    for end in ring_ends:
+        ring = point_map[start:end]
+        edges.update(zip(ring, ring[1:] + ring[:1]))
+        start = end
+    return _conform(triangles, edges)
+
+
+def _conform(triangles: List[List[Point2D]], ring_edges: set) -> List[List[Point2D]]:
+    """Make neighbouring triangles share whole edges.
+
+    The ear clipper skips ring points that lie on a line with their
+    neighbours, which leaves them in the middle of the edge of another
+    triangle.  Drop the flat triangles and split the edges at such points.
+    """
+    points = sorted({pt for edge in ring_edges for pt in edge})
+    pending = [tri for tri in triangles if not _flat(tri)]
+    while True:
+        used = {(tri[i - 1], tri[i]) for tri in pending for i in range(3)}
+        split = {}
+        for a, b in used:
+            if (a, b) in ring_edges or (b, a) in used:
+                continue
+            middle = [pt for pt in points if _between(a, b, pt)]
+            if middle:
+                split[(a, b)] = middle[0]
+        if not split:
+            return pending
+        result: List[List[Point2D]] = []
+        for tri in pending:
+            for i in range(3):
+                a, b, c = tri[i - 1], tri[i], tri[i - 2]
+                mid = split.get((a, b))
+                if mid is not None:
+                    halves = ([a, mid, c], [mid, b, c])
+                    result.extend(half for half in halves if not _flat(half))
+                    break
+            else:
+                result.append(tri)
+        pending = result
+
+
+def _flat(tri: Sequence[Point2D]) -> bool:
+    a, b, c = tri
+    longest = max(math.dist(a, b), math.dist(b, c), math.dist(c, a))
+    double = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
+    return abs(double) <= epsilon * longest
+
+
+def _between(a: Point2D, b: Point2D, pt: Point2D) -> bool:
+    """Report whether ``pt`` lies on the segment ``a``-``b``, off its ends."""
+    dx, dy = b[0] - a[0], b[1] - a[1]
+    length = math.hypot(dx, dy)
+    along = ((pt[0] - a[0]) * dx + (pt[1] - a[1]) * dy) / length
+    off = ((pt[0] - a[0]) * dy - (pt[1] - a[1]) * dx) / length
+    return epsilon < along < length - epsilon and abs(off) <= epsilon
 
 
 def _prepare_loop(points: Sequence[Sequence[float]], *, want_ccw: bool) -> List[Point2D]:
-- 
2.43.0


From 251605d029c8b8ea64959a3a1d5b6ecdb92b2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 105/192] fix: poly2surfaceXY covers small polygons, keeps
 their height and winds faces towards their normals

---
 src/yapcad/geom3d.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 7bf2fa9..bc35df7 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1237,7 +1237,7 @@ def surf2lines(surf):
 
     return lines
     
-def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0001,
+def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0,
                  checkclosed=False,basis=None):
 
     """Given ``ply``, a coplanar polygon, return the triangulated surface
@@ -1284,7 +1284,7 @@ def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0001,
 
     return surf,bnd2
 
-def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
+def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0,
                    checkclosed=False,box=None):
     """Given ``ply``, return a triangulated XY surface (holes supported)."""
 
@@ -1342,18 +1342,15 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
         (x1,y1),(x2,y2),(x3,y3) = tri
         return ((x2 - x1)*(y3 - y1) - (x3 - x1)*(y2 - y1)) / 2.0
 
-    outer_area = sum(outer_loop[i][0]*outer_loop[(i+1)%len(outer_loop)][1]
-                     - outer_loop[(i+1)%len(outer_loop)][0]*outer_loop[i][1]
-                     for i in range(len(outer_loop)))
-    orientation = 1 if outer_area >= 0 else -1
+    z = outer_loop[0][2]
 
     for tri in triangles:
-        tri_points = [point(x, y, 0, 1) for (x, y) in tri]
+        tri_points = [point(x, y, z, 1) for (x, y) in tri]
         area = _signed_triangle(tri)
-        if area * orientation < 0:
+        if area < 0:
             tri_points[1], tri_points[2] = tri_points[2], tri_points[1]
             area = -area
-        if abs(area) > minarea:
+        if area > minarea:
             surf = addTri2Surface(tri_points,surf,
                                   nfunc=lambda x: ([0,0,1,0],
                                                    [0,0,1,0],
-- 
2.43.0


From 10863b1fc256730390f95d5bbcfb5df337e91e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 106/192] fix: poly2surface faces one side of the polygon,
 whichever corner it starts from

---
 src/yapcad/geom3d.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index bc35df7..26a8c51 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1259,14 +1259,22 @@ def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0,
 
     if not basis:
         v0 = sub(ply[1],ply[0])
-        v1 = None
+        corner = None
+        facing = [0,0,0,1]
         for i in range(2,len(ply)):
-            v1 = sub(ply[i],ply[1])
-            if mag(cross(v0,v1)) > epsilon:
-                break
-        if not v1:
+            c = cross(v0,sub(ply[i],ply[1]))
+            if corner is None and mag(c) > epsilon:
+                corner = ply[i]
+            facing = add(facing,cross(sub(ply[i-1],ply[0]),
+                                      sub(ply[i],ply[0])))
+        if corner is None:
             raise ValueError(f'degenerate poly passed to poly2surface')
-        basis = tri2p0n([ply[0],ply[1],ply[i]],basis=True)
+        # the surface faces the side from which the polygon runs
+        # counter-clockwise, also when its first corner is a reflex one
+        if dot(cross(v0,sub(corner,ply[1])),facing) > 0:
+            basis = tri2p0n([ply[0],ply[1],corner],basis=True)
+        else:
+            basis = tri2p0n([ply[1],ply[0],corner],basis=True)
 
     ply2 = list(map(lambda x: basis[2].mul(x),ply))
     holes2 = []
-- 
2.43.0


From 2e7611080b963d04fa8a5c09f4b91a827e2877a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 107/192] fix: extruding a surface towards its back gives a
 solid that faces outwards

---
 src/yapcad/geom3d_util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index b703487..5bd0b19 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1337,6 +1337,13 @@ def extrude(surf,distance,direction=vect(0,0,1,0)):
     if distance <= epsilon:
         raise ValueError('bad distance passed to extrude')
 
+    facing = [0,0,0,1]
+    for f in surf[3]:
+        p0,p1,p2 = [surf[1][i] for i in f]
+        facing = add(facing,cross(sub(p1,p0),sub(p2,p0)))
+    if dot(facing,direction) < 0:
+        surf = reversesurface(surf)
+
     s1 = translatesurface(surf,scale4(direction,distance))
     s2 = reversesurface(surf)
 
-- 
2.43.0


From 3aa1fc46fc2f7fdd4d5d09cbb525695b8deb8c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 108/192] fix: the rim of a spherical cap shell closes it

---
 src/yapcad/geom3d_util.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 5bd0b19..b47a1a6 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -832,7 +832,7 @@ def _make_revolution_brep(contour, zStart, zEnd, steps):
         return None
 
 
-def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_error=None,max_chord=None,return_brep=False):
+def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_error=None,max_chord=None,return_brep=False,endcaps=True):
     """
     Generate a surface of revolution by sampling a contour function.
 
@@ -844,6 +844,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
                        If None (default), adaptive resolution is used.
     :param chord_error: (deprecated) maximum chord error/sagitta for legacy mode
     :param max_chord: maximum chord length in mm for adaptive resolution (default: size-adaptive)
+    :param endcaps: close the ends of nonzero radius with discs
     :returns: ``['surface', vertices, normals, faces]`` list representing the surface
     """
 
@@ -981,7 +982,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
     # ── Flat disc caps for open ends (r > 0 at endpoints) ──────────
     # When the contour doesn't reach r=0 at zStart or zEnd, the surface
     # is open (a tube). Add flat disc caps to close it into a solid.
-    if not need_start_cap and r_start >= epsilon:
+    if endcaps and not need_start_cap and r_start >= epsilon:
         # Bottom disc cap: center vertex at (0,0,zStart), fan to first ring
         cap_center = [0.0, 0.0, zStart, 1.0]
         cap_normal = [0.0, 0.0, -1.0, 0.0]  # outward = -Z for bottom
@@ -996,7 +997,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
             # Wind CW from outside (looking at -Z face)
             sF.append([center_idx, k2, k1])
 
-    if not need_end_cap and r_end >= epsilon:
+    if endcaps and not need_end_cap and r_end >= epsilon:
         # Top disc cap: center vertex at (0,0,zEnd), fan to last ring
         cap_center = [0.0, 0.0, zEnd, 1.0]
         cap_normal = [0.0, 0.0, 1.0, 0.0]  # outward = +Z for top
@@ -1849,13 +1850,15 @@ def spherical_shell(outer_diameter, wall_thickness,
     outer_surface = makeRevolutionSurface(_sphere_contour(outer_radius),
                                           z_start_outer, z_end_outer,
                                           max(steps, lat_steps),
-                                          arcSamples=arc_samples)
+                                          arcSamples=arc_samples,
+                                          endcaps=False)
     outer_surface = translatesurface(outer_surface, point(center[0], center[1], 0))
 
     inner_surface = makeRevolutionSurface(_sphere_contour(inner_radius),
                                           z_start_inner, z_end_inner,
                                           max(steps, lat_steps),
-                                          arcSamples=arc_samples)
+                                          arcSamples=arc_samples,
+                                          endcaps=False)
     inner_surface = translatesurface(inner_surface, point(center[0], center[1], 0))
     inner_surface = reversesurface(inner_surface)
 
@@ -1865,13 +1868,15 @@ def spherical_shell(outer_diameter, wall_thickness,
         r_outer_ring = outer_radius * math.sin(theta)
         r_inner_ring = inner_radius * math.sin(theta)
 
-        base_outer = [point(center[0] + p[0], center[1] + p[1], cz + outer_radius * math.cos(theta), 1.0)
-                      for p in _circle_loop((0, 0), r_outer_ring, minang)[:-1]]
-        base_inner = [point(center[0] + p[0], center[1] + p[1], cz + inner_radius * math.cos(theta), 1.0)
-#                      for p in list(reversed(_circle_loop((0, 0), r_inner_ring, minang)))[:-1]]
-                      for p in _circle_loop((0, 0), r_inner_ring, minang)[:-1]]
+        def _ring(radius, z):
+            angles = [pi2 * i / arc_samples for i in range(arc_samples)]
+            return [point(center[0] + radius * math.cos(a),
+                          center[1] + radius * math.sin(a), z)
+                    for a in angles]
 
-        conic_surface = _loft_surface(base_outer, base_inner, invert=False)
+        base_outer = _ring(r_outer_ring, z_start_outer)
+        base_inner = _ring(r_inner_ring, z_start_inner)
+        conic_surface = _loft_surface(base_outer, base_inner, invert=True)
         surfaces.append(conic_surface)
 
     call = ("yapcad.geom3d_util.spherical_shell("
-- 
2.43.0


From 7854aa0a34efc1a720f25d06252eac6f4610756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 109/192] fix: the circumscribed sphere of a dodecahedron has
 the given diameter

---
 src/yapcad/geom3d_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index b47a1a6..94d70c1 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -469,8 +469,8 @@ def dodecahedron(diameter, center=point(0,0,0)):
     
     phi = (1 + math.sqrt(5)) / 2  # Golden ratio ≈ 1.618
     
-    # Scale factor to fit within diameter
-    scale = diameter / (2 * phi)
+    # The vertices below lie sqrt(3) from the center
+    scale = diameter / (2 * math.sqrt(3))
     
     # 20 vertices of a regular dodecahedron
     # Using standard golden ratio construction
-- 
2.43.0


From e9457126ca51f1f526eb0eea15b518be66619b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 110/192] fix: lofted solids are closed

---
 src/yapcad/geom3d_util.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 94d70c1..5f2bd02 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1565,6 +1565,32 @@ def _loft_surface(lower_loop, upper_loop, invert=False):
     return surface(vertices, normals, faces)
 
 
+def _loft_surfaces(loops):
+    """
+    Return the surfaces of the solid that joins successive planar loops: a
+    cap on the first and on the last one, and the sides between them.
+    """
+
+    if len(loops[0]) < 3:
+        raise ValueError('invalid loops passed to loft surface')
+
+    facing = [0, 0, 0, 1]
+    for p1, p2 in zip(loops[0][1:], loops[0][2:]):
+        facing = add(facing, cross(sub(p1, loops[0][0]), sub(p2, loops[0][0])))
+    ahead = sub(loops[1][0], loops[0][0])
+    clockwise = dot(facing, ahead) < 0
+
+    bottom, _ = poly2surface(loops[0])
+    top, _ = poly2surface(loops[-1])
+    if clockwise:
+        top = reversesurface(top)
+    else:
+        bottom = reversesurface(bottom)
+    sides = [_loft_surface(lower, upper, invert=clockwise)
+             for lower, upper in zip(loops, loops[1:])]
+    return [bottom] + sides + [top]
+
+
 def _loft_brep(lower_loop, upper_loop):
     if not occ_available():
         return None
@@ -1613,13 +1639,13 @@ def makeLoftSolid(lower_loop, upper_loop, *, metadata=None):
     Attempts to attach a native BREP when pythonocc-core is available,
     otherwise falls back to the tessellated representation.
     """
-    surf = _loft_surface(lower_loop, upper_loop)
+    surfaces = _loft_surfaces([lower_loop, upper_loop])
     call = f"yapcad.geom3d_util.makeLoftSolid(lower_loop, upper_loop)"
     construction = ['procedure', call]
     if metadata is not None and isinstance(metadata, dict):
-        sld = solid([surf], [], construction, metadata)
+        sld = solid(surfaces, [], construction, metadata)
     else:
-        sld = solid([surf], [], construction)
+        sld = solid(surfaces, [], construction)
 
     try:
         brep_shape = _loft_brep(lower_loop, upper_loop)
@@ -3478,6 +3504,11 @@ def loft(profiles, *, segments=None, metadata=None):
     # would use OCC BRepOffsetAPI_ThruSections for all profiles at once
     from yapcad.geom3d import solid_boolean
 
+    if not occ_available():
+        return solid(_loft_surfaces(profiles), [],
+                     ['procedure', "yapcad.geom3d_util.loft(profiles)"],
+                     *([metadata] if isinstance(metadata, dict) else []))
+
     result = None
     for i in range(len(profiles) - 1):
         segment = makeLoftSolid(profiles[i], profiles[i + 1], metadata=metadata)
-- 
2.43.0


From 407f1f48e7dc2174e45e855db92861caf87e62ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:54 +0000
Subject: [PATCH 111/192] fix: triangulation of slender triangles terminates

---
 src/yapcad/triangulator.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/triangulator.py b/src/yapcad/triangulator.py
index 3ee7267..4aa0a85 100644
--- a/src/yapcad/triangulator.py
+++ b/src/yapcad/triangulator.py
@@ -88,18 +88,22 @@ def _conform(triangles: List[List[Point2D]], ring_edges: set) -> List[List[Point
     triangle.  Drop the flat triangles and split the edges at such points.
     """
     points = sorted({pt for edge in ring_edges for pt in edge})
-    pending = [tri for tri in triangles if not _flat(tri)]
-    while True:
+    # earcut skips a point only if it computes a turn of exactly zero there,
+    # so nothing but rounding may count as flat
+    scale = max((abs(c) for pt in points for c in pt), default=0.0)
+    tol = max(epsilon * 1e-4, 256 * np.finfo(float).eps * scale)
+    pending = [tri for tri in triangles if not _flat(tri, tol)]
+    for _ in range(len(points)):
         used = {(tri[i - 1], tri[i]) for tri in pending for i in range(3)}
         split = {}
         for a, b in used:
             if (a, b) in ring_edges or (b, a) in used:
                 continue
-            middle = [pt for pt in points if _between(a, b, pt)]
+            middle = [pt for pt in points if _between(a, b, pt, tol)]
             if middle:
                 split[(a, b)] = middle[0]
         if not split:
-            return pending
+            break
         result: List[List[Point2D]] = []
         for tri in pending:
             for i in range(3):
@@ -107,27 +111,28 @@ def _conform(triangles: List[List[Point2D]], ring_edges: set) -> List[List[Point
                 mid = split.get((a, b))
                 if mid is not None:
                     halves = ([a, mid, c], [mid, b, c])
-                    result.extend(half for half in halves if not _flat(half))
+                    result.extend(half for half in halves if not _flat(half, tol))
                     break
             else:
                 result.append(tri)
         pending = result
+    return pending
 
 
-def _flat(tri: Sequence[Point2D]) -> bool:
+def _flat(tri: Sequence[Point2D], tol: float) -> bool:
     a, b, c = tri
     longest = max(math.dist(a, b), math.dist(b, c), math.dist(c, a))
     double = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
-    return abs(double) <= epsilon * longest
+    return abs(double) <= tol * longest
 
 
-def _between(a: Point2D, b: Point2D, pt: Point2D) -> bool:
+def _between(a: Point2D, b: Point2D, pt: Point2D, tol: float) -> bool:
     """Report whether ``pt`` lies on the segment ``a``-``b``, off its ends."""
     dx, dy = b[0] - a[0], b[1] - a[1]
     length = math.hypot(dx, dy)
     along = ((pt[0] - a[0]) * dx + (pt[1] - a[1]) * dy) / length
     off = ((pt[0] - a[0]) * dy - (pt[1] - a[1]) * dx) / length
-    return epsilon < along < length - epsilon and abs(off) <= epsilon
+    return tol < along < length - tol and abs(off) <= tol
 
 
 def _prepare_loop(points: Sequence[Sequence[float]], *, want_ccw: bool) -> List[Point2D]:
-- 
2.43.0


From 7e2722ccfd82c01c358a5c7bbea00bfc6758d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:39 +0000
Subject: [PATCH 112/192] fix: small triangles are exported

---
 src/yapcad/geometry_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geometry_utils.py b/src/yapcad/geometry_utils.py
index 8dd67dd..31ad3d5 100644
--- a/src/yapcad/geometry_utils.py
+++ b/src/yapcad/geometry_utils.py
@@ -51,7 +51,10 @@ def triangle_normal(v0: Vec3, v1: Vec3, v2: Vec3) -> Vec3 | None:
     bx, by, bz = v2[0] - v0[0], v2[1] - v0[1], v2[2] - v0[2]
     n = cross([ax, ay, az, 1.0], [bx, by, bz, 1.0])
     length = mag(n)
-    if length <= epsilon:
+    # the tolerance is one of distance: small triangles are not degenerate
+    longest = max(mag((ax, ay, az)), mag((bx, by, bz)),
+                  mag((bx - ax, by - ay, bz - az)))
+    if length <= epsilon * min(1.0, longest):
         return None
     return (n[0] / length, n[1] / length, n[2] / length)
 
-- 
2.43.0


From e40e2e632302723f3bf6b9e6e66e3d8de76e996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:39 +0000
Subject: [PATCH 113/192] fix: STEP export joins the faces of a closed solid

---
 src/yapcad/io/step.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index 4037d70..c03c78e 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -4,11 +4,14 @@ from __future__ import annotations
 
 from collections import defaultdict
 from dataclasses import dataclass
+import itertools
+from math import floor
 from typing import Dict, List, Optional, Sequence, TextIO, Tuple, Union
 import os
 import tempfile
 from typing import Optional
 
+from yapcad.geom import epsilon
 from yapcad.geometry_utils import triangles_from_mesh
 from yapcad.mesh import mesh_view
 
@@ -232,16 +235,28 @@ def write_step(obj: Sequence,
         raise ValueError('object produced no triangles for STEP export')
     writer = _EntityWriter()
 
+    # corners closer than the tolerance are one vertex, else the faces of a
+    # closed solid would not share their edges
     vertex_map: Dict[Vec3, _Vertex] = {}
+    cells: Dict[Tuple[int, int, int], List[_Vertex]] = defaultdict(list)
 
     for tri in triangles:
         for coords in (tri.v0, tri.v1, tri.v2):
-            if coords not in vertex_map:
+            if coords in vertex_map:
+                continue
+            cell = tuple(floor(c / epsilon) for c in coords)
+            near = min((vert for step in itertools.product((-1, 0, 1), repeat=3)
+                        for vert in cells.get(tuple(map(sum, zip(cell, step))), ())
+                        if _distance(vert.coords, coords) <= epsilon),
+                       key=lambda vert: _distance(vert.coords, coords), default=None)
+            if near is None:
                 pt = writer.add(
                     f"CARTESIAN_POINT('', ({coords[0]:.6f}, {coords[1]:.6f}, {coords[2]:.6f}))"
                 )
                 vert = writer.add(f"VERTEX_POINT('', #{pt})")
-                vertex_map[coords] = _Vertex(coords, pt, vert)
+                near = _Vertex(coords, pt, vert)
+                cells[cell].append(near)
+            vertex_map[coords] = near
 
     def _line_for_edge(start: _Vertex, end: _Vertex) -> Tuple[int, int, int]:
         direction_vec = _normalize((end.coords[0] - start.coords[0],
@@ -258,10 +273,13 @@ def write_step(obj: Sequence,
     tri_records: List[_TriRecord] = []
     edge_to_faces: Dict[Tuple[int, int], List[int]] = defaultdict(list)
 
-    for idx, tri in enumerate(triangles):
+    for tri in triangles:
         v0 = vertex_map[tri.v0]
         v1 = vertex_map[tri.v1]
         v2 = vertex_map[tri.v2]
+        if v0 is v1 or v1 is v2 or v2 is v0:
+            continue
+        idx = len(tri_records)
         tri_records.append(_TriRecord(v0=v0, v1=v1, v2=v2, normal=_normalize(tri.normal)))
 
         for start, end in ((v0, v1), (v1, v2), (v2, v0)):
-- 
2.43.0


From 60acfb6a29477085a089075e1b2d9aaf6b181c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:19 +0000
Subject: [PATCH 114/192] fix: STEP export keeps the precision of coordinates
 and directions

---
 src/yapcad/io/step.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index c03c78e..5237912 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -251,7 +251,7 @@ def write_step(obj: Sequence,
                        key=lambda vert: _distance(vert.coords, coords), default=None)
             if near is None:
                 pt = writer.add(
-                    f"CARTESIAN_POINT('', ({coords[0]:.6f}, {coords[1]:.6f}, {coords[2]:.6f}))"
+                    f"CARTESIAN_POINT('', ({_real(coords[0])}, {_real(coords[1])}, {_real(coords[2])}))"
                 )
                 vert = writer.add(f"VERTEX_POINT('', #{pt})")
                 near = _Vertex(coords, pt, vert)
@@ -263,10 +263,10 @@ def write_step(obj: Sequence,
                                     end.coords[1] - start.coords[1],
                                     end.coords[2] - start.coords[2]))
         direction_id = writer.add(
-            f"DIRECTION('', ({direction_vec[0]:.6f}, {direction_vec[1]:.6f}, {direction_vec[2]:.6f}))"
+            f"DIRECTION('', ({_real(direction_vec[0])}, {_real(direction_vec[1])}, {_real(direction_vec[2])}))"
         )
         length = _distance(start.coords, end.coords)
-        vector_id = writer.add(f"VECTOR('', #{direction_id}, {length:.6f})")
+        vector_id = writer.add(f"VECTOR('', #{direction_id}, {_real(length)})")
         line_id = writer.add(f"LINE('', #{start.point_id}, #{vector_id})")
         return direction_id, vector_id, line_id
 
@@ -362,10 +362,10 @@ def write_step(obj: Sequence,
 
         ref_vec = _perpendicular(tri.normal)
         normal_id = writer.add(
-            f"DIRECTION('', ({tri.normal[0]:.6f}, {tri.normal[1]:.6f}, {tri.normal[2]:.6f}))"
+            f"DIRECTION('', ({_real(tri.normal[0])}, {_real(tri.normal[1])}, {_real(tri.normal[2])}))"
         )
         ref_dir = writer.add(
-            f"DIRECTION('', ({ref_vec[0]:.6f}, {ref_vec[1]:.6f}, {ref_vec[2]:.6f}))"
+            f"DIRECTION('', ({_real(ref_vec[0])}, {_real(ref_vec[1])}, {_real(ref_vec[2])}))"
         )
         axis = writer.add(f"AXIS2_PLACEMENT_3D('', #{tri.v0.point_id}, #{normal_id}, #{ref_dir})")
         plane = writer.add(f"PLANE('', #{axis})")
@@ -468,6 +468,14 @@ def _write_header(stream: TextIO, name: str, schema: str) -> None:
     stream.write("ENDSEC;\n")
 
 
+def _real(value: float) -> str:
+    """Return ``value`` as a STEP real, which has a decimal point."""
+    mantissa, _, exponent = f"{value + 0.0:.15G}".partition('E')
+    if '.' not in mantissa:
+        mantissa += '.'
+    return mantissa + ('E' + exponent if exponent else '')
+
+
 def _normalize(vec: Vec3) -> Vec3:
     length = (vec[0] ** 2 + vec[1] ** 2 + vec[2] ** 2) ** 0.5
     if length == 0.0:
-- 
2.43.0


From 96d593a81f559925907e59729dbfd8bf18387b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:19 +0000
Subject: [PATCH 115/192] fix: STEP export encodes names

---
 src/yapcad/io/step.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index 5237912..e056245 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -230,6 +230,7 @@ def write_step(obj: Sequence,
                schema: str = 'AUTOMOTIVE_DESIGN_CC2') -> None:
     """Export ``obj`` (surface or solid) to a STEP file using a faceted BREP."""
 
+    name = _string(name)
     triangles = list(triangles_from_mesh(mesh_view(obj)))
     if not triangles:
         raise ValueError('object produced no triangles for STEP export')
@@ -468,6 +469,22 @@ def _write_header(stream: TextIO, name: str, schema: str) -> None:
     stream.write("ENDSEC;\n")
 
 
+def _string(text: str) -> str:
+    """Return ``text`` encoded for a STEP string."""
+    out = []
+    for char in text:
+        code = ord(char)
+        if char in "'\\":
+            out.append(char * 2)
+        elif 32 <= code < 127:
+            out.append(char)
+        elif code < 0x10000:
+            out.append(f"\\X2\\{code:04X}\\X0\\")
+        else:
+            out.append(f"\\X4\\{code:08X}\\X0\\")
+    return ''.join(out)
+
+
 def _real(value: float) -> str:
     """Return ``value`` as a STEP real, which has a decimal point."""
     mantissa, _, exponent = f"{value + 0.0:.15G}".partition('E')
-- 
2.43.0


From 3064318042163ba4bedee3d63b81629d316f72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:19 +0000
Subject: [PATCH 116/192] fix: STEP export writes shells inside of a solid as
 its voids

---
 src/yapcad/io/step.py | 82 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index e056245..2b44fa7 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from collections import defaultdict
 from dataclasses import dataclass
 import itertools
-from math import floor
+from math import atan2, floor, pi
 from typing import Dict, List, Optional, Sequence, TextIO, Tuple, Union
 import os
 import tempfile
@@ -373,14 +373,30 @@ def write_step(obj: Sequence,
         face = writer.add(f"ADVANCED_FACE('', (#{face_outer}), #{plane}, .T.)")
         face_ids_by_component[component_index].append(face)
 
+    voids = _find_voids(tri_records, components, component_closed)
+    void_ids = {idx for inner in voids.values() for idx in inner}
+
     representation_items: List[int] = []
     for idx, face_ids in enumerate(face_ids_by_component):
-        if not face_ids:
+        if not face_ids or idx in void_ids:
             continue
-        shell_name = name if len(face_ids_by_component) == 1 else f"{name}_{idx + 1}"
+        bodies = len(face_ids_by_component) - len(void_ids)
+        shell_name = name if bodies == 1 else f"{name}_{idx + 1}"
         if component_closed[idx]:
             shell_id = writer.add(_shell_record('CLOSED_SHELL', face_ids))
-            brep_id = writer.add(f"MANIFOLD_SOLID_BREP('{shell_name}', #{shell_id})")
+            inner_ids = []
+            for inner in voids.get(idx, ()):
+                inner_id = writer.add(
+                    _shell_record('CLOSED_SHELL', face_ids_by_component[inner]))
+                # the faces point away from the material already
+                inner_ids.append(writer.add(
+                    f"ORIENTED_CLOSED_SHELL('', *, #{inner_id}, .T.)"))
+            if inner_ids:
+                brep_id = writer.add(
+                    f"BREP_WITH_VOIDS('{shell_name}', #{shell_id}, (\n"
+                    + _format_id_list(inner_ids) + "\n))")
+            else:
+                brep_id = writer.add(f"MANIFOLD_SOLID_BREP('{shell_name}', #{shell_id})")
             representation_items.append(brep_id)
         else:
             shell_id = writer.add(_shell_record('OPEN_SHELL', face_ids))
@@ -456,6 +472,50 @@ def write_step(obj: Sequence,
             stream.close()
 
 
+def _find_voids(tri_records: Sequence[_TriRecord],
+                components: Sequence[Sequence[int]],
+                component_closed: Sequence[bool]) -> Dict[int, List[int]]:
+    """Return the components that bound voids, by the component around them.
+
+    A void is a closed component that faces inwards; it belongs to the
+    smallest outward one that it lies in.
+    """
+    origin = tri_records[0].v0.coords
+
+    def corners(idx):
+        for face in components[idx]:
+            tri = tri_records[face]
+            yield tri.v0.coords, tri.v1.coords, tri.v2.coords
+
+    def volume(idx):
+        return sum(_triple(*(_minus(p, origin) for p in tri)) for tri in corners(idx)) / 6.0
+
+    def surrounds(idx, pt):
+        # the solid angle that an outward shell fills as seen from inside
+        total = 0.0
+        for tri in corners(idx):
+            a, b, c = (_minus(p, pt) for p in tri)
+            la, lb, lc = (_distance(p, (0.0, 0.0, 0.0)) for p in (a, b, c))
+            total += 2.0 * atan2(_triple(a, b, c), la * lb * lc + _dot(a, b) * lc
+                                 + _dot(b, c) * la + _dot(c, a) * lb)
+        return total > 2.0 * pi
+
+    closed = [idx for idx, ok in enumerate(component_closed) if ok]
+    if len(closed) < 2:
+        return {}
+    volumes = {idx: volume(idx) for idx in closed}
+    voids: Dict[int, List[int]] = {}
+    for idx in closed:
+        if volumes[idx] >= 0.0:
+            continue
+        pt = tri_records[components[idx][0]].v0.coords
+        around = [body for body in closed
+                  if volumes[body] > -volumes[idx] and surrounds(body, pt)]
+        if around:
+            voids.setdefault(min(around, key=volumes.get), []).append(idx)
+    return voids
+
+
 def _write_header(stream: TextIO, name: str, schema: str) -> None:
     stream.write("ISO-10303-21;\n")
     stream.write("HEADER;\n")
@@ -504,6 +564,20 @@ def _distance(a: Vec3, b: Vec3) -> float:
     return ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 + (a[2] - b[2]) ** 2) ** 0.5
 
 
+def _minus(a: Vec3, b: Vec3) -> Vec3:
+    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])
+
+
+def _dot(a: Vec3, b: Vec3) -> float:
+    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
+
+
+def _triple(a: Vec3, b: Vec3, c: Vec3) -> float:
+    return (a[0] * (b[1] * c[2] - b[2] * c[1])
+            + a[1] * (b[2] * c[0] - b[0] * c[2])
+            + a[2] * (b[0] * c[1] - b[1] * c[0]))
+
+
 def _perpendicular(normal: Vec3) -> Vec3:
     x, y, z = normal
     if abs(x) < abs(z):
-- 
2.43.0


From ea80d95d221554376e63e801ad7559c8e0ac6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 117/192] fix: ASCII STL files take any name

---
 src/yapcad/io/stl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index d512b0e..7b47b73 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -68,6 +68,8 @@ def _write_ascii(triangles: Iterable[Triangle], path_or_file, name: str) -> None
         stream = open(path_or_file, 'w', encoding='ascii')
         close_when_done = True
 
+    # the format is one of ASCII lines
+    name = ' '.join(name.encode('ascii', errors='replace').decode('ascii').split())
     try:
         print(f"solid {name}", file=stream)
         for tri in triangles:
-- 
2.43.0


From 5b7eadd6cea9eaa13e8e7f01c963dcafe605de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 118/192] fix: damaged STL files are refused

---
 src/yapcad/io/stl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index 7b47b73..6a191a7 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -127,12 +127,13 @@ def _parse_binary_stl(data: bytes) -> List[Triangle]:
         raise ValueError("Invalid binary STL: file too small")
 
     tri_count = struct.unpack('<I', data[80:84])[0]
+    if len(data) < 84 + 50 * tri_count:
+        raise ValueError(f"Invalid binary STL: {tri_count} triangles announced, "
+                         f"{(len(data) - 84) // 50} found")
     triangles = []
     offset = 84
 
     for _ in range(tri_count):
-        if offset + 50 > len(data):
-            break
         values = _STRUCT_TRIANGLE.unpack(data[offset:offset + 50])
         normal = (values[0], values[1], values[2])
         v0 = (values[3], values[4], values[5])
@@ -167,6 +168,9 @@ def _parse_ascii_stl(text: str) -> List[Triangle]:
         v2 = (float(groups[9]), float(groups[10]), float(groups[11]))
         triangles.append(Triangle(normal=normal, v0=v0, v1=v1, v2=v2))
 
+    rest = facet_pattern.sub('\n', text)
+    if re.search(r'^\s*(facet\s+normal|vertex)\b', rest, re.IGNORECASE | re.MULTILINE):
+        raise ValueError("Invalid ASCII STL: malformed or incomplete facet")
     return triangles
 
 
-- 
2.43.0


From 6e930d020952a0adf04ba363022e96e4e28f36a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 119/192] fix: STL facets without a usable normal get that of
 their corners

---
 src/yapcad/io/stl.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index 6a191a7..16df70f 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -69,7 +69,8 @@ def _write_ascii(triangles: Iterable[Triangle], path_or_file, name: str) -> None
         close_when_done = True
 
     # the format is one of ASCII lines
-    name = ' '.join(name.encode('ascii', errors='replace').decode('ascii').split())
+    name = name.encode('ascii', errors='replace').decode('ascii')
+    name = ' '.join(name.splitlines())
     try:
         print(f"solid {name}", file=stream)
         for tri in triangles:
@@ -151,7 +152,7 @@ def _parse_ascii_stl(text: str) -> List[Triangle]:
 
     # Pattern for facet block
     facet_pattern = re.compile(
-        r'facet\s+normal\s+([eE\d.+-]+)\s+([eE\d.+-]+)\s+([eE\d.+-]+)\s+'
+        r'facet\s+normal\s+(\S+)\s+(\S+)\s+(\S+)\s+'
         r'outer\s+loop\s+'
         r'vertex\s+([eE\d.+-]+)\s+([eE\d.+-]+)\s+([eE\d.+-]+)\s+'
         r'vertex\s+([eE\d.+-]+)\s+([eE\d.+-]+)\s+([eE\d.+-]+)\s+'
@@ -180,6 +181,15 @@ def _vertex_key(v: Tuple[float, float, float], tol: float = _VERTEX_TOL) -> Tupl
     return (int(round(v[0] * scale)), int(round(v[1] * scale)), int(round(v[2] * scale)))
 
 
+def _with_normal(tri: Triangle) -> Triangle:
+    """Return ``tri`` with a unit normal, also if the file gives none."""
+    length = sum(c * c for c in tri.normal) ** 0.5
+    if abs(length - 1.0) < 1e-3:
+        return tri
+    normal = triangle_normal(tri.v0, tri.v1, tri.v2)
+    return Triangle(normal=normal or (0.0, 0.0, 0.0), v0=tri.v0, v1=tri.v1, v2=tri.v2)
+
+
 def _triangles_to_surface(triangles: List[Triangle], deduplicate: bool = True) -> list:
     """Convert triangles to a yapCAD surface.
 
@@ -199,6 +209,7 @@ def _triangles_to_surface(triangles: List[Triangle], deduplicate: bool = True) -
     if not triangles:
         return surface()
 
+    triangles = [_with_normal(tri) for tri in triangles]
     vertices = []
     normals = []
     faces = []
-- 
2.43.0


From 51f464dea5b7c27facbb45f9b522b570c617fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:18 +0000
Subject: [PATCH 120/192] fix: files that are no STL files are refused

---
 src/yapcad/io/stl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index 16df70f..4c2c34b 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -299,6 +299,9 @@ def read_stl(path_or_file, *, deduplicate: bool = True) -> list:
     else:
         text = data.decode('utf-8', errors='replace')
         triangles = _parse_ascii_stl(text)
+        if not triangles and not re.match(r'\W*solid\b.*\bendsolid\b', text,
+                                          re.IGNORECASE | re.DOTALL):
+            raise ValueError("Invalid STL: neither binary nor ASCII")
 
     if not triangles:
         # Return an empty solid (empty surfaces list)
-- 
2.43.0


From 7c0e5f990d5f0e55ea83591b05e0872f333849b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 121/192] fix: STL export joins the faces of a closed solid

---
 src/yapcad/geometry_utils.py | 26 +++++++++++++++++++++++++-
 src/yapcad/io/step.py        | 34 ++++++++++++----------------------
 src/yapcad/io/stl.py         |  8 +++++++-
 3 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/yapcad/geometry_utils.py b/src/yapcad/geometry_utils.py
index 31ad3d5..b13793d 100644
--- a/src/yapcad/geometry_utils.py
+++ b/src/yapcad/geometry_utils.py
@@ -2,8 +2,12 @@
 
 from __future__ import annotations
 
+import itertools
+import math
 from dataclasses import dataclass
-from typing import Iterable, Sequence, Tuple
+from math import floor
+from operator import add
+from typing import Dict, Iterable, Sequence, Tuple
 
 from yapcad.geom import cross, epsilon, mag
 
@@ -59,6 +63,26 @@ def triangle_normal(v0: Vec3, v1: Vec3, v2: Vec3) -> Vec3 | None:
     return (n[0] / length, n[1] / length, n[2] / length)
 
 
+def weld(points: Iterable[Vec3], tol: float = epsilon) -> Dict[Vec3, Vec3]:
+    """Map each point to the one that stands for all within ``tol`` of it."""
+
+    result: Dict[Vec3, Vec3] = {}
+    cells: Dict[Tuple[int, ...], list] = {}
+    steps = list(itertools.product((-1, 0, 1), repeat=3))
+    for pt in points:
+        if pt in result:
+            continue
+        cell = tuple(floor(c / tol) for c in pt)
+        near = min(((math.dist(other, pt), other) for step in steps
+                    for other in cells.get(tuple(map(add, cell, step)), ())),
+                   default=(tol, pt))
+        if near[0] >= tol:
+            near = (0.0, pt)
+            cells.setdefault(cell, []).append(pt)
+        result[pt] = near[1]
+    return result
+
+
 def triangle_area(v0: Vec3, v1: Vec3, v2: Vec3) -> float:
     """Return the area of a triangle."""
 
diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index 2b44fa7..6692a42 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -4,15 +4,13 @@ from __future__ import annotations
 
 from collections import defaultdict
 from dataclasses import dataclass
-import itertools
-from math import atan2, floor, pi
+from math import atan2, pi
 from typing import Dict, List, Optional, Sequence, TextIO, Tuple, Union
 import os
 import tempfile
 from typing import Optional
 
-from yapcad.geom import epsilon
-from yapcad.geometry_utils import triangles_from_mesh
+from yapcad.geometry_utils import triangles_from_mesh, weld
 from yapcad.mesh import mesh_view
 
 Vec3 = Tuple[float, float, float]
@@ -239,25 +237,17 @@ def write_step(obj: Sequence,
     # corners closer than the tolerance are one vertex, else the faces of a
     # closed solid would not share their edges
     vertex_map: Dict[Vec3, _Vertex] = {}
-    cells: Dict[Tuple[int, int, int], List[_Vertex]] = defaultdict(list)
+    corners = weld(v for tri in triangles for v in (tri.v0, tri.v1, tri.v2))
 
-    for tri in triangles:
-        for coords in (tri.v0, tri.v1, tri.v2):
-            if coords in vertex_map:
-                continue
-            cell = tuple(floor(c / epsilon) for c in coords)
-            near = min((vert for step in itertools.product((-1, 0, 1), repeat=3)
-                        for vert in cells.get(tuple(map(sum, zip(cell, step))), ())
-                        if _distance(vert.coords, coords) <= epsilon),
-                       key=lambda vert: _distance(vert.coords, coords), default=None)
-            if near is None:
-                pt = writer.add(
-                    f"CARTESIAN_POINT('', ({_real(coords[0])}, {_real(coords[1])}, {_real(coords[2])}))"
-                )
-                vert = writer.add(f"VERTEX_POINT('', #{pt})")
-                near = _Vertex(coords, pt, vert)
-                cells[cell].append(near)
-            vertex_map[coords] = near
+    for corner, coords in corners.items():
+        vert = vertex_map.get(coords)
+        if vert is None:
+            pt = writer.add(
+                f"CARTESIAN_POINT('', ({_real(coords[0])}, {_real(coords[1])}, {_real(coords[2])}))"
+            )
+            vert_id = writer.add(f"VERTEX_POINT('', #{pt})")
+            vert = vertex_map[coords] = _Vertex(coords, pt, vert_id)
+        vertex_map[corner] = vert
 
     def _line_for_edge(start: _Vertex, end: _Vertex) -> Tuple[int, int, int]:
         direction_vec = _normalize((end.coords[0] - start.coords[0],
diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index 4c2c34b..d9c5126 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -10,7 +10,7 @@ from typing import Iterable, List, Optional, Sequence, TextIO, Tuple, Union
 
 from yapcad.geom import point, vect
 from yapcad.geom3d import surface, solid
-from yapcad.geometry_utils import Triangle, triangles_from_mesh, triangle_normal
+from yapcad.geometry_utils import Triangle, triangles_from_mesh, triangle_normal, weld
 from yapcad.mesh import mesh_view
 
 _HEADER_SIZE = 80
@@ -25,6 +25,12 @@ def write_stl(obj: Sequence, path_or_file, *, binary: bool = True, name: str = '
     """
 
     triangles = list(triangles_from_mesh(mesh_view(obj)))
+    # corners that are the same within the tolerance must not be rounded
+    # differently, or a closed solid would come apart
+    corners = weld(v for tri in triangles for v in (tri.v0, tri.v1, tri.v2))
+    triangles = [Triangle(tri.normal, corners[tri.v0], corners[tri.v1], corners[tri.v2])
+                 for tri in triangles]
+    triangles = [tri for tri in triangles if len({tri.v0, tri.v1, tri.v2}) == 3]
 
     if binary:
         _write_binary(triangles, path_or_file, name)
-- 
2.43.0


From 3666cfa8cb564fe3ec8596ff5e9958c7a04ad06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 122/192] fix: STEP export writes valid complex entities and
 uncertainty

---
 src/yapcad/io/step.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index 6692a42..0000fe2 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -416,25 +416,23 @@ def write_step(obj: Sequence,
     shape = writer.add(f"PRODUCT_DEFINITION_SHAPE('', '', #{product_def})")
 
     length_unit = writer.add(
-        "( NAMED_UNIT(*) LENGTH_UNIT() SI_UNIT(.MILLI., .METRE.) )"
+        "( LENGTH_UNIT() NAMED_UNIT(*) SI_UNIT(.MILLI., .METRE.) )"
     )
     plane_angle_unit = writer.add(
         "( NAMED_UNIT(*) PLANE_ANGLE_UNIT() SI_UNIT($, .RADIAN.) )"
     )
     solid_angle_unit = writer.add(
-        "( NAMED_UNIT(*) SOLID_ANGLE_UNIT() SI_UNIT($, .STERADIAN.) )"
-    )
-    measure_with_unit = writer.add(
-        f"MEASURE_WITH_UNIT(LENGTH_MEASURE(1.E-06), #{length_unit})"
+        "( NAMED_UNIT(*) SI_UNIT($, .STERADIAN.) SOLID_ANGLE_UNIT() )"
     )
     uncertainty = writer.add(
-        f"UNCERTAINTY_MEASURE_WITH_UNIT(#{measure_with_unit}, 'distance accuracy value')"
+        f"UNCERTAINTY_MEASURE_WITH_UNIT(LENGTH_MEASURE(1.E-06), #{length_unit},"
+        " 'distance_accuracy_value', '')"
     )
     geom_context = writer.add(
-        "( REPRESENTATION_CONTEXT('', '')"
-        " AND GEOMETRIC_REPRESENTATION_CONTEXT(3)"
-        f" AND GLOBAL_UNCERTAINTY_ASSIGNED_CONTEXT((#{uncertainty}))"
-        f" AND GLOBAL_UNIT_ASSIGNED_CONTEXT((#{length_unit}, #{plane_angle_unit}, #{solid_angle_unit})) )"
+        "( GEOMETRIC_REPRESENTATION_CONTEXT(3)"
+        f" GLOBAL_UNCERTAINTY_ASSIGNED_CONTEXT((#{uncertainty}))"
+        f" GLOBAL_UNIT_ASSIGNED_CONTEXT((#{length_unit}, #{plane_angle_unit}, #{solid_angle_unit}))"
+        " REPRESENTATION_CONTEXT('', '') )"
     )
 
     items_block = _format_id_list(representation_items)
-- 
2.43.0


From fec5595a8f54314f9a3b5fd4855d3cbcee0b7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:55 +0000
Subject: [PATCH 123/192] fix: STEP export of open surfaces uses a
 representation for surfaces

---
 src/yapcad/io/step.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index 0000fe2..79dfbff 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -436,8 +436,13 @@ def write_step(obj: Sequence,
     )
 
     items_block = _format_id_list(representation_items)
+    # what an item is decides which representation may hold it
+    closed_items = {closed for closed, ids in zip(component_closed, face_ids_by_component) if ids}
+    kind = {(True,): 'ADVANCED_BREP_SHAPE_REPRESENTATION',
+            (False,): 'MANIFOLD_SURFACE_SHAPE_REPRESENTATION'}.get(tuple(closed_items),
+                                                                  'SHAPE_REPRESENTATION')
     brep_shape = writer.add(
-        "ADVANCED_BREP_SHAPE_REPRESENTATION('', (\n"
+        f"{kind}('', (\n"
         + items_block
         + f"\n), #{geom_context})"
     )
-- 
2.43.0


From fb37c587244c7fd3a82a263751f62e0470508377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:23 +0000
Subject: [PATCH 124/192] fix: closed splines are drawn without a line of no
 length

---
 src/yapcad/drawable.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/yapcad/drawable.py b/src/yapcad/drawable.py
index 8318357..604f890 100644
--- a/src/yapcad/drawable.py
+++ b/src/yapcad/drawable.py
@@ -314,12 +314,9 @@ class Drawable:
             
         elif iscatmullrom(x):
             from yapcad.spline import sample_catmullrom
-            pts = sample_catmullrom(x)
-            closed = bool(x[2].get('closed', False))
+            pts = sample_catmullrom(x) # of a closed curve, ends where it starts
             for i in range(1, len(pts)):
                 self.draw_line(pts[i-1], pts[i])
-            if closed and pts:
-                self.draw_line(pts[-1], pts[0])
         elif isnurbs(x):
             from yapcad.spline import sample_nurbs
             meta = x[2]
-- 
2.43.0


From 8f54efed4c76e85f227b4e7e26770d6cef7b765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:22 +0000
Subject: [PATCH 125/192] fix: DXF drawings define the text styles they use

---
 src/yapcad/ezdxf_drawable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/ezdxf_drawable.py b/src/yapcad/ezdxf_drawable.py
index c63d6e7..61196d9 100644
--- a/src/yapcad/ezdxf_drawable.py
+++ b/src/yapcad/ezdxf_drawable.py
@@ -210,6 +210,9 @@ class ezdxfDraw(drawable.Drawable):
         dxfattr = dict()
         if 'style' in attr:
             dxfattr['style'] = attr['style']
+            if not attr['style'] in self.__doc.styles: # would be dropped
+                self.__doc.styles.new(attr['style'],
+                                      dxfattribs={'font': attr['style'] + '.ttf'})
         if 'height' in attr:
             dxfattr['height'] = attr['height']
         dxfattr.update({ 'layer': layer,
-- 
2.43.0


From 8e6023ed26b4a634e0eb7f1a5ee8653e647a6c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:14 +0000
Subject: [PATCH 126/192] fix: black is drawn in black in DXF drawings

---
 src/yapcad/ezdxf_drawable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yapcad/ezdxf_drawable.py b/src/yapcad/ezdxf_drawable.py
index 61196d9..31c9286 100644
--- a/src/yapcad/ezdxf_drawable.py
+++ b/src/yapcad/ezdxf_drawable.py
@@ -66,6 +66,11 @@ class ezdxfDraw(drawable.Drawable):
             raise ValueError('bad linetype in linetypeset: {}'.format(linetype))
         self._set_linetype(linetype)
 
+    def thing2color(self,thing,convert='b',colormap=None,colordict=None):
+        c = super().thing2color(thing,convert,colormap,colordict)
+        # in DXF, the index of 0 is no color but stands for "by block"
+        return 250 if convert == 'i' and c == 0 else c
+
     @property
     def filename(self):
         return self.__filename
-- 
2.43.0


From 5604032633a0183a6f7bc1a9eeaa6a5eb980c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:38 +0000
Subject: [PATCH 127/192] fix: collision checks see interfaces registered after
 the detector is made

---
 src/yapcad/collision/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index d6e709a..8b246f7 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -164,7 +164,8 @@ class CollisionDetector:
             penetration_threshold: Minimum penetration to count as collision (mm)
         """
         self.geometry_provider = geometry_provider
-        self.interface_registry = interface_registry or InterfaceRegistry()
+        # an empty registry is false, yet may be filled later
+        self.interface_registry = InterfaceRegistry() if interface_registry is None else interface_registry
         self.verbose = verbose
         self.min_collision_volume = min_collision_volume
         self.mesh_sample_points = mesh_sample_points
-- 
2.43.0


From 60a929443b7da5bb366952daf7341fe93132ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 128/192] fix: validation plans pass only when every acceptance
 criterion is met

Criteria for unknown metrics, with unknown comparisons or without limit
were ignored, and so were NaN values; the documented metrics bbox.x, bbox.y
and bbox.z did not exist. == and ~= were missing in failed_criteria.
---
 src/yapcad/package/analysis/base.py          |  43 +++++
 src/yapcad/package/analysis/yapcad_native.py | 155 +++++--------------
 2 files changed, 81 insertions(+), 117 deletions(-)

diff --git a/src/yapcad/package/analysis/base.py b/src/yapcad/package/analysis/base.py
index 29354ac..c3641dd 100644
--- a/src/yapcad/package/analysis/base.py
+++ b/src/yapcad/package/analysis/base.py
@@ -118,6 +118,47 @@ def available_backends() -> Sequence[str]:
     return tuple(sorted(_BACKENDS.keys()))
 
 
+def criterion_limit(rule: Dict[str, Any], *aliases: str) -> float:
+    """Return the numeric limit of an acceptance criterion.
+
+    YAML reads numbers such as ``180e6`` as text, so text is accepted too.
+    """
+
+    for key in ("limit",) + aliases:
+        if rule.get(key) is not None:
+            try:
+                return float(rule[key])
+            except (TypeError, ValueError):
+                raise ValueError(f"limit of acceptance criterion is no number: {rule[key]!r}") from None
+    raise ValueError("acceptance criterion has no limit")
+
+
+def criterion_met(value: float, rule: Dict[str, Any], *aliases: str) -> bool:
+    """Tell if a measured value meets an acceptance criterion.
+
+    Raises ``ValueError`` when the criterion cannot be evaluated: it has no
+    numeric limit, or an unknown comparison.
+    """
+
+    limit = criterion_limit(rule, *aliases)
+    comparison = rule.get("comparison", "<=")
+    if comparison == "<=":
+        return value <= limit
+    if comparison == "<":
+        return value < limit
+    if comparison == ">=":
+        return value >= limit
+    if comparison == ">":
+        return value > limit
+    if comparison in ("==", "~="):
+        tolerance = rule.get("tolerance")
+        try:
+            return abs(value - limit) <= float(0.0 if tolerance is None else tolerance)
+        except (TypeError, ValueError):
+            raise ValueError(f"tolerance of acceptance criterion is no number: {tolerance!r}") from None
+    raise ValueError(f"acceptance criterion has an unknown comparison: {comparison!r}")
+
+
 def _parse_execution_config(raw: Dict[str, Any]) -> ExecutionConfig:
     exec_cfg = ExecutionConfig(
         mode=str(raw.get("mode", "local")),
@@ -204,6 +245,8 @@ __all__ = [
     "AnalysisResult",
     "ExecutionConfig",
     "available_backends",
+    "criterion_limit",
+    "criterion_met",
     "get_backend",
     "load_plan",
     "register_backend",
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index f3d6c29..739efb9 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -25,7 +25,7 @@ from datetime import datetime, timezone
 from pathlib import Path
 from typing import Any, Dict, List, Optional
 
-from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, register_backend
+from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, criterion_met, register_backend
 
 
 def _now() -> str:
@@ -369,11 +369,11 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         # Add axis-specific keys
         if axis == "x" or axis == "all":
-            metrics[f"bbox.x_{units}"] = width
+            metrics["bbox.x"] = metrics[f"bbox.x_{units}"] = width
         if axis == "y" or axis == "all":
-            metrics[f"bbox.y_{units}"] = depth
+            metrics["bbox.y"] = metrics[f"bbox.y_{units}"] = depth
         if axis == "z" or axis == "all":
-            metrics[f"bbox.z_{units}"] = height
+            metrics["bbox.z"] = metrics[f"bbox.z_{units}"] = height
 
         return metrics
 
@@ -564,139 +564,60 @@ class YapCADNativeAdapter(AnalysisAdapter):
             "Clearance check requires entity lookup - not yet implemented"
         )
 
+    def _metric_for(self, metrics: Dict[str, float], key: str) -> float:
+        """Return the metric an acceptance criterion is about."""
+        # Exact match first, then alternate key formats ("bbox_x" for "bbox.x")
+        for name in (key, key.replace(".", "_"), key.replace("_", ".")):
+            if metrics.get(name) is not None:
+                return metrics[name]
+        raise ValueError(f"acceptance criterion for an unknown metric: {key!r}")
+
     def _evaluate_acceptance(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
     ) -> str:
-        """Evaluate acceptance criteria against computed metrics."""
+        """Evaluate acceptance criteria against computed metrics.
+
+        Raises ValueError for criteria that cannot be evaluated.
+        """
         if not acceptance:
             return "passed" if metrics else "pending"
 
-        for key, rule in acceptance.items():
-            # Try exact key match first
-            metric_value = metrics.get(key)
-
-            # Try alternate key formats
-            if metric_value is None:
-                # Try without dots (e.g., "bbox_x" for "bbox.x")
-                metric_value = metrics.get(key.replace(".", "_"))
-            if metric_value is None:
-                # Try with underscores as dots
-                metric_value = metrics.get(key.replace("_", "."))
-
-            if metric_value is None:
-                # Metric not found - can't evaluate
-                continue
-
-            limit = rule.get("limit")
-            if limit is None:
-                continue
-
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-            tolerance = rule.get("tolerance", 0.0)
-
-            if comparison == "<=":
-                if metric_value > limit:
-                    return "failed"
-            elif comparison == "<":
-                if metric_value >= limit:
-                    return "failed"
-            elif comparison == ">=":
-                if metric_value < limit:
-                    return "failed"
-            elif comparison == ">":
-                if metric_value <= limit:
-                    return "failed"
-            elif comparison == "==":
-                if abs(metric_value - limit) > tolerance:
-                    return "failed"
-            elif comparison == "~=":
-                # Approximate equality with tolerance
-                if abs(metric_value - limit) > tolerance:
-                    return "failed"
-
-        return "passed"
+        results = self._build_acceptance_results(metrics, acceptance)
+        if all(result["passed"] for result in results.values()):
+            return "passed"
+        return "failed"
 
     def _get_failed_criteria(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
     ) -> List[Dict[str, Any]]:
-        """Get list of failed acceptance criteria."""
-        failed = []
-
-        for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
-            if metric_value is None:
-                continue
-
-            limit = rule.get("limit")
-            if limit is None:
-                continue
-
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-
-            violated = False
-            if comparison == "<=" and metric_value > limit:
-                violated = True
-            elif comparison == "<" and metric_value >= limit:
-                violated = True
-            elif comparison == ">=" and metric_value < limit:
-                violated = True
-            elif comparison == ">" and metric_value <= limit:
-                violated = True
-
-            if violated:
-                failed.append({
-                    "criterion": key,
-                    "value": metric_value,
-                    "limit": limit,
-                    "comparison": comparison,
-                })
-
-        return failed
+        """Get list of failed acceptance criteria with details."""
+        results = self._build_acceptance_results(metrics, acceptance)
+        return [
+            {
+                "criterion": key,
+                "value": result["value"],
+                "limit": float(result["limit"]),
+                "comparison": result["comparison"],
+            }
+            for key, result in results.items()
+            if not result["passed"]
+        ]
 
     def _build_acceptance_results(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
     ) -> Dict[str, Dict[str, Any]]:
-        """Build detailed acceptance results for each criterion."""
+        """Build detailed acceptance results for summary."""
         results = {}
 
         for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
-
-            limit = rule.get("limit")
-            comparison = rule.get("comparison", "<=")
-
-            result = {
+            metric_value = self._metric_for(metrics, key)
+            results[key] = {
                 "value": metric_value,
-                "limit": limit,
-                "comparison": comparison,
-                "passed": None,
+                "limit": rule.get("limit"),
+                "comparison": rule.get("comparison", "<="),
+                "passed": criterion_met(metric_value, rule),
             }
 
-            if metric_value is not None and limit is not None:
-                limit = float(limit)
-                if comparison == "<=":
-                    result["passed"] = metric_value <= limit
-                elif comparison == "<":
-                    result["passed"] = metric_value < limit
-                elif comparison == ">=":
-                    result["passed"] = metric_value >= limit
-                elif comparison == ">":
-                    result["passed"] = metric_value > limit
-                elif comparison == "==":
-                    tolerance = rule.get("tolerance", 0.0)
-                    result["passed"] = abs(metric_value - limit) <= tolerance
-                elif comparison == "~=":
-                    tolerance = rule.get("tolerance", 0.0)
-                    result["passed"] = abs(metric_value - limit) <= tolerance
-
-            results[key] = result
-
         return results
 
 
-- 
2.43.0


From a1a3bc406a296b7deba97b5ed90e5235a6afb76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 129/192] fix: FEA plans pass only when every acceptance
 criterion is met

Criteria with == or ~=, with unknown comparisons or without limit were
ignored; NaN results passed in the FEniCSx backend, and there a criterion
without metric hid a later one that fails.
---
 src/yapcad/package/analysis/base.py     |  2 ++
 src/yapcad/package/analysis/calculix.py | 20 +++++-----------
 src/yapcad/package/analysis/fenics.py   | 32 ++++++++-----------------
 3 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/src/yapcad/package/analysis/base.py b/src/yapcad/package/analysis/base.py
index c3641dd..2a2fcf5 100644
--- a/src/yapcad/package/analysis/base.py
+++ b/src/yapcad/package/analysis/base.py
@@ -124,6 +124,8 @@ def criterion_limit(rule: Dict[str, Any], *aliases: str) -> float:
     YAML reads numbers such as ``180e6`` as text, so text is accepted too.
     """
 
+    if not isinstance(rule, dict):
+        raise ValueError(f"acceptance criterion is no mapping: {rule!r}")
     for key in ("limit",) + aliases:
         if rule.get(key) is not None:
             try:
diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index 721ac8a..628a923 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -11,7 +11,7 @@ from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
 
 from ..core import PackageManifest
-from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, register_backend
+from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, criterion_met, register_backend
 
 
 def _now() -> str:
@@ -291,20 +291,12 @@ class CalculixAdapter(AnalysisAdapter):
             if metric_value is None:
                 status = "pending"
                 continue
-            limit = rule.get("limit")
-            if limit is None and "limit_mm" in rule:
-                limit = rule["limit_mm"]
-            if limit is None:
+            try:
+                met = criterion_met(metric_value, rule, "limit_mm")
+            except ValueError:
+                status = "pending"
                 continue
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-            if comparison == "<=" and not (metric_value <= limit):
-                return "failed"
-            if comparison == "<" and not (metric_value < limit):
-                return "failed"
-            if comparison == ">=" and not (metric_value >= limit):
-                return "failed"
-            if comparison == ">" and not (metric_value > limit):
+            if not met:
                 return "failed"
         return status
 
diff --git a/src/yapcad/package/analysis/fenics.py b/src/yapcad/package/analysis/fenics.py
index 3b1759a..2eda984 100644
--- a/src/yapcad/package/analysis/fenics.py
+++ b/src/yapcad/package/analysis/fenics.py
@@ -30,7 +30,7 @@ from datetime import datetime, timezone
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
 
-from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, register_backend
+from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, criterion_met, register_backend
 from .gmsh_mesher import GmshMesher, MeshHints, gmsh_available
 
 # FEniCSx imports with graceful fallback
@@ -740,6 +740,7 @@ class FenicsxAdapter(AnalysisAdapter):
         if not acceptance:
             return "passed" if metrics else "pending"
 
+        status = "passed"
         for key, rule in acceptance.items():
             metric_value = metrics.get(key)
 
@@ -750,31 +751,18 @@ class FenicsxAdapter(AnalysisAdapter):
                 metric_value = metrics.get(key.replace(".", "_"))
 
             if metric_value is None:
-                return "pending"
-
-            limit = rule.get("limit")
-            if limit is None:
-                limit = rule.get("limit_mm")
-                if limit is not None:
-                    # Convert to base units if needed
-                    pass
-
-            if limit is None:
+                status = "pending"
                 continue
 
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-
-            if comparison == "<=" and metric_value > limit:
-                return "failed"
-            elif comparison == "<" and metric_value >= limit:
-                return "failed"
-            elif comparison == ">=" and metric_value < limit:
-                return "failed"
-            elif comparison == ">" and metric_value <= limit:
+            try:
+                met = criterion_met(metric_value, rule, "limit_mm")
+            except ValueError:
+                status = "pending"
+                continue
+            if not met:
                 return "failed"
 
-        return "passed"
+        return status
 
 
 # Register the backend
-- 
2.43.0


From 75385f8d31d3e3e2798a9ecb084ea94a2ba46c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 130/192] fix: validation checks convert to the units they
 report

volume_cm3, area_cm2 or bbox.x_in had the values in millimetres.
---
 src/yapcad/package/analysis/yapcad_native.py | 27 ++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 739efb9..3b2ba2c 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -28,6 +28,19 @@ from typing import Any, Dict, List, Optional
 from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, criterion_met, register_backend
 
 
+# lengths of the supported units in the millimetres that geometry is modelled in
+_UNIT_MM = {"mm": 1.0, "cm": 10.0, "m": 1000.0, "in": 25.4, "ft": 304.8}
+
+
+def _unit_size(units: str, dimension: int) -> float:
+    """Return the size of a unit such as ``cm`` or ``cm3`` in powers of millimetres."""
+    suffix = "" if dimension == 1 else str(dimension)
+    name = str(units)
+    if name.endswith(suffix) and name[:len(name) - len(suffix)] in _UNIT_MM:
+        return _UNIT_MM[name[:len(name) - len(suffix)]] ** dimension
+    raise ValueError(f"unknown units: {units!r}")
+
+
 def _now() -> str:
     """Return current UTC timestamp."""
     return datetime.now(timezone.utc).isoformat()
@@ -222,7 +235,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         metrics = {
             "volume": total_volume,
-            f"volume_{units}": total_volume,
+            f"volume_{units}": total_volume / _unit_size(units, 3),
             "part_count": len(solids),
         }
 
@@ -257,7 +270,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         metrics = {
             "area": total_area,
-            f"area_{units}": total_area,
+            f"area_{units}": total_area / _unit_size(units, 2),
             "part_count": len(solids),
         }
 
@@ -352,6 +365,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         axis = check_spec.get("axis", "all")
         units = check_spec.get("units", "mm")
+        size = _unit_size(units, 1)
 
         metrics: Dict[str, float] = {
             "bbox.xmin": xmin,
@@ -369,11 +383,14 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         # Add axis-specific keys
         if axis == "x" or axis == "all":
-            metrics["bbox.x"] = metrics[f"bbox.x_{units}"] = width
+            metrics["bbox.x"] = width
+            metrics[f"bbox.x_{units}"] = width / size
         if axis == "y" or axis == "all":
-            metrics["bbox.y"] = metrics[f"bbox.y_{units}"] = depth
+            metrics["bbox.y"] = depth
+            metrics[f"bbox.y_{units}"] = depth / size
         if axis == "z" or axis == "all":
-            metrics["bbox.z"] = metrics[f"bbox.z_{units}"] = height
+            metrics["bbox.z"] = height
+            metrics[f"bbox.z_{units}"] = height / size
 
         return metrics
 
-- 
2.43.0


From c4f34a2054b98d2ed7b419bc522c3862ecedca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 131/192] fix: densities that YAML reads as text are numbers

YAML 1.1 reads 2.7e3 as text.
---
 src/yapcad/package/analysis/yapcad_native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 3b2ba2c..37e7578 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -416,7 +416,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
             part_volumes.append(vol)
 
         # Density in kg/m^3, volume in mm^3
-        density_kgm3 = check_spec.get("density_kgm3", 2700)  # Default: aluminum
+        density_kgm3 = float(check_spec.get("density_kgm3", 2700))  # Default: aluminum
 
         # Convert mm^3 to m^3: 1 mm^3 = 1e-9 m^3
         volume_m3 = total_volume * 1e-9
-- 
2.43.0


From 77a4677a0928dcc35ef327beafa6a379b720b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 132/192] fix: validation checks measure only the entities of
 the plan

The entity IDs of a plan were ignored and the whole package was measured.
---
 src/yapcad/package/analysis/yapcad_native.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 37e7578..88148d7 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -178,8 +178,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
         geometry = load_geometry(manifest)
 
         if entities:
-            # Filter to specified entities (future: implement entity lookup)
-            pass
+            geometry = self._select_entities(manifest, entities)
 
         # Extract solids from geometry list
         if isinstance(geometry, list):
@@ -197,6 +196,22 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         return geometry
 
+    def _select_entities(self, manifest: Any, entities: List[str]) -> List[Any]:
+        """Load only the solids with the given entity IDs."""
+        from yapcad.io.geometry_json import geometry_from_json
+
+        with manifest.geometry_primary_path().open("r", encoding="utf-8") as fp:
+            doc = json.load(fp)
+        solids = {e.get("id"): e for e in doc.get("entities", []) if e.get("type") == "solid"}
+        unknown = [name for name in entities if name not in solids]
+        if unknown:
+            raise ValueError(f"No solids in package with IDs: {', '.join(map(str, unknown))}")
+        doc["entities"] = [
+            e for e in doc["entities"]
+            if e.get("type") == "surface" or (e.get("type") == "solid" and e.get("id") in entities)
+        ]
+        return geometry_from_json(doc)
+
     def _normalize_geometry(self, geometry: Any) -> List[Any]:
         """Normalize geometry to a list of solids for aggregate operations."""
         from yapcad.geom3d import issolid
-- 
2.43.0


From 1b3c7a7820ee8f6cd187098c4c71f18e41e42664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:43 +0000
Subject: [PATCH 133/192] fix: validation checks measure the geometry source of
 the plan

The source of a plan was ignored and the primary geometry was measured.
---
 src/yapcad/package/analysis/yapcad_native.py | 27 +++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 88148d7..5d07c92 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -166,7 +166,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
         Returns either a single solid or a list of solids (assembly).
         For aggregate checks like total mass or volume, all solids are used.
         """
-        from yapcad.package.core import load_geometry
+        from yapcad.io.geometry_json import geometry_from_json
         from yapcad.geom3d import issolid
 
         # Get geometry source from plan
@@ -175,10 +175,18 @@ class YapCADNativeAdapter(AnalysisAdapter):
         aggregate = geom_spec.get("aggregate", False)  # Return all solids for assembly checks
 
         # Load geometry from package
-        geometry = load_geometry(manifest)
+        path = manifest.geometry_primary_path()
+        if geom_spec.get("source"):
+            root = Path(manifest.root).resolve()
+            path = (root / geom_spec["source"]).resolve()
+            if not path.is_relative_to(root):
+                raise ValueError(f"Geometry source outside of package: {geom_spec['source']}")
+        with path.open("r", encoding="utf-8") as fp:
+            doc = json.load(fp)
 
         if entities:
-            geometry = self._select_entities(manifest, entities)
+            doc = self._select_entities(doc, entities)
+        geometry = geometry_from_json(doc)
 
         # Extract solids from geometry list
         if isinstance(geometry, list):
@@ -196,21 +204,16 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         return geometry
 
-    def _select_entities(self, manifest: Any, entities: List[str]) -> List[Any]:
-        """Load only the solids with the given entity IDs."""
-        from yapcad.io.geometry_json import geometry_from_json
-
-        with manifest.geometry_primary_path().open("r", encoding="utf-8") as fp:
-            doc = json.load(fp)
+    def _select_entities(self, doc: Dict[str, Any], entities: List[str]) -> Dict[str, Any]:
+        """Restrict a geometry document to the solids with the given entity IDs."""
         solids = {e.get("id"): e for e in doc.get("entities", []) if e.get("type") == "solid"}
         unknown = [name for name in entities if name not in solids]
         if unknown:
             raise ValueError(f"No solids in package with IDs: {', '.join(map(str, unknown))}")
-        doc["entities"] = [
+        return dict(doc, entities=[
             e for e in doc["entities"]
             if e.get("type") == "surface" or (e.get("type") == "solid" and e.get("id") in entities)
-        ]
-        return geometry_from_json(doc)
+        ])
 
     def _normalize_geometry(self, geometry: Any) -> List[Any]:
         """Normalize geometry to a list of solids for aggregate operations."""
-- 
2.43.0


From 8d9b4be3539297252369ad369fa62eeb9c1792ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:43 +0000
Subject: [PATCH 134/192] fix: analysis summaries keep the acceptance results

The summary replaced that of the native backend, without the acceptance
results and the plan_id that the schema of results requires.
---
 src/yapcad/package/analysis/cli.py           | 1 +
 src/yapcad/package/analysis/yapcad_native.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index 1dacd8c..b24e493 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -107,6 +107,7 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
         "timestamp": result.timestamp,
     }
     summary_payload.setdefault("plan", plan.plan_id)
+    summary_payload.setdefault("plan_id", plan.plan_id)
     summary_payload.setdefault("status", result.status)
     summary_payload.setdefault("backend", result.backend)
     summary_payload.setdefault("timestamp", result.timestamp)
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 5d07c92..d8ab5d2 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -119,6 +119,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
             # Evaluate acceptance criteria
             status = self._evaluate_acceptance(metrics, plan.acceptance)
             summary["metrics"] = metrics
+            summary["acceptance_results"] = self._build_acceptance_results(metrics, plan.acceptance)
 
             if status == "passed":
                 summary["statusDetail"] = "Acceptance criteria satisfied"
@@ -146,7 +147,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
                 "timestamp": summary["timestamp"],
                 "backend": "yapcad",
                 "metrics": metrics,
-                "acceptance_results": self._build_acceptance_results(metrics, plan.acceptance),
+                "acceptance_results": summary["acceptance_results"],
             }, f, indent=2)
         artifacts.append({"kind": "summary", "path": "summary.json"})
 
-- 
2.43.0


From 1ab5deb353503dd42880dc309def72b9533856c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:43 +0000
Subject: [PATCH 135/192] fix: results of an analysis replace those of the run
 before

Metrics and artifacts of an earlier run stayed beside the status of a
later one that failed with an error.
---
 src/yapcad/package/analysis/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index b24e493..0ae4082 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -132,6 +132,7 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
     manifest_entry.setdefault("path", str(summary_path.relative_to(root)))
     existing = next((item for item in results if item.get("plan") == plan.plan_id), None)
     if existing:
+        existing.clear()
         existing.update(manifest_entry)
     else:
         results.append(manifest_entry)
-- 
2.43.0


From 0d58af64f5a26263ae095772bc097494a7deb587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:43 +0000
Subject: [PATCH 136/192] fix: ids of analysis plans stay inside of the results
 folder

A plan with an id such as ../../x wrote outside of validation/results.
---
 src/yapcad/package/analysis/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/base.py b/src/yapcad/package/analysis/base.py
index 2a2fcf5..2d0b613 100644
--- a/src/yapcad/package/analysis/base.py
+++ b/src/yapcad/package/analysis/base.py
@@ -193,6 +193,11 @@ def load_plan(path: Path | str) -> AnalysisPlan:
     if missing:
         raise ValueError(f"analysis plan missing required keys: {', '.join(missing)}")
 
+    plan_id = str(data["id"])
+    if not plan_id.strip() or plan_id in (".", "..") or any(c in plan_id for c in "/\\\0"):
+        # results are stored in a folder of this name
+        raise ValueError(f"analysis plan has an invalid id: {plan_id!r}")
+
     execution_raw = data.get("execution", {}) or {}
     execution = _parse_execution_config(execution_raw)
 
@@ -222,7 +227,7 @@ def load_plan(path: Path | str) -> AnalysisPlan:
     metadata = {k: v for k, v in data.items() if k not in known_keys}
 
     plan = AnalysisPlan(
-        plan_id=str(data["id"]),
+        plan_id=plan_id,
         kind=str(data["kind"]),
         backend=str(data["backend"]),
         name=data.get("name"),
-- 
2.43.0


From 861d2a330f0f353332b6d4e37b43484d80455ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:43 +0000
Subject: [PATCH 137/192] fix: analysis plans may have empty sections

---
 src/yapcad/package/analysis/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/package/analysis/base.py b/src/yapcad/package/analysis/base.py
index 2d0b613..7f8d8a4 100644
--- a/src/yapcad/package/analysis/base.py
+++ b/src/yapcad/package/analysis/base.py
@@ -168,9 +168,9 @@ def _parse_execution_config(raw: Dict[str, Any]) -> ExecutionConfig:
         transport=raw.get("transport"),
         host=raw.get("host"),
         workdir=raw.get("workdir"),
-        env=dict(raw.get("env", {})),
-        options=dict(raw.get("options", {})),
-        license=dict(raw.get("license", {})),
+        env=dict(raw.get("env") or {}),
+        options=dict(raw.get("options") or {}),
+        license=dict(raw.get("license") or {}),
     )
     return exec_cfg
 
@@ -232,12 +232,12 @@ def load_plan(path: Path | str) -> AnalysisPlan:
         backend=str(data["backend"]),
         name=data.get("name"),
         description=data.get("description"),
-        geometry=dict(data.get("geometry", {})),
-        materials=dict(data.get("materials", {})),
+        geometry=dict(data.get("geometry") or {}),
+        materials=dict(data.get("materials") or {}),
         loads=list(loads),
         boundary_conditions=list(boundary_conditions or []),
-        acceptance=dict(data.get("acceptance", {})),
-        backend_options=dict(data.get("backendOptions", {})),
+        acceptance=dict(data.get("acceptance") or {}),
+        backend_options=dict(data.get("backendOptions") or {}),
         execution=execution,
         attachments=list(data.get("attachments", []) or []),
         metadata=metadata,
-- 
2.43.0


From 5232a0eb5c81e5f628f395d52229c99919bc1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:43 +0000
Subject: [PATCH 138/192] fix: CalculiX results of an earlier run are removed

A run that wrote no results was judged by those of the run before.
---
 src/yapcad/package/analysis/calculix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index 628a923..a7e59a8 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -88,6 +88,10 @@ class CalculixAdapter(AnalysisAdapter):
                 artifacts=artifacts,
             )
 
+        for suffix in (".dat", ".frd", ".sta", ".log"):
+            # results of an earlier run must not pass for those of this one
+            (workspace / f"{inp_basename}{suffix}").unlink(missing_ok=True)
+
         run = subprocess.run(
             [executable, inp_basename],
             cwd=workspace,
-- 
2.43.0


From feb5dd832730ff9ba4590d89619162e41dccdd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:05 +0000
Subject: [PATCH 139/192] fix: schema validation reports values of the wrong
 type

A list as kind, status, type, property or comparison, and names of fields
that are no text, ended in a TypeError.
---
 src/yapcad/package/analysis/schema.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/package/analysis/schema.py b/src/yapcad/package/analysis/schema.py
index 677541d..2f3fb19 100644
--- a/src/yapcad/package/analysis/schema.py
+++ b/src/yapcad/package/analysis/schema.py
@@ -220,7 +220,7 @@ def validate_acceptance_criterion(
     if "comparison" in criterion:
         comparison = criterion["comparison"]
         valid_ops = {op.value for op in ComparisonOp}
-        if comparison not in valid_ops:
+        if not isinstance(comparison, str) or comparison not in valid_ops:
             errors.append(SchemaError(
                 path=f"{path}.comparison",
                 message=f"Invalid comparison '{comparison}', expected one of: {', '.join(sorted(valid_ops))}",
@@ -288,7 +288,7 @@ def validate_load(
         valid = False
     else:
         load_type = load["type"]
-        if load_type not in VALID_LOAD_TYPES:
+        if not isinstance(load_type, str) or load_type not in VALID_LOAD_TYPES:
             errors.append(SchemaError(
                 path=f"{load_path}.type",
                 message=f"Invalid load type '{load_type}', expected one of: {', '.join(sorted(VALID_LOAD_TYPES))}",
@@ -334,7 +334,7 @@ def validate_boundary_condition(
         valid = False
     else:
         bc_type = bc["type"]
-        if bc_type not in VALID_BC_TYPES:
+        if not isinstance(bc_type, str) or bc_type not in VALID_BC_TYPES:
             errors.append(SchemaError(
                 path=f"{bc_path}.type",
                 message=f"Invalid BC type '{bc_type}', expected one of: {', '.join(sorted(VALID_BC_TYPES))}",
@@ -424,7 +424,7 @@ def validate_check_section(
     else:
         prop = check["property"]
         valid_props = VALID_CHECK_PROPERTIES.get(kind, set())
-        if prop not in valid_props:
+        if not isinstance(prop, str) or prop not in valid_props:
             errors.append(SchemaError(
                 path=f"{path}.property",
                 message=f"Invalid property '{prop}' for kind '{kind}', expected one of: {', '.join(sorted(valid_props))}",
@@ -456,7 +456,7 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
     # Validate kind
     kind = data["kind"]
     valid_kinds = {k.value for k in ValidationKind}
-    if kind not in valid_kinds:
+    if not isinstance(kind, str) or kind not in valid_kinds:
         errors.append(SchemaError(
             path="kind",
             message=f"Invalid kind '{kind}', expected one of: {', '.join(sorted(valid_kinds))}",
@@ -564,9 +564,9 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
 
     unknown = set(data.keys()) - known_fields
     # Don't warn about metadata subfields or common extras
-    for unk in sorted(unknown):
+    for unk in sorted(unknown, key=str):
         warnings.append(SchemaError(
-            path=unk,
+            path=str(unk),
             message=f"Unknown field '{unk}' (may be ignored)",
             severity="warning",
         ))
@@ -599,7 +599,7 @@ def validate_result(data: Dict[str, Any]) -> ValidationReport:
     # Validate status
     status = data["status"]
     valid_statuses = {s.value for s in ResultStatus}
-    if status not in valid_statuses:
+    if not isinstance(status, str) or status not in valid_statuses:
         errors.append(SchemaError(
             path="status",
             message=f"Invalid status '{status}', expected one of: {', '.join(sorted(valid_statuses))}",
@@ -678,9 +678,9 @@ def validate_result(data: Dict[str, Any]) -> ValidationReport:
     # Check for unknown fields
     known_fields = RESULT_REQUIRED_FIELDS | RESULT_OPTIONAL_FIELDS
     unknown = set(data.keys()) - known_fields
-    for unk in sorted(unknown):
+    for unk in sorted(unknown, key=str):
         warnings.append(SchemaError(
-            path=unk,
+            path=str(unk),
             message=f"Unknown field '{unk}' (may be ignored)",
             severity="warning",
         ))
-- 
2.43.0


From c3eb7d6ee7f3f8e3e22126ed5faf8d94e240ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:05 +0000
Subject: [PATCH 140/192] fix: schema validation checks both spellings of
 boundary conditions

---
 src/yapcad/package/analysis/schema.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/package/analysis/schema.py b/src/yapcad/package/analysis/schema.py
index 2f3fb19..fb7cded 100644
--- a/src/yapcad/package/analysis/schema.py
+++ b/src/yapcad/package/analysis/schema.py
@@ -527,11 +527,9 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
                         ))
 
         # Validate boundary conditions
-        bc_key = "boundaryConditions"
-        if bc_key not in data:
-            bc_key = "boundary_conditions"
-
-        if bc_key in data:
+        for bc_key in ("boundaryConditions", "boundary_conditions"):
+            if bc_key not in data:
+                continue
             bcs = data[bc_key]
             if not isinstance(bcs, list):
                 errors.append(SchemaError(
-- 
2.43.0


From 2f08570855fcae4d4d2da4fd7bebadcf0832d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:13 +0000
Subject: [PATCH 141/192] fix: schema validation refuses limits that are no
 numbers

---
 src/yapcad/package/analysis/schema.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yapcad/package/analysis/schema.py b/src/yapcad/package/analysis/schema.py
index fb7cded..3e233ba 100644
--- a/src/yapcad/package/analysis/schema.py
+++ b/src/yapcad/package/analysis/schema.py
@@ -13,6 +13,8 @@ from enum import Enum
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Sequence, Union
 
+from .base import criterion_limit
+
 
 class ValidationKind(Enum):
     """Supported validation test kinds."""
@@ -215,6 +217,12 @@ def validate_acceptance_criterion(
             message="Missing required field 'limit'",
         ))
         valid = False
+    else:
+        try:
+            criterion_limit(criterion)
+        except ValueError as exc:
+            errors.append(SchemaError(path=f"{path}.limit", message=str(exc)))
+            valid = False
 
     # Check comparison operator
     if "comparison" in criterion:
-- 
2.43.0


From 7bb1563ebf0e510371c932624128df7467745fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 142/192] fix: CalculiX results with NaN displacements do not
 pass

A NaN after the first node was ignored.
---
 src/yapcad/package/analysis/calculix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index a7e59a8..1780ea4 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -279,7 +279,7 @@ class CalculixAdapter(AnalysisAdapter):
                     continue
                 uz = numeric_parts[1] if len(numeric_parts) > 1 else numeric_parts[0]
                 uz_abs = abs(uz)
-                if max_disp is None or uz_abs > max_disp:
+                if max_disp is None or uz_abs > max_disp or math.isnan(uz_abs):
                     max_disp = uz_abs
         return max_disp
 
-- 
2.43.0


From 8aab7968b9b74772eed085f68ad0308832958913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 143/192] fix: arc lengths convert to the parameter where the
 path has that length

The parameter gives each segment of a path an equal share, so on paths
whose segments differ in length length_to_parameter was no inverse of
parameter_to_length: connectors sat away from their cuts, and
compute_optimal_cuts proposed segments longer than the maximum.
---
 src/yapcad/manufacturing/path_utils.py   | 15 ++++++++++++---
 src/yapcad/manufacturing/segmentation.py |  3 ++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index a0463b9..0a720fc 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -359,10 +359,19 @@ def length_to_parameter(path3d: Dict[str, Any], arc_length: float) -> float:
     Returns:
         Global parameter t in [0, 1]
     """
-    total_length = path_length(path3d)
-    if total_length < 1e-10:
+    segments = path3d.get('segments', [])
+    if path_length(path3d) < 1e-10 or arc_length <= 0:
         return 0.0
-    return min(1.0, max(0.0, arc_length / total_length))
+
+    # Every segment spans an equal share of the global parameter
+    # (see evaluate_path3d_at_t), whatever its length.
+    remaining = arc_length
+    for idx, seg in enumerate(segments):
+        seg_length = path_length({'segments': [seg]})
+        if remaining < seg_length:
+            return (idx + remaining / seg_length) / len(segments)
+        remaining -= seg_length
+    return 1.0
 
 
 def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 8eed60f..1059add 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -17,6 +17,7 @@ from .data import (
 from .path_utils import (
     compute_cut_plane,
     extract_sub_path,
+    length_to_parameter,
     path_length,
 )
 from .connectors import (
@@ -766,7 +767,7 @@ def compute_optimal_cuts(
     for i in range(1, num_segments):
         # Convert length to parameter
         cut_length = i * segment_length
-        cut_t = cut_length / total_length
+        cut_t = length_to_parameter(spine, cut_length)
 
         cut_points.append(CutPoint(
             element_id=provenance.id,
-- 
2.43.0


From 75ce642350a1d8b5f89b2a5a08322bd25780908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 144/192] fix: the arc length at parameter 0 is 0

parameter_to_length(path, 0) raised for the empty sub-path.
---
 src/yapcad/manufacturing/path_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index 0a720fc..34a4171 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -384,6 +384,8 @@ def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
     Returns:
         Arc length from path start to parameter t
     """
+    if t <= 0:
+        return 0.0
     # Extract sub-path and compute its length
     sub_path = extract_sub_path(path3d, 0.0, t)
     return path_length(sub_path)
-- 
2.43.0


From eb676abadf132f73560fc749a54fd46ef8b8d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 145/192] fix: a sub-path ending at a joint has no full turn of
 the next arc

---
 src/yapcad/manufacturing/path_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index 34a4171..ef836f7 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -269,7 +269,8 @@ def extract_sub_path(
             local_t_max = 1.0
 
         # Skip if this segment contributes nothing
-        if local_t_min >= local_t_max:
+        # (a sliver of rounding size would read as a full turn of an arc)
+        if local_t_max - local_t_min < 1e-12:
             continue
 
         # Extract the relevant portion
-- 
2.43.0


From 458df8ef2d0d22b5c53c3726348d24d5a437cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 146/192] fix: the assembly graph of a segmented element is
 symmetric

Each entry was copied before the next segment was attached, so no
segment listed its successor.
---
 src/yapcad/manufacturing/segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 1059add..ab3514d 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -567,7 +567,6 @@ def segment_swept_element(
                     prev_seg.connector_type = "female"
 
         segments.append(segment)
-        assembly_graph[segment_id] = list(segment.mates_with)
 
         prev_segment_id = segment_id
         segment_start_t = cut_point.parameter
@@ -608,7 +607,8 @@ def segment_swept_element(
             prev_seg.mates_with.append(final_segment_id)
 
     segments.append(final_segment)
-    assembly_graph[final_segment_id] = list(final_segment.mates_with)
+    for seg in segments:
+        assembly_graph[seg.id] = list(seg.mates_with)
 
     # Generate assembly instructions
     instructions = _generate_assembly_instructions(segments, connectors)
-- 
2.43.0


From 352431c7bcf7f894eaf4f2ceecf6af389a901e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 147/192] fix: segmentation uses the connector length of a cut
 point

CutPoint.connector_length, the override of the computed length, was
ignored.
---
 src/yapcad/manufacturing/segmentation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index ab3514d..c1237df 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -494,6 +494,8 @@ def segment_swept_element(
                 provenance.spine,
                 fit_clearance=cut_point.fit_clearance,
             )
+            if cut_point.connector_length is not None:
+                conn_spec.length = cut_point.connector_length
 
             if union_connectors and cut_point.union_connector_with != "none":
                 # Build actual connector solid
-- 
2.43.0


From bc5712f9421a3463d606c96a3960e656b0e54c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 148/192] fix: connector profiles refuse corner radii they have
 no room for

A radius over half the width gave a profile larger than asked for.
---
 src/yapcad/manufacturing/connectors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yapcad/manufacturing/connectors.py b/src/yapcad/manufacturing/connectors.py
index e098c08..e5878c6 100644
--- a/src/yapcad/manufacturing/connectors.py
+++ b/src/yapcad/manufacturing/connectors.py
@@ -168,6 +168,11 @@ def create_connector_region2d(
     hw = width / 2
     hh = height / 2
 
+    if 2 * corner_radius >= min(width, height):
+        raise ValueError(
+            f"Corner radius {corner_radius} too large for profile {width}x{height}"
+        )
+
     if corner_radius > 0:
         # Rectangle with filleted corners - use RoundRect from poly
         from yapcad.poly import RoundRect
-- 
2.43.0


From 60af931f604205812b98b89bdb8fcf806b03f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:35 +0000
Subject: [PATCH 149/192] fix: a segment is female when it receives a tab

The labels were guessed from whether a neighbour has a tab at all, also
one on its other end: a segment before a separate connector was called
female, and one in the middle that does receive a tab was not.
---
 src/yapcad/manufacturing/segmentation.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index c1237df..bef6440 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -455,6 +455,8 @@ def segment_swept_element(
     # Track connector type for segments
     # When union_connector_with=="b", the next segment gets the connector
     next_segment_has_connector = False
+    # ... or receives the tab of the segment before it
+    next_segment_receives_tab = False
 
     for i, cut_point in enumerate(sorted_cuts):
         # Compute cut plane from spine
@@ -476,6 +478,10 @@ def segment_swept_element(
         segment_connector_type = "none"
         segment_has_tab = False
 
+        if next_segment_receives_tab:
+            segment_connector_type = "female"
+            next_segment_receives_tab = False
+
         # If previous cut designated "b" (remaining), this segment has the connector
         if next_segment_has_connector:
             segment_connector_type = "male"
@@ -517,6 +523,7 @@ def segment_swept_element(
                         )
                         segment_connector_type = "male"
                         segment_has_tab = True
+                        next_segment_receives_tab = True
                     except RuntimeError as e:
                         warnings.append(
                             f"Connector union at t={cut_point.parameter} failed: {e}"
@@ -563,10 +570,6 @@ def segment_swept_element(
             )
             if prev_seg:
                 prev_seg.mates_with.append(segment_id)
-                # If this segment is male and prev segment doesn't have a tab,
-                # prev segment becomes female at this joint
-                if segment_connector_type == "male" and prev_seg.connector_type == "none":
-                    prev_seg.connector_type = "female"
 
         segments.append(segment)
 
@@ -583,13 +586,9 @@ def segment_swept_element(
     if next_segment_has_connector:
         # Last cut used union_connector_with="b", so final segment is male
         final_connector_type = "male"
-    elif prev_segment_id:
-        # Check if previous segment is male - if so, final segment receives its tab
-        prev_seg = next((s for s in segments if s.id == prev_segment_id), None)
-        if prev_seg and prev_seg.connector_type == "male":
-            final_connector_type = "female"
-        else:
-            final_connector_type = "none"
+    elif next_segment_receives_tab:
+        # The previous segment's tab protrudes into the final segment
+        final_connector_type = "female"
     else:
         final_connector_type = "none"
 
-- 
2.43.0


From 0177b2f1074e3c318540bcee4100c7513056669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:35 +0000
Subject: [PATCH 150/192] fix: connectors of cuts less than 1% apart have
 different ids

---
 src/yapcad/manufacturing/segmentation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index bef6440..9122bd0 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -500,6 +500,8 @@ def segment_swept_element(
                 provenance.spine,
                 fit_clearance=cut_point.fit_clearance,
             )
+            if any(c.id == conn_spec.id for c in connectors):
+                conn_spec.id = f"{conn_spec.id}_{i}"
             if cut_point.connector_length is not None:
                 conn_spec.length = cut_point.connector_length
 
-- 
2.43.0


From f9c198240e852b6ca94bb08dc46cef289483d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:14 +0000
Subject: [PATCH 151/192] fix: assembly instructions name each connector at its
 own cut only

Cuts less than 1% apart had each other's connectors inserted as well.
---
 src/yapcad/manufacturing/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 9122bd0..ce9d94d 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -714,7 +714,7 @@ def _generate_assembly_instructions(
         # Check for separate connectors at this joint
         for conn in connectors:
             seg_end = seg.parameter_range[1]
-            if abs(conn.center_parameter - seg_end) < 0.01:
+            if abs(conn.center_parameter - seg_end) < 1e-9:
                 lines.append(f"   Insert connector '{conn.id}' before next segment")
                 lines.append(f"   Fit type: {_fit_type_description(conn.fit_clearance)}")
 
-- 
2.43.0


From f2814056fda1ad767f59b2c42f3fd56261fcbada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:59 +0000
Subject: [PATCH 152/192] fix: Mechatron parts are named as in the assembly

Interfaces name the part instances, the parts had the names of their
definitions: a part added under another name, or twice, left interfaces
of parts that the graph does not hold.
---
 src/yapcad/assembly/mechatron_export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index 90088fb..bf23f6d 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -502,8 +502,8 @@ def to_mechatron_snapshot(assembly) -> Dict[str, Any]:
     for part_name in _ordered_part_names(assembly):
         part_def = assembly.parts[part_name]
         part_dict: Dict[str, Any] = {
-            "id": str(part_def.name),
-            "name": str(part_def.name),
+            "id": str(part_name),
+            "name": str(part_name),
             "material": _material_to_mechatron(getattr(part_def, "material", None)),
             "process": getattr(part_def, "process", None) or "FDM",
             "datums": [_datum_to_mechatron(d) for d in part_def.datums.values()],
-- 
2.43.0


From 13e674a546b22f40edf12fa8d44c0e3cc84aa642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:59 +0000
Subject: [PATCH 153/192] fix: Mechatron angle constraints are in degrees

Mate.angle is in radians and was written as angle_deg as it is.
---
 src/yapcad/assembly/mechatron_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index bf23f6d..29ec91f 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -86,6 +86,7 @@ What this exporter does NOT do
 from __future__ import annotations
 
 import json
+import math
 from typing import Any, Dict, Iterable, List, Optional
 
 
@@ -329,7 +330,7 @@ def _mate_constraint_for_mate(mate, assembly=None,
     # Mechatron's ``Angle`` variant requires an ``angle_deg`` field;
     # default to 0 when the yapcad Mate does not carry an explicit angle.
     if variant == "Angle":
-        entry["angle_deg"] = float(getattr(mate, "angle", 0.0) or 0.0)
+        entry["angle_deg"] = math.degrees(getattr(mate, "angle", 0.0) or 0.0)
     return entry
 
 
-- 
2.43.0


From 94a1d9c9af8f0e698a02ecb5b6d8e9f2766fd692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:59 +0000
Subject: [PATCH 154/192] fix: insertion vectors are unit vectors of the
 constraint mates

Datum normals of other lengths were passed on, and the datums of motion
mates were used.
---
 src/yapcad/assembly/mechatron_export.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index 29ec91f..e25ab1d 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -373,6 +373,8 @@ def _resolve_insertion_vector(assembly, mates):
     if assembly is None:
         return None
     for mate in mates:
+        if _is_motion_mate(mate):
+            continue
         try:
             part = assembly.parts.get(str(mate.part_a))
             if part is None:
@@ -391,10 +393,11 @@ def _resolve_insertion_vector(assembly, mates):
             # ``+ 0.0`` collapses ``-0.0`` to ``0.0`` for cleaner JSON
             # output (purely cosmetic — both serialize identically as
             # numbers).
+            length = math.sqrt(sum(float(c) ** 2 for c in normal[:3]))
             return [
-                -float(normal[0]) + 0.0,
-                -float(normal[1]) + 0.0,
-                -float(normal[2]) + 0.0,
+                -float(normal[0]) / length + 0.0,
+                -float(normal[1]) / length + 0.0,
+                -float(normal[2]) / length + 0.0,
             ]
         except Exception:
             continue
-- 
2.43.0


From 481eb8060327846bf43483cd0d6890cf7514cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:59 +0000
Subject: [PATCH 155/192] fix: the direction of a resolved load is a unit
 vector

---
 src/yapcad/package/analysis/mechatron_fea_setup.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/mechatron_fea_setup.py b/src/yapcad/package/analysis/mechatron_fea_setup.py
index c07c816..f7d8253 100644
--- a/src/yapcad/package/analysis/mechatron_fea_setup.py
+++ b/src/yapcad/package/analysis/mechatron_fea_setup.py
@@ -750,13 +750,18 @@ def resolve_load_attach(load_case: Dict[str, Any]) -> LoadAttachResolved:
     attach = load_case.get("attach", {})
     pos = attach.get("position", [0.0, 0.0, 0.0])
     direction = load_case.get("direction", [1.0, 0.0, 0.0])
+    length = math.sqrt(sum(float(c) ** 2 for c in direction)) or 1.0
 
     return LoadAttachResolved(
         load_case_id=load_case["id"],
         part=attach.get("part", "_assembly"),
         interface_id=attach.get("interface"),
         position_mm=(float(pos[0]), float(pos[1]), float(pos[2])),
-        direction_unit=(float(direction[0]), float(direction[1]), float(direction[2])),
+        direction_unit=(
+            float(direction[0]) / length,
+            float(direction[1]) / length,
+            float(direction[2]) / length,
+        ),
         magnitude_n=float(load_case.get("magnitude_n") or 0.0),
         coordinate_frame=load_case.get("coordinate_frame", "vehicle"),
         bolt_index=attach.get("bolt_index"),
-- 
2.43.0


From 2253388352b494ef7127092415f8dc5f9494d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 156/192] fix: metadata sidecars hold only YAML that can be
 loaded back

---
 src/yapcad/io/meta_yaml.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/io/meta_yaml.py b/src/yapcad/io/meta_yaml.py
index 597b943..903af47 100644
--- a/src/yapcad/io/meta_yaml.py
+++ b/src/yapcad/io/meta_yaml.py
@@ -38,6 +38,21 @@ except Exception:
     _YAPCAD_VERSION = "unknown"
 
 
+if _YAML_AVAILABLE:
+    class _PlainDumper(_yaml.SafeDumper):
+        """Writes subclasses of the plain types (e.g. ``numpy.float64``) as such."""
+
+    for _type, _represent in (
+        (str, lambda dumper, value: dumper.represent_str(str(value))),
+        (int, lambda dumper, value: dumper.represent_int(int(value))),
+        (float, lambda dumper, value: dumper.represent_float(float(value))),
+        (dict, lambda dumper, value: dumper.represent_dict(dict(value))),
+        (list, lambda dumper, value: dumper.represent_list(list(value))),
+        (tuple, lambda dumper, value: dumper.represent_list(list(value))),
+    ):
+        _PlainDumper.add_multi_representer(_type, _represent)
+
+
 def dump_metadata_yaml(
     part: Any,
     geometry_path: str | os.PathLike,
@@ -115,8 +130,13 @@ def dump_metadata_yaml(
     ordered["_provenance"] = output.pop("_provenance")
     ordered.update(output)
 
+    # Plain YAML only (load_metadata_yaml reads nothing else), and complete
+    # before the file is opened: a value that cannot be written must not
+    # truncate an existing sidecar.
+    text = _yaml.dump(ordered, Dumper=_PlainDumper, default_flow_style=False,
+                      allow_unicode=True, sort_keys=False)
     with open(out_path, "w", encoding="utf-8") as f:
-        _yaml.dump(ordered, f, default_flow_style=False, allow_unicode=True, sort_keys=False)
+        f.write(text)
 
     return str(out_path)
 
-- 
2.43.0


From 6a887c7879e562a9030c819f8fb309e3099c267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:56 +0000
Subject: [PATCH 157/192] fix: metadata sidecars are written for real solids
 and surfaces

---
 src/yapcad/io/meta_yaml.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/io/meta_yaml.py b/src/yapcad/io/meta_yaml.py
index 903af47..4de37a9 100644
--- a/src/yapcad/io/meta_yaml.py
+++ b/src/yapcad/io/meta_yaml.py
@@ -67,7 +67,8 @@ def dump_metadata_yaml(
     ----------
     part:
         A yapCAD solid, surface, or other geometry object that may carry a
-        metadata dict (retrieved via :func:`yapcad.metadata.get_metadata`).
+        metadata dict (a solid or surface list with a metadata slot, or an
+        object with a ``_metadata``, ``metadata`` or ``meta`` dict).
     geometry_path:
         Path to the already-written STEP/STL file.  Used to derive the
         default sidecar path and to compute ``_provenance.source_sha256``
@@ -201,14 +202,19 @@ def sidecar_path_for(geometry_path: str | os.PathLike) -> Path:
 
 def _extract_metadata(part: Any) -> Optional[Dict[str, Any]]:
     """Return the metadata dict from *part*, or ``None`` if absent."""
-    try:
-        from yapcad.metadata import get_metadata  # type: ignore[import]
-        meta = get_metadata(part)
-        return meta if meta else None
-    except (ImportError, Exception):
-        pass
-
-    # Fallback: check common attribute names used in yapCAD internals.
+    if isinstance(part, list):
+        from yapcad.geom3d import issolid, issurface
+        from yapcad.metadata import _SOLID_META_INDEX, _SURFACE_META_INDEX
+        # Read the slot itself: exporting a part must not give it metadata.
+        if issolid(part):
+            slot = part[_SOLID_META_INDEX:_SOLID_META_INDEX + 1]
+        elif issurface(part):
+            slot = part[_SURFACE_META_INDEX:_SURFACE_META_INDEX + 1]
+        else:
+            slot = []
+        return slot[0] if slot and isinstance(slot[0], dict) and slot[0] else None
+
+    # Other objects: check common attribute names used in yapCAD internals.
     for attr in ("_metadata", "metadata", "meta"):
         val = getattr(part, attr, None)
         if isinstance(val, dict) and val:
-- 
2.43.0


From f5544cd8b79ff48547aa07c44c11c467ae6854c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:49 +0000
Subject: [PATCH 158/192] fix: glyph contours nest in the smallest contour
 around them

---
 src/yapcad/text3d.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 38649a4..5dd1a73 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -560,15 +560,10 @@ def glyph_to_grouped_contours(glyph, x_offset=0.0, scale=1.0):
     poly_data = []
     for poly in polygons:
         area = _polygon_signed_area(poly)
-        # Get a representative interior point for containment testing
-        # Use centroid of first 3 points
-        cx = (poly[0][0] + poly[1][0] + poly[2][0]) / 3.0
-        cy = (poly[0][1] + poly[1][1] + poly[2][1]) / 3.0
         poly_data.append({
             'polygon': poly,
             'area': area,
             'abs_area': abs(area),
-            'centroid': (cx, cy),
             'is_hole': None,  # To be determined
             'parent': None    # Index of containing polygon
         })
@@ -578,10 +573,11 @@ def glyph_to_grouped_contours(glyph, x_offset=0.0, scale=1.0):
 
     # Determine parent-child relationships based on containment
     for i, pd in enumerate(poly_data):
-        cx, cy = pd['centroid']
-        # Check if this polygon's centroid is inside any larger polygon
-        for j in range(i):  # Only check larger polygons (already sorted)
-            if _point_in_polygon(cx, cy, poly_data[j]['polygon']):
+        # Find the smallest larger polygon (they are sorted) that contains all
+        # of this one
+        for j in reversed(range(i)):
+            if all(_point_in_polygon(p[0], p[1], poly_data[j]['polygon'])
+                   for p in pd['polygon']):
                 pd['parent'] = j
                 break  # Found immediate parent (smallest containing)
 
-- 
2.43.0


From fe20d045e70d1e2e7b8c2bc95bee3675223f4343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:39 +0000
Subject: [PATCH 159/192] fix: text on a surface protrudes by its whole depth

---
 src/yapcad/text3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 5dd1a73..2cf4d16 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -1308,7 +1308,7 @@ def text_on_surface(
     if not text_sld[1]:  # No surfaces (empty text)
         return text_sld
 
-    # Get text bounding box to find its center
+    # Get text bounding box to find the center of its back
     bbox = solidbbox(text_sld)
     if not bbox:
         return text_sld
@@ -1316,10 +1316,10 @@ def text_on_surface(
     text_center = point(
         (bbox[0][0] + bbox[1][0]) / 2.0,
         (bbox[0][1] + bbox[1][1]) / 2.0,
-        (bbox[0][2] + bbox[1][2]) / 2.0
+        bbox[0][2]
     )
 
-    # First, translate text to center it at origin
+    # First, translate text to center its back at origin
     text_centered = translatesolid(text_sld, scale3(text_center, -1.0))
 
     # Build the rotation matrix from local frame to target frame
-- 
2.43.0


From a05f5dac78b1287f7941feafe64d9a572a5dfa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:39 +0000
Subject: [PATCH 160/192] fix: engraved text is cut as deep as requested

---
 src/yapcad/text3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 2cf4d16..06a71d5 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -1445,8 +1445,8 @@ def engrave_text(target_solid, text, position, normal, height=3.0, depth=0.5, sp
                 new_norms.append(new_nm)
             new_surf[2] = new_norms
 
-        # Translate to position (slightly inside the face for clean cut)
-        offset = sub(position, scale3(n, depth * 0.5))
+        # Translate to position: depth inside the face, the extra depth outside
+        offset = sub(position, scale3(n, depth))
         new_surf = translatesurface(new_surf, offset)
         transformed_surfaces.append(new_surf)
 
-- 
2.43.0


From 0e2ac89818b87e6465c6fa0c72cedc54cd8cb11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:39 +0000
Subject: [PATCH 161/192] fix: text engraved in a face looking down is cut into
 that face

---
 src/yapcad/text3d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 06a71d5..f574daf 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -1426,8 +1426,12 @@ def engrave_text(target_solid, text, position, normal, height=3.0, depth=0.5, sp
         new_surf = deepcopy(surf)
 
         # Rotate vertices if needed
-        if rot_axis_mag > epsilon and abs(angle) > epsilon:
-            rot_axis = point(rx / rot_axis_mag, ry / rot_axis_mag, rz / rot_axis_mag)
+        if abs(angle) > epsilon:
+            if rot_axis_mag > epsilon:
+                rot_axis = point(rx / rot_axis_mag, ry / rot_axis_mag, rz / rot_axis_mag)
+            else:
+                # Facing -Z: turn the text over about its vertical
+                rot_axis = point(0, 1, 0)
             angle_deg = math.degrees(angle)
             rot_matrix = Rotation(angle_deg, cent=point(0, 0, 0), axis=rot_axis)
 
-- 
2.43.0


From b1dbb65e0ba88a228ebca8d497621e0dd1e127d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:39 +0000
Subject: [PATCH 162/192] fix: the width of block text is that of its upper
 case

---
 src/yapcad/text3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index f574daf..a9c6775 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -1057,7 +1057,7 @@ def text_width(text, height=5.0, spacing=1.0, font=None):
     gap = spacing * scale
 
     # Width = (n chars * char_width) + ((n-1) gaps)
-    n = len(text)
+    n = len(text.upper())  # what is drawn; upper case can be longer
     return (n * char_width) + ((n - 1) * gap)
 
 
-- 
2.43.0


From 8bf3280642c8fb3fa13b255fc43b12922edd8a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:23 +0000
Subject: [PATCH 163/192] fix: the block letter Z has no gap

---
 src/yapcad/text3d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index a9c6775..805fd0c 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -263,6 +263,7 @@ BLOCK_FONT = {
         (3, 5, 1, 1),   # Diagonal part 1
         (2, 3, 1, 2),   # Diagonal part 2
         (1, 2, 1, 1),   # Diagonal part 3
+        (0, 1, 1, 1),   # Diagonal part 4
         (0, 0, 5, 1),   # Bottom bar
     ],
     '0': [
-- 
2.43.0


From a55fb54d76d499273c680f24eb98a90a897b5c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:51 +0000
Subject: [PATCH 164/192] fix: text can be engraved in faces that do not face
 +Z

---
 src/yapcad/text3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 805fd0c..b8e83e6 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -1434,7 +1434,7 @@ def engrave_text(target_solid, text, position, normal, height=3.0, depth=0.5, sp
                 # Facing -Z: turn the text over about its vertical
                 rot_axis = point(0, 1, 0)
             angle_deg = math.degrees(angle)
-            rot_matrix = Rotation(angle_deg, cent=point(0, 0, 0), axis=rot_axis)
+            rot_matrix = Rotation(rot_axis, angle_deg)
 
             # Transform vertices
             new_verts = []
-- 
2.43.0


From acf3d28bc61b194762b707ae9c0020cf833714b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 165/192] fix: face names can be given to the faces of a solid

---
 src/yapcad/package/analysis/face_naming.py | 64 +++++++++++-----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/yapcad/package/analysis/face_naming.py b/src/yapcad/package/analysis/face_naming.py
index d0f14e7..b65dfd6 100644
--- a/src/yapcad/package/analysis/face_naming.py
+++ b/src/yapcad/package/analysis/face_naming.py
@@ -216,17 +216,13 @@ class FaceNamer:
 
     def _extract_faces(self) -> None:
         """Extract face information from solid."""
-        from yapcad.geom3d import issolid, getsurfaces
+        from yapcad.geom3d import issolid
 
         if not issolid(self.solid):
             return
 
-        surfaces = getsurfaces(self.solid)
-
-        for i, surf in enumerate(surfaces):
-            centroid = self._compute_centroid(surf)
-            normal = self._compute_normal(surf)
-            area = self._compute_area(surf)
+        for i, surf in enumerate(self.solid[1]):
+            centroid, normal, area = self._measure(surf)
 
             self._faces.append(FaceInfo(
                 index=i,
@@ -235,31 +231,35 @@ class FaceNamer:
                 area=area,
             ))
 
-    def _compute_centroid(self, surface: Any) -> Tuple[float, float, float]:
-        """Compute face centroid."""
-        from yapcad.geom3d import surface_center
-        try:
-            center = surface_center(surface)
-            return (float(center[0]), float(center[1]), float(center[2]))
-        except Exception:
-            return (0.0, 0.0, 0.0)
-
-    def _compute_normal(self, surface: Any) -> Tuple[float, float, float]:
-        """Compute face normal (average for curved faces)."""
-        from yapcad.geom3d import surface_normal
-        try:
-            normal = surface_normal(surface)
-            return (float(normal[0]), float(normal[1]), float(normal[2]))
-        except Exception:
-            return (0.0, 0.0, 1.0)
-
-    def _compute_area(self, surface: Any) -> float:
-        """Compute face area."""
-        from yapcad.geom3d import surface_area
-        try:
-            return float(surface_area(surface))
-        except Exception:
-            return 0.0
+    @staticmethod
+    def _measure(surface: Any) -> Tuple[Tuple[float, float, float], Tuple[float, float, float], float]:
+        """Compute centroid, unit normal and area of a face from its triangles.
+
+        The normal is the average for curved faces, and zero for faces that
+        turn all the way round.
+        """
+        area = 0.0
+        moment = [0.0, 0.0, 0.0]
+        normal = [0.0, 0.0, 0.0]
+        for tri in surface[3]:
+            a, b, c = (surface[1][idx] for idx in tri)
+            u = [b[i] - a[i] for i in range(3)]
+            v = [c[i] - a[i] for i in range(3)]
+            half = [(u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3]) / 2.0
+                    for i in range(3)]
+            weight = math.sqrt(sum(h * h for h in half))
+            area += weight
+            for i in range(3):
+                moment[i] += weight * (a[i] + b[i] + c[i]) / 3.0
+                normal[i] += half[i]
+
+        centroid = tuple(m / area if area else 0.0 for m in moment)
+        mag = math.sqrt(sum(n * n for n in normal))
+        if mag > 1e-9 * area:
+            normal = [n / mag for n in normal]
+        else:
+            normal = [0.0, 0.0, 0.0]
+        return centroid, tuple(normal), area
 
     @property
     def faces(self) -> List[FaceInfo]:
-- 
2.43.0


From f7267e105d46246117836970f4e9e0d50ecab873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 166/192] fix: the depth of a unified thread is a fraction of
 its pitch

---
 src/yapcad/threadgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/threadgen.py b/src/yapcad/threadgen.py
index b8a6ae2..04b3257 100644
--- a/src/yapcad/threadgen.py
+++ b/src/yapcad/threadgen.py
@@ -51,7 +51,7 @@ def unified_profile(d_nominal_in: float, tpi: float, *, strts: int=1, internal:
     pitch = 25.4 / tpi
     crest = 1.0 / 8.0
     root = 1.0 / 4.0 if not internal else 1.0 / 8.0
-    depth_ratio = 0.64952 * pitch
+    depth_ratio = 0.64952
     return ThreadProfile(
         D_nominal=d_nominal_in * 25.4,
         P_pitch=pitch,
-- 
2.43.0


From ff8659ee3a699c2a21d76bb90af739d7759f327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 167/192] fix: the ends of a tapered thread follow its taper

---
 src/yapcad/threadgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/threadgen.py b/src/yapcad/threadgen.py
index 04b3257..9aa667e 100644
--- a/src/yapcad/threadgen.py
+++ b/src/yapcad/threadgen.py
@@ -107,7 +107,7 @@ def sample_thread_profile(
             leadout = True
             blend = (z_max - actual_z)/tdepth
 
-        base_major = (profile.D_nominal + profile.taper_ratio)/2.0
+        base_major = (profile.D_nominal + profile.taper_ratio * actual_z)/2.0
         crest = base_major + depth
         radius = _radius_at(profile, actual_z, base_z)
         if leadin:
-- 
2.43.0


From 88b35bcb6fcb69a219880950e4f63cbb8ee82a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 168/192] fix: the profile of a thread meets itself after a
 turn

---
 src/yapcad/threadgen.py | 44 ++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/yapcad/threadgen.py b/src/yapcad/threadgen.py
index 9aa667e..19942fa 100644
--- a/src/yapcad/threadgen.py
+++ b/src/yapcad/threadgen.py
@@ -129,34 +129,24 @@ def _collect_breakpoints(profile: ThreadProfile, x_start: float, x_end: float, s
     pitch = profile.P_pitch
     breakpoints = _pitch_breakpoints(profile)
     extra = max(1, samples_per_pitch)
+    starts = max(1, profile.starts)
+    # The same samples in each pitch, so that a turn of the thread, which moves
+    # it by its lead, moves it by ``wrap`` samples.  One pitch more below and
+    # one lead more above keep the whole range covered at every angle.
     base_start = math.floor(x_start / pitch) - 1
-    base_end = math.ceil(x_end / pitch) + 1
-
-    xs = {x_start, x_end}
-    pitch_samples = set()
-    for idx in range(base_start, base_end + 1):
-        base = idx * pitch
-        for bp in breakpoints:
-            x = base + bp
-            if x_start - 1e-9 <= x <= x_end + 1e-9:
-                xs.add(min(max(x, x_start), x_end))
-        for seg in range(1, extra):
-            frac = seg / extra
-            x = base + frac * pitch
-            if x_start - 1e-9 <= x <= x_end + 1e-9:
-                xs.add(min(max(x, x_start), x_end))
-    # samples within single pitch starting at zero
-    for base in (0,):
-        for bp in breakpoints:
-            pitch_samples.add(base + bp)
-        for seg in range(1, extra):
-            frac = seg / extra
-            pitch_samples.add(base + frac * pitch)
-        pitch_samples.add(pitch)
-
-    wrap = max(1, len(sorted(pitch_samples)) - 1) * profile.starts
-
-    return sorted(xs), wrap
+    base_end = math.ceil(x_end / pitch) + starts
+
+    fractions = []
+    for x in sorted([bp / pitch for bp in breakpoints]
+                    + [seg / extra for seg in range(1, extra)]):
+        if x < 1.0 - 1e-9 and (not fractions or x - fractions[-1] > 1e-9):
+            fractions.append(x)
+
+    xs = [(idx + x) * pitch
+          for idx in range(base_start, base_end) for x in fractions]
+    xs.append(base_end * pitch)
+
+    return xs, len(fractions) * starts
 
 
 def _pitch_breakpoints(profile: ThreadProfile) -> Iterable[float]:
-- 
2.43.0


From cd856e8fd1f2a648c85ff58ea388718fb7c3ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 169/192] fix: left-handed threads reach their ends and meet
 after a turn

---
 src/yapcad/geom3d_util.py | 8 ++++----
 src/yapcad/threadgen.py   | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 5f2bd02..c7832ec 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1047,7 +1047,7 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
     steps = len(profile_zero)
     if steps < 2:
         raise ValueError('contour function must return at least two samples')
-    wrap_shift = int(max(0, min(wrap_shift, steps - 1)))
+    wrap_shift = int(max(1 - steps, min(wrap_shift, steps - 1)))
 
     arcSamples = max(3, int(arcSamples))
     degStep = 360.0 / arcSamples
@@ -1091,7 +1091,7 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
         if len(prof) != steps:
             raise ValueError('contour returned inconsistent sample counts for theta sweep')
         if wrap_val and wrap_shift == 0:
-            wrap_shift = int(max(0, min(wrap_val, steps - 1)))
+            wrap_shift = int(max(1 - steps, min(wrap_val, steps - 1)))
         if axisymmetric and wrap_val != wrap_shift:
             axisymmetric = False
         if axisymmetric:
@@ -1109,7 +1109,7 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
         sin_b = angle_sin[next_idx]
         prof_a = profiles[ang_idx]
         prof_b = profiles[next_idx]
-        apply_shift = wrap_shift if (wrap_shift > 0 and next_idx == 0) else 0
+        apply_shift = wrap_shift if next_idx == 0 else 0
 
         for j in range(steps - 1):
             z0, r0 = prof_a[j]
@@ -1120,7 +1120,7 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
             if apply_shift:
                 idx_b0 = j + apply_shift
                 idx_b1 = j + 1 + apply_shift
-                if idx_b1 >= steps:
+                if idx_b0 < 0 or idx_b1 >= steps:
                     continue
 
             z2, r2 = prof_b[idx_b1]
diff --git a/src/yapcad/threadgen.py b/src/yapcad/threadgen.py
index 19942fa..169063a 100644
--- a/src/yapcad/threadgen.py
+++ b/src/yapcad/threadgen.py
@@ -81,7 +81,9 @@ def sample_thread_profile(
     points, wrap = _collect_breakpoints(profile, x_start-lead, x_end, samples_per_pitch)
     offset = (theta_deg / 360.0) * lead
     if profile.handedness.lower() == "left":
-        offset = -offset
+        # from one lead up to none: covers the same range, the other way round
+        offset = lead - offset
+        wrap = -wrap
 
     sampled = []
     z_min = x_start
-- 
2.43.0


From 41d6ddec980e1629243ab04369d07281530a9141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 170/192] fix: surfaces of theta contours keep both triangles
 of a quad

---
 src/yapcad/geom3d_util.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index c7832ec..3c91ca8 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1131,18 +1131,27 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
             v2 = [cos_b * r2, sin_b * r2, z2, 1.0]
             v3 = [cos_b * r3, sin_b * r3, z3, 1.0]
 
-            try:
-                _, n0 = tri2p0n([v1, v0, v2])
-            except ValueError:
-                continue
-
-            k0, sV, sN = addVertex(v0, n0, sV, sN)
-            k1, sV, sN = addVertex(v1, n0, sV, sN)
-            k2, sV, sN = addVertex(v2, n0, sV, sN)
-            k3, sV, sN = addVertex(v3, n0, sV, sN)
-
-            sF.append([k0, k2, k1])
-            sF.append([k0, k3, k2])
+            # either triangle of the quad may have two coincident corners, and
+            # no part in the surface
+            tris = [tri for tri in ((v0, v2, v1), (v0, v3, v2))
+                    if not (vclose(tri[0], tri[1]) or vclose(tri[1], tri[2])
+                            or vclose(tri[2], tri[0]))]
+            n0 = None
+            for tri in tris:
+                try:
+                    _, n0 = tri2p0n([tri[2], tri[0], tri[1]])
+                    break
+                except ValueError:
+                    continue
+            if n0 is None:
+                n0 = [cos_a, sin_a, 0.0, 0.0]
+
+            for tri in tris:
+                face = []
+                for vert in tri:
+                    k, sV, sN = addVertex(vert, n0, sV, sN)
+                    face.append(k)
+                sF.append(face)
 
     if endcaps:
         if need_start_cap and start_pole_idx is not None:
-- 
2.43.0


From 00d603932b80126a89a6912bcee38c458f2a1d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:20 +0000
Subject: [PATCH 171/192] fix: the thread of a hex nut meets its end faces

---
 src/yapcad/fasteners_legacy.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/fasteners_legacy.py b/src/yapcad/fasteners_legacy.py
index e1f3788..dd1d3f3 100644
--- a/src/yapcad/fasteners_legacy.py
+++ b/src/yapcad/fasteners_legacy.py
@@ -7,8 +7,7 @@ from copy import deepcopy
 from dataclasses import asdict, dataclass, replace
 from typing import Dict, Iterable
 
-from yapcad.geom import arc, epsilon, point
-from yapcad.geom_util import geomlist2poly
+from yapcad.geom import epsilon, point
 from yapcad.geom3d import (
     poly2surfaceXY,
     reversesurface,
@@ -133,7 +132,8 @@ def build_hex_nut(profile: ThreadProfile, spec: HexNutSpec):
 
     thread_surface, hole_radius = _build_internal_thread_surface(nut_profile, spec)
     side_surfaces = _build_hex_side_surfaces(spec.width_flat, spec.thickness)
-    top_surface, bottom_surface = _build_hex_cap_with_hole(spec.width_flat, hole_radius, spec.thickness)
+    top_surface, bottom_surface = _build_hex_cap_with_hole(
+        spec.width_flat, hole_radius, spec.thickness, max(24, spec.thread_arc_samples))
 
     surfaces = [bottom_surface, *side_surfaces, thread_surface, top_surface]
     nut = solid(surfaces)
@@ -336,14 +336,13 @@ def _build_hex_head(spec: HexCapScrewSpec):
     return translate(head, point(0, 0, base_z))
 
 
-def _circle_loop_xy(radius: float, minang: float = 5.0):
-    loop = geomlist2poly([arc(point(0, 0), radius)], minang=minang, minlen=0.0)
-    if not loop:
-        raise ValueError("failed to construct circle loop")
-    return [point(pt[0], pt[1], 0.0) for pt in loop]
+def _circle_loop_xy(radius: float, samples: int):
+    # the same points as the end of a thread surface with as many arc samples
+    angles = [2.0 * math.pi * (idx % samples) / samples for idx in range(samples + 1)]
+    return [point(radius * math.cos(a), radius * math.sin(a), 0.0) for a in angles]
 
 
-def _build_hex_cap_with_hole(width_flat: float, hole_radius: float, thickness: float):
+def _build_hex_cap_with_hole(width_flat: float, hole_radius: float, thickness: float, samples: int):
     incircle = width_flat / 2.0
     circum = incircle / math.cos(math.pi / 6.0)
     outer = []
@@ -352,7 +351,7 @@ def _build_hex_cap_with_hole(width_flat: float, hole_radius: float, thickness: f
         outer.append(point(circum * math.cos(angle), circum * math.sin(angle), 0.0))
     outer.append(outer[0])
 
-    hole_loop = list(_circle_loop_xy(hole_radius))
+    hole_loop = list(_circle_loop_xy(hole_radius, samples))
 
     top_surface, _ = poly2surfaceXY(outer, holepolys=[hole_loop])
     top_surface = translate(top_surface, point(0, 0, thickness))
-- 
2.43.0


From 6649f1692091c0a5e51a69102ec9ebe16d0d7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:20 +0000
Subject: [PATCH 172/192] fix: the thread of a hex cap screw meets its end
 faces

---
 src/yapcad/fasteners_legacy.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/fasteners_legacy.py b/src/yapcad/fasteners_legacy.py
index dd1d3f3..f55d0c5 100644
--- a/src/yapcad/fasteners_legacy.py
+++ b/src/yapcad/fasteners_legacy.py
@@ -16,7 +16,6 @@ from yapcad.geom3d import (
     translate,
 )
 from yapcad.geom3d_util import (
-    circleSurface,
     conic,
     extrude,
     makeRevolutionThetaSamplingSurface,
@@ -280,6 +279,7 @@ def _build_thread(profile: ThreadProfile, spec: HexCapScrewSpec):
     )
     bottom_r = samples0[0][1]
     top_r = samples0[-1][1]
+    arc_samples = max(24, spec.thread_arc_samples)
 
     def contour(_z0: float, _z1: float, theta: float):
         return sample_thread_profile(
@@ -294,14 +294,21 @@ def _build_thread(profile: ThreadProfile, spec: HexCapScrewSpec):
         contour,
         0.0,
         spec.thread_length,
-        arcSamples=max(24, spec.thread_arc_samples),
+        arcSamples=arc_samples,
         endcaps=False,
     )
-    bottom_cap = circleSurface(point(0, 0, 0), bottom_r, zup=False)
-    top_cap = circleSurface(point(0, 0, spec.thread_length), top_r, zup=True)
+    bottom_cap = _thread_cap(bottom_r, 0.0, arc_samples, zup=False)
+    top_cap = _thread_cap(top_r, spec.thread_length, arc_samples, zup=True)
     return solid([surface, bottom_cap, top_cap])
 
 
+def _thread_cap(radius: float, z: float, samples: int, zup: bool):
+    surface, _ = poly2surfaceXY(_circle_loop_xy(radius, samples))
+    if not zup:
+        surface = reversesurface(surface)
+    return translate(surface, point(0, 0, z))
+
+
 def _build_shank(spec: HexCapScrewSpec, length: float):
     radius = (spec.shank_diameter or spec.diameter) / 2.0
     return conic(
-- 
2.43.0


From b273913add84da692215eef08b5ac8ac81c2ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:20 +0000
Subject: [PATCH 173/192] fix: fastener catalogs cannot be changed through what
 a lookup returned

---
 src/yapcad/fasteners/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/fasteners/catalog.py b/src/yapcad/fasteners/catalog.py
index 76195f8..e8e45a4 100644
--- a/src/yapcad/fasteners/catalog.py
+++ b/src/yapcad/fasteners/catalog.py
@@ -19,6 +19,7 @@ from __future__ import annotations
 
 import os
 import sys
+from copy import deepcopy
 from pathlib import Path
 from typing import Any, Dict, List, Optional
 from functools import lru_cache
@@ -191,7 +192,8 @@ def load_catalog(
         )
 
     custom_str = str(custom_path) if custom_path else None
-    return _load_catalog_cached(thread_series, custom_str)
+    # a copy: what the caller does with it leaves the cache alone
+    return deepcopy(_load_catalog_cached(thread_series, custom_str))
 
 
 def list_available_sizes(
-- 
2.43.0


From 0b4bd0a421c5bb81fd83f5ced7dd671c3e911352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:20 +0000
Subject: [PATCH 174/192] fix: unified bolts have the allowance of their
 tolerance class

---
 src/yapcad/fasteners/builders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/fasteners/builders.py b/src/yapcad/fasteners/builders.py
index 6e7a806..92f0531 100644
--- a/src/yapcad/fasteners/builders.py
+++ b/src/yapcad/fasteners/builders.py
@@ -65,7 +65,8 @@ def _make_profile_from_catalog(
         )
     else:
         # External thread: apply es (upper deviation, negative for g position)
-        es = tolerances.get("es", 0.0)
+        # (unified catalogs give it as a positive allowance)
+        es = tolerances.get("es", -tolerances.get("allowance", 0.0))
         # Td2 is pitch diameter tolerance, Td is major diameter tolerance
         td2 = tolerances.get("Td2", 0.0)
         td = tolerances.get("Td", 0.0)
-- 
2.43.0


From 3937838dc7ab3b3c0f45727518faabad20a525f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:07 +0000
Subject: [PATCH 175/192] fix: cone_surface_normal points away from the cone's
 axis

---
 src/yapcad/analytic_surfaces.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index c56a145..78a50ec 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -511,12 +511,12 @@ def cone_surface_normal(surf, u, v):
     sin_a = sin(half_angle)
     cos_a = cos(half_angle)
 
-    # Normal = sin_a*axis - cos_a*(ref*cos(u) + cross*sin(u))
-    # (outward normal for cone surface)
+    # Normal = cos_a*(ref*cos(u) + cross*sin(u)) - sin_a*axis
+    # (outward normal for cone surface: away from the axis)
     return [
-        sin_a * axis[0] - cos_a * (ref[0] * cos_u + cross[0] * sin_u),
-        sin_a * axis[1] - cos_a * (ref[1] * cos_u + cross[1] * sin_u),
-        sin_a * axis[2] - cos_a * (ref[2] * cos_u + cross[2] * sin_u),
+        cos_a * (ref[0] * cos_u + cross[0] * sin_u) - sin_a * axis[0],
+        cos_a * (ref[1] * cos_u + cross[1] * sin_u) - sin_a * axis[1],
+        cos_a * (ref[2] * cos_u + cross[2] * sin_u) - sin_a * axis[2],
         0.0
     ]
 
-- 
2.43.0


From c1217efe164fa906f68388c833d776867f02b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:07 +0000
Subject: [PATCH 176/192] fix: a clamped B-spline surface reaches the end of
 its parameter range

---
 src/yapcad/analytic_surfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index 78a50ec..a4fad0c 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -809,8 +809,8 @@ def _bspline_basis(knots, i, p, u):
         # Base case: piecewise constant
         if knots[i] <= u < knots[i + 1]:
             return 1.0
-        # Handle end of knot span
-        if i + 1 == len(knots) - 1 and u == knots[i + 1]:
+        # The end of the last non-empty span belongs to that span
+        if knots[i] < u == knots[i + 1] == knots[-1]:
             return 1.0
         return 0.0
 
-- 
2.43.0


From acfd3e9b4039a329a6bda458ac0e71e6209d620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:07 +0000
Subject: [PATCH 177/192] fix: bspline_surface_normal at the upper end of the
 parameter range

---
 src/yapcad/analytic_surfaces.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index a4fad0c..99d79fd 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -899,9 +899,14 @@ def bspline_surface_normal(surf, u, v, delta=1e-6):
     dv = min(delta, (v_range[1] - v_range[0]) * 0.01)
 
     # Sample points for partial derivatives
+    # (step backwards where a forward step would leave the range)
+    if u + du > u_range[1]:
+        du = -du
+    if v + dv > v_range[1]:
+        dv = -dv
     p0 = evaluate_bspline_surface(surf, u, v)
-    pu = evaluate_bspline_surface(surf, min(u + du, u_range[1]), v)
-    pv = evaluate_bspline_surface(surf, u, min(v + dv, v_range[1]))
+    pu = evaluate_bspline_surface(surf, u + du, v)
+    pv = evaluate_bspline_surface(surf, u, v + dv)
 
     # Tangent vectors
     tu = [(pu[i] - p0[i]) / du for i in range(3)]
-- 
2.43.0


From 969427c6e2783af094e8e3394a6e8d6930de129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:17 +0000
Subject: [PATCH 178/192] fix: shells whose faces have a pole tessellate
 without degenerate triangles

---
 src/yapcad/native_brep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index e8a8a2d..0119512 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1389,6 +1389,10 @@ class TopologyGraph:
             # Offset face indices by current vertex count
             offset = len(all_verts)
             for f in faces:
+                # patches with a pole have triangles without an area there
+                if any(_point_distance(verts[f[i]], verts[f[i - 1]]) < epsilon
+                       for i in range(3)):
+                    continue
                 all_faces.append([f[0] + offset, f[1] + offset, f[2] + offset])
 
             all_verts.extend(verts)
-- 
2.43.0


From 423e0dcc520ed00e182718dd34b60f52ad8e0c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:17 +0000
Subject: [PATCH 179/192] fix: shell_contains_point when the ray meets an edge
 of the tessellation

---
 src/yapcad/native_brep.py | 71 ++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 0119512..e6adc36 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1582,43 +1582,52 @@ class TopologyGraph:
                 expanded_bbox[0][2] <= p[2] <= expanded_bbox[1][2]):
             return False
 
-        # Ray casting in +X direction
+        # Ray casting, roughly in +X direction
         extent = max(bbox[1][0] - bbox[0][0],
                      bbox[1][1] - bbox[0][1],
                      bbox[1][2] - bbox[0][2])
         ray_length = extent * 2.0
-
-        direction = vect(1, 0, 0, 0)
-        far_point = point(p[0] + ray_length, p[1], p[2])
-
-        # Query octree for triangles along ray
         tree = self.shell_octree(shell_id)
-        query_bbox = [
-            point(min(p[0], far_point[0]) - tolerance,
-                  p[1] - tolerance, p[2] - tolerance),
-            point(max(p[0], far_point[0]) + tolerance,
-                  p[1] + tolerance, p[2] + tolerance)
-        ]
 
-        if tree is None:
-            candidates = list(self._iter_shell_triangles(shell_id))
-        else:
-            elems = tree.getElements(query_bbox)
-            candidates = []
-            for elem in elems:
-                if isinstance(elem, tuple):
-                    candidates.append(elem[0])
-                else:
-                    candidates.append(elem)
-
-        # Count ray-triangle intersections
-        hits = 0
-        for tri in candidates:
-            result = self._ray_triangle_intersect(p, direction, tri, tolerance)
-            if result is not None:
-                t, _ = result
-                if t > tolerance:  # Hit is in front of point
-                    hits += 1
+        # A ray through an edge or a vertex hits several triangles at once
+        # and cannot be counted: the next direction is tried instead.
+        for dy, dz in ((0.0, 0.0), (0.0131, 0.0073), (-0.0217, 0.0119),
+                       (0.0317, -0.0271), (-0.0113, -0.0389)):
+            direction = vect(1, dy, dz, 0)
+            far_point = point(p[0] + ray_length, p[1] + ray_length * dy,
+                              p[2] + ray_length * dz)
+
+            # Query octree for triangles along ray
+            query_bbox = [
+                point(*(min(p[i], far_point[i]) - tolerance for i in range(3))),
+                point(*(max(p[i], far_point[i]) + tolerance for i in range(3)))
+            ]
+
+            if tree is None:
+                candidates = list(self._iter_shell_triangles(shell_id))
+            else:
+                elems = tree.getElements(query_bbox)
+                candidates = []
+                for elem in elems:
+                    if isinstance(elem, tuple):
+                        candidates.append(elem[0])
+                    else:
+                        candidates.append(elem)
+
+            # Count ray-triangle intersections
+            hits = 0
+            grazing = False
+            for tri in candidates:
+                result = self._ray_triangle_intersect(p, direction, tri, tolerance)
+                if result is not None:
+                    t, _ = result
+                    if t > tolerance:  # Hit is in front of point
+                        hits += 1
+                        if self._ray_triangle_intersect(
+                                p, direction, tri, -1e-9) is None:
+                            grazing = True
+            if not grazing:
+                break
 
         # Odd number of hits = inside
         return (hits % 2) == 1
-- 
2.43.0


From d816148223fac0b6ab4c8d4d6477cd00a74da3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:17 +0000
Subject: [PATCH 180/192] fix: a void shell that surrounds its solid's outer
 shell is refused

---
 src/yapcad/native_brep.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index e6adc36..d6c9453 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1766,24 +1766,20 @@ class TopologyGraph:
             outer_shell_id = shell_ids[0]
 
             for void_shell_id in shell_ids[1:]:
-                # Get a point on the void shell (center of bbox)
-                bbox = self.shell_bbox(void_shell_id)
-                if bbox is None:
+                # Get a point on the void shell (the shells do not
+                # intersect, so all of its points are on the same side)
+                tri = next(self._iter_shell_triangles(void_shell_id), None)
+                if tri is None:
                     continue
+                test_point = tri[0]
 
-                center = point(
-                    (bbox[0][0] + bbox[1][0]) / 2,
-                    (bbox[0][1] + bbox[1][1]) / 2,
-                    (bbox[0][2] + bbox[1][2]) / 2
-                )
-
-                # Void shell center should be inside outer shell
-                if not self.shell_contains_point(outer_shell_id, center,
+                # The void shell should be inside outer shell
+                if not self.shell_contains_point(outer_shell_id, test_point,
                                                   tolerance):
                     details['containment_violations'].append({
                         'void_shell': void_shell_id,
                         'outer_shell': outer_shell_id,
-                        'test_point': center,
+                        'test_point': test_point,
                     })
                     raise SolidValidationError(
                         f"Void shell {void_shell_id} is not contained "
-- 
2.43.0


From 812fd1d7b7ae1fe6daeb42c6c59fd8d8de9f9f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 181/192] fix: triTriIntersect takes coplanar triangles of
 three points as closed

---
 src/yapcad/geom3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 26a8c51..4e75d4f 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -419,7 +419,8 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
             else:
                 return t2
         else: # return poly that is in-plane intersection
-            intr = combineglist(t1p,t2p,'intersection')
+            # triangles may be given with or without their closing point
+            intr = combineglist(t1p[:3]+t1p[:1],t2p[:3]+t2p[:1],'intersection')
             if len(intr) < 1: #no intersection
                 return False
             else:
-- 
2.43.0


From a7d0a7b2273069694c3009583db29151655db82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 182/192] fix: triTriIntersect returns only what lies inside
 both triangles

---
 src/yapcad/geom3d.py | 56 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 4e75d4f..992cf07 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -370,6 +370,28 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             return plane[3].mul(p)
         
 
+def _clipToTriangleXY(a,b,tri):
+    """Part of the segment from a to b that lies inside the triangle, all of
+    them in the XY plane, as a list of two points, or ``False``."""
+    p,q,r = tri[0],tri[1],tri[2]
+    turn = (q[0]-p[0])*(r[1]-p[1])-(q[1]-p[1])*(r[0]-p[0])
+    u0,u1 = 0.0,1.0
+    for s,e in ((p,q),(q,r),(r,p)):
+        dx,dy = e[0]-s[0],e[1]-s[1]
+        scale = sqrt(dx*dx+dy*dy)*(1.0 if turn > 0 else -1.0)
+        # distances from the edge, positive on the triangle's side
+        da = (dx*(a[1]-s[1])-dy*(a[0]-s[0]))/scale
+        db = (dx*(b[1]-s[1])-dy*(b[0]-s[0]))/scale
+        if da < -epsilon and db < -epsilon:
+            return False
+        if da < -epsilon:
+            u0 = max(u0,da/(da-db))
+        elif db < -epsilon:
+            u1 = min(u1,da/(da-db))
+    if (u0-u1)*dist(a,b) > epsilon:
+        return False
+    return [sampleline([a,b],u0),sampleline([a,b],u1)]
+
 def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
 
     """Function to compute the intersection of two triangles.  Returns
@@ -429,7 +451,7 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
                 else:
                     return transform(intr,tinv)
     # not coplanar, check to see if planes are parallel
-    if vclose(n1,n2):
+    if vclose(n1,n2) or vclose(n1,scale3(n2,-1.0)):
         return False #yep, degenerate
 
     if inside:
@@ -439,21 +461,29 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
             (t2p[0][2] < -epsilon and t2p[1][2] < -epsilon and
              t2p[2][2] < -epsilon)):
             return False
-        # linear intersection.  Figure out which two of three lines
-        # cross the z=0 plane
+        # linear intersection.  Find the part of t2p that lies in the
+        # z=0 plane: vertices in the plane, and edges that cross it
+        seg = []
+        for i in range(3):
+            p,q = t2p[i],t2p[(i+1)%3]
+            if abs(p[2]) <= epsilon:
+                seg.append(point(p[0],p[1]))
+            elif abs(q[2]) > epsilon and (p[2] > 0) != (q[2] > 0):
+                u = p[2]/(p[2]-q[2])
+                seg.append(point(p[0]+u*(q[0]-p[0]),p[1]+u*(q[1]-p[1])))
+        seg = _clipToTriangleXY(seg[0],seg[-1],t1p)
+        if not seg or inPlane:
+            return seg
+        return [tinv.mul(seg[0]),tinv.mul(seg[1])]
 
     # this should work whether or not the intersection is
     # inside t2.
-    ip1 = linePlaneIntersect([t2p[0],t2p[1]],"xy",False)
-    ip2 = linePlaneIntersect([t2p[1],t2p[2]],"xy",False)
-    ip3 = linePlaneIntersect([t2p[2],t2p[0]],"xy",False)
-
-    a=ip1
-    b=ip2
-    if not a:
-        a=ip3
-    if not b:
-        b=ip3
+    ips = [linePlaneIntersect([t2p[i],t2p[(i+1)%3]],"xy",False)
+           for i in range(3)]
+    ips = [ip for ip in ips if ip]
+    # two of the three may be the same vertex
+    a=ips[0]
+    b=max(ips[1:],key=lambda ip: dist(a,ip))
     if inPlane:
         return [a,b]
     else:
-- 
2.43.0


From 47c5b53c35985e27f5270905c515926659f09a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 183/192] fix: linePlaneIntersect takes a planar basis, and
 whole planes with inside=False

---
 src/yapcad/geom3d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 992cf07..db92117 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -336,7 +336,7 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             return sampleline(lne,u)
 
     # is the plane specified symbolicaly?
-    trangle = False
+    triangle = False
     idx = -1
     if plane=="xy":
         idx=2
@@ -355,7 +355,8 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             tri2 = [ plane[2].mul(tri[0]),
                      plane[2].mul(tri[1]),
                      plane[2].mul(tri[2]) ]
-        else:
+        elif not (isinstance(plane,(list,tuple)) and len(plane) == 4
+                  and hasattr(plane[2],'mul') and hasattr(plane[3],'mul')):
             raise ValueError('non-plane passed to linePlaneIntersect')
         # otherwise assume that plane is a valid planar basis
 
@@ -365,7 +366,7 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
         if not p:
             return False
         else:
-            if triangle and not isInsideTriangleXY(p,tri2):
+            if triangle and inside and not isInsideTriangleXY(p,tri2):
                 return False
             return plane[3].mul(p)
         
-- 
2.43.0


From 04fae31b06b209354b138278470955055df8fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 184/192] fix: solids_intersect when a bounding box's center
 lies in the other solid

---
 src/yapcad/boolean/native.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/boolean/native.py b/src/yapcad/boolean/native.py
index 4132b0f..bd0ec68 100644
--- a/src/yapcad/boolean/native.py
+++ b/src/yapcad/boolean/native.py
@@ -1088,14 +1088,12 @@ def solids_intersect(a, b, tol=_DEFAULT_RAY_TOL):
     if box_a and box_b and not _bbox_overlap(box_a, box_b, tol):
         return False
 
-    center_a = point((box_a[0][0] + box_a[1][0]) / 2.0,
-                     (box_a[0][1] + box_a[1][1]) / 2.0,
-                     (box_a[0][2] + box_a[1][2]) / 2.0)
-    center_b = point((box_b[0][0] + box_b[1][0]) / 2.0,
-                     (box_b[0][1] + box_b[1][1]) / 2.0,
-                     (box_b[0][2] + box_b[1][2]) / 2.0)
-    if solid_contains_point(a, center_b, tol=tol) or solid_contains_point(b, center_a, tol=tol):
-        return True
+    # a solid that lies wholly inside the other has all its points there
+    # (the center of a solid's bounding box need not be one of its points)
+    for outer, inner in ((a, b), (b, a)):
+        tri = next(_iter_triangles_from_solid(inner), None)
+        if tri is not None and solid_contains_point(outer, tri[0], tol=tol):
+            return True
 
     for tri_a in _iter_triangles_from_solid(a):
         for tri_b in _iter_triangles_from_solid(b):
-- 
2.43.0


From d1b7000fc04a9c71fde6742d0824f631cccd3fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:32 +0000
Subject: [PATCH 185/192] fix: triTriIntersect gives a line of two points when
 an edge is parallel to it

---
 src/yapcad/geom3d.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index db92117..6086479 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -479,12 +479,15 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
 
     # this should work whether or not the intersection is
     # inside t2.
-    ips = [linePlaneIntersect([t2p[i],t2p[(i+1)%3]],"xy",False)
-           for i in range(3)]
-    ips = [ip for ip in ips if ip]
+    edges = [[t2p[i],t2p[(i+1)%3]] for i in range(3)]
+    ips = [linePlaneIntersect(e,"xy",False) for e in edges]
+    hits = [ip for ip in ips if ip]
     # two of the three may be the same vertex
-    a=ips[0]
-    b=max(ips[1:],key=lambda ip: dist(a,ip))
+    a=hits[0]
+    b=max(hits[1:],key=lambda ip: dist(a,ip))
+    if dist(a,b) <= epsilon: # the third edge is parallel to the line
+        e = edges[[bool(ip) for ip in ips].index(False)]
+        b=add(a,sub(e[1],e[0]))
     if inPlane:
         return [a,b]
     else:
-- 
2.43.0


From ec5a9a312fb09463d0ad088cfc9a9abd949f66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:12 +0000
Subject: [PATCH 186/192] fix: a deserialized B-rep graph keeps its adjacency,
 senses and shell types

---
 src/yapcad/native_brep.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index d6c9453..1ecbac1 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1841,6 +1841,8 @@ def _serialize_edge(e):
         'id': meta.get('id'),
         'start_vertex': meta.get('start_vertex_id'),  # Note: key is start_vertex_id in metadata
         'end_vertex': meta.get('end_vertex_id'),      # Note: key is end_vertex_id in metadata
+        'sense': meta.get('sense', True),
+        'tolerance': meta.get('tolerance', epsilon),
         'tags': meta.get('tags', {}),
     }
     # Serialize curve parameters
@@ -1922,6 +1924,8 @@ def _deserialize_edge(data, vertex_map=None):
         e = brep_edge(curve_type, start_v, end_v,
                       curve_params=curve_params, tags=data.get('tags', {}))
 
+    e[2]['sense'] = bool(data.get('sense', True))
+    e[2]['tolerance'] = float(data.get('tolerance', epsilon))
     # Restore original ID
     e[2]['id'] = data['id']
     return e
@@ -2192,6 +2196,7 @@ def _serialize_shell(s):
         'type': 'brep_shell',
         'face_ids': list(s[1]),
         'id': meta.get('id'),
+        'shell_type': meta.get('shell_type', 'outer'),
         'closed': meta.get('closed'),
         'solid_id': meta.get('solid_id'),
         'tags': meta.get('tags', {}),
@@ -2203,7 +2208,8 @@ def _deserialize_shell(data, face_map=None):
     face_refs = [face_map.get(fid) if face_map else fid
                  for fid in data.get('face_ids', [])]
 
-    s = brep_shell(face_refs, closed=data.get('closed'),
+    s = brep_shell(face_refs, shell_type=data.get('shell_type', 'outer'),
+                   closed=data.get('closed'),
                    tags=data.get('tags', {}))
     s[2]['id'] = data['id']
     if data.get('solid_id'):
@@ -2279,14 +2285,14 @@ def deserialize_topology_graph(data):
     for vid, vdata in data.get('vertices', {}).items():
         vertex = _deserialize_vertex(vdata)
         vertex_map[vid] = vertex
-        graph.vertices[vertex[2]['id']] = vertex
+        graph.add_vertex(vertex)
 
     # Deserialize edges (depend on vertices)
     edge_map = {}
     for eid, edata in data.get('edges', {}).items():
         edge = _deserialize_edge(edata, vertex_map=None)  # Use IDs directly
         edge_map[eid] = edge
-        graph.edges[edge[2]['id']] = edge
+        graph.add_edge(edge)
 
     # Deserialize trims (depend on edges)
     trim_map = {}
@@ -2307,7 +2313,7 @@ def deserialize_topology_graph(data):
     for fid, fdata in data.get('faces', {}).items():
         face = _deserialize_face(fdata)
         face_map[fid] = face
-        graph.faces[face[2]['id']] = face
+        graph.add_face(face)
 
     # Deserialize shells (depend on faces)
     shell_map = {}
-- 
2.43.0


From d7468ee3f49b892bd4bb3c67111a8b7b53df83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:12 +0000
Subject: [PATCH 187/192] fix: rotating a B-rep graph rotates the patches of
 its surfaces

---
 src/yapcad/native_brep.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 1ecbac1..93f1cea 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2060,7 +2060,7 @@ def _serialize_surface_metadata(meta):
         return {}
     result = {}
     for key, value in meta.items():
-        if key in ('normal', 'axis', 'u_axis', 'v_axis'):
+        if key in ('normal', 'axis', 'u_axis', 'v_axis', 'ref_direction'):
             result[key] = list(value) if value else None
         elif key == 'u_range' or key == 'v_range':
             result[key] = list(value) if value else None
@@ -2078,6 +2078,21 @@ def _serialize_surface_metadata(meta):
 
 def _deserialize_surface(data):
     """Reconstruct an analytic surface from serialized data."""
+    surface = _deserialize_surface_patch(data)
+    if surface is None or len(surface) < 3 or not isinstance(surface[2], dict):
+        return surface
+
+    # The constructors choose the directions the parameters are measured
+    # from, which a rotated surface does not share.
+    for key in ('u_axis', 'v_axis', 'ref_direction'):
+        value = (data.get('metadata') or {}).get(key)
+        if key in surface[2] and value:
+            surface[2][key] = [float(x) for x in value]
+    return surface
+
+
+def _deserialize_surface_patch(data):
+    """Reconstruct an analytic surface with the default in-plane directions."""
     from yapcad.analytic_surfaces import (
         plane_surface, sphere_surface, cylinder_surface,
         cone_surface, torus_surface, bspline_surface, tessellated_surface
@@ -2533,16 +2548,22 @@ def _transform_surface_inplace(surface, transform_fn):
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'cone_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'torus_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'bspline_surface':
         # Control points are nested list
-- 
2.43.0


From aa5ef84fd14d0d10e5e5dbde0e416516a0c3d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:12 +0000
Subject: [PATCH 188/192] fix: scaling a B-rep graph scales edge radii and the
 extent of patches

---
 src/yapcad/native_brep.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 93f1cea..6d8c124 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2687,16 +2687,30 @@ def scale_native_brep(yapcad_solid, factor, center=None):
 
     transform_topology_graph(graph, scale_point)
 
-    # Also update radii in surfaces
+    # Also update the lengths in edges and surfaces
+    size = abs(f)
+    for eid, edge in graph.edges.items():
+        params = edge[2].get('curve_params', {})
+        for key in ('radius', 'semi_major', 'semi_minor'):
+            if params.get(key) is not None:
+                params[key] = params[key] * size
+
     for fid, face in graph.faces.items():
         surface = face[1]
         if surface is not None and isinstance(surface, list) and len(surface) >= 3:
             meta = surface[2] if len(surface) > 2 else {}
             if 'radius' in meta:
-                meta['radius'] = meta['radius'] * f
+                meta['radius'] = meta['radius'] * size
             if 'major_radius' in meta:
-                meta['major_radius'] = meta['major_radius'] * f
+                meta['major_radius'] = meta['major_radius'] * size
             if 'minor_radius' in meta:
-                meta['minor_radius'] = meta['minor_radius'] * f
+                meta['minor_radius'] = meta['minor_radius'] * size
+            # plane, cylinder and cone parameters that measure a length
+            lengths = {'plane_surface': ('u_range', 'v_range'),
+                       'cylinder_surface': ('v_range',),
+                       'cone_surface': ('v_range',)}
+            for key in lengths.get(surface[0], ()):
+                if key in meta:
+                    meta[key] = tuple(x * size for x in meta[key])
 
     attach_native_brep_to_solid(yapcad_solid, graph)
-- 
2.43.0


From bb50cf6755320ed56581c87b139bb2c9c58e56d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:12 +0000
Subject: [PATCH 189/192] fix: mirroring a B-rep graph mirrors its arcs and the
 patches of its surfaces

---
 src/yapcad/native_brep.py | 48 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 6d8c124..ea7090f 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2502,6 +2502,8 @@ def transform_topology_graph(graph, transform_fn):
         loc = vertex[1]
         vertex[1] = _transform_point(loc, transform_fn)
 
+    mirrored = _reverses_orientation(transform_fn)
+
     # Transform edge curve parameters
     for eid, edge in graph.edges.items():
         meta = edge[2]
@@ -2515,18 +2517,64 @@ def transform_topology_graph(graph, transform_fn):
                 cpts = params['control_points']
                 if isinstance(cpts[0], (list, tuple)) and len(cpts[0]) >= 3:
                     params['control_points'] = [_transform_point(p, transform_fn) for p in cpts]
+            if mirrored:
+                # the direction of turn is reversed
+                if 'axis' in params:
+                    params['axis'] = [-x for x in params['axis']]
+                for key in ('bulge', 'orientation'):
+                    if params.get(key) is not None:
+                        params[key] = -params[key]
 
     # Transform face surfaces
     for fid, face in graph.faces.items():
         surface = face[1]
         if surface is not None and isinstance(surface, list) and len(surface) >= 3:
             _transform_surface_inplace(surface, transform_fn)
+            if mirrored:
+                _reverse_surface_inplace(surface)
 
     # Invalidate all shell octrees
     for sid, shell in graph.shells.items():
         shell[2]['_octree_dirty'] = True
 
 
+def _reverses_orientation(transform_fn):
+    """Return True if a transformation turns right-handed into left-handed."""
+    o = transform_fn(point(0, 0, 0))
+    x, y, z = [[p[i] - o[i] for i in range(3)]
+               for p in (transform_fn(point(1, 0, 0)),
+                         transform_fn(point(0, 1, 0)),
+                         transform_fn(point(0, 0, 1)))]
+    return (x[0] * (y[1] * z[2] - y[2] * z[1])
+            + x[1] * (y[2] * z[0] - y[0] * z[2])
+            + x[2] * (y[0] * z[1] - y[1] * z[0])) < 0
+
+
+def _reverse_surface_inplace(surface):
+    """Restore the handedness of a surface's parameters after a reflection."""
+    surf_type = surface[0]
+    meta = surface[2]
+
+    if surf_type == 'plane_surface':
+        meta['u_axis'], meta['v_axis'] = meta['v_axis'], meta['u_axis']
+        meta['u_range'], meta['v_range'] = meta['v_range'], meta['u_range']
+
+    elif surf_type in ('cylinder_surface', 'cone_surface', 'torus_surface'):
+        # axis x ref_direction now points the other way, so does u
+        meta['u_range'] = tuple(-u for u in reversed(meta['u_range']))
+
+    elif surf_type == 'bspline_surface':
+        knots = meta['u_knots']
+        ends = knots[0] + knots[-1]
+        surface[1][:] = [row[::-1] for row in surface[1]]
+        meta['weights'] = [row[::-1] for row in meta['weights']]
+        meta['u_knots'] = [ends - k for k in reversed(knots)]
+        meta['u_range'] = tuple(ends - u for u in reversed(meta['u_range']))
+
+    elif surf_type == 'tessellated_surface':
+        surface[1]['faces'] = [[f[0], f[2], f[1]] for f in surface[1]['faces']]
+
+
 def _transform_surface_inplace(surface, transform_fn):
     """Transform a surface's parameters in-place."""
     surf_type = surface[0]
-- 
2.43.0


From bb1d2a99d1eaa95d9ca300d1687fc9f536b75641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:12 +0000
Subject: [PATCH 190/192] fix: scaling a solid unevenly drops the B-rep that no
 longer describes it

---
 src/yapcad/geom3d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 6086479..0e88be1 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -999,6 +999,13 @@ def scalesolid(x, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
             scale_native_brep(s2, sx, cent)
         except ImportError:
             pass
+    else:
+        # the copied B-rep no longer describes the scaled solid
+        try:
+            from yapcad.native_brep import clear_native_brep
+            clear_native_brep(s2)
+        except ImportError:
+            pass
 
     return s2
 
-- 
2.43.0


From 79ecea7c06e9244d2954c377555abb80f33ebd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:12 +0000
Subject: [PATCH 191/192] fix: transform_edge_params moves circle and B-spline
 edges

---
 src/yapcad/native_brep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index ea7090f..1ac20f3 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -503,7 +503,11 @@ def transform_edge_params(edge, transform_point_func):
     elif curve_type == 'ellipse' and 'center' in params:
         params['center'] = transform_point_func(params['center'])
 
-    elif curve_type == 'nurbs' and 'control_points' in params:
+    elif curve_type == 'circle' and 'center' in params:
+        params['center'] = transform_point_func(params['center'])
+        params['axis'] = _transform_vector(params['axis'], transform_point_func)
+
+    elif curve_type in ('nurbs', 'bspline') and 'control_points' in params:
         params['control_points'] = [
             transform_point_func(pt) for pt in params['control_points']
         ]
-- 
2.43.0


From 6d091fd70f066f79a2dea120b867a2d974c5e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:03 +0000
Subject: [PATCH 192/192] fix: arc edges with a bulge or a clockwise
 orientation run from start to end

---
 src/yapcad/native_brep.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 1ac20f3..f64708c 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -281,7 +281,7 @@ def evaluate_edge_curve(edge, start_point, end_point):
                 return line(start_point, end_point)
 
             # Bulge = tan(theta/4) where theta is the included angle
-            # Positive bulge = arc bulges to the left (CCW)
+            # Positive bulge = CCW from start to end
             mid = _midpoint(start_point, end_point)
             chord_len = _point_distance(start_point, end_point)
 
@@ -294,23 +294,10 @@ def evaluate_edge_curve(edge, start_point, end_point):
 
             perp = point(-dy/perp_len, dx/perp_len, 0)
 
-            # Arc midpoint offset from chord midpoint
-            arc_height = bulge * chord_len / 2
-            arc_mid = add(mid, scale3(perp, arc_height))
-
-            # Compute center and radius
-            # Using the relationship: radius = (chord^2/4 + height^2) / (2*height)
-            h = abs(arc_height)
-            if h < epsilon:
-                return line(start_point, end_point)
-            radius = (chord_len*chord_len/4 + h*h) / (2*h)
-
-            # Center is offset from arc midpoint
-            center_offset = radius - h
-            if bulge > 0:
-                center = sub(arc_mid, scale3(perp, center_offset))
-            else:
-                center = add(arc_mid, scale3(perp, center_offset))
+            # The center lies on the bisector of the chord: left of it for
+            # a CCW arc of less than half a turn
+            radius = chord_len * (1 + bulge*bulge) / (4 * abs(bulge))
+            center = add(mid, scale3(perp, chord_len * (1 - bulge*bulge) / (4 * bulge)))
 
             # Compute start/end angles
             start_angle = atan2(start_point[1] - center[1],
@@ -318,8 +305,10 @@ def evaluate_edge_curve(edge, start_point, end_point):
             end_angle = atan2(end_point[1] - center[1],
                              end_point[0] - center[0]) * 180 / pi
 
-            orientation = 1 if bulge > 0 else -1
-            return arc(center, [radius, start_angle, end_angle, orientation])
+            if bulge < 0:
+                return arc(center, [radius, end_angle, start_angle, 0],
+                           samplereverse=True)
+            return arc(center, [radius, start_angle, end_angle, 0])
 
         elif 'center' in params:
             # Arc defined by center point
@@ -332,7 +321,11 @@ def evaluate_edge_curve(edge, start_point, end_point):
             end_angle = atan2(end_point[1] - center[1],
                              end_point[0] - center[0]) * 180 / pi
 
-            return arc(center, [radius, start_angle, end_angle, orientation])
+            # arcs run CCW; a CW one is sampled from its far end
+            if orientation < 0:
+                return arc(center, [radius, end_angle, start_angle, 0],
+                           samplereverse=True)
+            return arc(center, [radius, start_angle, end_angle, 0])
 
         else:
             # Default to line if no arc params
-- 
2.43.0

