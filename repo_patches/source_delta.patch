From 070bb2ae3a4fccfe1ed539135445ebe35407db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:11 +0000
Subject: [PATCH 01/32] fix: make 'Continue' find its enclosing loop

---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 08829d8..b6c7a21 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -396,7 +396,9 @@ class WizardContinueContext(
         # Find the first parent loop:
         loop: WizardInterpreterContext[ContextState, Any] = self
 
-        while loop.is_top_level() and not isinstance(loop, WizardContinuableContext):
+        while not loop.is_top_level() and not isinstance(
+            loop, WizardContinuableContext
+        ):
             loop = loop.parent
 
         if not isinstance(loop, WizardContinuableContext):
-- 
2.43.0


From 8b8270a6783f25fe5f42c5b584ddaf53a326b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:44 +0000
Subject: [PATCH 02/32] fix: keep non-ASCII characters of string literals
 intact

---
 src/wizard/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 3e2b5e6..b9a8f3a 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -362,7 +362,8 @@ class WizardExpressionVisitor:
         txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
 
         # Replace escape sequences by Python escape sequences:
-        txt = codecs.decode(txt, "unicode_escape")
+        # (non-ASCII characters are protected, "unicode_escape" expects latin-1)
+        txt = codecs.decode(txt.encode("latin-1", "backslashreplace"), "unicode_escape")
 
         return Value(txt)
 
-- 
2.43.0


From 301bb908d14d33b36dd952451bbcf23d8e8474bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:57 +0000
Subject: [PATCH 03/32] fix: drop a bad escape's backslash after an escaped
 backslash too

---
 src/wizard/expr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index b9a8f3a..897bd1d 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -23,7 +23,8 @@ class WizardExpressionVisitor:
     which takes an expression context and returns a `Value`.
     """
 
-    BAD_ESCAPE_SEQUENCE = re.compile(r"(^|(?<=[^\\]))\\(?=[^abfnrtuUx0-7\\])")
+    # An escaped backslash (kept), or a backslash that does not start an escape sequence
+    BAD_ESCAPE_SEQUENCE = re.compile(r"(\\\\)|\\(?=[^abfnrtuUx0-7\\])")
 
     _subpackages: SubPackages
     _functions: Mapping[
@@ -359,7 +360,7 @@ class WizardExpressionVisitor:
         txt = ctx.getText()[1:-1]
 
         # Remove bad escape sequences:
-        txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
+        txt = self.BAD_ESCAPE_SEQUENCE.sub(lambda m: m[1] or "", txt)
 
         # Replace escape sequences by Python escape sequences:
         # (non-ASCII characters are protected, "unicode_escape" expects latin-1)
-- 
2.43.0


From e0fc684d0a94e81fe7865756f1b8976b6fb8448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:08 +0000
Subject: [PATCH 04/32] fix: treat truncated \x, \u and \U sequences as bad
 escapes

---
 src/wizard/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 897bd1d..db64d29 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -24,7 +24,10 @@ class WizardExpressionVisitor:
     """
 
     # An escaped backslash (kept), or a backslash that does not start an escape sequence
-    BAD_ESCAPE_SEQUENCE = re.compile(r"(\\\\)|\\(?=[^abfnrtuUx0-7\\])")
+    BAD_ESCAPE_SEQUENCE = re.compile(
+        r"(\\\\)|\\(?![abfnrt0-7\\]|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}"
+        r"|U(000[0-9a-fA-F]|0010)[0-9a-fA-F]{4})"
+    )
 
     _subpackages: SubPackages
     _functions: Mapping[
-- 
2.43.0


From c3fba3e24acb4d58650c893e9822e45fcb368ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:34 +0000
Subject: [PATCH 05/32] fix: allow optional function arguments to be omitted

---
 src/wizard/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 20aaf7b..0c5c05a 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -143,7 +143,9 @@ def wrap_function(
             raise TypeError(f"{name}: too many arguments.")
 
         for iarg, arg in enumerate(args):
-            if iarg >= len(vs) and not isinstance(arg, optional):
+            if iarg >= len(vs):
+                if isinstance(arg, optional):
+                    break
                 raise TypeError(f"{name}: missing required positional argument(s).")
 
             tp: type
-- 
2.43.0


From d8afaef33abc0f8229dbb49ab06279f97b8849db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:45 +0000
Subject: [PATCH 06/32] fix: make the bounds of find() and rfind() optional

---
 src/wizard/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 0c5c05a..b30f6ab 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -201,7 +201,11 @@ def make_basic_functions() -> dict[str, WizardFunction]:
         fns[fname] = wrap_function(
             fname.rstrip("_"),
             getattr(wf, fname),
-            *(object for _ in range(len(sig.parameters) - varargs)),
+            *(
+                object if param.default is param.empty else optional(object)
+                for param in sig.parameters.values()
+                if param.kind is not param.VAR_POSITIONAL
+            ),
             varargs=varargs,
             rawargs=True,
         )
-- 
2.43.0


From ab683f121346cd2138b644d938cac3fba9490347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:55 +0000
Subject: [PATCH 07/32] fix: forward all arguments to functions with variable
 arguments

---
 src/wizard/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index b30f6ab..47d9fff 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -142,7 +142,10 @@ def wrap_function(
         if not varargs and len(vs) > len(args):
             raise TypeError(f"{name}: too many arguments.")
 
-        for iarg, arg in enumerate(args):
+        # With varargs, extra arguments are checked like the last declared one:
+        extra = args[-1:] * (len(vs) - len(args))
+
+        for iarg, arg in enumerate(args + extra):
             if iarg >= len(vs):
                 if isinstance(arg, optional):
                     break
-- 
2.43.0


From e9470e2dd75825bb96fc5fbecda03c920c62e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:16 +0000
Subject: [PATCH 08/32] fix: allow the optional versions of RequireVersions to
 be omitted

---
 src/wizard/contexts/keywords.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 12297cb..8e4c53a 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -44,7 +44,7 @@ class _WizardKeywordContext(
             for ex in self.context.argList().expr()
         ]
 
-        n_arg_none = sum(int(isinstance(None, t)) for t in types)
+        n_arg_none = sum(int(t is not object and isinstance(None, t)) for t in types)
         min_args = len(types) - n_arg_none
         max_args = len(types)
 
@@ -58,21 +58,13 @@ class _WizardKeywordContext(
                 self._context,
                 f"Keyword {keyword}: too many arguments, expected {len(types)}.",
             )
-        elif len(arglist) < len(types):
-            raise WizardTypeError(
-                self._context,
-                f"Keyword {keyword}: not enough arguments, expected {len(types)}.",
-            )
 
         # extract value from arguments and pad with None to reach the exact number of
         # arguments
         args = tuple(arg.value for arg in arglist)
         args += (None,) * (len(types) - len(args))
 
-        return cast(
-            "tuple[*_Args]",
-            tuple(arg.value for arg in arglist),
-        )
+        return cast("tuple[*_Args]", args)
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-- 
2.43.0


From a255569934c443e480e30a029835150e0170a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:54 +0000
Subject: [PATCH 09/32] fix: keep the effects of keyword arguments, without
 altering the context

---
 src/wizard/contexts/keywords.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 8e4c53a..ad11c62 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -37,10 +37,10 @@ class _WizardKeywordContext(
     @abstractmethod
     def _visit(self, state: ContextState, *args: *_Args) -> None: ...
 
-    def _get_args(self, types: Sequence[type]) -> tuple[*_Args]:
+    def _get_args(self, types: Sequence[type], state: ContextState) -> tuple[*_Args]:
         keyword = self.context.Keyword().getText()
         arglist = [
-            self._factory.evisitor.visitExpr(ex, self.state)
+            self._factory.evisitor.visitExpr(ex, state)
             for ex in self.context.argList().expr()
         ]
 
@@ -68,7 +68,7 @@ class _WizardKeywordContext(
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-        self._visit(state, *self._get_args(self._argtypes))
+        self._visit(state, *self._get_args(self._argtypes, state))
         return self._factory.copy_parent(self, state)
 
 
@@ -168,7 +168,7 @@ class WizardRequireVersionsContext(
     ):
         super().__init__(factory, context, parent, state)
 
-        self._args = self._get_args(self._argtypes)
+        self._args = self._get_args(self._argtypes, self.state)
 
     # these property are useful to use the interpreter
     @property
@@ -188,10 +188,10 @@ class WizardRequireVersionsContext(
         return self._args[3]
 
     def _get_args(
-        self, types: Sequence[type]
+        self, types: Sequence[type], state: ContextState
     ) -> tuple[str, str | None, str | None, str | None]:
         # weird stuff to please type checkers
-        gv, sew, gew, wbv = super()._get_args(types)
+        gv, sew, gew, wbv = super()._get_args(types, state)
         return (gv, sew or None, gew or None, wbv or None)
 
     def _visit(
-- 
2.43.0


From 307863fc5e3cf64d3c13e4ed99dd045f05cb777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:04 +0000
Subject: [PATCH 10/32] fix: evaluate the arguments of RequireVersions only
 once

---
 src/wizard/contexts/keywords.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index ad11c62..e1331a5 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -170,6 +170,12 @@ class WizardRequireVersionsContext(
 
         self._args = self._get_args(self._argtypes, self.state)
 
+    def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
+        # The arguments have already been evaluated in the constructor:
+        state = self.state.copy()
+        self._visit(state, *self._args)
+        return self._factory.copy_parent(self, state)
+
     # these property are useful to use the interpreter
     @property
     def game_version(self) -> str:
-- 
2.43.0


From ec3995a246af11e2a1f7edc74e1a302f15078704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:16 +0000
Subject: [PATCH 11/32] fix: let ResetPluginName find plugins whatever their
 case

---
 src/wizard/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 7284097..341c695 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -288,7 +288,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The original name of the plugin.
         """
-        if name in state._renames:
+        if Plugin(name) in state._renames:
             del state._renames[Plugin(name)]
 
     def visitSelectAll(
-- 
2.43.0


From e5522b2b9972e3fb9225f187b5220525a3c87dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:30 +0000
Subject: [PATCH 12/32] fix: do not share issue severities between severity
 contexts

---
 src/wizard/severity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/severity.py b/src/wizard/severity.py
index 5277dbd..7d0c5c4 100644
--- a/src/wizard/severity.py
+++ b/src/wizard/severity.py
@@ -29,10 +29,11 @@ class Issue(Enum):
 
 class SeverityContext:
     _default_severity: Severity
-    _context: MutableMapping[Issue, Severity] = {}
+    _context: MutableMapping[Issue, Severity]
 
     def __init__(self):
         self._default_severity = Severity.WARNING
+        self._context = {}
 
     @abstractmethod
     def warning(self, text: str):
-- 
2.43.0


From 7de0d80cf1ed01dc2c00fb18943503ed15d35a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:41 +0000
Subject: [PATCH 13/32] fix: do not loop forever when a case falls through to
 the default

---
 src/wizard/contexts/contexts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index b6c7a21..c8c0d3c 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -925,6 +925,10 @@ class WizardSelectCasesContext(
         # No cases remaining, default, and not found:
         elif self._default and (self._fallthrough or not self._found):
             snext._found = True
+
+            # Nothing to fall into after the default, do not come back to it:
+            snext._fallthrough = False
+
             return self._factory.make_case_context(self._default, snext)
 
         # No need to copy from snext since if we reach this return statement, nothing
-- 
2.43.0


From 203a05b798bf1c580f0e19bd25ac27b6a3a2f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:52 +0000
Subject: [PATCH 14/32] fix: include the end of descending For ranges

---
 src/wizard/contexts/contexts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index c8c0d3c..f1a2f7a 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -507,7 +507,10 @@ class WizardForLoopContext(
         else:
             by = Value(1)
 
-        return [Value(i) for i in range(sta.value, end.value + 1, by.value)]
+        # The end is included, whatever the direction:
+        stop = end.value + (1 if by.value > 0 else -1)
+
+        return [Value(i) for i in range(sta.value, stop, by.value)]
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
-- 
2.43.0


From 01b911164f75c36e322467efabc37eb397990363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:03 +0000
Subject: [PATCH 15/32] fix: make the result of 'and' a boolean, as for 'or'

---
 src/wizard/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index dfa784a..6bf8163 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -260,7 +260,7 @@ class Value(Generic[ValueType]):
         return Value(bool(self._value or other._value))
 
     def __and__(self, other: Value[Any]) -> Value[bool]:
-        return Value(self._value and other._value)
+        return Value(bool(self._value and other._value))
 
     def __gt__(self: Value[Any], other: Value[Any]) -> Value[bool]:
         if isinstance(self._value, (int, float)) and isinstance(
-- 
2.43.0


From 6fb44141a1eef6972f086b727e08d1d915a162ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:15 +0000
Subject: [PATCH 16/32] fix: raise KeyError when deleting an already deleted
 stacked item

---
 src/wizard/utils/mappings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wizard/utils/mappings.py b/src/wizard/utils/mappings.py
index be9c89d..f9e45f1 100644
--- a/src/wizard/utils/mappings.py
+++ b/src/wizard/utils/mappings.py
@@ -27,8 +27,8 @@ class StackMutableMapping(MutableMapping[K, V]):
         if item in self._variables:
             del self._variables[item]
 
-        # If item is not in the parent:
-        elif self._parent is None or item not in self._parent:
+        # If item is not in the parent, or has already been deleted:
+        elif item in self._deleted or self._parent is None or item not in self._parent:
             raise KeyError(item)
 
         self._deleted.add(item)
-- 
2.43.0


From a544aade4bdc8ff1f155fd64a9dd8560737dcfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:25 +0000
Subject: [PATCH 17/32] fix: keep the effects of the description and options of
 selects

---
 src/wizard/contexts/contexts.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index f1a2f7a..d45b0c5 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -747,8 +747,11 @@ class WizardSelectContext(
         self,
     ) -> WizardSelectCasesContext[ContextState, _SelectOneOrManyRuleContext]:
         # This completely delegates to the other context:
-        return self._factory.make_select_cases_context(
-            self._selected, self.context, self.parent
+        return self._factory.copy_context(
+            self._factory.make_select_cases_context(
+                self._selected, self.context, self.parent
+            ),
+            self.state,
         )
 
 
-- 
2.43.0


From 0405b9bcacb70bfd67403f3e03d914bb67992da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:35 +0000
Subject: [PATCH 18/32] fix: keep the effects of the argument of Exec()

---
 src/wizard/contexts/contexts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index d45b0c5..719a46b 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -233,7 +233,8 @@ class WizardTopLevelContext(
     def exec_(self) -> WizardBodyContext[ContextState]:
         # We forward the parent, which is either self (no parent) or the parent body
         # for Exec().
-        return self._factory.make_body_context(self.context.body(), self.parent)
+        body = self._factory.make_body_context(self.context.body(), self.parent)
+        return self._factory.copy_context(body, self.state)
 
 
 class WizardCancelContext(
-- 
2.43.0


From 427dc701e602f59c1de44da6e99ec1d93b232cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:06 +0000
Subject: [PATCH 19/32] fix: select each sub-package and plugin once, so that
 it can be deselected

---
 src/wizard/runner.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 341c695..5ebf640 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -309,7 +309,8 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
         """
         # Guess we only select plugins from selected subpackages?
-        state._plugins = [pg for sp in state._subpackages for pg in sp.plugins()]
+        plugins = {pg: True for sp in state._subpackages for pg in sp.plugins()}
+        state._plugins = list(plugins)
 
     def visitSelectPlugin(
         self,
@@ -332,7 +333,8 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             )
             return
 
-        state._plugins.append(self._plugins[ipg])
+        if self._plugins[ipg] not in state._plugins:
+            state._plugins.append(self._plugins[ipg])
 
     def visitSelectSubPackage(
         self,
@@ -358,8 +360,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             return
 
         subpackage = self._subpackages[isp]
-        state._subpackages.append(subpackage)
+        if subpackage not in state._subpackages:
+            state._subpackages.append(subpackage)
 
         # Auto-select plugins?
         for plugin in subpackage.plugins():
-            state._plugins.append(plugin)
+            if plugin not in state._plugins:
+                state._plugins.append(plugin)
-- 
2.43.0


From b44905748460957d197e1f2189315a581aec6a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:17 +0000
Subject: [PATCH 20/32] fix: do not expose the visitors of the grammar rules as
 functions

---
 src/wizard/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index db64d29..f83b5d0 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -105,7 +105,9 @@ class WizardExpressionVisitor:
         if name in self._functions:
             function = self._functions[name]
             is_visit = False
-        elif hasattr(self, "visit" + name):
+        elif hasattr(self, "visit" + name) and not hasattr(
+            wizardParser, name + "Context"
+        ):
             function = getattr(self, "visit" + name)
             is_visit = True
         else:
-- 
2.43.0


From b08ff3af2a92205615689c42cbe2a10e3daac829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:27 +0000
Subject: [PATCH 21/32] fix: read scripts whose encoding cannot be detected,
 e.g. empty files

---
 src/wizard/utils/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index de148d8..d320ddb 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -103,7 +103,8 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            encoding = chardet.detect(data)["encoding"]
+            # No encoding can be detected in an empty file:
+            encoding = chardet.detect(data)["encoding"] or "utf-8"
             text = data.decode(encoding)
         else:
             text = data
-- 
2.43.0


From 8198aadf4d1d3538954a1679a7288fe3d3c9ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:13 +0000
Subject: [PATCH 22/32] fix: let error() and cancel() rewind or abort the
 script

---
 src/wizard/scriptrunner.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 058acee..1a33762 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -161,10 +161,19 @@ class WizardScriptRunner(
             self.make_top_level_context(script)
         )
 
+        aborted: bool = False
+
         while True:
             self._ctx = ctx
 
             try:
+                # cancel() is called here and not when the execution is aborted since
+                # it can also rewind or abort:
+                if aborted:
+                    aborted = False
+                    if self.cancel():
+                        return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+
                 if isinstance(ctx, WizardSelectOneContext):
                     ctx = ctx.select(
                         self.selectOne(ctx.description, ctx.options, ctx.default)
@@ -190,11 +199,15 @@ class WizardScriptRunner(
                 ctx = rfex.context
 
             except WizardScriptRunner.CancelFlow:
-                if self.cancel():
-                    return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+                aborted = True
 
             except Exception as ex:
-                self.error(ex)
-                return (WizardScriptRunnerStatus.ERROR, ctx.state)
+                try:
+                    self.error(ex)
+                    return (WizardScriptRunnerStatus.ERROR, ctx.state)
+                except WizardScriptRunner.RewindFlow as rfex:
+                    ctx = rfex.context
+                except WizardScriptRunner.CancelFlow:
+                    aborted = True
 
         return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
-- 
2.43.0


From f51286f9e07f2937d4eee04f32e4c63c2de72222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:52 +0000
Subject: [PATCH 23/32] fix: continue the script when cancel() or complete()
 return False

---
 src/wizard/scriptrunner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 1a33762..1078d4d 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -190,8 +190,13 @@ class WizardScriptRunner(
                         if self.complete():
                             return (WizardScriptRunnerStatus.RETURN, ctx.state)
                     else:
-                        if self.complete():
-                            return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+                        # There is nothing to continue with at the end of the script:
+                        self.complete()
+                        return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+
+                    # Continue after the 'Cancel' or 'Return' keyword:
+                    ctx = self._factory.copy_parent(ctx.parent, ctx.state)
+                    continue
 
                 ctx = ctx.exec()
 
-- 
2.43.0


From d7218e44d0f4ddccc3f9e1703e9eb8a98fd93e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 24/32] fix: raise a parse error for malformed loop headers and
 options

---
 src/wizard/contexts/contexts.py | 13 ++++++++++---
 src/wizard/contexts/utils.py    |  9 +++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 719a46b..355cc61 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -17,7 +17,7 @@ from ..manager import SelectOption
 from ..severity import Issue
 from ..state import ContextState
 from ..value import SubPackage, SubPackages, Value
-from .utils import wrap_exceptions
+from .utils import check_exception, wrap_exceptions
 
 if TYPE_CHECKING:
     from .factory import WizardInterpreterContextFactory
@@ -124,8 +124,7 @@ class WizardInterpreterContext(Generic[ContextState, RuleContext]):
         Execute the next 'step' of this context and returns the next context
         to execute. When done, should return the parent context.
         """
-        if self.context.exception:
-            raise WizardParseError(self.context, self.context.exception)
+        check_exception(self.context)
         return wrap_exceptions(self.exec_, self.context)
 
 
@@ -483,6 +482,8 @@ class WizardForLoopContext(
     ):
         super().__init__(factory, context, parent, state)
 
+        check_exception(self.context)
+
         if self.context.forInHeader():
             self._values = self._for_in_header(self.context.forInHeader())
         else:
@@ -500,6 +501,8 @@ class WizardForLoopContext(
     def _for_range_header(
         self, ctx: wizardParser.ForRangeHeaderContext
     ) -> Sequence[Value[Any]]:
+        check_exception(ctx)
+
         sta: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(0), self.state, int)
         end: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(1), self.state, int)
 
@@ -516,6 +519,8 @@ class WizardForLoopContext(
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
     ) -> Sequence[Value[Any]]:
+        check_exception(ctx)
+
         value = self._factory.evisitor.visitExpr(ctx.expr(), self.state)
 
         if isinstance(value.value, SubPackage):
@@ -651,6 +656,8 @@ def parse_select_options(
     options: list[SelectOption] = []
     defaults: list[SelectOption] = []
     for opt in context.optionTuple():
+        check_exception(opt)
+
         a, b, c = (
             factory.evisitor.visitExpr(opt.expr(0), state, str),
             factory.evisitor.visitExpr(opt.expr(1), state, str),
diff --git a/src/wizard/contexts/utils.py b/src/wizard/contexts/utils.py
index f206536..84557d2 100644
--- a/src/wizard/contexts/utils.py
+++ b/src/wizard/contexts/utils.py
@@ -32,3 +32,12 @@ def wrap_exceptions(fn: Callable[[], T], context: ParserRuleContext | None = Non
         raise WizardTypeError(context, te) from te
     except IndexError as ie:
         raise WizardIndexError(context, *ie.args) from ie
+
+
+def check_exception(context: ParserRuleContext):
+    """
+    Raise a WizardParseError if there was an error while parsing the given context. The
+    context may be incomplete in this case.
+    """
+    if context.exception:
+        raise WizardParseError(context, context.exception)
-- 
2.43.0


From 3aea7fb370f36f0ad1943de8510b12d199edb068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 25/32] fix: check the types of the arguments of keywords

---
 src/wizard/contexts/keywords.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index e1331a5..4227c60 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -7,7 +7,7 @@ from typing import TYPE_CHECKING, Any, Generic, TypeVarTuple, cast
 from ..antlr4.wizardParser import wizardParser
 from ..errors import WizardNameError, WizardTypeError
 from ..severity import Issue
-from ..value import AnyValueType, VariableType
+from ..value import AnyValueType, SubPackage, VariableType
 from .contexts import ContextState, WizardInterpreterContext
 
 if TYPE_CHECKING:
@@ -59,6 +59,14 @@ class _WizardKeywordContext(
                 f"Keyword {keyword}: too many arguments, expected {len(types)}.",
             )
 
+        for arg, type_ in zip(arglist, types):
+            # the sub-packages can be given directly instead of their names
+            if not isinstance(arg.value, (type_, SubPackage)):
+                raise WizardTypeError(
+                    self._context,
+                    f"Keyword {keyword}: expected string, found {arg.type}.",
+                )
+
         # extract value from arguments and pad with None to reach the exact number of
         # arguments
         args = tuple(arg.value for arg in arglist)
-- 
2.43.0


From 809979115262b20c474f16a971e969cfccbc7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 26/32] fix: do not compute all of the values of a For loop in
 advance

---
 src/wizard/contexts/contexts.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 355cc61..2f86484 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -459,6 +459,21 @@ class WizardIfContext(
         return parent
 
 
+class _RangeValues(Sequence[Value[int]]):
+    """
+    Values of a range, computed when needed since there can be any number of them.
+    """
+
+    def __init__(self, values: range):
+        self._range = values
+
+    def __len__(self) -> int:
+        return len(self._range)
+
+    def __getitem__(self, index: int) -> Value[int]:  # type: ignore
+        return Value(self._range[index])
+
+
 class WizardForLoopContext(
     WizardInterpreterContext[ContextState, wizardParser.ForStmtContext],
     WizardBreakableContext[ContextState],
@@ -514,7 +529,7 @@ class WizardForLoopContext(
         # The end is included, whatever the direction:
         stop = end.value + (1 if by.value > 0 else -1)
 
-        return [Value(i) for i in range(sta.value, stop, by.value)]
+        return _RangeValues(range(sta.value, stop, by.value))
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
@@ -536,13 +551,13 @@ class WizardForLoopContext(
             )
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
-        # End of the loop:
-        if self._index == len(self._values):
+        # Retrieve the next value:
+        try:
+            value = self._values[self._index]
+        except IndexError:
+            # End of the loop:
             return self._factory.copy_parent(self)
 
-        # Retrieve the next value and set it:
-        value = self._values[self._index]
-
         # Copy the context:
         loop = self._factory.copy_context(self)
         loop._index += 1
-- 
2.43.0


From 00053071bddb6bcd32fb999d40bb2881ce95b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:31 +0000
Subject: [PATCH 27/32] fix: do not show the address of void values in notes
 and strings

---
 src/wizard/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index 6bf8163..6b423de 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -66,7 +66,8 @@ class Void:
     value.
     """
 
-    pass
+    def __repr__(self) -> str:
+        return "void"
 
 
 class Plugin(CaseFoldNamedObject): ...
-- 
2.43.0


From 8436224aa0704bbff27b69e418d2ba76acbabe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 28/32] fix: parsing a malformed script no longer changes how
 later scripts are parsed

---
 src/wizard/utils/error_strategy.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/wizard/utils/error_strategy.py b/src/wizard/utils/error_strategy.py
index 6191455..781fedc 100644
--- a/src/wizard/utils/error_strategy.py
+++ b/src/wizard/utils/error_strategy.py
@@ -3,6 +3,7 @@
 # pyright: reportUnknownMemberType=false
 # pyright: reportUnknownVariableType=false
 
+from antlr4.atn.ATNState import ATNState
 from antlr4.error.Errors import RecognitionException
 from antlr4.error.ErrorStrategy import DefaultErrorStrategy
 from antlr4.IntervalSet import IntervalSet
@@ -32,6 +33,30 @@ class WizardErrorStrategy(DefaultErrorStrategy):
         wizardParser.WhileStmtContext: wizardLexer.EndWhile,
     }
 
+    def sync(self, recognizer: wizardParser) -> None:
+        atn = recognizer._interp.atn
+        state = atn.states[recognizer.state]
+        expected = atn.nextTokens(state)
+
+        if (
+            self.inErrorRecoveryMode(recognizer)
+            or state.stateType
+            not in (ATNState.PLUS_LOOP_BACK, ATNState.STAR_LOOP_BACK)
+            or recognizer.getTokenStream().LA(1) in expected
+            or Token.EPSILON in expected
+        ):
+            super().sync(recognizer)
+            return
+
+        # Same as the default strategy, but the expected tokens are copied since they
+        # may come from a cache shared by all the parsers, and the default strategy
+        # would add the tokens of the enclosing rules to this cache:
+        self.reportUnwantedToken(recognizer)
+        followSet = IntervalSet()
+        followSet.addSet(recognizer.getExpectedTokens())
+        followSet.addSet(self.getErrorRecoverySet(recognizer))
+        self.consumeUntil(recognizer, followSet)  # type: ignore
+
     def recover(self, recognizer: wizardParser, e: RecognitionException) -> Token:
         # Mark the context (and "some" parent contexts):
         recognizer._ctx.exception = e
-- 
2.43.0


From 04300d21e1911064f4a9031ff1fceea14bf2802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 29/32] fix: read UTF-8 scripts with few non-ASCII characters
 as UTF-8

---
 src/wizard/utils/__init__.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index d320ddb..d91ebe1 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -67,6 +67,28 @@ def make_runner_context_factory(
     return WizardInterpreterContextFactory(evisitor, kvisitor, severity)
 
 
+def decode_script(data: bytes) -> str:
+    """
+    Decode the content of a script whose encoding is not known.
+
+    Args:
+        data: The content of the script.
+
+    Returns:
+        The text of the script.
+    """
+    # Text in other encodings is almost never valid UTF-8, while the detection often
+    # takes UTF-8 for another encoding if there are only a few non-ASCII characters:
+    if not data.isascii():
+        try:
+            return data.decode("utf-8-sig")
+        except UnicodeDecodeError:
+            pass
+
+    # No encoding can be detected in an empty file:
+    return data.decode(chardet.detect(data)["encoding"] or "utf-8")
+
+
 def make_parse_wizard_context(
     script: Union[InputStream, Path, BinaryIO, TextIO, str],
     wrap_excs: bool = True,
@@ -103,9 +125,7 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            # No encoding can be detected in an empty file:
-            encoding = chardet.detect(data)["encoding"] or "utf-8"
-            text = data.decode(encoding)
+            text = decode_script(data)
         else:
             text = data
         stream = InputStream(text)
-- 
2.43.0


From fbc8dcf7643ca7a6e2b448059c782d92f9626963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 30/32] fix: check the types of the arguments of EditINI and
 DisableINILine

---
 src/wizard/runner.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 5ebf640..c83fb16 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -12,7 +12,7 @@ from .keywords import WizardKeywordVisitor
 from .severity import Issue, SeverityContext
 from .state import WizardInterpreterState
 from .tweaks import WizardINISetting, WizardINISettingEdit, WizardINITweaks
-from .value import Plugin, SubPackage, SubPackages
+from .value import Plugin, SubPackage, SubPackages, Value
 
 
 class WizardRunnerState(WizardInterpreterState):
@@ -112,6 +112,7 @@ class WizardRunnerExpressionVisitor(WizardExpressionVisitor):
             setting: The setting to disable.
         """
         assert isinstance(state, WizardRunnerState)
+        self._check_strings("DisableINILine", filename, section, setting)
         state.tweaks._disabled.append(WizardINISetting(filename, section, setting))
 
     def visitEditINI(
@@ -137,10 +138,17 @@ class WizardRunnerExpressionVisitor(WizardExpressionVisitor):
             comment: An optional comment to add.
         """
         assert isinstance(state, WizardRunnerState)
+        self._check_strings("EditINI", filename, section, setting, comment)
         state.tweaks._modified.append(
             WizardINISettingEdit(filename, section, setting, value, comment)
         )
 
+    @staticmethod
+    def _check_strings(name: str, *args: Any) -> None:
+        for arg in args:
+            if arg is not None and not isinstance(arg, str):
+                raise TypeError(f"{name}: expected string, found {Value(arg).type}.")
+
 
 class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
     _subpackages: SubPackages
-- 
2.43.0


From fc7131c061e163f8eb5f7d57e2a18f88912115e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 31/32] fix: wizard index errors for any IndexError

An IndexError without argument, or with several, was reported as a type error.
---
 src/wizard/contexts/utils.py |  2 +-
 src/wizard/errors.py         | 11 +++++++----
 src/wizard/expr.py           |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/wizard/contexts/utils.py b/src/wizard/contexts/utils.py
index 84557d2..dcdea87 100644
--- a/src/wizard/contexts/utils.py
+++ b/src/wizard/contexts/utils.py
@@ -31,7 +31,7 @@ def wrap_exceptions(fn: Callable[[], T], context: ParserRuleContext | None = Non
     except TypeError as te:
         raise WizardTypeError(context, te) from te
     except IndexError as ie:
-        raise WizardIndexError(context, *ie.args) from ie
+        raise WizardIndexError(context, *ie.args[:1]) from ie
 
 
 def check_exception(context: ParserRuleContext):
diff --git a/src/wizard/errors.py b/src/wizard/errors.py
index 50c0c50..1d2f1a4 100644
--- a/src/wizard/errors.py
+++ b/src/wizard/errors.py
@@ -132,14 +132,17 @@ class WizardUnsupportedOperation(WizardError):
 
 
 class WizardIndexError(WizardError):
-    _index: int
+    _index: int | None
 
-    def __init__(self, context: ParserRuleContext | None, index: int):
-        super().__init__(context, f"Index {index} out of range.")
+    def __init__(self, context: ParserRuleContext | None, index: int | None = None):
+        super().__init__(
+            context,
+            "Index out of range." if index is None else f"Index {index} out of range.",
+        )
         self._index = index
 
     @property
-    def index(self) -> int:
+    def index(self) -> int | None:
         return self._index
 
 
diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index f83b5d0..3d7033f 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -416,7 +416,7 @@ class WizardExpressionVisitor:
         except TypeError as te:
             raise WizardTypeError(ctx, *te.args) from te
         except IndexError as ie:
-            raise WizardIndexError(ctx, *ie.args) from ie
+            raise WizardIndexError(ctx, *ie.args[:1]) from ie
 
         if typ is not None and not isinstance(value.value, typ):
             raise WizardTypeError(
-- 
2.43.0


From 6b71139d7e50b851a009046f9fbb05eb517b1946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 32/32] fix: the index of an index error is an integer or None

---
 src/wizard/contexts/utils.py | 2 +-
 src/wizard/errors.py         | 9 +++++++++
 src/wizard/expr.py           | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/utils.py b/src/wizard/contexts/utils.py
index dcdea87..fa92772 100644
--- a/src/wizard/contexts/utils.py
+++ b/src/wizard/contexts/utils.py
@@ -31,7 +31,7 @@ def wrap_exceptions(fn: Callable[[], T], context: ParserRuleContext | None = Non
     except TypeError as te:
         raise WizardTypeError(context, te) from te
     except IndexError as ie:
-        raise WizardIndexError(context, *ie.args[:1]) from ie
+        raise WizardIndexError(context, WizardIndexError.index_of(ie)) from ie
 
 
 def check_exception(context: ParserRuleContext):
diff --git a/src/wizard/errors.py b/src/wizard/errors.py
index 1d2f1a4..769def3 100644
--- a/src/wizard/errors.py
+++ b/src/wizard/errors.py
@@ -141,6 +141,15 @@ class WizardIndexError(WizardError):
         )
         self._index = index
 
+    @staticmethod
+    def index_of(ex: IndexError) -> int | None:
+        """
+        Returns:
+            The index of the given exception, or None if the exception only has a text.
+        """
+        index = ex.args[0] if ex.args else None
+        return index if isinstance(index, int) else None
+
     @property
     def index(self) -> int | None:
         return self._index
diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 3d7033f..2169ed3 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -416,7 +416,7 @@ class WizardExpressionVisitor:
         except TypeError as te:
             raise WizardTypeError(ctx, *te.args) from te
         except IndexError as ie:
-            raise WizardIndexError(ctx, *ie.args[:1]) from ie
+            raise WizardIndexError(ctx, WizardIndexError.index_of(ie)) from ie
 
         if typ is not None and not isinstance(value.value, typ):
             raise WizardTypeError(
-- 
2.43.0

