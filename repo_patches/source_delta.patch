From 12aefdb1e4109a50d8d2c1c61931d2e4da5efd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 01/22] fix: evaluate only the negation of the antecedents of
 an implication

Every antecedent was yielded both negated and plain, so any implication
evaluated to true.
---
 pylogics_modalities/semantics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/semantics/base.py b/pylogics_modalities/semantics/base.py
index d181d55..74782e7 100644
--- a/pylogics_modalities/semantics/base.py
+++ b/pylogics_modalities/semantics/base.py
@@ -74,7 +74,8 @@ def implies_semantics(
         for index, sub_formula in enumerate(formula.operands):
             if index < len(formula.operands) - 1:
                 yield not fn(sub_formula, *args, **kwargs)
-            yield fn(sub_formula, *args, **kwargs)
+            else:
+                yield fn(sub_formula, *args, **kwargs)
 
     return any(_visitor())
 
-- 
2.43.0


From 10f24a6dc5f831da7855d14b98919cb55111ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 02/22] fix: do not turn a false consequent of an implication
 into true

'ex falso' applies to antecedents only; 'a -> false' became 'a -> true'.
---
 pylogics_modalities/syntax/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index b2b92a9..996d6c3 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -536,7 +536,7 @@ class _MetaImpliesOp(_MetaOp):
         logic = operands[0].logic
         false = make_boolean(False, logic=logic)
         new_operands = []
-        for operand in operands:
+        for operand in operands[:-1]:
             if operand == false:
                 # ex falso sequitur quodlibet
                 new_operands.append(~false)
-- 
2.43.0


From 3010cd351ce0fd50e2b9725ec433f57949ad8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 03/22] fix: print past-temporal 'triggers' and 'weak before'
 formulas

to_string raised PylogicsError for both.
---
 pylogics_modalities/utils/to_string.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 45e9397..60d148b 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -46,7 +46,7 @@ from pylogics_modalities.syntax.ltl import Release, StrongRelease, Until, WeakNe
 from pylogics_modalities.syntax.pltl import Before, Historically, Once
 from pylogics_modalities.syntax.pltl import PropositionalFalse as PLTLPropositionalFalse
 from pylogics_modalities.syntax.pltl import PropositionalTrue as PLTLPropositionalTrue
-from pylogics_modalities.syntax.pltl import Since
+from pylogics_modalities.syntax.pltl import Since, Triggers, WeakBefore
 
 
 @functools.singledispatch
@@ -186,12 +186,24 @@ def to_string_pltl_before(formula: Before) -> str:
     return f"Y({to_string(formula.argument)})"
 
 
+@to_string.register(WeakBefore)
+def to_string_pltl_weak_before(formula: WeakBefore) -> str:
+    """Transform a 'weak before' formula into string."""
+    return f"Z({to_string(formula.argument)})"
+
+
 @to_string.register(Since)
 def to_string_pltl_since(formula: Since) -> str:
     """Transform a 'since' formula into string."""
     return " S ".join(_map_operands_to_string(formula.operands))
 
 
+@to_string.register(Triggers)
+def to_string_pltl_triggers(formula: Triggers) -> str:
+    """Transform a 'triggers' formula into string."""
+    return " T ".join(_map_operands_to_string(formula.operands))
+
+
 @to_string.register(Once)
 def to_string_pltl_once(formula: Once) -> str:
     """Transform a 'once' formula into string."""
-- 
2.43.0


From 4b878255e1a2d8cf2840dccedd7f192b9d24642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 04/22] fix: print the test regular expression as the grammar
 reads it

The grammar's test operator is postfix; '?(phi)' could not be parsed back.
---
 pylogics_modalities/utils/to_string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 60d148b..5248bf0 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -249,7 +249,7 @@ def to_string_re_star(formula: Star) -> str:
 @to_string.register(Test)
 def to_string_re_test(formula: Test) -> str:
     """Transform a test regular expression into string."""
-    return f"?({to_string(formula.argument)})"
+    return f"({to_string(formula.argument)})?"
 
 
 @to_string.register(Prop)
-- 
2.43.0


From 413015b4daa199520cbe0abc59055569301a2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 05/22] fix: accept a negated parenthesis inside a regular
 expression

'<!(a)>tt' is in the LDL language, but reducing 'NOT*' before the parenthesis
lost against shifting it for 'ldlf_not', so the LALR parser rejected it (and
the text printed for such formulas could not be parsed back).
---
 docs/grammars.md                    | 3 ++-
 pylogics_modalities/parsers/pl.lark | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index e87bd6c..cfcc35f 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -16,7 +16,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index 7c9e0f0..b7e6d73 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -5,7 +5,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
-- 
2.43.0


From d2558b29b226a93b4f38b807802ca7195802d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 06/22] fix: make formulas picklable and copyable

__getstate__ is wrapped once per class in the hierarchy, and each wrapper popped
the memoised hash from the live object's state: pickling or copying any formula
raised KeyError. Not also needs its argument when it is re-created.
---
 pylogics_modalities/helpers/cache_hash.py | 4 ++--
 pylogics_modalities/syntax/base.py        | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/helpers/cache_hash.py b/pylogics_modalities/helpers/cache_hash.py
index 43eddb8..a643547 100644
--- a/pylogics_modalities/helpers/cache_hash.py
+++ b/pylogics_modalities/helpers/cache_hash.py
@@ -61,8 +61,8 @@ def _getstate(fn):
 
     @wraps(fn)
     def __getstate__(self):
-        d = fn(self)
-        d.pop("__hash")
+        d = dict(fn(self))
+        d.pop("__hash", None)
         return d
 
     return __getstate__
diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 996d6c3..afa3510 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -498,6 +498,10 @@ class Not(_UnaryOp):
             return ~arg
         return super(Not, cls).__new__(cls)
 
+    def __getnewargs__(self):
+        """Get the arguments of __new__, needed for unpickling and copying."""
+        return (self.argument,)
+
     def __invert__(self):
         """Invert the negation."""
         return self.argument
-- 
2.43.0


From 281f3a4ad17be4b0dd3980628ff66964e6fa1e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 07/22] fix: building a formula no longer fails when the cache
 is reset meanwhile

The context was read twice; a reset in between made the second lookup raise
KeyError.
---
 pylogics_modalities/syntax/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index afa3510..0041577 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -68,12 +68,12 @@ class _HashConsing(Hashable):
             PylogicsError,
         )
         instance = cast(Formula, super().__call__(*args, **kwargs))
-        cached_instance = cls._context.setdefault(instance.logic, {}).get(
-            instance, None
-        )
+        # hold on to the table: 'reset_cache' may replace the context meanwhile.
+        table = cls._context.setdefault(instance.logic, {})
+        cached_instance = table.get(instance, None)
         if cached_instance is None:
             # cache the instance.
-            cls._context[instance.logic][instance] = None
+            table[instance] = None
             cached_instance = instance
         return cached_instance
 
-- 
2.43.0


From 4fa57059734c2ab3ccc7e02510a5be5acf9b6dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 08/22] fix: predicates and functions no longer share their
 operand list with the caller

The list passed in was kept, and the internal list (for predicates without
operands: the shared default argument) was handed out.
---
 pylogics_modalities/syntax/fol.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 9ba1ef0..151ada2 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -81,7 +81,12 @@ class Function(Term):
 
     def __init__(self, name: str, operands: list):
         self.name = name
-        self.operands = operands
+        self._operands = list(operands)
+
+    @property
+    def operands(self) -> list:
+        """Get the operands of the function."""
+        return list(self._operands)
 
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self.operands), f"expected {len(self.operands)} operands, got {len(operands)}.")
@@ -127,7 +132,7 @@ class Predicate(_FOL):
 
     def __init__(self, name: str, operands: list = []):
         self._name = name
-        self._operands = operands
+        self._operands = list(operands)
 
     @property
     def name(self) -> str:
@@ -137,7 +142,7 @@ class Predicate(_FOL):
     @property
     def operands(self) -> list:
         """Get the operands of the predicate."""
-        return self._operands
+        return list(self._operands)
 
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self._operands),
-- 
2.43.0


From 2a56b20880a5dfded30620e83d93f10e947ad60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 09/22] fix: replace tox.ini atomically

A crash, a failing write or a full disk left it truncated.
---
 scripts/sync-tox-ini.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scripts/sync-tox-ini.py b/scripts/sync-tox-ini.py
index 6ff4ea0..78e3df3 100644
--- a/scripts/sync-tox-ini.py
+++ b/scripts/sync-tox-ini.py
@@ -37,6 +37,7 @@ Usage:
 import argparse
 import configparser
 import logging
+import os
 from pathlib import Path
 from typing import Dict
 
@@ -130,8 +131,13 @@ def update_tox_ini(tox_ini_path: Path, dependencies: Dict[str, str]) -> None:
                     new_deps.append(dep)
             config[section]["deps"] = "\n".join(new_deps)
 
-    with tox_ini_path.open("w") as file:
+    # write aside and rename, so that a failure never leaves a truncated file.
+    tmp_path = tox_ini_path.with_name(tox_ini_path.name + ".tmp")
+    with tmp_path.open("w") as file:
         config.write(file)
+        file.flush()
+        os.fsync(file.fileno())
+    os.replace(tmp_path, tox_ini_path)
 
 
 def main() -> None:
-- 
2.43.0


From 366e6e2d4cb0fcb2041df05d5f73bf48eb2ec7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 10/22] fix: give requests to the package index a timeout

A stalled server kept the script waiting for ever, and no later package was
updated.
---
 scripts/update-dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/update-dependencies.py b/scripts/update-dependencies.py
index 7583406..ee2b41e 100755
--- a/scripts/update-dependencies.py
+++ b/scripts/update-dependencies.py
@@ -85,7 +85,7 @@ def get_pyproject_python_version(pyproject_file: str) -> str:
 
 def get_version(package: str, python_version: str) -> Optional[str]:
     """Get the latest version of a package that is compatible with the provided Python version."""
-    req = requests.get(URL_PATTERN.format(package=package))
+    req = requests.get(URL_PATTERN.format(package=package), timeout=30)
     version = parse_version("0")
     if req.status_code == requests.codes.ok:
         j = req.json()
-- 
2.43.0


From 0d4eb646bb9bb078e3900ec0cc3179dcb79ec6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 11/22] fix: substitute inside nested quantifiers when checking
 proofs

The body was passed as a list, so any quantifier rule applied above another
quantifier raised AttributeError.
---
 pylogics_modalities/deduction/fol/nd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e509a13..ac01672 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -246,7 +246,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
                 return formula
-            return type(formula)(formula.variable, [self._replace(o, x, a) for o in formula.operands])
+            return type(formula)(formula.variable, self._replace(formula.formula, x, a))
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
-- 
2.43.0


From dc951dc9f1361f1cabf4ee787422a6b07a19aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 12/22] fix: accept quantifier instances over variables in
 natural deduction

Two different variables were not seen as a difference, so P(y) was neither
accepted as an instance of 'forall x P(x)' nor as a witness of 'exists x P(x)';
nor was a body in which the bound variable does not occur or is kept.
---
 pylogics_modalities/deduction/fol/nd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index ac01672..03d20d4 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -234,6 +234,8 @@ class NaturalDeduction(AbstractDeductionSystem):
             else:
                 for a, b in zip(x.operands, y.operands):
                     diffset = diffset | self._find_diff(a, b)
+        elif isinstance(x, Term) and x != y:
+            diffset = diffset | {(x, y)}
         return diffset
 
     def _replace(self, formula: Formula, x: Variable, a: Term):
@@ -267,9 +269,9 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         x, phi = args[0].variable, args[0].formula
         a = [n for m, n in self._find_diff(phi, formula) if m == x]
-        if len(a) != 1:
+        if len(a) > 1:
             return False
-        a = a[0]
+        a = a[0] if a else x
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(formula)
 
-- 
2.43.0


From a6946a7d550808d909fac7576c84311cbbd7d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 13/22] fix: never import a foreign grammar file

---
 pylogics_modalities/parsers/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylogics_modalities/parsers/base.py b/pylogics_modalities/parsers/base.py
index ce62fb6..81ad4a4 100644
--- a/pylogics_modalities/parsers/base.py
+++ b/pylogics_modalities/parsers/base.py
@@ -60,6 +60,8 @@ class AbstractParser(ABC):
             self._full_lark_path.read_text(),
             parser="lalr",
             import_paths=[str(CURRENT_DIR)],
+            # resolve the imports of the grammar next to it, and nowhere else.
+            source_path=str(self._full_lark_path),
         )
 
     def __call__(self, text: str) -> Formula:
-- 
2.43.0


From 6d6e84abb22baaeb423e8a2adfd874ec062f8642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 14/22] fix: do not rewrite tox.ini when it could not be read

---
 scripts/sync-tox-ini.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/sync-tox-ini.py b/scripts/sync-tox-ini.py
index 78e3df3..9a736ec 100644
--- a/scripts/sync-tox-ini.py
+++ b/scripts/sync-tox-ini.py
@@ -111,7 +111,9 @@ def update_tox_ini(tox_ini_path: Path, dependencies: Dict[str, str]) -> None:
         dependencies: A dictionary mapping dependency names to their versions.
     """
     config = configparser.ConfigParser()
-    config.read(tox_ini_path)
+    # unlike config.read(), fail if the file cannot be read.
+    with tox_ini_path.open() as file:
+        config.read_file(file)
 
     for section in config.sections():
         if section.startswith("testenv"):
-- 
2.43.0


From 599ac2f9140cebf9a05ffe9e11845b00a69e68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 15/22] fix: consider releases with a non-canonical version

---
 scripts/update-dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/update-dependencies.py b/scripts/update-dependencies.py
index ee2b41e..6c40709 100755
--- a/scripts/update-dependencies.py
+++ b/scripts/update-dependencies.py
@@ -97,7 +97,7 @@ def get_version(package: str, python_version: str) -> Optional[str]:
                 logging.warning(f"Skipping invalid version: {release}")
                 continue
 
-            release_info = j["releases"].get(str(ver), [{}])
+            release_info = j["releases"].get(release, [{}])
             if release_info:
                 info = release_info[-1]
                 if not ver.is_prerelease and info:
-- 
2.43.0


From 22ac9f2467a9de516be12f7fc03a81ee4c2e7b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 16/22] fix: reject proof steps that cite lines out of scope

Such citations were dropped silently, so a step with one citation too many
(of a missing, later or closed line) was accepted.
---
 pylogics_modalities/deduction/fol/nd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 03d20d4..02d0277 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -120,7 +120,9 @@ class NaturalDeduction(AbstractDeductionSystem):
         for row, content, justiﬁcation in proof:
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
-                args = [sound[i] for i in justiﬁcation[1:] if i in sound]
+                if any(i not in sound for i in justiﬁcation[1:]):
+                    return False  # some cited line is missing, comes later or is out of scope
+                args = [sound[i] for i in justiﬁcation[1:]]
                 if rule not in self.check_justification:
                     return False
                 if self.check_justification[rule](content, *args) == False:
-- 
2.43.0


From b8a1706578cadc152344ce506e8acd305b332216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 17/22] fix: and-elimination needs a conjunction,
 or-introduction a disjunction

Both only looked at the operands, so that, for example, a disjunction
was accepted as the premise of and-elimination.
---
 pylogics_modalities/deduction/fol/nd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 02d0277..88c3d79 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -141,11 +141,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
-        return str(formula) == str(args[0].operands[0])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[0])
 
     def _check_justification_and_e2(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (2) rule."""
-        return str(formula) == str(args[0].operands[1])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[1])
 
     def _check_justification_and_i(self, formula, *args):
         """Check if the deduction is valid according to and-introduction rule."""
@@ -204,11 +204,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_or_i1(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 1 rule"""
-        return str(formula.operands[0]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[0]) == str(args[0])
 
     def _check_justification_or_i2(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 2 rule"""
-        return str(formula.operands[1]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[1]) == str(args[0])
 
     def _check_justification_premise(self, formula, *args):
         """Check if the deduction is valid according to premise rule"""
-- 
2.43.0


From 729034ba995d7d0fba77c0040e8dd3e4f512b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 18/22] fix: the fresh term of forall-introduction must not
 occur in the conclusion

---
 pylogics_modalities/deduction/fol/nd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 88c3d79..3cfdcd1 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -263,6 +263,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(a, Term):
             return False
         x, phi = formula.variable, formula.formula
+        if a is not x and self._find_term(a, phi):
+            return False  # Term escapes in the conclusion
         return str(self._replace(phi, x, a)) == str(phi_x_a)
 
     def _check_justification_forall_e(self, formula, *args):
-- 
2.43.0


From 484275106ee46b550f3077371fceafd2df429178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 19/22] fix: a substitution instance must not bind variables of
 the term

forall-elimination and exists-introduction accepted instances in which a
quantifier captures the term that replaces the variable.
---
 pylogics_modalities/deduction/fol/nd.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 3cfdcd1..89df7f3 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -255,6 +255,20 @@ class NaturalDeduction(AbstractDeductionSystem):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
 
+    def _captures(self, formula, x: Variable, a: Term, bound=False):
+        """Check if replacing x by a would bind a variable of a."""
+        if formula is x:
+            return bound
+        if isinstance(formula, (ForAll, Exists)):
+            if formula.variable == x:
+                return False
+            return self._captures(formula.formula, x, a, bound or self._find_term(formula.variable, a))
+        if isinstance(formula, Not):
+            return self._captures(formula.argument, x, a, bound)
+        if isinstance(formula, (Or, And, Implies, Predicate, Function)):
+            return any(self._captures(o, x, a, bound) for o in formula.operands)
+        return False
+
     def _check_justification_forall_i(self, formula, *args):
         """Check if the deduction is valid according to forall-introduction rule"""
         if not isinstance(formula, ForAll):
@@ -276,6 +290,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if len(a) > 1:
             return False
         a = a[0] if a else x
+        if self._captures(phi, x, a):
+            return False  # the instance is another formula
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(formula)
 
@@ -288,6 +304,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if len(a) > 1:
             return False
         a = a[0] if a else x
+        if self._captures(phi, x, a):
+            return False  # the instance is another formula
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(args[0])
 
-- 
2.43.0


From e3237076062e9855740f1f141640868d5356b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 20/22] fix: natural deduction did not recognise implications
 built by the implication operator

The rules for implications compared with the disjunction that '>>' builds, so
that a correct step over a parsed 'a -> b' was rejected; and instances of
formulas with equivalences were not built.
---
 pylogics_modalities/deduction/fol/nd.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 89df7f3..8e9c6e7 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -25,7 +25,7 @@
 
 from enum import Enum
 
-from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies
+from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies, Equivalence
 from pylogics_modalities.exceptions import PylogicsError
 
 from pylogics_modalities.syntax.fol import Term, Variable, Constant, Function
@@ -173,17 +173,17 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_impl_e(self, formula, *args):
         """Check if the deduction is valid according to implies-elimination rule"""
-        return str(args[0] >> formula) == str(args[1])
+        return self._is_implication(args[1], args[0], formula)
 
     def _check_justification_impl_i(self, formula, *args):
         """Check if the deduction is valid according to implies-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
-        return str(formula) == str(phi >> psi)
+        return self._is_implication(formula, phi, psi)
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
-        return str(formula.argument >> args[1].argument) == str(args[0])
+        return self._is_implication(args[0], formula.argument, args[1].argument)
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
@@ -214,6 +214,10 @@ class NaturalDeduction(AbstractDeductionSystem):
         """Check if the deduction is valid according to premise rule"""
         return True
 
+    def _is_implication(self, formula, phi, psi):
+        """Check if a formula is the implication from phi to psi, written as an implication or as a disjunction."""
+        return str(formula) in (str(phi >> psi), str(Implies(phi, psi)))
+
     def _find_term(self, t: Term, *args):
         for x in args:
             if t == x:
@@ -245,7 +249,7 @@ class NaturalDeduction(AbstractDeductionSystem):
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
-        if isinstance(formula, (Or, And, Implies)):
+        if isinstance(formula, (Or, And, Implies, Equivalence)):
             return type(formula)(*[self._replace(o, x, a) for o in formula.operands])
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
@@ -265,7 +269,7 @@ class NaturalDeduction(AbstractDeductionSystem):
             return self._captures(formula.formula, x, a, bound or self._find_term(formula.variable, a))
         if isinstance(formula, Not):
             return self._captures(formula.argument, x, a, bound)
-        if isinstance(formula, (Or, And, Implies, Predicate, Function)):
+        if isinstance(formula, (Or, And, Implies, Equivalence, Predicate, Function)):
             return any(self._captures(o, x, a, bound) for o in formula.operands)
         return False
 
-- 
2.43.0


From f0641d017824cc64a65e4d0e32f4304047df4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 21/22] fix: projects for Python 3.10 and later got no
 dependency updates

The lowest version of Python was looked for among 3.0.0 to 3.9.9 only, and
compared as text.
---
 scripts/update-dependencies.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/scripts/update-dependencies.py b/scripts/update-dependencies.py
index 6c40709..1489089 100755
--- a/scripts/update-dependencies.py
+++ b/scripts/update-dependencies.py
@@ -61,16 +61,17 @@ def clean_version_specifier(version_specifier: str) -> str:
 
 def get_lowest_python_version(specifier_set: SpecifierSet) -> str:
     """Get the lowest Python version that satisfies the specifier set."""
-    possible_versions = [
+    # in ascending order, and beyond the versions that exist today.
+    possible_versions = (
         f"{major}.{minor}.{patch}"
         for major in range(3, 4)
-        for minor in range(10)
-        for patch in range(10)
-    ]
-    satisfying_versions = [
+        for minor in range(50)
+        for patch in range(30)
+    )
+    satisfying_versions = (
         version for version in possible_versions if parse(version) in specifier_set
-    ]
-    return min(satisfying_versions, default="3")
+    )
+    return next(satisfying_versions, "3")
 
 
 def get_pyproject_python_version(pyproject_file: str) -> str:
-- 
2.43.0


From 79b006b518a0b5611d606c9d3884f51ecb592479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 22/22] fix: wildcards in a release's excluded or required
 Python versions were dropped

'!=3.8.*' was read as '!=3.8', so that a release that excludes Python 3.8
was chosen for a project on Python 3.8.1 (and '==3.8.*' the other way round).
---
 scripts/update-dependencies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/update-dependencies.py b/scripts/update-dependencies.py
index 1489089..6942509 100755
--- a/scripts/update-dependencies.py
+++ b/scripts/update-dependencies.py
@@ -41,6 +41,7 @@ Requirements:
 
 import argparse
 import logging
+import re
 import subprocess
 from typing import Optional
 
@@ -54,8 +55,8 @@ URL_PATTERN = "https://pypi.python.org/pypi/{package}/json"
 
 
 def clean_version_specifier(version_specifier: str) -> str:
-    """Clean version specifier by removing '.*' if present."""
-    cleaned = version_specifier.replace(".*", "")
+    """Clean version specifier by removing '.*' where it is not allowed, i.e. except after '==' and '!='."""
+    cleaned = re.sub(r"([<>~]=?\s*[\w.]+?)\.\*", r"\1", version_specifier)
     return cleaned
 
 
-- 
2.43.0

