From b14f927e66c59dce075856c1bfb8574357e1afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 01/45] fix: accept attribute dictionaries in subscripts (they
 were hashed and rejected)

---
 asta/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index f2b65d4..799491f 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -43,7 +43,7 @@ def parse_subscript(
     shape: Optional[Tuple] = cls.shape
     kwattrs: Optional[Dict[str, Any]] = cls.kwattrs
 
-    isscalar = hash(item) == hash(Scalar)
+    isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
         shape = None
@@ -68,7 +68,7 @@ def parse_subscript(
     elif item:
 
         # Case where generic type is specified.
-        isscalar = hash(item[0]) == hash(Scalar)
+        isscalar = item[0] is Scalar
         if isinstance(item[0], (type, dtype_metaclass)) and not isscalar:
             dtype, kind = cls.get_dtype(item[0])
             item = item[1:]
-- 
2.43.0


From 8d55e6dc603a48d8d15473c02048639018d34c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 02/45] fix: subscripting an alias with a type or attributes
 keeps its shape

---
 asta/parser.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index 799491f..7c6da9c 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -46,12 +46,10 @@ def parse_subscript(
     isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
-        shape = None
 
     # Adding support for kwargs.
     elif isinstance(item, dict):
         kwattrs = item
-        shape = None
 
     # Case where dtype is Any and shape is scalar.
     elif item in (Scalar, ()):
-- 
2.43.0


From 6150fd71f501c07f175487f7a919c275c1e99404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:08 +0000
Subject: [PATCH 03/45] fix: keep string/object kinds and attributes when
 refreshing an annotation

---
 asta/origins.py | 33 ++++-----------------------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 6e55b89..88da1bc 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -23,9 +23,7 @@ from typing import (
 from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 
-from asta.array import Array
 from asta.utils import attrcheck, shapecheck
-from asta._array import _ArrayMeta
 from asta.classes import SubscriptableMeta
 from asta.display import (
     fail_io,
@@ -57,23 +55,9 @@ from asta.display import (
     fail_too_many_args,
     type_representation,
 )
-from asta.constants import _TORCH_IMPORTED, _TENSORFLOW_IMPORTED, NoneType, tf, torch
+from asta.constants import NoneType, tf, torch
 from asta.substitution import substitute
 
-METAMAP: Dict[type, SubscriptableMeta] = {_ArrayMeta: Array}
-
-if _TORCH_IMPORTED:
-    from asta.tensor import Tensor
-    from asta._tensor import _TensorMeta
-
-    METAMAP[_TensorMeta] = Tensor
-
-if _TENSORFLOW_IMPORTED:
-    from asta.tftensor import TFTensor
-    from asta._tftensor import _TFTensorMeta
-
-    METAMAP[_TFTensorMeta] = TFTensor
-
 try:
     from typing import Literal  # type: ignore[attr-defined]
 except ImportError:
@@ -86,7 +70,6 @@ def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
 ) -> Tuple[SubscriptableMeta, bool]:
     """ Load an asta type annotation containing classical placeholders. """
-    dtype = annotation.dtype
     shape = annotation.shape
     dimvars: List[Any] = []
     initialized = True
@@ -105,19 +88,11 @@ def refresh(
         dimvars = unpacked
 
         shape = tuple(dimvars)
-    # Note we're guaranteed that ``annotation`` has type ``SubscriptableMeta``.
-    subscriptable_class = METAMAP[type(annotation)]
 
-    refreshed_annotation: SubscriptableMeta
+    # Subscripting the annotation itself keeps its dtype, kind, and attributes.
+    refreshed_annotation: SubscriptableMeta = annotation
     if shape is not None:
-        if dtype is not None:
-            refreshed_annotation = subscriptable_class[dtype, shape]  # type: ignore
-        else:
-            refreshed_annotation = subscriptable_class[shape]  # type: ignore
-    elif dtype is not None:
-        refreshed_annotation = subscriptable_class[dtype]
-    else:
-        refreshed_annotation = annotation
+        refreshed_annotation = annotation[(shape,)]  # type: ignore
 
     return refreshed_annotation, initialized
 
-- 
2.43.0


From d913e822cd7ce52c63da394d136b48f9edf8ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 04/45] fix: collect attribute equations for annotations
 without a shape

---
 asta/origins.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 88da1bc..ad82f59 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -123,7 +123,6 @@ def check_asta(
 
         # Update equation set.
         shape_equations: Set[Expr] = set()
-        attr_equations: Set[Expr] = set()
 
         if annotation.shape is not None:
 
@@ -134,8 +133,10 @@ def check_asta(
 
             # Grab equations from shapecheck call.
             shape_match, shape_equations = shapecheck(value_shape, annotation.shape)
-            attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
-            assert shape_match and attr_match
+            assert shape_match
+
+        attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
+        assert attr_match
 
         equations = equations.union(shape_equations, attr_equations)
 
-- 
2.43.0


From 34cf21b8ffda55e46ae044e859d9954dede1e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 05/45] fix: isinstance requires shape and attribute equations
 to be jointly solvable

---
 asta/_array.py    | 8 +++++---
 asta/_tensor.py   | 8 +++++---
 asta/_tftensor.py | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 06e0c3e..d354b46 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 
 import numpy as np
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import NUMPY_DIM_TYPES, NP_UNSIZED_TYPE_KINDS, EllipsisType
@@ -72,9 +72,11 @@ class _ArrayMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, shape_equations = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
+                if match:
+                    match, _, _ = astasolver(shape_equations | attr_equations)
 
         return match
 
diff --git a/asta/_tensor.py b/asta/_tensor.py
index dffe415..7d0a6d0 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import torch
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TORCH_DIM_TYPES, TORCH_DTYPE_MAP, EllipsisType
@@ -59,9 +59,11 @@ class _TensorMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, shape_equations = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
+                if match:
+                    match, _, _ = astasolver(shape_equations | attr_equations)
 
         return match
 
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 3eda61a..fa2fcf3 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import tensorflow as tf
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TF_DIM_TYPES, TF_DTYPE_MAP, EllipsisType
@@ -66,9 +66,11 @@ class _TFTensorMeta(SubscriptableMeta):
                 if isinstance(inst_shape, tf.TensorShape):
                     inst_shape = tuple(inst_shape)
 
-                shape_match, _ = shapecheck(inst_shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, shape_equations = shapecheck(inst_shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
+                if match:
+                    match, _, _ = astasolver(shape_equations | attr_equations)
 
         return match
 
-- 
2.43.0


From 02bb35d621ece6a477ab1490843c1cc1f2026dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 06/45] fix: structured arrays never match an Array annotation

---
 asta/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/_array.py b/asta/_array.py
index d354b46..427e6c4 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -63,7 +63,7 @@ class _ArrayMeta(SubscriptableMeta):
             if inst.dtype.names:
                 match = False
 
-            if cls.kind and cls.kind != inst.dtype.kind:
+            elif cls.kind and cls.kind != inst.dtype.kind:
                 match = False
 
             # If we have ``cls.dtype``, we can be maximally precise.
-- 
2.43.0


From d07e626e678d43a7a007d18d89159d671c856d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 07/45] fix: asta type equality covers attributes and kinds,
 and equal types hash equal

---
 asta/_array.py    | 4 +++-
 asta/_tensor.py   | 4 +++-
 asta/_tftensor.py | 5 +++--
 asta/classes.py   | 4 +++-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 427e6c4..2c6d069 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -40,11 +40,13 @@ class _ArrayMeta(SubscriptableMeta):
         return SubscriptableMeta.__getitem__(cls, item)
 
     def __eq__(cls, other: Any) -> bool:
-        """ If the dtypes and shapes match, they should be equal. """
+        """ If the dtypes, shapes, and attributes match, they should be equal. """
         if not isinstance(other, _ArrayMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if cls.kind != other.kind or cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tensor.py b/asta/_tensor.py
index 7d0a6d0..733acc0 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -33,11 +33,13 @@ class _TensorMeta(SubscriptableMeta):
         return SubscriptableMeta.__getitem__(cls, item)
 
     def __eq__(cls, other: Any) -> bool:
-        """ If the dtypes and shapes match, they should be equal. """
+        """ If the dtypes, shapes, and attributes match, they should be equal. """
         if not isinstance(other, _TensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index fa2fcf3..45668a4 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -32,13 +32,14 @@ class _TFTensorMeta(SubscriptableMeta):
         """ Defer to the metaclass which calls ``cls._after_subscription()``. """
         return SubscriptableMeta.__getitem__(cls, item)
 
-    # TODO: Include kwattrs for each of these classes.
     def __eq__(cls, other: Any) -> bool:
-        """ If the dtypes and shapes match, they should be equal. """
+        """ If the dtypes, shapes, and attributes match, they should be equal. """
         if not isinstance(other, _TFTensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/classes.py b/asta/classes.py
index 490e98c..5506486 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -81,6 +81,7 @@ class SubscriptableMeta(GenericMeta):
             **cls.__dict__,
             "__args__": item,
             "__origin__": cls,
+            "_hash": 0,
         }
         bases = cls, *cls.__bases__
         result: GenericMeta = type(cls.__name__, bases, body)  # type: ignore
@@ -109,7 +110,8 @@ class SubscriptableMeta(GenericMeta):
         assert hasattr(cls, "dtype")
         assert hasattr(cls, "kwattrs")
         if not getattr(cls, "_hash", None):
-            cls._hash = hash(f"{cls.shape}{cls.dtype}{cls.kwattrs}")
+            shape = None if cls.shape is None else tuple(cls.shape)
+            cls._hash = hash(f"{shape}{cls.dtype}")
         return cls._hash
 
     def __repr__(cls) -> str:
-- 
2.43.0


From 45e95bd071e6f0ddea0b9900c1df291bc6825e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 08/45] fix: ASTA_TYPECHECK no longer switches the shared
 configuration off for good

---
 asta/decorators.py | 5 +++--
 asta/warning.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 21b9e55..9ddf6f8 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -83,9 +83,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         The decorated version of ``decorated``.
     """
     ox: Oxentiel = get_ox()
+    enabled: bool = ox.on
     if "ASTA_TYPECHECK" in os.environ:
-        ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-    if not ox.on:
+        enabled = enabled and os.environ["ASTA_TYPECHECK"] == "1"
+    if not enabled:
         return decorated
 
     # Treat classes.
diff --git a/asta/warning.py b/asta/warning.py
index c04496e..bab719d 100644
--- a/asta/warning.py
+++ b/asta/warning.py
@@ -11,9 +11,10 @@ from asta.constants import Color
 # pylint: disable=invalid-name
 
 ox: Oxentiel = get_ox()
+enabled: bool = ox.on
 if "ASTA_TYPECHECK" in os.environ:
-    ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-if ox.on and not ox.print_passes:
+    enabled = enabled and os.environ["ASTA_TYPECHECK"] == "1"
+if enabled and not ox.print_passes:
     BORDER = "#" * 100
     BORDER = f"{Color.BOLD}{BORDER}{Color.END}"
     INNER = "-" * 100
-- 
2.43.0


From c2edf1325e1c18deee38c6d9e97fe298851b4737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 09/45] fix: pair arguments with parameters by binding the
 signature

---
 asta/decorators.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 9ddf6f8..09bcc97 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -31,27 +31,20 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     sig = inspect.signature(decorated)
     paramlist = list(sig.parameters)
 
-    # Get a list of kwargs with defaults filled-in.
-    defaults: Dict[str, Any] = {}
-    for k, v in sig.parameters.items():
-        if v.default is not inspect.Parameter.empty:
-            defaults[k] = v.default
-
-    checkable_args: Dict[str, Any] = defaults.copy()
-    checkable_args.update(kwargs)
+    # Pair arguments with parameters (raises a TypeError if they don't fit the
+    # signature), with defaults filled-in.
+    bound = sig.bind(*args, **kwargs)
+    bound.apply_defaults()
+    checkable_args: Dict[str, Any] = dict(bound.arguments)
 
     # Remove unannotated instance/class/metaclass reference.
-    pure_args = args
     refs = ("self", "cls", "mcs")
 
     if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
-        pure_args = pure_args[1:]  # type: ignore[assignment]
-    for i, arg in enumerate(pure_args):
-        name = list(annotations.keys())[i]
-        checkable_args[name] = arg
+        checkable_args.pop(paramlist[0])
 
-    # Check for mismatch between lengths of arguments/annotations.
-    if num_non_return_annots != len(checkable_args):
+    # Check for mismatch between arguments/annotations.
+    if set(checkable_args) != set(annotations) - {"return"}:
         num_annot_err = f"Mismatch between number of annotated "
         num_annot_err += f"non-(self / cls / mcs) parameters "
         num_annot_err += f"'({num_non_return_annots})' and number of arguments "
-- 
2.43.0


From 1b4168411049853900a78aa9886db7b820d13409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 10/45] fix: check every argument bound to a variadic parameter

---
 asta/decorators.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 09bcc97..706c981 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -57,6 +57,17 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     return checkable_args
 
 
+def get_annotations(decorated) -> Dict[str, Any]:  # type: ignore[no-untyped-def]
+    """ Get the annotations, with variadic parameters annotated as containers. """
+    annotations: Dict[str, Any] = dict(decorated.__annotations__)
+    for name, param in inspect.signature(decorated).parameters.items():
+        if name in annotations and param.kind == param.VAR_POSITIONAL:
+            annotations[name] = Tuple[annotations[name], ...]
+        elif name in annotations and param.kind == param.VAR_KEYWORD:
+            annotations[name] = Dict[str, annotations[name]]  # type: ignore
+    return annotations
+
+
 def typechecked(decorated):  # type: ignore[no-untyped-def]
     """
     Typecheck a function annotated with ``asta`` type objects. This decorator
@@ -126,7 +137,7 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         handle_pass(header, ox)
 
         equations: Set[Expr] = set()
-        annotations: Dict[str, Any] = decorated.__annotations__
+        annotations: Dict[str, Any] = get_annotations(decorated)
         checkable_args: Dict[str, Any] = validate_annotations(
             decorated,
             annotations,
-- 
2.43.0


From 35a1e8eaa434b0e43acd07600368a0b4b2ad9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 11/45] fix: annotations with an unregistered origin no longer
 crash, and the registry is not mutated

---
 asta/origins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index ad82f59..5cb5599 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -521,10 +521,10 @@ def check_annotation(
         equations = check_asta(name, value, annotation, equations, ox)
 
     elif origin is not None:
-        checker_function_map = ORIGIN_TYPE_CHECKERS
+        checker_function_map: Dict[Any, Any] = dict(ORIGIN_TYPE_CHECKERS)
         if ox.check_non_asta_types:
-            checker_function_map.update(NON_ASTA_CHECKERS)  # type: ignore
-        checker_fn: Callable = checker_function_map[origin]
+            checker_function_map.update(NON_ASTA_CHECKERS)
+        checker_fn: Any = checker_function_map.get(origin)
         if checker_fn:
             equations = checker_fn(name, value, annotation, equations, ox)
         else:
-- 
2.43.0


From b1ca3ff0643d355344b67993f9b41ddd133225b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 12/45] fix: registered non-asta checkers take and return the
 equations

---
 asta/origins.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 5cb5599..e0c6769 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -176,16 +176,19 @@ def check_typed_dict(
     return equations
 
 
-def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
+def check_callable(
+    name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
+) -> Set[Expr]:
     """ Check an argument with annotation ``callable`` or ``Callable[]``. """
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
+        return equations
 
-    if annotation.__args__:
+    if getattr(annotation, "__args__", None):
         try:
             signature = inspect.signature(value)
         except (TypeError, ValueError):
-            return
+            return equations
 
         if hasattr(annotation, "__result__"):
             # Python 3.5
@@ -206,7 +209,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
             ]
             if unfulfilled_kwonlyargs:
                 # NOTE: Should this output a warning?
-                return
+                return equations
 
             num_mandatory_args = len(
                 [
@@ -231,7 +234,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
                 fail_too_many_args(name, len(argument_types), num_mandatory_args, ox)
             elif not has_varargs and num_mandatory_args < len(argument_types):
                 fail_too_few_args(name, len(argument_types), num_mandatory_args, ox)
-    return
+    return equations
 
 
 def check_tuple(
@@ -410,21 +413,25 @@ def check_union(
     return equations
 
 
-def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
+def check_class(
+    name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
+) -> Set[Expr]:
     """ Check an arbitrary class. """
     if not inspect.isclass(value):
         fail_class(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Needed on Python 3.7+
     if annotation is Type:
-        return
+        return equations
 
-    expected_class = annotation.__args__[0] if annotation.__args__ else None
-    if expected_class and not issubclass(value, expected_class):
+    args = getattr(annotation, "__args__", None)
+    expected_class = args[0] if args else None
+    if inspect.isclass(expected_class) and not issubclass(value, expected_class):
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
 
-    return
+    return equations
 
 
 def check_number(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
@@ -453,10 +460,13 @@ def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
         fail_protocol(name, type(value).__qualname__, annotation.__qualname__, ox)
 
 
-def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
+def check_literal(
+    name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
+) -> Set[Expr]:
     """ Typecheck a value annotated with ``Literal[*]``. """
     if value not in annotation.__args__:
         fail_literal(name, annotation.__args__, value, ox)
+    return equations
 
 
 def check_none(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
@@ -545,7 +555,7 @@ def check_annotation(
                 check_number(name, value, annotation, ox)
             elif subclass_callable and has_args:
                 # Needed on Python 3.5.0 to 3.5.2
-                check_callable(name, value, annotation, ox)
+                equations = check_callable(name, value, annotation, equations, ox)
             elif issubclass(annotation, IO):
                 check_io(name, value, annotation, ox)
             elif getattr(annotation, "_is_protocol", False):
-- 
2.43.0


From 64e547a34b303857a493d84dc01b1933f18db52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 13/45] fix: bare generic annotations such as List no longer
 crash

---
 asta/origins.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index e0c6769..e03a4ed 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -304,7 +304,7 @@ def check_list(
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if getattr(annotation, "__args__", None):
             value_type = annotation.__args__[0]
             if value_type is not Any:
 
@@ -327,8 +327,8 @@ def check_sequence(
     if not isinstance(value, collections.abc.Sequence):
         fail_sequence(name, annotation, qualified_name(value), ox)
 
-    # Consider removing this test or even just figuring out what it does?
-    if annotation.__args__ not in (None, annotation.__parameters__):
+    # If annotation is a subscripted generic (``Sequence[...]``).
+    if getattr(annotation, "__args__", None):
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
@@ -353,7 +353,7 @@ def check_dict(
 
     # Equivalently: if annotation is ``Dict[*]``.
     elif annotation is not dict:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if getattr(annotation, "__args__", None):
             key_type, value_type = annotation.__args__
             if key_type is not Any or value_type is not Any:
                 for k, v in value.items():
@@ -378,7 +378,7 @@ def check_set(
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if getattr(annotation, "__args__", None):
             value_type = annotation.__args__[0]
             if value_type is not Any:
                 for v in value:
-- 
2.43.0


From 2c6bd90019392ae844347059417f879261620fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 14/45] fix: check the fields of NamedTuple arguments
 (_field_types is gone since Python 3.9)

---
 asta/origins.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index e03a4ed..df31d4c 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -18,6 +18,7 @@ from typing import (
     Callable,
     Sequence,
     AbstractSet,
+    get_type_hints,
 )
 
 from oxentiel import Oxentiel
@@ -243,14 +244,15 @@ def check_tuple(
     """ Check an argument with annotation ``tuple`` or ``Tuple[]``. """
 
     # Specialized check for NamedTuples.
-    if hasattr(annotation, "_field_types"):
+    if inspect.isclass(annotation) and hasattr(annotation, "_fields"):
 
         if not isinstance(value, annotation):
             fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)
             return equations
 
-        # pylint: disable=protected-access
-        for subname, field_type in annotation._field_types.items():
+        field_types = get_type_hints(annotation)
+        for subname in annotation._fields:
+            field_type = field_types.get(subname, Any)
             equations = check_annotation(
                 f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
             )
@@ -526,6 +528,10 @@ def check_annotation(
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
+    # Everything matches ``Any`` (which is a class as of Python 3.11).
+    if annotation is Any:
+        return equations
+
     # Treat asta types.
     if isinstance(annotation, SubscriptableMeta):
         equations = check_asta(name, value, annotation, equations, ox)
-- 
2.43.0


From 8a1eaaed701207caba43810243ab5f91ab7c9e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 15/45] fix: only the empty tuple matches Tuple[()]

---
 asta/origins.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index df31d4c..405078a 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -260,10 +260,15 @@ def check_tuple(
     elif not isinstance(value, tuple):
         fail_tuple(name, qualified_name(value), ox)
 
-    elif not getattr(annotation, "__args__", None):
+    elif inspect.isclass(annotation) or getattr(annotation, "__args__", None) is None:
         # Unparametrized Tuple or plain tuple.
         pass
 
+    elif annotation.__args__ in ((), ((),)):
+        # The empty tuple type ``Tuple[()]``.
+        if value != ():
+            fail_empty_tuple(name, qualified_name(value), ox)
+
     else:
         # Python 3.6+
         use_ellipsis = annotation.__args__[-1] is Ellipsis
@@ -280,9 +285,6 @@ def check_tuple(
                 equations = check_annotation(
                     f"{name}[{i}]", elem, elem_type, equations, ox
                 )
-        elif tuple_params == ((),):
-            if value != ():
-                fail_empty_tuple(name, qualified_name(value), ox)
         else:
             if len(value) != len(tuple_params):
                 ann_rep = qualified_name(annotation)
-- 
2.43.0


From a3778968023f1181cfef5d6a363695108e1b7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 16/45] fix: a wrong container is not iterated when errors are
 only printed

---
 asta/origins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 405078a..56f111d 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -305,6 +305,7 @@ def check_list(
     """ Check an argument with annotation ``list`` or ``List[]``. """
     if not isinstance(value, list):
         fail_list(name, annotation, qualified_name(value), ox)
+        return equations
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
@@ -330,6 +331,7 @@ def check_sequence(
     """ Check an argument with annotation ``Sequence[*]``. """
     if not isinstance(value, collections.abc.Sequence):
         fail_sequence(name, annotation, qualified_name(value), ox)
+        return equations
 
     # If annotation is a subscripted generic (``Sequence[...]``).
     if getattr(annotation, "__args__", None):
@@ -379,6 +381,7 @@ def check_set(
     """ Check an argument with annotation ``Set[*]``. """
     if not isinstance(value, AbstractSet):
         fail_set(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
-- 
2.43.0


From 6619384d56b099a6f36573f19fd4c9fc4e7efb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 17/45] fix: union alternatives are probed silently in every
 error mode

---
 asta/origins.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 56f111d..7f088ff 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -408,9 +408,15 @@ def check_union(
         # Python 3.6+
         union_params = annotation.__args__
 
+    # The alternatives which don't match must fail silently, even if errors are
+    # only to be printed.
+    settings = {key: val for key, val in ox.settings.items() if key != "decorated"}
+    settings["raise_errors"] = True
+    probe_ox = Oxentiel(settings, mutable=True)
+
     for type_ in union_params:
         try:
-            equations = check_annotation(name, value, type_, equations, ox)
+            equations = check_annotation(name, value, type_, equations, probe_ox)
             return equations
         except TypeError as _err:
             pass
-- 
2.43.0


From 4fe8082e0f1cb2d28f1e923bf0959dd050a0c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 18/45] fix: check unions written as X | Y

---
 asta/origins.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 7f088ff..17209b9 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
+import types
 import inspect
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
@@ -56,7 +57,7 @@ from asta.display import (
     fail_too_many_args,
     type_representation,
 )
-from asta.constants import NoneType, tf, torch
+from asta.constants import NoneType, NonInstanceType, tf, torch
 from asta.substitution import substitute
 
 try:
@@ -488,6 +489,9 @@ def check_none(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
         fail_literal(name, [None], value, ox)
 
 
+# The type of ``X | Y`` unions, as of Python 3.10.
+UNION_TYPE: Any = getattr(types, "UnionType", NonInstanceType)
+
 # Equality checks are applied to these.
 ORIGIN_TYPE_CHECKERS = {
     AbstractSet: check_set,
@@ -547,6 +551,9 @@ def check_annotation(
     if isinstance(annotation, SubscriptableMeta):
         equations = check_asta(name, value, annotation, equations, ox)
 
+    elif isinstance(annotation, UNION_TYPE):
+        equations = check_union(name, value, annotation, equations, ox)
+
     elif origin is not None:
         checker_function_map: Dict[Any, Any] = dict(ORIGIN_TYPE_CHECKERS)
         if ox.check_non_asta_types:
-- 
2.43.0


From 9a42b03e1ad2f9aa51ba1219335f5bb53bdcadef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 19/45] fix: shapes mixing '...' or -1 with symbols no longer
 hit an assertion

---
 asta/utils.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 9c74f65..37d976f 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -226,24 +226,17 @@ def split(
     elem: Union[int, EllipsisType],  # type: ignore[valid-type]
 ) -> List[Tuple[int, ...]]:
     """ Split on an element. """
-    shape_list = list(shape)
-    tokens: List[str] = []
-    for num in shape_list:
-        if num == elem:
-            tokens.append("@")
-        else:
-            assert isinstance(num, int)
-            tokens.append(str(num))
-    seq: str = ",".join(tokens)
-    comma_fragments: List[str] = seq.split("@")
-
     result: List[Tuple[int, ...]] = []
-    for frag in comma_fragments:
-        if frag:
-            frag_tokens = [token for token in frag.split(",") if token]
-            frag_nums = [int(token) for token in frag_tokens]
-            frag_tuple = tuple(frag_nums)
-            result.append(frag_tuple)
+    frag: Tuple[int, ...] = ()
+    for dim in shape:
+        if dim == elem:
+            if frag:
+                result.append(frag)
+            frag = ()
+        else:
+            frag += (dim,)  # type: ignore[operator]
+    if frag:
+        result.append(frag)
 
     return result
 
-- 
2.43.0


From 5e594f5ab101fdfd25d698a0c2b796c7994c4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 20/45] fix: equations from rejected alignments are discarded

---
 asta/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 37d976f..317f990 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -215,9 +215,10 @@ def is_subtuple(
     assert isinstance(sub, tuple)
     assert isinstance(tup, tuple)
     for i in range(len(tup) - len(sub) + 1):
-        equal, equations = check_equal(sub, tup[i : i + len(sub)], equations)
+        # Equations from an alignment which doesn't match must be discarded.
+        equal, new_equations = check_equal(sub, tup[i : i + len(sub)], set(equations))
         if equal:
-            return True, i, equations
+            return True, i, new_equations
     return False, -1, equations
 
 
-- 
2.43.0


From 8836e3a57f2bfd5d1b6b37f5756184659a98a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 21/45] fix: the dimensions after the last '...' are matched at
 the end of the shape

---
 asta/utils.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 317f990..be1b41b 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -90,8 +90,15 @@ def shapecheck(
         ishape = inst_shape
         for i, frag in enumerate(frags):
 
+            # Last fragement must end at (exclusive) ``len(ishape)`` if '...' is
+            # not the last element of ``cls_shape``.
+            skip = 0
+            if i == len(frags) - 1 and not right_bookend:
+                skip = max(len(ishape) - len(frag), 0)
+
             # Look for ``frag`` in ``ishape``, and find starting index.
-            is_sub, index, equations = is_subtuple(frag, ishape, equations)
+            is_sub, index, equations = is_subtuple(frag, ishape[skip:], equations)
+            index += skip
 
             # Must have ``frag`` contained in ``ishape``.
             if not is_sub:
@@ -104,16 +111,6 @@ def shapecheck(
                 match = False
                 break
 
-            # Last fragement must end at (exclusive) ``len(ishape)`` if
-            # '...' is not the last element of ``cls_shape``.
-            if (
-                i == len(frags) - 1
-                and not right_bookend
-                and index + len(frag) != len(ishape)
-            ):
-                match = False
-                break
-
             # The subseq of ``ishape`` being substituted for ``...``.
             substituted = ishape[:index]
 
-- 
2.43.0


From af246d75632908fad09ab0e1f8c3fb2ea22135a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 22/45] fix: an uninitialized dimension counts as uninitialized
 when errors are only printed

---
 asta/substitution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asta/substitution.py b/asta/substitution.py
index 3bd8ea5..3bba1ad 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -55,6 +55,7 @@ def substitute(
                     if value is None:
 
                         # If so, we treat as before and raise an error.
+                        initialized = False
                         name = symbol.name
 
                         # Prevents us from printing the same error message twice.
-- 
2.43.0


From 1a8bc645a243b67b73117205f1c0fda77b4e39d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 23/45] fix: a tuple plus a shape placeholder is their
 concatenation

---
 asta/placeholder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index fdbed3e..52ec03c 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -56,3 +56,9 @@ class Placeholder:
         result.contents = sum_contents
         result.composite = True
         return result
+
+    def __radd__(self, summand: Any) -> Any:
+        """ Return the concatenation of a tuple and the placeholder. """
+        result = self + summand
+        result.contents = result.contents[-1:] + result.contents[:-1]
+        return result
-- 
2.43.0


From 60fee3b4c1cea613fdce93d4b8bded4c784e5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 24/45] fix: a TensorShape after a dtype in a TFTensor
 subscript

---
 asta/_tftensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 45668a4..e375acd 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -125,6 +125,11 @@ class _TFTensor(metaclass=_TFTensorMeta):
         """ Set class attributes based on the passed dtype/dim data. """
         if isinstance(item, tf.TensorShape):
             item = tuple(item)
+        elif isinstance(item, tuple):
+            item = tuple(
+                tuple(elem) if isinstance(elem, tf.TensorShape) else elem
+                for elem in item
+            )
         dtype, shape, kwattrs, _ = parse_subscript(cls, item, tf.dtypes.DType)
         cls.dtype = dtype
         cls.shape = shape
-- 
2.43.0


From 054408903c9d2d455515883e916060e55c9d3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 25/45] fix: settings in setup.cfg and pyproject.toml are
 honoured, as documented

---
 asta/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index 2957082..41ace75 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -70,10 +70,9 @@ def find_default_config_files() -> Generator[str, None, None]:
 
 
 def find_astarc() -> Optional[str]:
-    """ Look for an ``astarc`` file. Return it if found, else return ``None``. """
+    """ Look for a configuration file. Return it if found, else return ``None``. """
     for config_file in find_default_config_files():
-        if config_file.endswith("astarc"):
-            return config_file
+        return config_file
     return None
 
 
@@ -99,10 +98,11 @@ def read_config(config_path: str) -> configparser.ConfigParser:
 
         # Normalize sections' titles.
         for sect, values in list(parser._sections.items()):  # type: ignore
+            title = sect
             if sect.startswith("asta."):
-                sect = sect[len("asta.") :]
-            if not sect.isupper() and values:
-                parser._sections[sect.upper()] = values  # type: ignore[attr-defined]
+                title = sect[len("asta.") :]
+            if title.upper() != sect and values:
+                parser._sections[title.upper()] = values  # type: ignore[attr-defined]
     return parser
 
 
@@ -111,7 +111,7 @@ def as_dict(config: configparser.ConfigParser) -> Dict[str, Dict[str, str]]:
     dictionary: Dict[str, Dict[str, str]] = collections.OrderedDict()
     for section in config.sections():
         dictionary[section] = {}
-        for key, val in config.items(section):
+        for key, val in config.items(section, raw=True):
             dictionary[section][key] = val
     return dictionary
 
-- 
2.43.0


From ea2bd86c0ffc2ea5e09d9972383970d564702c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 26/45] fix: dict subclasses are not checked as typed
 dictionaries

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 17209b9..cd78434 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -570,7 +570,7 @@ def check_annotation(
 
         if issubclass(annotation, Tuple):  # type: ignore[arg-type]
             equations = check_tuple(name, value, annotation, equations, ox)
-        elif issubclass(annotation, dict) and hasattr(annotation, "__annotations__"):
+        elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
-- 
2.43.0


From 1001d77fe77efe4e7baec7a965b3306a42ff1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:55 +0000
Subject: [PATCH 27/45] fix: an object numpy dtype in a tensor subscript is not
 a scalar marker

---
 asta/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asta/parser.py b/asta/parser.py
index 7c6da9c..5beb4fe 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -52,7 +52,8 @@ def parse_subscript(
         kwattrs = item
 
     # Case where dtype is Any and shape is scalar.
-    elif item in (Scalar, ()):
+    # Not ``item in (Scalar, ())``: ``np.dtype("O")`` compares equal to any class.
+    elif isscalar or item == ():
         shape = ()
 
     # Case where dtype is not passed in, and there's one input.
-- 
2.43.0


From 5e99105c21673636feb7d3c9643afc11878b3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:44 +0000
Subject: [PATCH 28/45] fix: dimensions inside a shape tuple are validated like
 any other

---
 asta/classes.py | 9 +++++----
 asta/parser.py  | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/asta/classes.py b/asta/classes.py
index 5506486..9882be0 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -143,6 +143,11 @@ class SubscriptableMeta(GenericMeta):
         """ Compute shape from a shape tuple argument. """
         shape: Optional[Tuple] = None
 
+        # ``((1,2,3),)`` -> ``(1,2,3)``.
+        if isinstance(item, tuple) and len(item) == 1:
+            if isinstance(item[0], tuple) and item[0]:
+                item = item[0]
+
         if item != tuple() and item is not None:
             if Scalar not in item and () not in item:
                 shape = item
@@ -153,8 +158,4 @@ class SubscriptableMeta(GenericMeta):
                 none_err += "Use 'Array[None]' for scalar arrays."
                 raise TypeError(none_err)
 
-        # ``((1,2,3),)`` -> ``(1,2,3)``.
-        if isinstance(shape, tuple) and len(shape) == 1 and isinstance(shape[0], tuple):
-            shape = shape[0]
-
         return shape
diff --git a/asta/parser.py b/asta/parser.py
index 5beb4fe..cfe6b0d 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -28,6 +28,8 @@ def verify_dimensions(cls: SubscriptableMeta, item: Any) -> None:
             err = f"Invalid dimension '{dim}' of type '{type(dim)}'. "
             err += f"Valid dimension types: {cls.DIM_TYPES}"
             raise TypeError(err)
+        elif isinstance(dim, tuple):
+            verify_dimensions(cls, dim)
 
 
 def parse_subscript(
-- 
2.43.0


From 77ddcfc6c7aecf7e0f3a5dd566f3023ac9413ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:28 +0000
Subject: [PATCH 29/45] fix: an annotation with a non-integer dimension is not
 checked further when errors are only printed

---
 asta/substitution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asta/substitution.py b/asta/substitution.py
index 3bba1ad..2f4dcfe 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -68,9 +68,12 @@ def substitute(
 
             # If this is a number (contains no symbols), it ought to be an integer.
             if isinstance(expression, Number):
-                if not isinstance(expression, Integer):
+                if isinstance(expression, Integer):
+                    expression = int(expression)
+                else:
+                    # If errors are only printed, we don't proceed with the check.
+                    initialized = False
                     fail_numerical_expression(shape[i], expression, ox)
-                expression = int(expression)
             dimension_sizes.append(expression)
 
         # Case 2: ``item`` is a placeholder.
-- 
2.43.0


From 52163d2c6a35b89af119cadac6f113d00f70cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 30/45] fix: None as an annotation (e.g. '-> None') was never
 checked

---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index cd78434..893fe06 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -540,6 +540,10 @@ def check_annotation(
     # solution, all the annotations' solutions must agree for a given function
     # signature.
 
+    # ``None`` in an annotation stands for its type.
+    if annotation is None:
+        annotation = NoneType
+
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
-- 
2.43.0


From f3b1366700c71206195c3d978f03058d82c1adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 31/45] fix: report a wrong-length tuple's own length as the
 mismatched one

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 893fe06..269b724 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -289,7 +289,7 @@ def check_tuple(
         else:
             if len(value) != len(tuple_params):
                 ann_rep = qualified_name(annotation)
-                fail_tuple_length(name, len(tuple_params), ann_rep, len(value), ox)
+                fail_tuple_length(name, len(value), ann_rep, len(tuple_params), ox)
                 return equations
 
             for i, (elem, elem_type) in enumerate(zip(value, tuple_params)):
-- 
2.43.0


From 63d5ee88cdff79a8e9092880b73d6919e63fe27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 32/45] fix: name the protocol and the value's type the right
 way round

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 269b724..1923ab3 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -471,7 +471,7 @@ def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with protocol annotations. """
     if not issubclass(type(value), annotation):
-        fail_protocol(name, type(value).__qualname__, annotation.__qualname__, ox)
+        fail_protocol(name, annotation.__qualname__, type(value).__qualname__, ox)
 
 
 def check_literal(
-- 
2.43.0


From b4505ac728dda0fda319ce44aa6285d276c51e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 33/45] fix: typed dictionaries with inherited or marked keys
 were judged by totality alone

---
 asta/origins.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 1923ab3..15d13db 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -162,10 +162,13 @@ def check_typed_dict(
     if extra_keys:
         fail_keys(name, expected_keys, existing_keys, ox)
 
-    if annotation.__total__:
-        missing_keys = expected_keys - existing_keys
-        if missing_keys:
-            fail_keys(name, expected_keys, existing_keys, ox)
+    # ``__total__`` says nothing of the keys inherited or marked individually.
+    default_keys = expected_keys if annotation.__total__ else frozenset()
+    required_keys = getattr(annotation, "__required_keys__", default_keys)
+
+    missing_keys = required_keys - existing_keys
+    if missing_keys:
+        fail_keys(name, expected_keys, existing_keys, ox)
 
     # pylint: disable=invalid-name
     MISSING_VALUE = object()
-- 
2.43.0


From 737cc94970e2af2d9fd7a7d228592284a8e92d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 34/45] fix: fields marked Required or NotRequired were not
 checked

---
 asta/origins.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 15d13db..e4ab74c 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -65,6 +65,13 @@ try:
 except ImportError:
     Literal = None
 
+try:
+    from typing import Required, NotRequired  # type: ignore[attr-defined]
+
+    FIELD_MARKERS: Tuple[Any, ...] = (Required, NotRequired)
+except ImportError:
+    FIELD_MARKERS = ()
+
 # pylint: disable=too-many-lines, too-many-nested-blocks, too-many-branches
 
 
@@ -173,6 +180,11 @@ def check_typed_dict(
     # pylint: disable=invalid-name
     MISSING_VALUE = object()
     for key, argtype in annotation.__annotations__.items():
+
+        # The type of a field marked ``Required`` or ``NotRequired``.
+        if getattr(argtype, "__origin__", None) in FIELD_MARKERS:
+            argtype = argtype.__args__[0]
+
         argvalue = value.get(key, MISSING_VALUE)
         if argvalue is not MISSING_VALUE:
             equations = check_annotation(
-- 
2.43.0


From e0a8fda9e909710422a7eb0e07fc85106dc6d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 35/45] fix: callables with optional parameters were taken for
 too short ones

---
 asta/origins.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index e4ab74c..5ce4b84 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -240,6 +240,17 @@ def check_callable(
                     and param.default is inspect.Parameter.empty
                 ]
             )
+            num_positional_args = len(
+                [
+                    param.name
+                    for param in signature.parameters.values()
+                    if param.kind
+                    in (
+                        inspect.Parameter.POSITIONAL_ONLY,
+                        inspect.Parameter.POSITIONAL_OR_KEYWORD,
+                    )
+                ]
+            )
             has_varargs = any(
                 param
                 for param in signature.parameters.values()
@@ -249,8 +260,8 @@ def check_callable(
             # NOTE: Consider adding true recursive checking.
             if num_mandatory_args > len(argument_types):
                 fail_too_many_args(name, len(argument_types), num_mandatory_args, ox)
-            elif not has_varargs and num_mandatory_args < len(argument_types):
-                fail_too_few_args(name, len(argument_types), num_mandatory_args, ox)
+            elif not has_varargs and num_positional_args < len(argument_types):
+                fail_too_few_args(name, len(argument_types), num_positional_args, ox)
     return equations
 
 
-- 
2.43.0


From 76864d42e1a3415c34aea409c7f364018020b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 36/45] fix: Type[Any] rejected classes

---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 5ce4b84..089f20c 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -467,6 +467,11 @@ def check_class(
 
     args = getattr(annotation, "__args__", None)
     expected_class = args[0] if args else None
+
+    # ``Any`` is a class as of Python 3.11.
+    if expected_class is Any:
+        return equations
+
     if inspect.isclass(expected_class) and not issubclass(value, expected_class):
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
-- 
2.43.0


From f4bdda3850d80d86bf3bfbce1ae56d826685562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 37/45] fix: subclasses of float and complex accepted every
 value

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 089f20c..368fe27 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -610,7 +610,7 @@ def check_annotation(
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
         elif ox.check_non_asta_types:
-            if issubclass(annotation, (float, complex)):
+            if annotation in (float, complex):
                 check_number(name, value, annotation, ox)
             elif subclass_callable and has_args:
                 # Needed on Python 3.5.0 to 3.5.2
-- 
2.43.0


From bec53c954c362422a7d1b3bea33eaa5d8a98fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 38/45] fix: protocols which are not runtime checkable, or have
 data members, crashed the check

---
 asta/origins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 368fe27..966a9d9 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -501,7 +501,11 @@ def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 
 def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with protocol annotations. """
-    if not issubclass(type(value), annotation):
+    # There is no telling what implements any other protocol.
+    if not getattr(annotation, "_is_runtime_protocol", False):
+        return
+
+    if not isinstance(value, annotation):
         fail_protocol(name, annotation.__qualname__, type(value).__qualname__, ox)
 
 
-- 
2.43.0


From 12cdbdc73896793a77653bf9abc36bcb441fe0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 39/45] fix: arrays crashed the check of a Literal

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 966a9d9..e4a74c1 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -513,7 +513,7 @@ def check_literal(
     name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
 ) -> Set[Expr]:
     """ Typecheck a value annotated with ``Literal[*]``. """
-    if value not in annotation.__args__:
+    if not any(isinstance(value, type(x)) and value == x for x in annotation.__args__):
         fail_literal(name, annotation.__args__, value, ox)
     return equations
 
-- 
2.43.0


From 854261327ebdb4f66a4b3b2effb414b0bb972d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 40/45] fix: Type of a protocol which can't be checked crashed
 the check

---
 asta/origins.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index e4a74c1..9c80da0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -472,7 +472,15 @@ def check_class(
     if expected_class is Any:
         return equations
 
-    if inspect.isclass(expected_class) and not issubclass(value, expected_class):
+    try:
+        matches = not inspect.isclass(expected_class) or issubclass(
+            value, expected_class
+        )
+    except TypeError:
+        # There is no telling what implements some protocols.
+        return equations
+
+    if not matches:
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
 
-- 
2.43.0


From 8d6c0eec7198010760bb8acf1adf0f085c0d16f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 41/45] fix: Array types without a dtype are not equal to those
 with numpy's default dtype

---
 asta/_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/_array.py b/asta/_array.py
index 2c6d069..b5e2c50 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -45,6 +45,10 @@ class _ArrayMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+
+        # Numpy takes ``None`` for its default dtype.
+        if (cls.dtype is None) != (other.dtype is None):
+            return False
         if cls.kind != other.kind or cls.kwattrs != other.kwattrs:
             return False
         return True
-- 
2.43.0


From 8e031701b2fc4fdf1fae9721be1a94f4e60987c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 42/45] fix: a decorated function can be decorated again

---
 asta/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 706c981..ab0d925 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -128,7 +128,7 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
 
         return decorated
 
-    def _wrapper(*args: Tuple[Any], **kwargs: Dict[str, Any]) -> Any:
+    def _wrapper(*args: Any, **kwargs: Any) -> Any:
         """ Decorated/typechecked function. """
 
         # Print header for ``decorated``.
-- 
2.43.0


From df421186acb9f8aa3be2c04803c07e9dcca86cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 43/45] fix: evaluate annotations which are strings, instead of
 leaving them unchecked

---
 asta/decorators.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/asta/decorators.py b/asta/decorators.py
index ab0d925..faf4663 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -60,6 +60,17 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 def get_annotations(decorated) -> Dict[str, Any]:  # type: ignore[no-untyped-def]
     """ Get the annotations, with variadic parameters annotated as containers. """
     annotations: Dict[str, Any] = dict(decorated.__annotations__)
+
+    # Evaluate postponed annotations (PEP 563).
+    scope = getattr(inspect.unwrap(decorated), "__globals__", {})
+    for name, annotation in annotations.items():
+        if isinstance(annotation, str):
+            try:
+                annotations[name] = eval(annotation, scope)
+            except (AttributeError, NameError, SyntaxError):
+                # Not every annotation means something at runtime.
+                continue
+
     for name, param in inspect.signature(decorated).parameters.items():
         if name in annotations and param.kind == param.VAR_POSITIONAL:
             annotations[name] = Tuple[annotations[name], ...]
-- 
2.43.0


From b95b3d35e72992aad1af07e7a27500f07ddea142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 44/45] fix: compare a callable's keyword-only defaults by
 identity, as an array has no single truth

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 9c80da0..2307e29 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -222,7 +222,7 @@ def check_callable(
                 param.name
                 for param in signature.parameters.values()
                 if param.kind == inspect.Parameter.KEYWORD_ONLY
-                and param.default == inspect.Parameter.empty
+                and param.default is inspect.Parameter.empty
             ]
             if unfulfilled_kwonlyargs:
                 # NOTE: Should this output a warning?
-- 
2.43.0


From bd90d5c254dff42264ef4b5bead122f33ab141aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 45/45] fix: compare attributes which are arrays as a whole

---
 asta/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/utils.py b/asta/utils.py
index be1b41b..71ee48f 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -5,6 +5,7 @@ import random
 import functools
 from typing import Any, Set, Dict, List, Tuple, Union, Optional
 
+import numpy as np
 from sympy import solvers, simplify
 from sympy.core.expr import Expr
 from sympy.core.symbol import Symbol
@@ -172,6 +173,11 @@ def attrcheck(
             break
         if isinstance(value, Expr):
             equations.add(value - attr)
+        elif isinstance(attr, np.ndarray) or isinstance(value, np.ndarray):
+            # The ``!=`` operator compares arrays element by element.
+            if not np.array_equal(attr, value):
+                match = False
+                break
         elif attr != value:
             match = False
             break
-- 
2.43.0

