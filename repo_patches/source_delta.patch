From e860f24416b11650a543df2d4d9f2eca67629647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 01/50] fix: reject arguments given both positionally and by
 keyword in expects and all_set

The presence of variadic keyword parameter made `expects` & `all_set`
accept calls which give a parameter multiple values,
while `bind` (as well as Python itself) rejects them.
---
 paradigm/_core/models.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index da4ea56..8d1a558 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -316,6 +316,8 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if _has_multiple_values(positionals[:len(args)], kwargs):
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords: t.Iterable[Parameter] = (
@@ -353,6 +355,8 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if _has_multiple_values(positionals[:len(args)], kwargs):
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords = (
@@ -575,6 +579,17 @@ def from_signatures(*signatures: Signature) -> Signature:
             else OverloadedSignature(*plain_signatures))
 
 
+def _has_multiple_values(positionals: t.Iterable[Parameter],
+                         kwargs: t.Dict[str, _KwArg]) -> bool:
+    """
+    Checks if any of parameters specified by positional arguments
+    is specified by a keyword argument as well.
+    """
+    return any(positional.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+               and positional.name in kwargs
+               for positional in positionals)
+
+
 def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                       args: t.Tuple[_Arg, ...],
                       kwargs: t.Dict[str, _KwArg],
-- 
2.43.0


From 31a11fa60b45a216bc4197fef1de8c4897f62b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 02/50] fix: bind keyword arguments named after positional-only
 parameters

Such arguments are collected by the variadic keyword parameter
in Python (and are expected by `expects`), but binding them along with
the positional argument used to raise `TypeError`.
---
 paradigm/_core/models.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 8d1a558..4e1caea 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -605,6 +605,12 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
         raise TypeError(f'Takes {len(positionals)} positional {value}, '
                         f'but {len(args)} '
                         f'{"was" if len(args) == 1 else "were"} given.')
+    # keyword arguments named after positional-only parameters
+    # are collected by the variadic keyword parameter if there is one
+    has_variadic_keyword = any(
+            parameter.kind is ParameterKind.VARIADIC_KEYWORD
+            for parameter in parameters
+    )
     for positional in positionals[:len(args)]:
         if positional.name in kwargs:
             kind = positional.kind
@@ -612,7 +618,7 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                     or kind is ParameterKind.KEYWORD_ONLY):
                 raise TypeError('Got multiple values '
                                 f'for parameter "{positional.name}".')
-            else:
+            elif not has_variadic_keyword:
                 raise TypeError(f'Parameter "{positional.name}" is {kind!s}, '
                                 'but was passed as a keyword.')
     return positionals[len(args):] + parameters[len(positionals):]
-- 
2.43.0


From 737a43e2d1f8902c2fac2a5809639d8ab397116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 03/50] fix: keep bound keyword argument as default of
 parameter with default

Binding a keyword argument to a parameter with default
used to lose the argument and keep the original default,
while for the parameters without default it was kept.
---
 paradigm/_core/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 4e1caea..5a1b821 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -653,11 +653,12 @@ def _bind_keywords(parameters: t.Tuple[Parameter, ...],
                                 annotation=parameter.annotation,
                                 name=parameter.name,
                                 kind=ParameterKind.KEYWORD_ONLY,
-                                **({'default': parameter.default}
-                                   if (isinstance(parameter, OptionalParameter)
-                                       and parameter.has_default)
-                                   else ({'default': kwargs[parameter.name]}
-                                         if parameter.name in kwargs_names
+                                **({'default': kwargs[parameter.name]}
+                                   if parameter.name in kwargs_names
+                                   else ({'default': parameter.default}
+                                         if (isinstance(parameter,
+                                                        OptionalParameter)
+                                             and parameter.has_default)
                                          else {}))
                         )
                         if (isinstance(parameter, OptionalParameter)
-- 
2.43.0


From 5ca339ace1872fda87ec7848de422146259d41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:19 +0000
Subject: [PATCH 04/50] fix: make hashes of signatures & parameters consistent
 with equality

Annotations & defaults are compared structurally,
so equal ones can have different hashes (e.g. type variables)
or have none at all (e.g. lists): they can't take part in hashing.
---
 paradigm/_core/models.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 5a1b821..8057667 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -124,7 +124,7 @@ class RequiredParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation, self._kind, self._name))
+        return hash((self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -216,9 +216,7 @@ class OptionalParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation,
-                     *((self._default,) if self._has_default else ()),
-                     self._kind, self._name))
+        return hash((self._has_default, self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -461,7 +459,7 @@ class PlainSignature(BaseSignature):
         return self._parameters, {'returns': self._returns}
 
     def __hash__(self) -> int:
-        return hash((self._parameters, self.returns))
+        return hash(self._parameters)
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
-- 
2.43.0


From c575b2937e5be425cee25b5f3f8438b39c4b25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 05/50] fix: make structural equality of annotations & defaults
 symmetric

Bare & parametrized aliases (`typing.List`, `list[int]`) on the left
were compared by identity with ones on the right compared structurally,
and byte strings were equal to byte arrays only in one direction.
---
 paradigm/_core/annotated.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 2b0efb1..70128c1 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -22,6 +22,9 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 
 
 @are_equal.register(GenericAlias)
+@are_equal.register(type(t.Callable))
+@are_equal.register(type(t.List))
+@are_equal.register(type(t.Tuple))
 @are_equal.register(type(t.Union[int, None]))
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
@@ -62,6 +65,10 @@ def _(left: ParamSpecArgs, right: t.Any) -> bool:
             and are_equal(left.__origin__, right.__origin__))
 
 
+if sys.version_info >= (3, 9):
+    are_equal.register(types.GenericAlias, are_equal.dispatch(type))
+
+
 if sys.version_info < (3, 10):
     @are_equal.register(types.LambdaType)
     def _(left: types.LambdaType,
@@ -112,7 +119,7 @@ def _(left: t.TypeVar, right: t.Any) -> bool:
 @are_equal.register(bytes)
 @are_equal.register(str)
 def _(left: t.Union[bytes, str], right: t.Any) -> bool:
-    result = left == right
+    result = isinstance(right, (bytes, str)) and left == right
     assert isinstance(result, bool), result
     return result
 
-- 
2.43.0


From 2f746482d5d31b531d485d646388ab8db76a63ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 06/50] fix: use underlying function of bound method instead of
 searching it by name

Name of the function can differ from the name of the attribute
it is accessible by (e.g. for decorated methods & aliases),
which led to `AttributeError` or signature of unrelated attribute.
---
 paradigm/_core/signatures.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 14808fe..7abb83d 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -70,8 +70,7 @@ def _(_callable: _types.MethodType) -> _Signature:
     try:
         return (_from_callable(_callable)
                 if isinstance(_callable.__self__, type)
-                else (_from_callable(getattr(type(_callable.__self__),
-                                             _callable.__name__))
+                else (_from_callable(_callable.__func__)
                       .bind(_callable.__self__)))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
-- 
2.43.0


From 766ac059a013546ccf6c2ff31f66e1326a2ad401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 07/50] fix: don't mistake user-defined functions for builtins
 with the same name

Functions & methods defined in a module with a stub
(e.g. `__main__`) but missing in it were resolved as builtins.
---
 paradigm/_core/signatures.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 7abb83d..01b3212 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -466,8 +466,16 @@ def resolve_qualified_paths(
         candidates_paths = _qualified_paths[module_path][object_path]
     except KeyError:
         assert not module_path or object_path, value
+        resolved_path = _try_resolve_object_path(module_path, object_path)
+        resolved_module_path, _ = resolved_path
+        # names missing in the module's stub are resolved as builtins,
+        # so we need to make sure that the value is not just their namesake
         qualified_paths = ([(module_path, object_path)]
-                           if module_path
+                           if (module_path
+                               and (resolved_module_path == module_path
+                                    or _value_has_qualified_path(
+                                               value, resolved_path
+                                       )))
                            else [])
     else:
         qualified_paths = [path
-- 
2.43.0


From 0e0e61d823b1eb35b4493689039743e2f6444112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 08/50] fix: find constructors inherited by stdlib classes

Search along the superclasses was looking for the path of constructor
of the original class instead of the superclass,
so inherited constructors were never found.
---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 01b3212..97b857f 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -505,8 +505,8 @@ def _to_class_builder_qualified_path(
     for base_module_path, base_object_path in _to_mro(module_path,
                                                       object_path):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
-        constructor_path = (*object_path, constructor_name)
-        initializer_path = (*object_path, initializer_name)
+        constructor_path = (*base_object_path, constructor_name)
+        initializer_path = (*base_object_path, initializer_name)
         if initializer_path in base_module_annotations:
             return (base_module_path, initializer_path)
         elif constructor_path in base_module_annotations:
-- 
2.43.0


From 57c9f81bed54153457a77a53156d9820a3db50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 09/50] fix: register constructors of named tuples under their
 own paths

They were registered under the paths of the classes
while being searched by the paths of `__new__` methods.
---
 paradigm/_core/stubs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 2fb89cc..34276d6 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -301,7 +301,8 @@ if _reload_cache:
                         constructor_node = (
                             _named_tuple_to_constructor_ast_node(node)
                         )
-                        self._add_ast_node((class_name,), constructor_node)
+                        constructor_path = (class_name, constructor_node.name)
+                        self._add_ast_node(constructor_path, constructor_node)
                         self._add_superclass(class_path, base_module_path,
                                              base_object_path)
                         continue
-- 
2.43.0


From 9ac02fe4cbffe3bde811deff78a97e358ba0fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 10/50] fix: prefer the path by which callable identifies
 itself

Resolved paths were tried in lexicographical order,
so e.g. `time.localtime` got its signature from the annotation
of `logging.Formatter.converter`.
---
 paradigm/_core/signatures.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 97b857f..1b54afe 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -481,6 +481,20 @@ def resolve_qualified_paths(
         qualified_paths = [path
                            for path in candidates_paths
                            if _value_has_qualified_path(value, path)]
+    value_path = (module_path, object_path)
+
+    def to_key(
+            path: _catalog.QualifiedPath
+    ) -> _t.Tuple[bool, bool, _catalog.QualifiedPath]:
+        # definitions are more specific than variables referring to them,
+        # the path by which the value identifies itself
+        # is more specific than its aliases
+        path_module_path, path_object_path = path
+        node_kind = _stubs.nodes_kinds[path_module_path].get(path_object_path)
+        return (node_kind in (_NodeKind.ANNOTATED_ASSIGNMENT,
+                              _NodeKind.ASSIGNMENT),
+                path != value_path, path)
+
     return sorted({
         (module_path, object_path)
         for module_path, object_path in [
@@ -488,7 +502,7 @@ def resolve_qualified_paths(
             for module_path, object_path in qualified_paths
         ]
         if module_path and object_path
-    })
+    }, key=to_key)
 
 
 def _to_class_builder_qualified_path(
-- 
2.43.0


From 2bb16aff01d6809406abb5e894fbbb5db02bb167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 11/50] fix: search all superclasses before falling back to
 object

Methods which `object` has too were found in it
while looking up in the first of the superclasses.
---
 paradigm/_core/scoping.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index b007fd3..48370ae 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -91,7 +91,7 @@ def resolve_object_path(
                             superclass_module_path, superclass_object_path
                     ) in sub_path_superclasses:
                         try:
-                            return resolve_object_path(
+                            result = resolve_object_path(
                                     superclass_module_path, (),
                                     superclass_object_path
                                     + object_path[index:],
@@ -101,6 +101,15 @@ def resolve_object_path(
                             )
                         except ObjectNotFound:
                             continue
+                        result_module_path, result_object_path = result
+                        if (result_module_path == _builtins_module_path
+                                and (result_object_path
+                                     == ((object.__name__,)
+                                         + object_path[index:]))):
+                            # ``object`` is the last in order
+                            # in which classes are looked up
+                            continue
+                        return result
                 if object_path[0] != object.__name__:
                     return resolve_object_path(
                             _builtins_module_path, (),
-- 
2.43.0


From 2fddefab212527ffee416523ec1e95b58614031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 12/50] fix: linearize superclasses of stdlib classes in the
 same way Python does

Depth-first order looks into common superclasses too early:
e.g. constructor of `http.client.RemoteDisconnected` was considered
to be the one of `BaseException` instead of `http.client.BadStatusLine`.
---
 paradigm/_core/signatures.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 1b54afe..4b749d5 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -531,13 +531,19 @@ def _to_class_builder_qualified_path(
 def _to_mro(module_path: _catalog.Path,
             object_path: _catalog.Path) -> _t.Iterable[_catalog.QualifiedPath]:
     yield (module_path, object_path)
-    try:
-        bases = _stubs.superclasses[module_path][object_path]
-    except KeyError:
-        return
-    else:
-        for base_module_path, base_object_path in bases:
-            yield from _to_mro(base_module_path, base_object_path)
+    bases = list(_stubs.superclasses.get(module_path, {}).get(object_path, []))
+    # merging linearizations of bases in the same way Python does
+    queues = [list(_to_mro(*base)) for base in bases] + [bases]
+    while any(queues):
+        queues = [queue for queue in queues if queue]
+        candidate = next((queue[0]
+                          for queue in queues
+                          if not any(queue[0] in other[1:]
+                                     for other in queues)),
+                         queues[0][0])
+        yield candidate
+        queues = [[path for path in queue if path != candidate]
+                  for queue in queues]
 
 
 def _value_has_qualified_path(value: _t.Any,
-- 
2.43.0


From 323b2dffce10264cb9ac5ed786bca8a393361e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 13/50] fix: parse stubs in the same order regardless of hash
 seed

Specializations of generics from different modules share names,
so the order of parsing, which was the order of a set of strings,
affects signatures of stdlib callables.
---
 paradigm/_core/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/sources.py b/paradigm/_core/sources.py
index afb07ec..ad043ac 100644
--- a/paradigm/_core/sources.py
+++ b/paradigm/_core/sources.py
@@ -77,7 +77,8 @@ def _relative_file_path_to_module_path(path: Path) -> catalog.Path:
 
 
 _stubs_cache = _to_stubs_cache()
-stubs_stdlib_modules_paths = set(_stubs_cache.keys())
+# order affects the parsing, so it should be the same for all processes
+stubs_stdlib_modules_paths = sorted(_stubs_cache.keys())
 _sources_directories = {
     Path(sysconfig.get_path('platstdlib')), Path(sysconfig.get_path('stdlib'))
 }
-- 
2.43.0


From 622cbb88d4c035c8d3bb9d31dc43fc94bd19768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 14/50] fix: don't expose partially evaluated annotations to
 other threads

Placeholders of the assignments being evaluated are put in the cache
shared between threads, so signatures requested concurrently
could contain forward references instead of the annotations
& different classes for the same annotation.
---
 paradigm/_core/arboreal/evaluation.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index cc32ddc..79688d0 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -2,11 +2,13 @@ import ast
 import builtins
 import operator
 import sys
+import threading
 import types
 import typing as t
 import weakref
 from collections import ChainMap
-from functools import singledispatch
+from functools import (singledispatch,
+                       wraps)
 from importlib import import_module
 
 import typing_extensions as te
@@ -292,6 +294,26 @@ def _(ast_node: ast.Attribute,
                                        parent_namespace)
 
 
+_Params = te.ParamSpec('_Params')
+_Result = t.TypeVar('_Result')
+
+
+def _synchronize(
+        function: t.Callable[_Params, _Result],
+        *,
+        lock: t.ContextManager[t.Any] = threading.RLock()
+) -> t.Callable[_Params, _Result]:
+    @wraps(function)
+    def synchronized(*args: _Params.args, **kwargs: _Params.kwargs) -> _Result:
+        with lock:
+            return function(*args, **kwargs)
+
+    return synchronized
+
+
+# caches contain partially evaluated objects during the evaluation,
+# which should not be visible to other threads
+@_synchronize
 def evaluate_qualified_path(
         module_path: catalog.Path,
         object_path: catalog.Path,
-- 
2.43.0


From da3a97c93fa0a1d8c4fdad32e1141d18a6396d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 15/50] fix: don't wait forever for the result of dead helper
 process

If the process was killed or its result could not be pickled,
nothing was put in the queue
& importing of the package with no cache hanged.
---
 paradigm/_core/execution.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 2def910..1ce6bb6 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -3,7 +3,7 @@ import multiprocessing
 import sys
 import threading
 import typing as t
-from multiprocessing.queues import SimpleQueue
+from multiprocessing.connection import Connection
 
 
 def is_main_process() -> bool:
@@ -21,17 +21,23 @@ def call_in_process(function: t.Callable[..., t.Any],
         try:
             sys.modules['__main__'] = caller_module
             context = multiprocessing.get_context()
-            queue = context.SimpleQueue()
+            receiver, sender = context.Pipe(duplex=False)
             process = context.Process(
-                    target=_put_result_in_queue,
+                    target=_send_result,
                     name=(f'{call_in_process.__qualname__}_'
                           f'{function.__qualname__}'),
-                    args=(queue, function, *args),
+                    args=(sender, function, *args),
                     kwargs=kwargs
             )
             process.start()
-            result, error = queue.get()
-            process.join()
+            # the only sender left should be the one in the process,
+            # so its death is not waited for the result forever
+            sender.close()
+            try:
+                result, error = receiver.recv()
+            finally:
+                receiver.close()
+                process.join()
             if error is not None:
                 raise error
             return result
@@ -42,14 +48,14 @@ def call_in_process(function: t.Callable[..., t.Any],
                 sys.modules['__main__'] = main_module
 
 
-def _put_result_in_queue(queue: 'SimpleQueue[t.Any]',
-                         function: t.Callable[..., t.Any],
-                         *args: t.Any,
-                         **kwargs: t.Any) -> None:
+def _send_result(sender: Connection,
+                 function: t.Callable[..., t.Any],
+                 *args: t.Any,
+                 **kwargs: t.Any) -> None:
     try:
         result = function(*args, **kwargs)
     except Exception as error:
-        queue.put((None, error))
+        sender.send((None, error))
         raise error
     else:
-        queue.put((result, None))
+        sender.send((result, None))
-- 
2.43.0


From 684a6a2ad76d673ee4c94ee1fa678a5ede482812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 16/50] fix: resolve the path by which inherited callable
 identifies itself

---
 paradigm/_core/signatures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 4b749d5..daba0ff 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -481,7 +481,7 @@ def resolve_qualified_paths(
         qualified_paths = [path
                            for path in candidates_paths
                            if _value_has_qualified_path(value, path)]
-    value_path = (module_path, object_path)
+    value_path = _try_resolve_object_path(module_path, object_path)
 
     def to_key(
             path: _catalog.QualifiedPath
-- 
2.43.0


From dbceb158fcf9a046fa9602b32b6da8e64c9cc782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 17/50] fix: accept keyword arguments named self in expects,
 all_set & bind

---
 paradigm/_core/models.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 8057667..182d68f 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -274,18 +274,18 @@ class BaseSignature(ABC):
     __slots__ = ()
 
     @abstractmethod
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """
         Checks if the signature has no unspecified parameters left
         with given arguments.
         """
 
     @abstractmethod
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """Checks if the signature accepts given arguments."""
 
     @abstractmethod
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
         """Binds given arguments to the signature."""
 
 
@@ -302,7 +302,7 @@ class PlainSignature(BaseSignature):
     def returns(self) -> t.Any:
         return self._returns
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (
                 parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
@@ -341,7 +341,7 @@ class PlainSignature(BaseSignature):
         return (all_parameters_are_optional(rest_positionals_only)
                 and all_parameters_are_optional(rest_keywords))
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
                        + parameters_by_kind[
@@ -368,7 +368,7 @@ class PlainSignature(BaseSignature):
         )
         return not unexpected_keyword_arguments_found
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         return PlainSignature(
                 *_bind_keywords(
@@ -498,15 +498,15 @@ class OverloadedSignature(BaseSignature):
     def signatures(self) -> t.Sequence[PlainSignature]:
         return self._signatures
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.all_set(*args, **kwargs)
                    for signature in self._signatures)
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.expects(*args, **kwargs)
                    for signature in self._signatures)
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> Signature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> Signature:
         signatures = [signature.bind(*args, **kwargs)
                       for signature in self._signatures
                       if signature.expects(*args, **kwargs)]
-- 
2.43.0


From 5dfcb5980b9c520b305119d4d87a4eeecdf1a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 18/50] fix: compare unions written with | like other unions

---
 paradigm/_core/annotated.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 70128c1..8d8110d 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -29,8 +29,8 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     left_args, right_args = to_arguments(left), to_arguments(right)
-    left_origin, right_origin = (to_origin(left) or left,
-                                 to_origin(right) or right)
+    left_origin, right_origin = (_to_comparable_origin(left),
+                                 _to_comparable_origin(right))
     return (left_origin is right_origin
             and len(left_args) == len(right_args)
             and ((all(any(are_equal(left_arg, right_arg)
@@ -127,6 +127,16 @@ def _(left: t.Union[bytes, str], right: t.Any) -> bool:
 to_arguments = t.get_args
 to_origin = t.get_origin
 
+if sys.version_info < (3, 10):
+    def _to_comparable_origin(value: t.Any) -> t.Any:
+        return to_origin(value) or value
+else:
+    def _to_comparable_origin(value: t.Any) -> t.Any:
+        # ``X | Y`` is the same thing as ``typing.Union[X, Y]``
+        return (t.Union
+                if isinstance(value, types.UnionType)
+                else to_origin(value) or value)
+
 
 @singledispatch
 def to_repr(value: t.Any) -> str:
-- 
2.43.0


From c244168f86600222848029c87d46418c695f5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 19/50] fix: compare parameter specifications structurally

---
 paradigm/_core/annotated.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 8d8110d..114333e 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -12,6 +12,9 @@ from typing_extensions import (Literal,
 _T = t.TypeVar('_T')
 GenericAlias: t.Any = type(t.Generic[_T])
 del _T
+# may differ from ``ParamSpec`` itself,
+# since it can be just a factory of instances of ``typing.ParamSpec``
+_ParamSpecType: t.Any = type(ParamSpec('_P'))
 
 
 @singledispatch
@@ -50,7 +53,7 @@ def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
             and all(map(are_equal, left, right)))
 
 
-@are_equal.register(ParamSpec)
+@are_equal.register(_ParamSpecType)
 def _(left: ParamSpec, right: t.Any) -> bool:
     return (type(left) is type(right)
             and left.__name__ == right.__name__
-- 
2.43.0


From f68c6615f5638347d1b6572e9a4c5a619d510f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 20/50] fix: do not treat first parameters of static methods as
 instances

---
 paradigm/_core/signatures.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index daba0ff..fbf0b50 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -328,8 +328,14 @@ def _parameters_from(
     ))
     if isinstance(callable_, type):
         del result[0]
-    elif any(_is_classmethod(decorator_node, module_path, parent_path)
+    elif any(_is_builtin_decorator(decorator_node, module_path, parent_path,
+                                   staticmethod)
              for decorator_node in ast_node.decorator_list):
+        pass
+    elif (parent_path and ast_node.name in _IMPLICIT_CLASS_METHODS_NAMES
+          or any(_is_builtin_decorator(decorator_node, module_path,
+                                       parent_path, classmethod)
+                 for decorator_node in ast_node.decorator_list)):
         result[0] = _RequiredParameter(annotation=_t.Type[_Self],
                                        kind=_ParameterKind.POSITIONAL_ONLY,
                                        name=result[0].name)
@@ -358,21 +364,27 @@ def _returns_annotation_from(
                                                  parent_path, {})))
 
 
-def _is_classmethod(
+_IMPLICIT_CLASS_METHODS_NAMES = (object.__new__.__name__,
+                                 object.__init_subclass__.__name__,
+                                 '__class_getitem__')
+
+
+def _is_builtin_decorator(
         expression_node: _ast.expr,
         module_path: _catalog.Path,
         parent_path: _catalog.Path,
+        decorator: type,
         *,
-        classmethod_qualified_path: _catalog.QualifiedPath
-        = (_catalog.module_path_from_module(_builtins),
-           _catalog.path_from_string(classmethod.__qualname__)),
+        builtins_module_path: _catalog.Path
+        = _catalog.module_path_from_module(_builtins)
 ) -> bool:
     maybe_path = _conversion.to_maybe_path(expression_node)
     return (maybe_path is not None
             and _scoping.resolve_object_path(
                     module_path, parent_path, maybe_path, _stubs.definitions,
                     _stubs.references, _stubs.submodules, _stubs.superclasses
-            ) == classmethod_qualified_path)
+            ) == (builtins_module_path,
+                  _catalog.path_from_string(decorator.__qualname__)))
 
 
 class _SignatureNotFound(Exception):
-- 
2.43.0


From 80a807f8da723f1561fdbff4fdb13553ee6fd432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 21/50] fix: bind class methods to the classes they are
 accessed through

---
 paradigm/_core/signatures.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index fbf0b50..82cd007 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -45,7 +45,7 @@ def _(
         ]
 ) -> _Signature:
     try:
-        return ((_from_callable(_callable)
+        return ((_from_builtin_class_method(_callable)
                  if isinstance(_callable.__self__, type)
                  else (_from_callable(getattr(type(_callable.__self__),
                                               _callable.__name__))
@@ -68,10 +68,7 @@ def _(_callable: _types.FunctionType) -> _Signature:
 @from_callable.register(_types.MethodType)
 def _(_callable: _types.MethodType) -> _Signature:
     try:
-        return (_from_callable(_callable)
-                if isinstance(_callable.__self__, type)
-                else (_from_callable(_callable.__func__)
-                      .bind(_callable.__self__)))
+        return _from_callable(_callable.__func__).bind(_callable.__self__)
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
@@ -387,6 +384,24 @@ def _is_builtin_decorator(
                   _catalog.path_from_string(decorator.__qualname__)))
 
 
+def _from_builtin_class_method(
+        _callable: _t.Union[
+            _types.BuiltinFunctionType, _types.BuiltinMethodType
+        ]
+) -> _Signature:
+    if _callable.__name__ == object.__new__.__name__:
+        # constructors are static, so there is nothing to bind
+        return _from_callable(_callable)
+    cls = _callable.__self__
+    attribute = _inspect.getattr_static(cls, _callable.__name__, None)
+    return (_from_callable(attribute
+                           # method of a metaclass
+                           if isinstance(attribute,
+                                         _types.MethodDescriptorType)
+                           else _callable)
+            .bind(cls))
+
+
 class _SignatureNotFound(Exception):
     pass
 
-- 
2.43.0


From 2e7d87db7e720f551f351605cdadd5003a292881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 22/50] fix: index modules in the same order regardless of hash
 seed

---
 paradigm/_core/sources.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/sources.py b/paradigm/_core/sources.py
index ad043ac..0675425 100644
--- a/paradigm/_core/sources.py
+++ b/paradigm/_core/sources.py
@@ -79,9 +79,9 @@ def _relative_file_path_to_module_path(path: Path) -> catalog.Path:
 _stubs_cache = _to_stubs_cache()
 # order affects the parsing, so it should be the same for all processes
 stubs_stdlib_modules_paths = sorted(_stubs_cache.keys())
-_sources_directories = {
+_sources_directories = sorted({
     Path(sysconfig.get_path('platstdlib')), Path(sysconfig.get_path('stdlib'))
-}
+})
 
 
 def _to_modules_paths(root: Path) -> t.Iterable[catalog.Path]:
@@ -100,9 +100,10 @@ def _to_modules_paths(root: Path) -> t.Iterable[catalog.Path]:
                 source_path.relative_to(root)
         )
 
-    return {to_module_path(file_path)
-            for file_path in file_system.find_files_paths(root)
-            if is_source_path(file_path)}
+    # order affects the indexing, so it should be the same for all processes
+    return sorted({to_module_path(file_path)
+                   for file_path in file_system.find_files_paths(root)
+                   if is_source_path(file_path)})
 
 
 def _is_valid_module_path(module_path: catalog.Path) -> bool:
-- 
2.43.0


From 3bedc4acbcfd65ec711bfe4d335d8b33fc12b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 23/50] fix: find stubs of static methods of builtin classes

---
 paradigm/_core/index.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/index.py b/paradigm/_core/index.py
index e6dd2cd..3878068 100644
--- a/paradigm/_core/index.py
+++ b/paradigm/_core/index.py
@@ -1,3 +1,4 @@
+import types
 import typing as t
 import warnings
 from importlib import import_module
@@ -47,7 +48,7 @@ def _index_module_or_type(namespace: namespacing.ModuleOrType,
                 )
         else:
             qualified_module_path, qualified_object_path = (
-                catalog.qualified_path_from(value)
+                catalog.qualified_path_from(_to_maybe_builtin(value))
             )
             if qualified_object_path:
                 (paths.setdefault(qualified_module_path, {})
@@ -55,6 +56,15 @@ def _index_module_or_type(namespace: namespacing.ModuleOrType,
                  .append((module_path, parent_path + (name,))))
 
 
+def _to_maybe_builtin(value: t.Any) -> t.Any:
+    # unlike other functions static methods of builtin classes
+    # do not store names of their modules
+    return (value.__func__
+            if (isinstance(value, staticmethod)
+                and isinstance(value.__func__, types.BuiltinFunctionType))
+            else value)
+
+
 def _index_module_path(module_path: catalog.Path,
                        *,
                        paths: QualifiedPaths) -> None:
-- 
2.43.0


From 9569a97da97b4f6a698a7b45098cd2a20a9cf2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 24/50] fix: specialize constructors of generic named tuples

---
 paradigm/_core/stubs.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 34276d6..5ada806 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -303,6 +303,8 @@ if _reload_cache:
                         )
                         constructor_path = (class_name, constructor_node.name)
                         self._add_ast_node(constructor_path, constructor_node)
+                        self._add_ast_node_kind(constructor_path,
+                                                _NodeKind.FUNCTION)
                         self._add_superclass(class_path, base_module_path,
                                              base_object_path)
                         continue
@@ -932,7 +934,14 @@ if _reload_cache:
                    for child in _recursively_iterate_children(ast_node)
                    if _is_dependency_name(child)}
         )
-        for name in generic_scope.keys():
+        fields_names = list(generic_scope.keys())
+        constructor_name = object.__new__.__name__
+        if (constructor_name not in generic_scope
+                and ((*generic_object_path, constructor_name)
+                     in generic_module_ast_nodes)):
+            # constructor of a named tuple has no definition
+            fields_names.append(constructor_name)
+        for name in fields_names:
             generic_field_path = (*generic_object_path, name)
             generic_ast_nodes = generic_module_ast_nodes[generic_field_path]
             specialization_field_path = (*specialization_object_path, name)
-- 
2.43.0


From 6f3add228c5828154b24a72774a6c075e902bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 25/50] fix: resolve submodules imported by their packages

---
 paradigm/_core/scoping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 48370ae..2ffab8a 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -144,6 +144,10 @@ def resolve_object_path(
                 continue
             else:
                 try:
+                    if ((referent_module_path, referent_object_path)
+                            == (module_path, sub_object_path)):
+                        # submodule imported by its package
+                        raise ObjectNotFound((module_path, sub_object_path))
                     referent_module_path, referent_object_path = (
                         resolve_object_path(
                                 referent_module_path, (), referent_object_path,
-- 
2.43.0


From 8a5f0ba55fde0af3a14b6740438b35ac8c23fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 26/50] fix: report references to attributes of variables as
 not found

---
 paradigm/_core/scoping.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 2ffab8a..b667945 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -157,13 +157,11 @@ def resolve_object_path(
                         )
                     )
                 except ObjectNotFound:
-                    assert (len(referent_object_path) == 1), (module_path,
-                                                              object_path)
                     referent_module_path += referent_object_path
                     referent_object_path = ()
-                    assert (
-                            referent_module_path in modules_definitions
-                    ), (module_path, object_path)
+                    if referent_module_path not in modules_definitions:
+                        # e.g. attribute of an annotated variable
+                        raise ObjectNotFound((module_path, object_path))
                 return resolve_object_path(
                         referent_module_path, (),
                         referent_object_path
-- 
2.43.0


From eeabc461562dfb666a5bb6f1b79aa5193fc96e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 27/50] fix: prefer paths in imported modules to undecidable
 ones

---
 paradigm/_core/signatures.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 82cd007..e4d9b92 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -505,9 +505,18 @@ def resolve_qualified_paths(
                                        )))
                            else [])
     else:
+        imported_paths = [path
+                          for path in candidates_paths
+                          if _is_module_imported(path)]
         qualified_paths = [path
-                           for path in candidates_paths
+                           for path in imported_paths
                            if _value_has_qualified_path(value, path)]
+        if (not any(_try_resolve_object_path(*path) != ((), ())
+                    for path in qualified_paths)
+                and len(qualified_paths) == len(imported_paths)):
+            # paths in modules that are not imported are undecidable,
+            # so we use them only if there is nothing better
+            qualified_paths = candidates_paths
     value_path = _try_resolve_object_path(module_path, object_path)
 
     def to_key(
@@ -573,6 +582,11 @@ def _to_mro(module_path: _catalog.Path,
                   for queue in queues]
 
 
+def _is_module_imported(path: _catalog.QualifiedPath) -> bool:
+    module_path, _ = path
+    return _sys.modules.get(_catalog.path_to_string(module_path)) is not None
+
+
 def _value_has_qualified_path(value: _t.Any,
                               path: _catalog.QualifiedPath) -> bool:
     module_path, object_path = path
-- 
2.43.0


From cf0cf22c849617dc6b2a0237cfb55f7d97cc49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 28/50] fix: use the method that bound builtin method really
 runs

---
 paradigm/_core/signatures.py | 44 ++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index e4d9b92..7760966 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -45,11 +45,7 @@ def _(
         ]
 ) -> _Signature:
     try:
-        return ((_from_builtin_class_method(_callable)
-                 if isinstance(_callable.__self__, type)
-                 else (_from_callable(getattr(type(_callable.__self__),
-                                              _callable.__name__))
-                       .bind(_callable.__self__)))
+        return (_from_bound_builtin(_callable)
                 if (_callable.__self__ is not None
                     and not isinstance(_callable.__self__, _types.ModuleType))
                 else _from_callable(_callable))
@@ -76,11 +72,8 @@ def _(_callable: _types.MethodType) -> _Signature:
 @_decorate_if(from_callable.register(_types.MethodWrapperType),
               _sys.implementation.name != 'pypy')
 def _(_callable: _types.MethodWrapperType) -> _Signature:
-    self = _callable.__self__
-    assert not isinstance(self, type), _callable
     try:
-        return (_from_callable(getattr(type(self), _callable.__name__))
-                .bind(self))
+        return _from_bound_builtin(_callable)
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
@@ -384,22 +377,33 @@ def _is_builtin_decorator(
                   _catalog.path_from_string(decorator.__qualname__)))
 
 
-def _from_builtin_class_method(
+def _from_bound_builtin(
         _callable: _t.Union[
-            _types.BuiltinFunctionType, _types.BuiltinMethodType
+            _types.BuiltinFunctionType, _types.BuiltinMethodType,
+            _types.MethodWrapperType
         ]
 ) -> _Signature:
-    if _callable.__name__ == object.__new__.__name__:
+    self, name = _callable.__self__, _callable.__name__
+    for cls in type(self).__mro__:
+        attribute = vars(cls).get(name)
+        if (isinstance(attribute, (_types.MethodDescriptorType,
+                                   _types.WrapperDescriptorType))
+                and attribute.__get__(self, type(self)) == _callable):
+            return _from_callable(attribute).bind(self)
+    if not isinstance(self, type):
+        raise _SignatureNotFound
+    elif name == object.__new__.__name__:
         # constructors are static, so there is nothing to bind
         return _from_callable(_callable)
-    cls = _callable.__self__
-    attribute = _inspect.getattr_static(cls, _callable.__name__, None)
-    return (_from_callable(attribute
-                           # method of a metaclass
-                           if isinstance(attribute,
-                                         _types.MethodDescriptorType)
-                           else _callable)
-            .bind(cls))
+    try:
+        return _from_callable(_callable).bind(self)
+    except _SignatureNotFound:
+        for cls in self.__mro__[1:]:
+            attribute = vars(cls).get(name)
+            if (isinstance(attribute, _types.ClassMethodDescriptorType)
+                    and attribute.__get__(None, self) == _callable):
+                return _from_callable(attribute.__get__(None, cls)).bind(self)
+        raise
 
 
 class _SignatureNotFound(Exception):
-- 
2.43.0


From f431d998506a7c1e72fac5a0e059c5b6983744a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 29/50] fix: bind builtin methods of modules like methods of
 other objects

---
 paradigm/_core/signatures.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 7760966..d2fbffb 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -45,10 +45,9 @@ def _(
         ]
 ) -> _Signature:
     try:
-        return (_from_bound_builtin(_callable)
-                if (_callable.__self__ is not None
-                    and not isinstance(_callable.__self__, _types.ModuleType))
-                else _from_callable(_callable))
+        return (_from_callable(_callable)
+                if _callable.__self__ is None
+                else _from_bound_builtin(_callable))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
@@ -390,7 +389,9 @@ def _from_bound_builtin(
                                    _types.WrapperDescriptorType))
                 and attribute.__get__(self, type(self)) == _callable):
             return _from_callable(attribute).bind(self)
-    if not isinstance(self, type):
+    if isinstance(self, _types.ModuleType):
+        return _from_callable(_callable)
+    elif not isinstance(self, type):
         raise _SignatureNotFound
     elif name == object.__new__.__name__:
         # constructors are static, so there is nothing to bind
-- 
2.43.0


From 96f9db96408d91f9ebf68ffa4c2ff355da101647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 30/50] fix: define stub-only classes even if their bases put
 requirements on subclasses

Signatures of ctypes.CFUNCTYPE, ctypes.PYFUNCTYPE, ctypes.CDLL.__getattr__
and ctypes.CDLL.__getitem__ raised TypeError: class must define _flags_.
---
 paradigm/_core/arboreal/evaluation.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 79688d0..e9d9297 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -433,14 +433,25 @@ def evaluate_qualified_path(
         )
         if annotations_nodes:
             class_namespace['__annotations__'] = {}
-        result = parent_namespace[object_path[-1]] = objects_cache[
+        try:
+            result = types.new_class(
+                    catalog.path_to_string(object_path), bases,
+                    exec_body=lambda namespace: namespace.update(
+                            class_namespace
+                    )
+            )
+        except TypeError:
+            # some of the existing classes put requirements on subclasses
+            # that are not reflected in stubs (e.g. ``ctypes._CFuncPtr``)
+            result = types.new_class(
+                    catalog.path_to_string(object_path),
+                    exec_body=lambda namespace: namespace.update(
+                            class_namespace
+                    )
+            )
+        parent_namespace[object_path[-1]] = objects_cache[
             (module_path, object_path)
-        ] = types.new_class(
-                catalog.path_to_string(object_path), bases,
-                exec_body=lambda namespace: namespace.update(
-                        class_namespace
-                )
-        )
+        ] = result
         if annotations_nodes:
             result.__annotations__.update({
                 name: evaluate_expression_node(annotation_node,
-- 
2.43.0


From 8aae5e95f470383ca3419ffd06194117374c2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 31/50] fix: do not resolve names in annotations to methods of
 the same class

multiprocessing.managers.SyncManager.dict was annotated with
SyncManager.list (function) instead of builtins.list.
---
 paradigm/_core/arboreal/evaluation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index e9d9297..a8053d8 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -267,6 +267,14 @@ def _(ast_node: ast.Name,
       parent_namespace: namespacing.Namespace) -> t.Any:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
     object_name = ast_node.id
+    while parent_path and (
+            stubs.nodes_kinds.get(module_path, {}).get((*parent_path,
+                                                        object_name))
+            in (NodeKind.ASYNC_FUNCTION, NodeKind.FUNCTION)
+    ):
+        # methods do not shadow names used in other members of their class,
+        # e.g. ``multiprocessing.managers.SyncManager.list``
+        parent_path = parent_path[:-1]
     module_path, object_path = scoping.resolve_object_path(
             module_path, parent_path, (object_name,), stubs.definitions,
             stubs.references, stubs.submodules, stubs.superclasses
-- 
2.43.0


From 8072a475bce3a6be4e8ed0963a25a3f3192f2fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 32/50] fix: tell specializations of generic superclasses in
 different modules apart

Superclasses such as Queue[_T] were registered once for all of the modules
by the text of expression, with names used by any of them in one table, and
superclasses of their superclasses were not registered at all. As result
e.g. collections.OrderedDict.update accepted integers only,
collections.deque.__iter__ returned iterator of integers and
multiprocessing.queues.JoinableQueue had constructor of asyncio.Queue.
---
 paradigm/_core/stubs.py | 296 ++++++++++++++++------------------------
 1 file changed, 117 insertions(+), 179 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 5ada806..363ea54 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -63,7 +63,8 @@ if _reload_cache:
     import ast as _ast
     import builtins as _builtins
     from copy import deepcopy as _deepcopy
-    from functools import singledispatch as _singledispatch
+    from functools import (partial as _partial,
+                           singledispatch as _singledispatch)
     from itertools import chain
 
     from typing_extensions import TypeGuard as _TypeGuard
@@ -703,6 +704,15 @@ if _reload_cache:
         )
 
 
+    _Specializations = _t.Dict[
+        _t.Tuple[
+            _catalog.QualifiedPath, _t.Tuple[str, ...],
+            _t.Tuple[_t.Tuple[str, _catalog.QualifiedPath], ...]
+        ],
+        _catalog.QualifiedPath
+    ]
+
+
     def _process_classes_bases(
             classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
             generics_parameters_paths: _t.Dict[
@@ -713,180 +723,115 @@ if _reload_cache:
             modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
             modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
             modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
-            *,
-            specializations_module_path: _catalog.Path = ('__specializations',)
+            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses]
     ) -> None:
-        assert specializations_module_path not in modules_ast_nodes
-        specializations_ast_nodes = modules_ast_nodes[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_definitions
-        specializations_module_scope = modules_definitions[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_nodes_kinds
-        specializations_nodes_kinds = modules_nodes_kinds[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_references
-        specializations_references = modules_references[
-            specializations_module_path
-        ] = {}
+        specializations: _Specializations = {}
         for (class_module_path, class_object_path), class_bases in (
                 classes_bases.items()
         ):
             for base in class_bases:
-                base_module_path, base_object_path = _register_base_ast_node(
-                        base, class_module_path, class_object_path,
-                        classes_bases, generics_parameters_paths,
-                        specializations_ast_nodes, specializations_module_path,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
+                base_path = _register_base_ast_node(
+                        base, class_module_path, class_object_path[:-1], {},
+                        specializations, classes_bases,
+                        generics_parameters_paths, modules_ast_nodes,
                         modules_definitions, modules_nodes_kinds,
                         modules_references, modules_submodules,
                         modules_superclasses
                 )
                 modules_superclasses.setdefault(
                         class_module_path, {}
-                ).setdefault(class_object_path, []).append((base_module_path,
-                                                            base_object_path))
+                ).setdefault(class_object_path, []).append(base_path)
 
 
     def _register_base_ast_node(
             base: _ast.expr,
-            child_module_path: _catalog.Path,
-            child_object_path: _catalog.Path,
+            module_path: _catalog.Path,
+            parent_path: _catalog.Path,
+            base_references: _t.Mapping[str, _catalog.QualifiedPath],
+            specializations: _Specializations,
             classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
             generics_parameters_paths: _t.Dict[
                 _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
             ],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_path: _catalog.Path,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
             modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
             modules_definitions: _t.Dict[_catalog.Path, _Scope],
             modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
             modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
             modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses]
+            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
+            *,
+            specializations_module_name: str = '__specializations'
     ) -> _catalog.QualifiedPath:
-        if _is_generic_specialization(base):
-            base_name = _serialization.to_identifier(base)
-            base_object_path = (base_name,)
-            if base_name not in specializations_module_scope:
-                specialization_args = _unpack_ast_node(
-                        _subscript_to_item(base)
-                )
-                generic_object_path = _conversion.to_path(base.value)
-                generic_module_path, generic_object_path = (
-                    _scoping.resolve_object_path(
-                            child_module_path, child_object_path[:-1],
-                            generic_object_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
-                    )
-                )
-                generic_parameters_paths = generics_parameters_paths[
-                    (generic_module_path, generic_object_path)
-                ]
-                _register_generic_specialization(
-                        generic_module_path, generic_object_path,
-                        child_module_path, base_object_path,
-                        generic_parameters_paths,
-                        specialization_args, specializations_ast_nodes,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
+        def resolve_path(path: _catalog.Path) -> _catalog.QualifiedPath:
+            resolve = _partial(
+                    _scoping.resolve_object_path,
+                    modules_definitions=modules_definitions,
+                    modules_references=modules_references,
+                    modules_submodules=modules_submodules,
+                    modules_superclasses=modules_superclasses
+            )
+            try:
+                reference_path = base_references[path[0]]
+            except KeyError:
+                return resolve(module_path, parent_path, path)
+            else:
+                # names substituted for type variables
+                # do not belong to the module of generic
+                reference_module_path, reference_object_path = reference_path
+                return resolve(reference_module_path, (),
+                               reference_object_path + path[1:])
+
+        if not _is_generic_specialization(base):
+            return resolve_path(_conversion.to_path(base))
+        generic_path = resolve_path(_conversion.to_path(base.value))
+        args = _unpack_ast_node(_subscript_to_item(base))
+        args_references = {
+            name: resolve_path((name,))
+            for name in sorted({child.id
+                                for arg in args
+                                for child in _ast.walk(arg)
+                                if _is_dependency_name(child)})
+        }
+        key = (generic_path, tuple(_ast.dump(arg) for arg in args),
+               tuple(args_references.items()))
+        try:
+            return specializations[key]
+        except KeyError:
+            # same expressions denote different classes in different modules
+            specialization_module_path: _catalog.Path = (
+                specializations_module_name, str(len(specializations))
+            )
+            specialization_object_path: _catalog.Path = (
+                _serialization.to_identifier(base),
+            )
+            specializations[key] = (specialization_module_path,
+                                    specialization_object_path)
+        generic_module_path, generic_object_path = generic_path
+        generic_parameters_paths = generics_parameters_paths[generic_path]
+        _register_generic_specialization(
+                generic_module_path, generic_object_path,
+                specialization_module_path, specialization_object_path,
+                generic_parameters_paths, args, args_references,
+                modules_ast_nodes, modules_definitions, modules_nodes_kinds,
+                modules_references, modules_submodules, modules_superclasses
+        )
+        specialize = _SpecializeGeneric(dict(zip(generic_parameters_paths,
+                                                 args))).visit
+        modules_superclasses[specialization_module_path] = {
+            specialization_object_path: [
+                _register_base_ast_node(
+                        specialize(_deepcopy(generic_base)),
+                        generic_module_path, generic_object_path[:-1],
+                        args_references, specializations, classes_bases,
+                        generics_parameters_paths, modules_ast_nodes,
                         modules_definitions, modules_nodes_kinds,
                         modules_references, modules_submodules,
                         modules_superclasses
                 )
-                assert base_object_path not in modules_superclasses.get(
-                        specializations_module_path, {}
-                )
-                specialization_table = dict(zip(generic_parameters_paths,
-                                                specialization_args))
-                specialize = _SpecializeGeneric(specialization_table).visit
-                generic_bases = classes_bases[(generic_module_path,
-                                               generic_object_path)]
-                for generic_base in generic_bases:
-                    base_base_module_path: _catalog.Path
-                    base_base_object_path: _catalog.Path
-                    if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(generic_base)
-                        base_base_name = _serialization.to_identifier(
-                                base_base_node
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            specializations_module_path, (base_base_name,)
-                        )
-                        if base_base_name not in specializations_module_scope:
-                            generic_base_base_object_path = (
-                                _conversion.to_path(generic_base.value)
-                            )
-                            (
-                                generic_base_base_module_path,
-                                generic_base_base_object_path
-                            ) = _scoping.resolve_object_path(
-                                    generic_module_path,
-                                    generic_object_path[:-1],
-                                    generic_base_base_object_path,
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                            generic_base_base_parameters_paths = (
-                                generics_parameters_paths[
-                                    (generic_base_base_module_path,
-                                     generic_base_base_object_path)
-                                ]
-                            )
-                            base_base_specialization_args = _unpack_ast_node(
-                                    _subscript_to_item(base_base_node)
-                            )
-                            _register_generic_specialization(
-                                    generic_base_base_module_path,
-                                    generic_base_base_object_path,
-                                    child_module_path, base_base_object_path,
-                                    generic_base_base_parameters_paths,
-                                    base_base_specialization_args,
-                                    specializations_ast_nodes,
-                                    specializations_module_scope,
-                                    specializations_nodes_kinds,
-                                    specializations_references,
-                                    modules_ast_nodes, modules_definitions,
-                                    modules_nodes_kinds, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                    else:
-                        base_base_object_path = _conversion.to_path(
-                                generic_base
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            _scoping.resolve_object_path(
-                                    generic_module_path, (),
-                                    base_base_object_path, modules_definitions,
-                                    modules_references, modules_submodules,
-                                    modules_superclasses
-                            )
-                        )
-                    modules_superclasses.setdefault(
-                            specializations_module_path, {}
-                    ).setdefault(base_object_path, []).append(
-                            (base_base_module_path, base_base_object_path)
-                    )
-            return specializations_module_path, base_object_path
-        else:
-            base_reference_path = _conversion.to_path(base)
-            return _scoping.resolve_object_path(
-                    child_module_path, child_object_path[:-1],
-                    base_reference_path, modules_definitions,
-                    modules_references, modules_submodules,
-                    modules_superclasses
-            )
+                for generic_base in classes_bases[generic_path]
+            ]
+        }
+        return specialization_module_path, specialization_object_path
 
 
     def _register_generic_specialization(
@@ -896,10 +841,7 @@ if _reload_cache:
             specialization_object_path: _catalog.Path,
             generic_parameters_paths: _t.Sequence[_catalog.Path],
             specialization_args: _t.Sequence[_ast.expr],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
+            args_references: _t.Mapping[str, _catalog.QualifiedPath],
             modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
             modules_definitions: _t.Dict[_catalog.Path, _Scope],
             modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
@@ -911,29 +853,27 @@ if _reload_cache:
             builtins_module_path: _catalog.Path
             = _catalog.module_path_from_module(_builtins)
     ) -> None:
-        base_scope = specializations_module_scope
+        specialization_scope: _Scope = {}
+        modules_definitions[specialization_module_path] = specialization_scope
         for part in specialization_object_path:
-            base_scope = base_scope.setdefault(part, {})
+            specialization_scope = specialization_scope.setdefault(part, {})
         generic_scope = modules_definitions[generic_module_path]
         for part in generic_object_path:
             generic_scope = generic_scope[part]
-        base_scope.update(generic_scope)
+        specialization_scope.update(generic_scope)
         generic_module_ast_nodes = modules_ast_nodes[generic_module_path]
-        specializations_nodes_kinds[
-            specialization_object_path
-        ] = _NodeKind.CLASS
+        specialization_module_ast_nodes = modules_ast_nodes[
+            specialization_module_path
+        ] = {}
+        specialization_references = modules_references[
+            specialization_module_path
+        ] = {}
+        specialization_nodes_kinds = modules_nodes_kinds[
+            specialization_module_path
+        ] = {specialization_object_path: _NodeKind.CLASS}
         specialize = _SpecializeGeneric(
                 dict(zip(generic_parameters_paths, specialization_args))
         ).visit
-        args_names = (
-                {arg.id
-                 for arg in specialization_args
-                 if _is_dependency_name(arg)}
-                | {child.id
-                   for ast_node in specialization_args
-                   for child in _recursively_iterate_children(ast_node)
-                   if _is_dependency_name(child)}
-        )
         fields_names = list(generic_scope.keys())
         constructor_name = object.__new__.__name__
         if (constructor_name not in generic_scope
@@ -945,7 +885,7 @@ if _reload_cache:
             generic_field_path = (*generic_object_path, name)
             generic_ast_nodes = generic_module_ast_nodes[generic_field_path]
             specialization_field_path = (*specialization_object_path, name)
-            specialization_ast_nodes = specializations_ast_nodes[
+            specialization_ast_nodes = specialization_module_ast_nodes[
                 specialization_field_path
             ] = [specialize(_deepcopy(ast_node))
                  for ast_node in generic_ast_nodes]
@@ -962,22 +902,20 @@ if _reload_cache:
                      if _is_dependency_name(child)}
                     - specialization_definitions_names
             ):
-                dependency_path = (dependency_name,)
-                dependency_module_path, dependency_object_path = (
-                    _scoping.resolve_object_path(
-                            (specialization_module_path
-                             if dependency_name in args_names
-                             else generic_module_path), (),
-                            dependency_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
+                try:
+                    dependency_path = args_references[dependency_name]
+                except KeyError:
+                    dependency_path = _scoping.resolve_object_path(
+                            generic_module_path, (), (dependency_name,),
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses
                     )
-                )
+                dependency_module_path, _ = dependency_path
                 if dependency_module_path != builtins_module_path:
-                    specializations_references[dependency_path] = (
-                        dependency_module_path, dependency_object_path
+                    specialization_references[(dependency_name,)] = (
+                        dependency_path
                     )
-            specializations_nodes_kinds[specialization_field_path] = (
+            specialization_nodes_kinds[specialization_field_path] = (
                 modules_nodes_kinds[generic_module_path][generic_field_path]
             )
 
-- 
2.43.0


From 8fb7a267945ec940e3199b67cbe65279e5122e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 33/50] fix: do not assert that modules of callables are
 strings

Attribute `__module__` of functions and classes can be set to any object,
so asking for their signatures ended with `AssertionError`.
---
 paradigm/_core/catalog.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/catalog.py b/paradigm/_core/catalog.py
index f54696c..b60c08f 100644
--- a/paradigm/_core/catalog.py
+++ b/paradigm/_core/catalog.py
@@ -23,6 +23,11 @@ def path_to_string(value: Path) -> str:
     return SEPARATOR.join(value)
 
 
+def _module_path_from_name(value: _t.Any) -> Path:
+    # attribute can be set to any object
+    return path_from_string(value) if isinstance(value, str) else ()
+
+
 @_singledispatch
 def qualified_path_from(value: _t.Any) -> QualifiedPath:
     return (), ()
@@ -35,7 +40,7 @@ def _(
         value: _t.Union[_types.BuiltinFunctionType, _types.BuiltinMethodType]
 ) -> QualifiedPath:
     self = value.__self__
-    return ((path_from_string(self.__module__),
+    return ((_module_path_from_name(self.__module__),
              path_from_string(value.__qualname__))
             if isinstance(self, type)
             else ((path_from_string(self.__name__
@@ -51,9 +56,7 @@ def _(
 
 @qualified_path_from.register(_types.FunctionType)
 def _(value: _types.FunctionType) -> QualifiedPath:
-    return (()
-            if value.__module__ is None
-            else path_from_string(value.__module__),
+    return (_module_path_from_name(value.__module__),
             path_from_string(value.__qualname__))
 
 
@@ -70,21 +73,21 @@ def _(
                         _types.MethodDescriptorType, _types.MethodWrapperType,
                         _types.WrapperDescriptorType]
 ) -> QualifiedPath:
-    return (path_from_string(value.__objclass__.__module__),
+    return (_module_path_from_name(value.__objclass__.__module__),
             path_from_string(value.__qualname__))
 
 
 @_decorate_if(qualified_path_from.register(_types.MemberDescriptorType),
               _sys.implementation.name == 'pypy')
 def _(value: _types.MemberDescriptorType) -> QualifiedPath:
-    return (path_from_string(value.__objclass__.__module__),
+    return (_module_path_from_name(value.__objclass__.__module__),
             (*path_from_string(value.__objclass__.__qualname__),
              value.__name__))
 
 
 @qualified_path_from.register(type)
 def _(value: type) -> QualifiedPath:
-    return (path_from_string(value.__module__),
+    return (_module_path_from_name(value.__module__),
             path_from_string(value.__qualname__))
 
 
-- 
2.43.0


From dcc29c48f398cf6bd996bdd87deb3c0b4c425d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 34/50] fix: do not fail on setters of properties while looking
 for decorators

Signatures of functions behind properties with setters
like `urllib.request.Request.full_url` ended with `ObjectNotFound`.
---
 paradigm/_core/signatures.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index d2fbffb..0364e35 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -368,12 +368,21 @@ def _is_builtin_decorator(
         = _catalog.module_path_from_module(_builtins)
 ) -> bool:
     maybe_path = _conversion.to_maybe_path(expression_node)
-    return (maybe_path is not None
-            and _scoping.resolve_object_path(
-                    module_path, parent_path, maybe_path, _stubs.definitions,
-                    _stubs.references, _stubs.submodules, _stubs.superclasses
-            ) == (builtins_module_path,
-                  _catalog.path_from_string(decorator.__qualname__)))
+    if maybe_path is None:
+        return False
+    try:
+        qualified_path = _scoping.resolve_object_path(
+                module_path, parent_path, maybe_path, _stubs.definitions,
+                _stubs.references, _stubs.submodules, _stubs.superclasses
+        )
+    except _scoping.ObjectNotFound:
+        # e.g. setters & deleters of properties
+        return False
+    else:
+        return qualified_path == (
+            builtins_module_path,
+            _catalog.path_from_string(decorator.__qualname__)
+        )
 
 
 def _from_bound_builtin(
-- 
2.43.0


From 20ff91ce458b6982ada43dcbb1d47841f69c217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:44 +0000
Subject: [PATCH 35/50] fix: find builtin functions shadowed by submodules in
 modules re-exporting them

Signature of `_curses.has_key` depended on whether
`curses.has_key` submodule had been imported.
---
 paradigm/_core/signatures.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 0364e35..3a5dcb0 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -531,6 +531,12 @@ def resolve_qualified_paths(
             # paths in modules that are not imported are undecidable,
             # so we use them only if there is nothing better
             qualified_paths = candidates_paths
+        elif (not qualified_paths
+                and module_path
+                and _value_has_qualified_path(value,
+                                              (module_path, object_path))):
+            # e.g. aliases may be shadowed by submodules imported later
+            qualified_paths = [(module_path, object_path)]
     value_path = _try_resolve_object_path(module_path, object_path)
 
     def to_key(
-- 
2.43.0


From 4bddcafd11d26bbdd861b4a07f5546ec2fec0383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 36/50] fix: compare `dataclasses.InitVar` annotations by their
 types

they have no comparison of their own, so equal signatures were not equal
---
 paradigm/_core/annotated.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 114333e..eed9226 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -1,3 +1,4 @@
+import dataclasses
 import sys
 import types
 import typing as t
@@ -53,6 +54,12 @@ def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
             and all(map(are_equal, left, right)))
 
 
+@are_equal.register(dataclasses.InitVar)
+def _(left: t.Any, right: t.Any) -> bool:
+    # has no comparison of its own
+    return type(left) is type(right) and are_equal(left.type, right.type)
+
+
 @are_equal.register(_ParamSpecType)
 def _(left: ParamSpec, right: t.Any) -> bool:
     return (type(left) is type(right)
-- 
2.43.0


From db8de285fd9e5d8620b12839fa52d7b53ad76272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 37/50] fix: load stubs in processes started by users as well

If the package was imported first in a process made by `multiprocessing`
(so there were no caches yet) all stubs were silently considered empty there.
---
 paradigm/_core/execution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 1ce6bb6..06e4dc6 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -7,12 +7,17 @@ from multiprocessing.connection import Connection
 
 
 def is_main_process() -> bool:
-    return multiprocessing.current_process().name == 'MainProcess'
+    # processes of users, which are not the main one, need results as well
+    return not (multiprocessing.current_process().name
+                .startswith(f'{call_in_process.__qualname__}_'))
 
 
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
+    if multiprocessing.current_process().daemon:
+        # daemonic processes are not allowed to have children
+        return function(*args, **kwargs)
     with threading.Lock():
         caller_frame = inspect.stack()[1].frame
         caller_module = inspect.getmodule(caller_frame)
-- 
2.43.0


From 512f634a5e4bfa79389939d87277dfd84274552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 38/50] fix: start helpers from daemonic processes instead of
 doing their work there

indexing imports the whole standard library & changes state of interpreter
---
 paradigm/_core/execution.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 06e4dc6..e31f019 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -15,9 +15,6 @@ def is_main_process() -> bool:
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
-    if multiprocessing.current_process().daemon:
-        # daemonic processes are not allowed to have children
-        return function(*args, **kwargs)
     with threading.Lock():
         caller_frame = inspect.stack()[1].frame
         caller_module = inspect.getmodule(caller_frame)
@@ -32,9 +29,10 @@ def call_in_process(function: t.Callable[..., t.Any],
                     name=(f'{call_in_process.__qualname__}_'
                           f'{function.__qualname__}'),
                     args=(sender, function, *args),
-                    kwargs=kwargs
+                    kwargs=kwargs,
+                    daemon=False
             )
-            process.start()
+            _start_from_any_process(process)
             # the only sender left should be the one in the process,
             # so its death is not waited for the result forever
             sender.close()
@@ -53,6 +51,20 @@ def call_in_process(function: t.Callable[..., t.Any],
                 sys.modules['__main__'] = main_module
 
 
+def _start_from_any_process(process: multiprocessing.Process) -> None:
+    current_process = multiprocessing.current_process()
+    is_daemon = current_process.daemon
+    if is_daemon:
+        # daemonic processes (e.g. the ones from pools)
+        # are not allowed to have children
+        current_process.daemon = False
+    try:
+        process.start()
+    finally:
+        if is_daemon:
+            current_process.daemon = True
+
+
 def _send_result(sender: Connection,
                  function: t.Callable[..., t.Any],
                  *args: t.Any,
-- 
2.43.0


From 2b1df0e2799c194c13f8322dac924d2b7702eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 39/50] fix: do not require main module for building of caches

`inspect.stack` fails without `sys.modules['__main__']`, absence of which is handled here otherwise.
---
 paradigm/_core/execution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index e31f019..1876466 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -16,9 +16,10 @@ def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
     with threading.Lock():
-        caller_frame = inspect.stack()[1].frame
-        caller_module = inspect.getmodule(caller_frame)
-        assert caller_module is not None
+        # ``inspect.stack`` & ``inspect.getmodule`` fail without main module
+        frame = inspect.currentframe()
+        assert frame is not None and frame.f_back is not None
+        caller_module = sys.modules[frame.f_back.f_globals['__name__']]
         main_module = sys.modules.get('__main__')
         try:
             sys.modules['__main__'] = caller_module
-- 
2.43.0


From 443279044cbcf9d5630926bf69271159dcd8ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 40/50] fix: parse stubs of extension modules kept separately

Interpreters of some distributions keep extension modules in
"lib-dynload" directory, stubs for which were skipped
since the sources were not found.
---
 paradigm/_core/sources.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/sources.py b/paradigm/_core/sources.py
index 0675425..be9f6b2 100644
--- a/paradigm/_core/sources.py
+++ b/paradigm/_core/sources.py
@@ -80,7 +80,11 @@ _stubs_cache = _to_stubs_cache()
 # order affects the parsing, so it should be the same for all processes
 stubs_stdlib_modules_paths = sorted(_stubs_cache.keys())
 _sources_directories = sorted({
-    Path(sysconfig.get_path('platstdlib')), Path(sysconfig.get_path('stdlib'))
+    Path(sysconfig.get_path('platstdlib')), Path(sysconfig.get_path('stdlib')),
+    # extension modules may be kept separately
+    *[Path(directory)
+      for directory in [sysconfig.get_config_var('DESTSHARED')]
+      if directory is not None and Path(directory).exists()]
 })
 
 
-- 
2.43.0


From 48ea9db4e9d848bb192b78132a180a9988f48493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 41/50] fix: look up members of classes in their method
 resolution order

Depth-first search was taking a member of a far ancestor
over the one which overrides it in the next base.
---
 paradigm/_core/scoping.py    | 71 +++++++++++++++++++++---------------
 paradigm/_core/signatures.py | 23 ++----------
 2 files changed, 45 insertions(+), 49 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index b667945..ca8da67 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -81,35 +81,25 @@ def resolve_object_path(
             if sub_name in scope:
                 scope = scope[sub_name]
             else:
-                sub_path = object_path[:index]
-                try:
-                    sub_path_superclasses = module_superclasses[sub_path]
-                except KeyError:
-                    pass
-                else:
-                    for (
-                            superclass_module_path, superclass_object_path
-                    ) in sub_path_superclasses:
-                        try:
-                            result = resolve_object_path(
-                                    superclass_module_path, (),
-                                    superclass_object_path
-                                    + object_path[index:],
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses,
-                                    *visited_modules_paths, module_path
-                            )
-                        except ObjectNotFound:
-                            continue
-                        result_module_path, result_object_path = result
-                        if (result_module_path == _builtins_module_path
-                                and (result_object_path
-                                     == ((object.__name__,)
-                                         + object_path[index:]))):
-                            # ``object`` is the last in order
-                            # in which classes are looked up
-                            continue
-                        return result
+                _, *superclasses_paths = to_mro(
+                        module_path, object_path[:index], modules_superclasses
+                )
+                for (
+                        superclass_module_path, superclass_object_path
+                ) in superclasses_paths:
+                    superclass_definitions = modules_definitions.get(
+                            superclass_module_path, {}
+                    )
+                    if scope_contains_path(superclass_definitions,
+                                           (*superclass_object_path,
+                                            sub_name)):
+                        return resolve_object_path(
+                                superclass_module_path, (),
+                                superclass_object_path + object_path[index:],
+                                modules_definitions, modules_references,
+                                modules_submodules, modules_superclasses,
+                                *visited_modules_paths, module_path
+                        )
                 if object_path[0] != object.__name__:
                     return resolve_object_path(
                             _builtins_module_path, (),
@@ -174,3 +164,26 @@ def resolve_object_path(
                                object_path):
             return _builtins_module_path, object_path
         raise ObjectNotFound((module_path, object_path))
+
+
+def to_mro(
+        module_path: catalog.Path,
+        object_path: catalog.Path,
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses]
+) -> t.Iterable[catalog.QualifiedPath]:
+    yield (module_path, object_path)
+    bases = list(modules_superclasses.get(module_path, {}).get(object_path,
+                                                               []))
+    # merging linearizations of bases in the same way Python does
+    queues = [list(to_mro(*base, modules_superclasses))
+              for base in bases] + [bases]
+    while any(queues):
+        queues = [queue for queue in queues if queue]
+        candidate = next((queue[0]
+                          for queue in queues
+                          if not any(queue[0] in other[1:]
+                                     for other in queues)),
+                         queues[0][0])
+        yield candidate
+        queues = [[path for path in queue if path != candidate]
+                  for queue in queues]
diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 3a5dcb0..d0e70a6 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -572,8 +572,9 @@ def _to_class_builder_qualified_path(
         constructor_name: str = object.__new__.__name__,
         initializer_name: str = object.__init__.__name__
 ) -> _catalog.QualifiedPath:
-    for base_module_path, base_object_path in _to_mro(module_path,
-                                                      object_path):
+    for base_module_path, base_object_path in _scoping.to_mro(
+            module_path, object_path, _stubs.superclasses
+    ):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
         constructor_path = (*base_object_path, constructor_name)
         initializer_path = (*base_object_path, initializer_name)
@@ -584,24 +585,6 @@ def _to_class_builder_qualified_path(
     return object_builder_qualified_path
 
 
-def _to_mro(module_path: _catalog.Path,
-            object_path: _catalog.Path) -> _t.Iterable[_catalog.QualifiedPath]:
-    yield (module_path, object_path)
-    bases = list(_stubs.superclasses.get(module_path, {}).get(object_path, []))
-    # merging linearizations of bases in the same way Python does
-    queues = [list(_to_mro(*base)) for base in bases] + [bases]
-    while any(queues):
-        queues = [queue for queue in queues if queue]
-        candidate = next((queue[0]
-                          for queue in queues
-                          if not any(queue[0] in other[1:]
-                                     for other in queues)),
-                         queues[0][0])
-        yield candidate
-        queues = [[path for path in queue if path != candidate]
-                  for queue in queues]
-
-
 def _is_module_imported(path: _catalog.QualifiedPath) -> bool:
     module_path, _ = path
     return _sys.modules.get(_catalog.path_to_string(module_path)) is not None
-- 
2.43.0


From 74a4bc317799e1ab0302dafdfd8798c73352aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 42/50] fix: treat aliases used as bases as the classes they
 stand for

---
 paradigm/_core/stubs.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 363ea54..228fb69 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -782,7 +782,23 @@ if _reload_cache:
                                reference_object_path + path[1:])
 
         if not _is_generic_specialization(base):
-            return resolve_path(_conversion.to_path(base))
+            base_path = resolve_path(_conversion.to_path(base))
+            base_module_path, base_object_path = base_path
+            base_ast_node, *_ = modules_ast_nodes[base_module_path].get(
+                    base_object_path, [None]
+            )
+            if (not isinstance(base_ast_node, _ast.AnnAssign)
+                    or base_ast_node.value is None):
+                return base_path
+            # base is an alias
+            return _register_base_ast_node(
+                    base_ast_node.value, base_module_path,
+                    base_object_path[:-1], {}, specializations, classes_bases,
+                    generics_parameters_paths, modules_ast_nodes,
+                    modules_definitions, modules_nodes_kinds,
+                    modules_references, modules_submodules,
+                    modules_superclasses
+            )
         generic_path = resolve_path(_conversion.to_path(base.value))
         args = _unpack_ast_node(_subscript_to_item(base))
         args_references = {
-- 
2.43.0


From d71604558c9e77f0d68ab2c1d81de4a6f644bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 43/50] fix: tell literals of different types apart

---
 paradigm/_core/annotated.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index eed9226..b76f1d1 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -35,6 +35,10 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     left_args, right_args = to_arguments(left), to_arguments(right)
     left_origin, right_origin = (_to_comparable_origin(left),
                                  _to_comparable_origin(right))
+    if left_origin is Literal:
+        # ``Literal[1]`` & ``Literal[True]`` are different types
+        left_args, right_args = ([(type(arg), arg) for arg in left_args],
+                                 [(type(arg), arg) for arg in right_args])
     return (left_origin is right_origin
             and len(left_args) == len(right_args)
             and ((all(any(are_equal(left_arg, right_arg)
-- 
2.43.0


From 8baafd901f1c502399b762a3b8f3d5840c23d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 44/50] fix: tell specializations with no arguments and bare
 classes apart

---
 paradigm/_core/annotated.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index b76f1d1..dda1108 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -41,6 +41,10 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
                                  [(type(arg), arg) for arg in right_args])
     return (left_origin is right_origin
             and len(left_args) == len(right_args)
+            # ``tuple[()]`` is not the same thing as ``tuple``
+            and _is_empty_specialization(left) is _is_empty_specialization(
+                    right
+            )
             and ((all(any(are_equal(left_arg, right_arg)
                           for right_arg in right_args)
                       for left_arg in left_args)
@@ -51,6 +55,10 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
                  else all(map(are_equal, left_args, right_args))))
 
 
+def _is_empty_specialization(value: t.Any) -> bool:
+    return getattr(value, '__args__', None) == ()
+
+
 @are_equal.register(abc.Sequence)
 def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
     return (type(left) is type(right)
-- 
2.43.0


From 2b08e433dd68d3e265f61c7d0f98cc5f657583bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 45/50] fix: leave start method of multiprocessing to be chosen
 by users

---
 paradigm/_core/execution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 1876466..eee2b7f 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -21,6 +21,7 @@ def call_in_process(function: t.Callable[..., t.Any],
         assert frame is not None and frame.f_back is not None
         caller_module = sys.modules[frame.f_back.f_globals['__name__']]
         main_module = sys.modules.get('__main__')
+        start_method = multiprocessing.get_start_method(allow_none=True)
         try:
             sys.modules['__main__'] = caller_module
             context = multiprocessing.get_context()
@@ -46,6 +47,10 @@ def call_in_process(function: t.Callable[..., t.Any],
                 raise error
             return result
         finally:
+            if start_method is None:
+                # users should still be able to choose it
+                multiprocessing.set_start_method(None,
+                                                 force=True)
             if main_module is None:
                 del sys.modules['__main__']
             else:
-- 
2.43.0


From 2aaf9c81013505ac35449c7925ecd70ee2b3c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 46/50] fix: forget partially evaluated definitions after
 interrupted evaluation

---
 paradigm/_core/arboreal/evaluation.py | 59 +++++++++++++++------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index a8053d8..cfa24a2 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -226,21 +226,22 @@ def _(ast_node: ast.Assign,
         for name in conversion.to_names(ast_node)
     ]
     for target_path in targets_paths:
-        try:
-            result = cache[target_path]
-        except KeyError:
+        if target_path in cache:
+            return cache[target_path]
+    try:
+        for target_path in targets_paths:
             _, target_object_path = target_path
             cache[target_path] = t.ForwardRef(
                     catalog.path_to_string(target_object_path)
             )
-            continue
-        else:
-            break
-    else:
         result = evaluate_expression_node(ast_node.value, module_path,
                                           parent_path, parent_namespace)
-    for target_path in targets_paths:
-        cache[target_path] = result
+        cache.update(dict.fromkeys(targets_paths, result))
+    except BaseException:
+        # placeholders should not be visible after interrupted evaluation
+        for target_path in targets_paths:
+            cache.pop(target_path, None)
+        raise
     return result
 
 
@@ -346,11 +347,15 @@ def evaluate_qualified_path(
                         module_name
                 )
                 namespace = module.__dict__
-                for name in stubs.definitions[module_path].keys():
-                    namespace[name] = parent_namespace[name] = (
-                        evaluate_qualified_path(module_path, (name,),
-                                                parent_namespace)
-                    )
+                try:
+                    for name in stubs.definitions[module_path].keys():
+                        namespace[name] = parent_namespace[name] = (
+                            evaluate_qualified_path(module_path, (name,),
+                                                    parent_namespace)
+                        )
+                except BaseException:
+                    modules_cache.pop(module_path, None)
+                    raise
                 return module
     else:
         try:
@@ -457,17 +462,21 @@ def evaluate_qualified_path(
                             class_namespace
                     )
             )
-        parent_namespace[object_path[-1]] = objects_cache[
-            (module_path, object_path)
-        ] = result
-        if annotations_nodes:
-            result.__annotations__.update({
-                name: evaluate_expression_node(annotation_node,
-                                               module_path, object_path,
-                                               parent_namespace)
-                for name, annotation_node in annotations_nodes.items()
-            })
-        globals()[catalog.path_to_string(object_path)] = result
+        try:
+            parent_namespace[object_path[-1]] = objects_cache[
+                (module_path, object_path)
+            ] = result
+            if annotations_nodes:
+                result.__annotations__.update({
+                    name: evaluate_expression_node(annotation_node,
+                                                   module_path, object_path,
+                                                   parent_namespace)
+                    for name, annotation_node in annotations_nodes.items()
+                })
+            globals()[catalog.path_to_string(object_path)] = result
+        except BaseException:
+            objects_cache.pop((module_path, object_path), None)
+            raise
         return result
 
 
-- 
2.43.0


From 2f98f6df75f5d41bc6aa5b3a9e5ac6b33ee36761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 47/50] fix: tell aliases in classes and aliases in modules
 apart

---
 paradigm/_core/scoping.py | 33 ++++++++++++++++++++++++++++-----
 paradigm/_core/stubs.py   |  5 +++--
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index ca8da67..db0a7f0 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -64,8 +64,11 @@ def resolve_object_path(
     if not object_path:
         return (module_path, object_path)
     assert scope_contains_path(module_definitions, parent_path)
-    if (parent_path and scope_contains_path(module_definitions,
-                                            (*parent_path, object_path[0]))):
+    if (parent_path
+            and (scope_contains_path(module_definitions,
+                                     (*parent_path, object_path[0]))
+                 or ((*parent_path, object_path[0])
+                     in modules_references.get(module_path, {})))):
         return resolve_object_path(
                 module_path, (), parent_path + object_path,
                 modules_definitions, modules_references, modules_submodules,
@@ -81,6 +84,22 @@ def resolve_object_path(
             if sub_name in scope:
                 scope = scope[sub_name]
             else:
+                try:
+                    referent_module_path, referent_object_path = (
+                        modules_references[module_path][
+                            object_path[:index + 1]
+                        ]
+                    )
+                except KeyError:
+                    pass
+                else:
+                    return resolve_object_path(
+                            referent_module_path, (),
+                            referent_object_path + object_path[index + 1:],
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses,
+                            *visited_modules_paths, module_path
+                    )
                 _, *superclasses_paths = to_mro(
                         module_path, object_path[:index], modules_superclasses
                 )
@@ -90,9 +109,13 @@ def resolve_object_path(
                     superclass_definitions = modules_definitions.get(
                             superclass_module_path, {}
                     )
-                    if scope_contains_path(superclass_definitions,
-                                           (*superclass_object_path,
-                                            sub_name)):
+                    member_path = (*superclass_object_path, sub_name)
+                    if (scope_contains_path(superclass_definitions,
+                                            member_path)
+                            or (member_path
+                                in modules_references.get(
+                                            superclass_module_path, {}
+                                    ))):
                         return resolve_object_path(
                                 superclass_module_path, (),
                                 superclass_object_path + object_path[index:],
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 228fb69..51091d9 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -414,8 +414,9 @@ if _reload_cache:
                            reference_path: _catalog.Path,
                            referent_module_path: _catalog.Path,
                            referent_object_path: _catalog.Path) -> None:
-            self.module_references[reference_path] = (referent_module_path,
-                                                      referent_object_path)
+            self.module_references[self.parent_path + reference_path] = (
+                referent_module_path, referent_object_path
+            )
 
         def _add_submodule(self, module_path: _catalog.Path) -> None:
             self.modules_submodules.setdefault(
-- 
2.43.0


From e58900b2ef6da8d297acb126cc20a540f1eb5559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:58 +0000
Subject: [PATCH 48/50] fix: let forked processes evaluate annotations
 regardless of threads of their parents

---
 paradigm/_core/arboreal/evaluation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index cfa24a2..38bd10f 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -1,6 +1,7 @@
 import ast
 import builtins
 import operator
+import os
 import sys
 import threading
 import types
@@ -310,13 +311,19 @@ _Result = t.TypeVar('_Result')
 def _synchronize(
         function: t.Callable[_Params, _Result],
         *,
-        lock: t.ContextManager[t.Any] = threading.RLock()
+        lock: t.Any = threading.RLock()
 ) -> t.Callable[_Params, _Result]:
     @wraps(function)
     def synchronized(*args: _Params.args, **kwargs: _Params.kwargs) -> _Result:
         with lock:
             return function(*args, **kwargs)
 
+    if hasattr(os, 'register_at_fork'):
+        # forked processes have no threads that could release the lock
+        # and finish the evaluation
+        os.register_at_fork(before=lock.acquire,
+                            after_in_child=lock.release,
+                            after_in_parent=lock.release)
     return synchronized
 
 
-- 
2.43.0


From 1a59d1defae61f148d97a61c1dbbec5685e86035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 49/50] fix: leave receivers out of signatures of functions
 declared as classes

---
 paradigm/_core/signatures.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index d0e70a6..baa9d33 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -315,7 +315,7 @@ def _parameters_from(
              _to_variadic_keyword_parameter(signature_ast, module_path,
                                             parent_path))
     ))
-    if isinstance(callable_, type):
+    if _builds_instances(callable_, ast_node):
         del result[0]
     elif any(_is_builtin_decorator(decorator_node, module_path, parent_path,
                                    staticmethod)
@@ -345,14 +345,36 @@ def _returns_annotation_from(
 ) -> _t.Any:
     returns_node = ast_node.returns
     return (_Self
-            if (isinstance(callable_, type)
-                and ast_node.name == initializer_name)
+            if (ast_node.name == initializer_name
+                and _builds_instances(callable_, ast_node))
             else (_t.Any
                   if returns_node is None
                   else _evaluate_expression_node(returns_node, module_path,
                                                  parent_path, {})))
 
 
+def _builds_instances(
+        callable_: _t.Callable[..., _t.Any],
+        ast_node: _t.Union[_ast.AsyncFunctionDef, _ast.FunctionDef],
+        *,
+        builders_names: _t.Container[str] = (object.__new__.__name__,
+                                             object.__init__.__name__)
+) -> bool:
+    if isinstance(callable_, type):
+        return True
+    elif ast_node.name not in builders_names:
+        return False
+    else:
+        # e.g. factory functions declared as classes
+        qualified_paths = resolve_qualified_paths(callable_)
+        return bool(qualified_paths) and _is_class_path(qualified_paths[0])
+
+
+def _is_class_path(path: _catalog.QualifiedPath) -> bool:
+    module_path, object_path = path
+    return _stubs.nodes_kinds[module_path][object_path] is _NodeKind.CLASS
+
+
 _IMPLICIT_CLASS_METHODS_NAMES = (object.__new__.__name__,
                                  object.__init_subclass__.__name__,
                                  '__class_getitem__')
@@ -453,8 +475,7 @@ def _to_qualified_paths(
 ) -> _t.Iterable[_catalog.QualifiedPath]:
     qualified_paths = resolve_qualified_paths(value)
     if qualified_paths:
-        module_path, object_path = qualified_paths[0]
-        if _stubs.nodes_kinds[module_path][object_path] is _NodeKind.CLASS:
+        if _is_class_path(qualified_paths[0]):
             yield _resolve_builder_qualified_path(qualified_paths)
         else:
             yield from qualified_paths
-- 
2.43.0


From a942b947081dd644e58801c800207f792b5c2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 50/50] fix: stop process building caches when import is
 interrupted

---
 paradigm/_core/execution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index eee2b7f..e4f7b44 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -40,6 +40,11 @@ def call_in_process(function: t.Callable[..., t.Any],
             sender.close()
             try:
                 result, error = receiver.recv()
+            except BaseException:
+                # nobody is going to receive the result,
+                # so its sending would never end
+                process.kill()
+                raise
             finally:
                 receiver.close()
                 process.join()
-- 
2.43.0

