From ddee11c464bc25ba478673197900902771704486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 01/65] fix: ListConfig slicing follows list semantics for
 out-of-range bounds and negative steps

---
 omegaconf/listconfig.py | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 20a8f81..12ba272 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -1,5 +1,4 @@
 import copy
-import itertools
 from typing import (
     Any,
     Callable,
@@ -200,16 +199,11 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             assert isinstance(self.__dict__["_content"], list)
             if isinstance(index, slice):
                 result = []
-                start, stop, step = self._correct_index_params(index)
-                for slice_idx in itertools.islice(
-                    range(0, len(self)), start, stop, step
-                ):
+                for slice_idx in range(*index.indices(len(self))):
                     val = self._resolve_with_default(
                         key=slice_idx, value=self.__dict__["_content"][slice_idx]
                     )
                     result.append(val)
-                if index.step and index.step < 0:
-                    result.reverse()
                 return result
             else:
                 return self._resolve_with_default(
@@ -218,31 +212,6 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         except Exception as e:
             self._format_and_raise(key=index, value=None, cause=e)
 
-    def _correct_index_params(self, index: slice) -> Tuple[int, int, int]:
-        start = index.start
-        stop = index.stop
-        step = index.step
-        if index.start and index.start < 0:
-            start = self.__len__() + index.start
-        if index.stop and index.stop < 0:
-            stop = self.__len__() + index.stop
-        if index.step and index.step < 0:
-            step = abs(step)
-            if start and stop:
-                if start > stop:
-                    start, stop = stop + 1, start + 1
-                else:
-                    start = stop = 0
-            elif not start and stop:
-                start = list(range(self.__len__() - 1, stop, -step))[0]
-                stop = None
-            elif start and not stop:
-                stop = start + 1
-                start = (stop - 1) % step
-            else:
-                start = (self.__len__() - 1) % step
-        return start, stop, step
-
     def _set_at_index(self, index: Union[int, slice], value: Any) -> None:
         self._set_item_impl(index, value)
 
-- 
2.43.0


From 661f7e56e3e556ece3e6453db27bfc92caebaf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 02/65] fix: ListConfig.insert accepts negative and
 past-the-end indices like list.insert

---
 omegaconf/listconfig.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 12ba272..d907b1a 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -291,8 +291,13 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if self._is_missing():
                 raise MissingMandatoryValue("Cannot insert into missing ListConfig")
 
+            assert isinstance(self.__dict__["_content"], list)
+            # same index semantics as list.insert()
+            if index < 0:
+                index = max(0, index + len(self))
+            index = min(index, len(self))
+
             try:
-                assert isinstance(self.__dict__["_content"], list)
                 # insert place holder
                 self.__dict__["_content"].insert(index, None)
                 is_optional, ref_type = _resolve_optional(self._metadata.element_type)
-- 
2.43.0


From b4a0d4d864fbf1e7d07699ae72ca56f770794ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 03/65] fix: ListConfig.sort updates the keys of the moved
 nodes

---
 omegaconf/listconfig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index d907b1a..940e724 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -479,6 +479,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
             assert isinstance(self.__dict__["_content"], list)
             self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            self._update_keys()
 
         except Exception as e:
             self._format_and_raise(key=None, value=None, cause=e)
-- 
2.43.0


From 587d8b76f85d94e70ee5b604d726c0f080ca3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 04/65] fix: assigning to a negative ListConfig index gives the
 node its actual position as key

---
 omegaconf/listconfig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 940e724..fa15b47 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -213,6 +213,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._format_and_raise(key=index, value=None, cause=e)
 
     def _set_at_index(self, index: Union[int, slice], value: Any) -> None:
+        if isinstance(index, int) and -len(self) <= index < 0:
+            index += len(self)  # the child node must get its actual position as key
         self._set_item_impl(index, value)
 
     def __setitem__(self, index: Union[int, slice], value: Any) -> None:
-- 
2.43.0


From cc7075d42a94f6418a73edb1acacd51f60b06467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 05/65] fix: ListConfig slice assignment keeps the other nodes
 (interpolations, missing values) intact

---
 omegaconf/listconfig.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index fa15b47..78db3a1 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -254,9 +254,14 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                     curr_index += 1
                     work_copy.insert(curr_index, value[val_i])
 
-                # Reinitialize self with work_copy
-                self.clear()
-                self.extend(work_copy)
+                # Reinitialize self with the nodes of work_copy
+                if self._get_flag("readonly"):
+                    raise ReadonlyConfigError("Cannot change read-only ListConfig")
+                content = work_copy.__dict__["_content"]
+                for node in content:
+                    node._set_parent(self)
+                self.__dict__["_content"] = content
+                self._update_keys()
             else:
                 self._set_at_index(index, value)
         except Exception as e:
-- 
2.43.0


From 4958c83e5ddd5b3ccb273efe761c4983f2b6bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 06/65] fix: quote every string that the YAML loader would read
 back as a float

---
 omegaconf/_utils.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 57d0ef4..12c230c 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -99,6 +99,18 @@ YAML_BOOL_TYPES = [
     "OFF",
 ]
 
+# strings that the YAML loader reads as floats
+YAML_FLOAT_PATTERN = re.compile(
+    """^(?:
+     [-+]?[0-9]+(?:_[0-9]+)*\\.[0-9_]*(?:[eE][-+]?[0-9]+)?
+    |[-+]?[0-9]+(?:_[0-9]+)*(?:[eE][-+]?[0-9]+)
+    |\\.[0-9]+(?:_[0-9]+)*(?:[eE][-+][0-9]+)?
+    |[-+]?[0-9]+(?:_[0-9]+)*(?::[0-5]?[0-9])+\\.[0-9_]*
+    |[-+]?\\.(?:inf|Inf|INF)
+    |\\.(?:nan|NaN|NAN))$""",
+    re.X,
+)
+
 
 class Marker:
     def __init__(self, desc: str):
@@ -117,7 +129,12 @@ class OmegaConfDumper(BaseDumper):  # type: ignore
 
     @staticmethod
     def str_representer(dumper: yaml.Dumper, data: str) -> yaml.ScalarNode:
-        with_quotes = yaml_is_bool(data) or is_int(data) or is_float(data)
+        with_quotes = (
+            yaml_is_bool(data)
+            or is_int(data)
+            or is_float(data)
+            or YAML_FLOAT_PATTERN.match(data) is not None
+        )
         return dumper.represent_scalar(
             yaml.resolver.BaseResolver.DEFAULT_SCALAR_TAG,
             data,
@@ -156,16 +173,7 @@ def get_yaml_loader() -> Any:
     loader = OmegaConfLoader
     loader.add_implicit_resolver(
         "tag:yaml.org,2002:float",
-        re.compile(
-            """^(?:
-         [-+]?[0-9]+(?:_[0-9]+)*\\.[0-9_]*(?:[eE][-+]?[0-9]+)?
-        |[-+]?[0-9]+(?:_[0-9]+)*(?:[eE][-+]?[0-9]+)
-        |\\.[0-9]+(?:_[0-9]+)*(?:[eE][-+][0-9]+)?
-        |[-+]?[0-9]+(?:_[0-9]+)*(?::[0-5]?[0-9])+\\.[0-9_]*
-        |[-+]?\\.(?:inf|Inf|INF)
-        |\\.(?:nan|NaN|NAN))$""",
-            re.X,
-        ),
+        YAML_FLOAT_PATTERN,
         list("-+0123456789."),
     )
     loader.yaml_implicit_resolvers = {
-- 
2.43.0


From a374a484ab8796a698fcac95313673bc6d12347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 07/65] fix: merging a missing value over an interpolation to a
 container keeps the interpolation

---
 omegaconf/basecontainer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 14e8667..edf01b6 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -376,7 +376,11 @@ class BaseContainer(Container, ABC):
             ):
                 expand(dest_node)
 
-            if dest_node is not None and dest_node._is_interpolation():
+            if (
+                dest_node is not None
+                and dest_node._is_interpolation()
+                and not src_node_missing
+            ):
                 target_node = dest_node._maybe_dereference_node()
                 if isinstance(target_node, Container):
                     dest[key] = target_node
-- 
2.43.0


From 613f5512764cff6d26e2e8e459d25ed85b6e60f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 08/65] fix: list elements appended by an extending merge get
 their actual position as key

---
 omegaconf/basecontainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index edf01b6..d1e4a9d 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -487,6 +487,7 @@ class BaseContainer(Container, ABC):
                         dest.__dict__["_content"].append(entry)
             else:  # REPLACE (default)
                 dest.__dict__["_content"] = temp_target.__dict__["_content"]
+            dest._update_keys()
 
         # explicit flags on the source config are replacing the flag values in the destination
         flags = src._metadata.flags
-- 
2.43.0


From f3027ed13066708a0fef476087104571cad19a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 09/65] fix: extending list merge modes accept a None, missing
 or interpolated destination list

---
 omegaconf/basecontainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index d1e4a9d..c23b672 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -479,6 +479,10 @@ class BaseContainer(Container, ABC):
                 for item in src._iter_ex(resolve=False):
                     temp_target.append(item)
 
+            if not isinstance(dest.__dict__["_content"], list):
+                # dest is None, missing or an interpolation: there is nothing to extend
+                list_merge_mode = ListMergeMode.REPLACE
+
             if list_merge_mode == ListMergeMode.EXTEND:
                 dest.__dict__["_content"].extend(temp_target.__dict__["_content"])
             elif list_merge_mode == ListMergeMode.EXTEND_UNIQUE:
-- 
2.43.0


From bec84b282c59c18f46c65d893f468dbcf1fd7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 10/65] fix: concatenating a read-only ListConfig no longer
 raises ReadonlyConfigError

---
 omegaconf/listconfig.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 78db3a1..c06b4ba 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -555,17 +555,23 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             assert False
 
     def __add__(self, other: Union[List[Any], "ListConfig"]) -> "ListConfig":
+        from omegaconf import flag_override
+
         # res is sharing this list's parent to allow interpolation to work as expected
         res = ListConfig(parent=self._get_parent(), content=[])
-        res.extend(self)
-        res.extend(other)
+        with flag_override(res, "readonly", False):
+            res.extend(self)
+            res.extend(other)
         return res
 
     def __radd__(self, other: Union[List[Any], "ListConfig"]) -> "ListConfig":
+        from omegaconf import flag_override
+
         # res is sharing this list's parent to allow interpolation to work as expected
         res = ListConfig(parent=self._get_parent(), content=[])
-        res.extend(other)
-        res.extend(self)
+        with flag_override(res, "readonly", False):
+            res.extend(other)
+            res.extend(self)
         return res
 
     def __iadd__(self, other: Iterable[Any]) -> "ListConfig":
-- 
2.43.0


From b7188d8ca79cd00c806c7b5a1f31fce916cf432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 11/65] fix: OmegaConf.resolve raises instead of changing
 read-only containers

---
 omegaconf/_impl.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 49be303..0898e3e 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -1,7 +1,11 @@
 from typing import Any
 
 from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNode
-from omegaconf.errors import ConfigTypeError, InterpolationToMissingValueError
+from omegaconf.errors import (
+    ConfigTypeError,
+    InterpolationToMissingValueError,
+    ReadonlyConfigError,
+)
 from omegaconf.nodes import InterpolationResultNode
 
 from ._utils import (
@@ -13,6 +17,16 @@ from ._utils import (
 )
 
 
+def _set_resolved(node: Node, value: Any) -> None:
+    if node._get_flag("readonly"):
+        node._format_and_raise(
+            key=None,
+            value=value,
+            cause=ReadonlyConfigError("Cannot resolve a read-only config node"),
+        )
+    node._set_value(value)
+
+
 def _resolve_container_value(cfg: Container, key: Any) -> None:
     node = cfg._get_child(key)
     assert isinstance(node, Node)
@@ -20,7 +34,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
         try:
             resolved = node._dereference_node()
         except InterpolationToMissingValueError:
-            node._set_value(MISSING)
+            _set_resolved(node, MISSING)
         else:
             if isinstance(resolved, Container):
                 _resolve(resolved)
@@ -33,7 +47,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
             if isinstance(resolved, Container) and isinstance(node, ValueNode):
                 cfg[key] = resolved
             else:
-                node._set_value(_get_value(resolved))
+                _set_resolved(node, _get_value(resolved))
     else:
         _resolve(node)
 
@@ -44,9 +58,9 @@ def _resolve(cfg: Node) -> Node:
         try:
             resolved = cfg._dereference_node()
         except InterpolationToMissingValueError:
-            cfg._set_value(MISSING)
+            _set_resolved(cfg, MISSING)
         else:
-            cfg._set_value(resolved._value())
+            _set_resolved(cfg, resolved._value())
 
     if isinstance(cfg, DictConfig):
         for k in cfg.keys():
-- 
2.43.0


From f01ea5b9027d34273b72f32a5be906d68dcf9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 12/65] fix: an integer too large for a float field raises
 ValidationError, not OverflowError

---
 omegaconf/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/nodes.py b/omegaconf/nodes.py
index c3f7ba6..462d1f5 100644
--- a/omegaconf/nodes.py
+++ b/omegaconf/nodes.py
@@ -340,7 +340,7 @@ class FloatNode(ValueNode):
                 return float(value)
             else:
                 raise ValueError()
-        except ValueError:
+        except (ValueError, OverflowError):
             raise ValidationError(
                 "Value '$VALUE' of type '$VALUE_TYPE' could not be converted to Float"
             )
-- 
2.43.0


From e8c85a20eff8f6d8802a6d3e4ff392e0e83e1ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 13/65] fix: a failing OmegaConf.update puts back the node it
 replaced on the way

---
 omegaconf/omegaconf.py | 109 ++++++++++++++++++++++++++---------------
 1 file changed, 70 insertions(+), 39 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index db65eca..14866ae 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -716,47 +716,56 @@ class OmegaConf:
         """
 
         split = split_key(key)
-        root = cfg
-        for i in range(len(split) - 1):
-            k = split[i]
-            # if next_root is a primitive (string, int etc) replace it with an empty map
-            next_root, key_ = _select_one(root, k, throw_on_missing=False)
-            if not isinstance(next_root, Container):
-                if force_add:
-                    with flag_override(root, "struct", False):
+        # how to take back the first map created on the way if the update fails
+        undo: Optional[Callable[[], None]] = None
+        try:
+            root = cfg
+            for i in range(len(split) - 1):
+                k = split[i]
+                # if next_root is a primitive (string, int etc) replace it with an empty map
+                next_root, key_ = _select_one(root, k, throw_on_missing=False)
+                if not isinstance(next_root, Container):
+                    if undo is None:
+                        undo = _node_state(root, key_)
+                    if force_add:
+                        with flag_override(root, "struct", False):
+                            root[key_] = {}
+                    else:
                         root[key_] = {}
+                root = root[key_]
+
+            last = split[-1]
+
+            assert isinstance(
+                root, Container
+            ), f"Unexpected type for root: {type(root).__name__}"
+
+            last_key: Union[str, int] = last
+            if isinstance(root, ListConfig):
+                last_key = int(last)
+
+            ctx = flag_override(root, "struct", False) if force_add else nullcontext()
+            with ctx:
+                if merge and (OmegaConf.is_config(value) or is_primitive_container(value)):
+                    assert isinstance(root, BaseContainer)
+                    node = root._get_child(last_key)
+                    if OmegaConf.is_config(node):
+                        assert isinstance(node, BaseContainer)
+                        node.merge_with(value)
+                        return
+
+                if OmegaConf.is_dict(root):
+                    assert isinstance(last_key, str)
+                    root.__setattr__(last_key, value)
+                elif OmegaConf.is_list(root):
+                    assert isinstance(last_key, int)
+                    root.__setitem__(last_key, value)
                 else:
-                    root[key_] = {}
-            root = root[key_]
-
-        last = split[-1]
-
-        assert isinstance(
-            root, Container
-        ), f"Unexpected type for root: {type(root).__name__}"
-
-        last_key: Union[str, int] = last
-        if isinstance(root, ListConfig):
-            last_key = int(last)
-
-        ctx = flag_override(root, "struct", False) if force_add else nullcontext()
-        with ctx:
-            if merge and (OmegaConf.is_config(value) or is_primitive_container(value)):
-                assert isinstance(root, BaseContainer)
-                node = root._get_child(last_key)
-                if OmegaConf.is_config(node):
-                    assert isinstance(node, BaseContainer)
-                    node.merge_with(value)
-                    return
-
-            if OmegaConf.is_dict(root):
-                assert isinstance(last_key, str)
-                root.__setattr__(last_key, value)
-            elif OmegaConf.is_list(root):
-                assert isinstance(last_key, int)
-                root.__setitem__(last_key, value)
-            else:
-                assert False
+                    assert False
+        except Exception:
+            if undo is not None:
+                undo()
+            raise
 
     @staticmethod
     def to_yaml(cfg: Any, *, resolve: bool = False, sort_keys: bool = False) -> str:
@@ -1004,6 +1013,28 @@ def open_dict(config: Container) -> Generator[Container, None, None]:
 # === private === #
 
 
+def _node_state(container: Container, key: Any) -> Callable[[], None]:
+    """
+    Remember the node at `key` (or that there is none)
+    :return: a function that puts it back
+    """
+    content = container.__dict__["_content"]
+    try:
+        node = copy.deepcopy(content[key])
+        exists = True
+    except (LookupError, TypeError):
+        node = None
+        exists = False
+
+    def restore() -> None:
+        if exists:
+            content[key] = node
+        elif isinstance(content, dict):
+            content.pop(key, None)
+
+    return restore
+
+
 def _node_wrap(
     parent: Optional[Box],
     is_optional: bool,
-- 
2.43.0


From ae9541e1def0f5e73111042f5614c0414ffbade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 14/65] fix: a config given as the value of a typed container
 field is subject to the field's type

---
 omegaconf/_utils.py | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 12c230c..4f23401 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -325,6 +325,39 @@ def extract_dict_subclass_data(obj: Any, parent: Any) -> Optional[Dict[str, Any]
         return None
 
 
+def _wrap_field(
+    ref_type: Any, is_optional: bool, key: str, value: Any, parent: Any
+) -> Any:
+    """Make the node of a structured config field from its value in the class or object."""
+    from omegaconf.base import Container
+    from omegaconf.omegaconf import _maybe_wrap, _node_wrap
+
+    is_typed_container = (
+        is_list_annotation(ref_type)
+        or is_tuple_annotation(ref_type)
+        or is_dict_annotation(ref_type)
+        or is_structured_config(ref_type)
+    )
+    if isinstance(value, Container) and is_typed_container:
+        # a config is subject to the declared type like any other value
+        if _is_special(value):
+            value = value._value()
+        return _node_wrap(
+            ref_type=ref_type,
+            is_optional=is_optional,
+            key=key,
+            value=value,
+            parent=parent,
+        )
+    return _maybe_wrap(
+        ref_type=ref_type,
+        is_optional=is_optional,
+        key=key,
+        value=value,
+        parent=parent,
+    )
+
+
 def get_attr_class_fields(obj: Any) -> List["attr.Attribute[Any]"]:
     is_type = isinstance(obj, type)
     obj_type = obj if is_type else type(obj)
@@ -333,7 +366,7 @@ def get_attr_class_fields(obj: Any) -> List["attr.Attribute[Any]"]:
 
 
 def get_attr_data(obj: Any, allow_objects: Optional[bool] = None) -> Dict[str, Any]:
-    from omegaconf.omegaconf import OmegaConf, _maybe_wrap
+    from omegaconf.omegaconf import OmegaConf
 
     flags = {"allow_objects": allow_objects} if allow_objects is not None else {}
 
@@ -363,7 +396,7 @@ def get_attr_data(obj: Any, allow_objects: Optional[bool] = None) -> Dict[str, A
             format_and_raise(node=None, key=None, value=value, cause=e, msg=str(e))
 
         try:
-            d[name] = _maybe_wrap(
+            d[name] = _wrap_field(
                 ref_type=type_,
                 is_optional=is_optional,
                 key=name,
@@ -389,7 +422,7 @@ def get_dataclass_fields(obj: Any) -> List["dataclasses.Field[Any]"]:
 def get_dataclass_data(
     obj: Any, allow_objects: Optional[bool] = None
 ) -> Dict[str, Any]:
-    from omegaconf.omegaconf import MISSING, OmegaConf, _maybe_wrap
+    from omegaconf.omegaconf import MISSING, OmegaConf
 
     flags = {"allow_objects": allow_objects} if allow_objects is not None else {}
     d = {}
@@ -421,7 +454,7 @@ def get_dataclass_data(
             )
             format_and_raise(node=None, key=None, value=value, cause=e, msg=str(e))
         try:
-            d[name] = _maybe_wrap(
+            d[name] = _wrap_field(
                 ref_type=type_,
                 is_optional=is_optional,
                 key=name,
-- 
2.43.0


From 902f0b530acc90d520c1c5d43b4fb99f7b507d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:07 +0000
Subject: [PATCH 15/65] fix: creating a structured config from an object no
 longer detaches config nodes held by the object

---
 omegaconf/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 4f23401..e9c7f5b 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -329,7 +329,7 @@ def _wrap_field(
     ref_type: Any, is_optional: bool, key: str, value: Any, parent: Any
 ) -> Any:
     """Make the node of a structured config field from its value in the class or object."""
-    from omegaconf.base import Container
+    from omegaconf.base import Container, Node
     from omegaconf.omegaconf import _maybe_wrap, _node_wrap
 
     is_typed_container = (
@@ -349,6 +349,9 @@ def _wrap_field(
             value=value,
             parent=parent,
         )
+    if isinstance(value, Node):
+        # do not take the node away from the config it may belong to
+        value = copy.deepcopy(value)
     return _maybe_wrap(
         ref_type=ref_type,
         is_optional=is_optional,
-- 
2.43.0


From 6597cc5a100a46a40a00adf948f0ed8abd0fc1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 16/65] fix: untyped values inside a container assigned to a
 nested typed container get the declared type

---
 omegaconf/basecontainer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index c23b672..f927bc1 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -887,10 +887,16 @@ def _deep_update_type_hint(node: Node, type_hint: Any) -> None:
 
 def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) -> None:
     """Get node[key] and ensure it is compatible with value_type_hint, mutating if necessary."""
+    from omegaconf import AnyNode
+
     subnode = node._get_node(key)
     assert isinstance(subnode, Node)
-    if _is_special(subnode):
-        # Ensure special values are wrapped in a Node subclass that
+    is_special = _is_special(subnode)
+    is_untyped = isinstance(subnode, AnyNode) and value_type_hint is not Any
+    if is_untyped and not is_special:
+        _shallow_validate_type_hint(subnode, value_type_hint)
+    if is_special or is_untyped:
+        # Ensure special and untyped values are wrapped in a Node subclass that
         # is compatible with the type hint.
         node._wrap_value_and_set(key, subnode._value(), value_type_hint)
         subnode = node._get_node(key)
-- 
2.43.0


From c3d7de9decb8998ec9999d722c6637a427c1f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 17/65] fix: a config is not accepted as an element of a list
 or dict of scalars

---
 omegaconf/basecontainer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index f927bc1..c299ea3 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -642,8 +642,11 @@ class BaseContainer(Container, ABC):
                         is_container_annotation(target_ref_type)
                         or is_structured_config(target_ref_type)
                     )
-                    or is_primitive_type_annotation(target_ref_type)
-                    or is_union_annotation(target_ref_type)
+                    or (special_value or not isinstance(value, Container))
+                    and (
+                        is_primitive_type_annotation(target_ref_type)
+                        or is_union_annotation(target_ref_type)
+                    )
                 ):
                     value = _get_value(value)
                     self._wrap_value_and_set(key, value, target_type_hint)
-- 
2.43.0


From fa2261370451e6c6a69f53ffc909a00992b6912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 18/65] fix: a config that is not of the declared structured
 type is not accepted as a dict element

---
 omegaconf/basecontainer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index c299ea3..d09347e 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -28,6 +28,7 @@ from ._utils import (
     is_structured_config,
     is_tuple_annotation,
     is_union_annotation,
+    type_str,
 )
 from .base import (
     Box,
@@ -909,7 +910,7 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
 
 def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
     """Error if node's type, content and metadata are not compatible with type_hint."""
-    from omegaconf import DictConfig, ListConfig, ValueNode
+    from omegaconf import DictConfig, ListConfig, OmegaConf, ValueNode
 
     is_optional, ref_type = _resolve_optional(type_hint)
 
@@ -934,7 +935,12 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
                     + f" is incompatible with type hint '{ref_type.__name__}'"
                 )
         elif is_structured_config(ref_type) and isinstance(node, DictConfig):
-            return
+            object_type = OmegaConf.get_type(node)
+            if object_type is None or not issubclass(object_type, ref_type):
+                raise ValidationError(
+                    f"Invalid type assigned: {type_str(object_type)} is not a"
+                    + f" subclass of {type_str(ref_type)}. value: {node}"
+                )
         elif is_dict_annotation(ref_type) and isinstance(node, DictConfig):
             return
         elif is_list_annotation(ref_type) and isinstance(node, ListConfig):
-- 
2.43.0


From de27fff5a465d3a55d4c5752964d00dff962a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:03 +0000
Subject: [PATCH 19/65] fix: merging an interpolation over a container that is
 None no longer raises

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index d09347e..d00a6b4 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -373,7 +373,9 @@ class BaseContainer(Container, ABC):
                 isinstance(dest_node, Container)
                 and dest_node._is_none()
                 and not src_node_missing
-                and not _is_none(src_node, resolve=True)
+                and not _is_none(
+                    src_node, resolve=True, throw_on_resolution_failure=False
+                )
             ):
                 expand(dest_node)
 
-- 
2.43.0


From f502511a05958559ef07515a5a61727ed71696bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:57 +0000
Subject: [PATCH 20/65] fix: an interpolation can be merged over a structured
 config field

---
 omegaconf/dictconfig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 11b2e70..6794721 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -227,6 +227,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
             and src_obj_type is not None
             and is_structured_config(dest_obj_type)
             and not src._is_none()
+            and not src._is_interpolation()
             and not is_dict(src_obj_type)
             and not issubclass(src_obj_type, dest_obj_type)
         )
-- 
2.43.0


From 00431f126d7bf02385d06151064e74cdbe5dc35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 21/65] fix: the fast interpolation pattern only accepts what
 the grammar accepts

---
 omegaconf/grammar_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omegaconf/grammar_parser.py b/omegaconf/grammar_parser.py
index 423a1ae..f12bfbc 100644
--- a/omegaconf/grammar_parser.py
+++ b/omegaconf/grammar_parser.py
@@ -24,13 +24,14 @@ _config_key = r"[$\w]+"  # foo, $0, $bar, $foo_$bar123$
 _key_maybe_brackets = f"{_config_key}|\\[{_config_key}\\]"  # foo, [foo], [$bar]
 _node_access = f"\\.{_key_maybe_brackets}"  # .foo, [foo], [$bar]
 _node_path = f"(\\.)*({_key_maybe_brackets})({_node_access})*"  # [foo].bar, .foo[bar]
-_node_inter = f"\\${{\\s*{_node_path}\\s*}}"  # node interpolation ${foo.bar}
+_ws = "[ \\t]*"  # whitespace of the grammar (line breaks are not)
+_node_inter = f"\\${{{_ws}{_node_path}{_ws}}}"  # node interpolation ${foo.bar}
 _id = "[a-zA-Z_][\\w\\-]*"  # foo, foo_bar, foo-bar, abc123
-_resolver_name = f"({_id}(\\.{_id})*)?"  # foo, ns.bar3, ns_1.ns_2.b0z
+_resolver_name = f"{_id}(\\.{_id})*"  # foo, ns.bar3, ns_1.ns_2.b0z
 _arg = r"[a-zA-Z_0-9/\-\+.$%*@?|]+"  # string representing a resolver argument
-_args = f"{_arg}(\\s*,\\s*{_arg})*"  # list of resolver arguments  # noqa: E231
+_args = f"{_arg}({_ws},{_ws}{_arg})*"  # list of resolver arguments  # noqa: E231
 _resolver_inter = (
-    f"\\${{\\s*{_resolver_name}\\s*:\\s*{_args}?\\s*}}"  # ${foo:bar}  # noqa: E231
+    f"\\${{{_ws}{_resolver_name}{_ws}:{_ws}{_args}?{_ws}}}"  # ${foo:bar}  # noqa: E231
 )
 _inter = f"({_node_inter}|{_resolver_inter})"  # any kind of interpolation
 _outer = "([^$]|\\$(?!{))+"  # any character except $ (unless not followed by {)
-- 
2.43.0


From 29fae3333c02e5befe71f52fd3effdbbc14dd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 22/65] fix: a parse error at the first token of a cached
 parser is reported as GrammarParseError

---
 omegaconf/grammar_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/grammar_parser.py b/omegaconf/grammar_parser.py
index f12bfbc..404cd79 100644
--- a/omegaconf/grammar_parser.py
+++ b/omegaconf/grammar_parser.py
@@ -135,9 +135,11 @@ def parse(
         # Initialize the lexer / token stream / parser to process the new input.
         lexer.mode(l_mode)
         token_stream.setTokenSource(lexer)
-        parser.reset()
 
     try:
+        if cached is not None:
+            # Note that this already reads the first token.
+            parser.reset()
         return getattr(parser, parser_rule)()  # type: ignore
     except Exception as exc:
         if type(exc) is Exception and str(exc) == "Empty Stack":
-- 
2.43.0


From 07cdb801dc9f79e6b4ffd9a68296d9d2e7bac432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 23/65] fix: duplicate keys that are not strings are rejected
 when loading YAML

---
 omegaconf/_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index e9c7f5b..5e3f1fb 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -158,16 +158,20 @@ def get_yaml_loader() -> Any:
         def construct_mapping(self, node: yaml.Node, deep: bool = False) -> Any:
             keys = set()
             for key_node, value_node in node.value:
-                if key_node.tag != yaml.resolver.BaseResolver.DEFAULT_SCALAR_TAG:
+                if (
+                    not isinstance(key_node, yaml.ScalarNode)
+                    or key_node.tag == "tag:yaml.org,2002:merge"
+                ):
                     continue
-                if key_node.value in keys:
+                key = self.construct_object(key_node)
+                if key in keys:
                     raise yaml.constructor.ConstructorError(
                         "while constructing a mapping",
                         node.start_mark,
                         f"found duplicate key {key_node.value}",
                         key_node.start_mark,
                     )
-                keys.add(key_node.value)
+                keys.add(key)
             return super().construct_mapping(node, deep=deep)
 
     loader = OmegaConfLoader
-- 
2.43.0


From 05a0c8958d6b75fe14343a7736cad185cdc7f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 24/65] fix: OmegaConf.resolve keeps escaped interpolations
 escaped

---
 omegaconf/_impl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 0898e3e..e872e8b 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -1,3 +1,4 @@
+import re
 from typing import Any
 
 from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNode
@@ -24,6 +25,9 @@ def _set_resolved(node: Node, value: Any) -> None:
             value=value,
             cause=ReadonlyConfigError("Cannot resolve a read-only config node"),
         )
+    if isinstance(value, str):
+        # Keep escaped interpolations escaped, so that the value still reads the same.
+        value = re.sub(r"(\\*)\$\{", lambda m: 2 * m.group(1) + r"\${", value)
     node._set_value(value)
 
 
-- 
2.43.0


From 5eab97888248f00d766bac7efbecc92e6139ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 25/65] fix: OmegaConf.update through a negative list index
 keeps the element it goes through

---
 omegaconf/omegaconf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 14866ae..4126ede 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -722,6 +722,8 @@ class OmegaConf:
             root = cfg
             for i in range(len(split) - 1):
                 k = split[i]
+                if isinstance(root, ListConfig) and is_int(k) and int(k) < 0:
+                    k = str(len(root) + int(k))
                 # if next_root is a primitive (string, int etc) replace it with an empty map
                 next_root, key_ = _select_one(root, k, throw_on_missing=False)
                 if not isinstance(next_root, Container):
-- 
2.43.0


From b7b10e5d0b1b40977abb78a1b4f3228a98262180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 26/65] fix: a bracketed path element may contain line breaks

---
 omegaconf/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 5e3f1fb..a53641e 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -69,8 +69,8 @@ KEY_PATH_HEAD = re.compile(r"(\.)*[^.[]*")
 # Then we match other keys. The following expression matches one key and can
 # be read as a choice between two syntaxes:
 #   - `.` followed by anything except `.` or `[` (ex: .b, .d)
-#   - `[` followed by anything then `]` (ex: [b], [c])
-KEY_PATH_OTHER = re.compile(r"\.([^.[]*)|\[(.*?)\]")
+#   - `[` followed by anything except `]` then `]` (ex: [b], [c])
+KEY_PATH_OTHER = re.compile(r"\.([^.[]*)|\[([^\]]*)\]")
 
 
 # source: https://yaml.org/type/bool.html
-- 
2.43.0


From 49758428972a5a149b9a9221c57e659e86a6814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 27/65] fix: the full key of a container inside a list

---
 omegaconf/basecontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index d00a6b4..b88d597 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -811,7 +811,7 @@ class BaseContainer(Container, ABC):
             cur = self
             if cur._key() is None:
                 return ""
-            full_key = self._key()
+            full_key = prepand("", type(cur._get_parent()), type(cur), cur._key())
 
         assert cur is not None
         memo = {id(cur)}  # remember already visited nodes so as to detect cycles
-- 
2.43.0


From a58284bfc59585ebc3e9ae6aafff69866a2847e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 28/65] fix: a missing ListConfig is not equal to an empty list

---
 omegaconf/listconfig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index c06b4ba..4aeb9c3 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -660,6 +660,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         assert isinstance(l2, ListConfig)
         if len(l1) != len(l2):
             return False
+        if l1._is_missing() or l2._is_missing():
+            return l1._is_missing() is l2._is_missing()
         for i in range(len(l1)):
             if not BaseContainer._item_eq(l1, i, l2, i):
                 return False
-- 
2.43.0


From a96473f23265e7c03f1e2b495bfb383e7f08ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 29/65] fix: an unresolvable interpolation is not equal to None

---
 omegaconf/basecontainer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index b88d597..c921697 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -705,17 +705,17 @@ class BaseContainer(Container, ABC):
         if v2_inter:
             dv2 = v2._maybe_dereference_node()
 
-        if v1_inter and v2_inter:
-            if dv1 is None or dv2 is None:
-                return v1 == v2
-            else:
-                # both are not none, if both are containers compare as container
-                if isinstance(dv1, Container) and isinstance(dv2, Container):
-                    if dv1 != dv2:
-                        return False
-                dv1 = _get_value(dv1)
-                dv2 = _get_value(dv2)
-                return dv1 == dv2
+        if dv1 is None or dv2 is None:
+            # an interpolation that cannot be resolved has no value to compare
+            return v1_inter and v2_inter and bool(v1._value() == v2._value())
+        elif v1_inter and v2_inter:
+            # if both are containers compare as container
+            if isinstance(dv1, Container) and isinstance(dv2, Container):
+                if dv1 != dv2:
+                    return False
+            dv1 = _get_value(dv1)
+            dv2 = _get_value(dv2)
+            return dv1 == dv2
         elif not v1_inter and not v2_inter:
             v1 = _get_value(v1)
             v2 = _get_value(v2)
-- 
2.43.0


From b8f3f4e9133992dc8c1f570d2496424582d3bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 30/65] fix: missing_keys does not resolve interpolations

---
 omegaconf/omegaconf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 4126ede..f447e9d 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -829,10 +829,12 @@ class OmegaConf:
                 itr = _cfg
 
             for key in itr:
+                # interpolations are not missing, and what they lead to is elsewhere
+                node = _cfg._get_child(key)
                 if OmegaConf.is_missing(_cfg, key):
                     missings.add(_cfg._get_full_key(key))
-                elif OmegaConf.is_config(_cfg[key]):
-                    gather(_cfg[key])
+                elif isinstance(node, Container):
+                    gather(node)
 
         gather(cfg)
         return missings
-- 
2.43.0


From fd4b70ed5eb6f967621c7b986e7b1ad57f4c492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 31/65] fix: ListConfig.insert does not change the inserted
 node

---
 omegaconf/listconfig.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 4aeb9c3..f819824 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -308,12 +308,17 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 # insert place holder
                 self.__dict__["_content"].insert(index, None)
                 is_optional, ref_type = _resolve_optional(self._metadata.element_type)
-                node = _maybe_wrap(
-                    ref_type=ref_type,
-                    key=index,
-                    value=item,
-                    is_optional=is_optional,
-                    parent=self,
+                # a node is copied when it is set and must not be changed here
+                node = (
+                    item
+                    if isinstance(item, Node)
+                    else _maybe_wrap(
+                        ref_type=ref_type,
+                        key=index,
+                        value=item,
+                        is_optional=is_optional,
+                        parent=self,
+                    )
                 )
                 self._validate_set(key=index, value=node)
                 self._set_at_index(index, node)
-- 
2.43.0


From 8d83565f87171469e85cd1d61106937d8d8ab0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 32/65] fix: extending a list with itself terminates

---
 omegaconf/listconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index f819824..7f839d4 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -333,7 +333,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
     def extend(self, lst: Iterable[Any]) -> None:
         assert isinstance(lst, (tuple, list, ListConfig))
-        for x in lst:
+        for x in list(lst):  # lst can be self
             self.append(x)
 
     def remove(self, x: Any) -> None:
-- 
2.43.0


From 8e50daf6e7fef33a501938aa805d69f2c4c543e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 33/65] fix: call the factory of attrs fields when converting
 an attrs class

---
 omegaconf/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index a53641e..f20ca88 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -396,6 +396,8 @@ def get_attr_data(obj: Any, allow_objects: Optional[bool] = None) -> Dict[str, A
             value = attrib.default
             if value == attr.NOTHING:
                 value = MISSING
+            elif isinstance(value, attr.Factory) and not value.takes_self:  # type: ignore
+                value = value.factory()
         if is_union_annotation(type_) and not is_supported_union_annotation(type_):
             e = ConfigValueError(
                 f"Unions of containers are not supported:\n{name}: {type_str(type_)}"  # noqa: E231
-- 
2.43.0


From 0f40ee3ea4bf92a992bcd5c3b3f9663a10035a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 34/65] fix: keep the nodes of an error when its type is
 overridden

---
 omegaconf/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index f20ca88..e9559c7 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -872,7 +872,7 @@ def format_and_raise(
         ex = cause
         if type_override is not None:
             ex = type_override(str(cause))
-            ex.__dict__ = copy.deepcopy(cause.__dict__)
+            ex.__dict__ = copy.copy(cause.__dict__)
         _raise(ex, cause)
 
     object_type: Optional[Type[Any]]
-- 
2.43.0


From d63e7e8b7c04666fa05eda2cb375a00669685ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 35/65] fix: errors about invalid keys name the key

---
 omegaconf/dictconfig.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 6794721..ebcf1d4 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -394,7 +394,10 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
             self._format_and_raise(key=key, value=None, cause=ConfigAttributeError(msg))
 
     def __delitem__(self, key: DictKeyType) -> None:
-        key = self._validate_and_normalize_key(key)
+        try:
+            key = self._validate_and_normalize_key(key)
+        except KeyValidationError as e:
+            self._format_and_raise(key=key, value=None, cause=e)
         if self._get_flag("readonly"):
             self._format_and_raise(
                 key=key,
@@ -461,9 +464,10 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
     ) -> Optional[Node]:
         try:
             key = self._validate_and_normalize_key(key)
-        except KeyValidationError:
+        except KeyValidationError as e:
             if validate_access and validate_key:
-                raise
+                self._format_and_raise(key=key, value=None, cause=e)
+                assert False
             else:
                 if throw_on_missing_key:
                     raise ConfigAttributeError
-- 
2.43.0


From 26171e775cf96efa97109e7fcbd5e8c0a3698478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 36/65] fix: deleting from a list raises config errors

---
 omegaconf/listconfig.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 7f839d4..24102bc 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -348,7 +348,19 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                     "Cannot delete item from read-only ListConfig"
                 ),
             )
-        del self.__dict__["_content"][key]
+        try:
+            self._validate_get(key)
+            if self._is_none():
+                raise TypeError(
+                    "Cannot delete item from a ListConfig object representing None"
+                )
+            if self._is_missing():
+                raise MissingMandatoryValue(
+                    "Cannot delete item from a missing ListConfig"
+                )
+            del self.__dict__["_content"][key]
+        except Exception as e:
+            self._format_and_raise(key=key, value=None, cause=e)
         self._update_keys()
 
     def clear(self) -> None:
-- 
2.43.0


From a366f619b427cee60e1f01e18a07a2ce171d863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 37/65] fix: appending to a None or missing list raises config
 errors

---
 omegaconf/listconfig.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 24102bc..165d2d8 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -269,7 +269,14 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
     def append(self, item: Any) -> None:
         content = self.__dict__["_content"]
-        index = len(content)
+        index = len(self)
+        try:
+            if self._is_none():
+                raise TypeError("Cannot append to a ListConfig object representing None")
+            if self._is_missing():
+                raise MissingMandatoryValue("Cannot append to a missing ListConfig")
+        except (TypeError, MissingMandatoryValue) as e:
+            self._format_and_raise(key=index, value=item, cause=e)
         content.append(None)
         try:
             self._set_item_impl(index, item)
-- 
2.43.0


From 4c4a9faf32dd321ce513412fd86a49587d16eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 38/65] fix: errors of OmegaConf.resolve name the node

---
 omegaconf/_impl.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index e872e8b..1f06642 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -5,6 +5,7 @@ from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNod
 from omegaconf.errors import (
     ConfigTypeError,
     InterpolationToMissingValueError,
+    OmegaConfBaseException,
     ReadonlyConfigError,
 )
 from omegaconf.nodes import InterpolationResultNode
@@ -32,6 +33,13 @@ def _set_resolved(node: Node, value: Any) -> None:
 
 
 def _resolve_container_value(cfg: Container, key: Any) -> None:
+    try:
+        _resolve_container_value_impl(cfg, key)
+    except OmegaConfBaseException as e:
+        cfg._format_and_raise(key=key, value=None, cause=e)
+
+
+def _resolve_container_value_impl(cfg: Container, key: Any) -> None:
     node = cfg._get_child(key)
     assert isinstance(node, Node)
     if node._is_interpolation():
-- 
2.43.0


From c9a3552d15a48bebe16676b06ba9fc39119e1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 39/65] fix: OmegaConf.update raises config errors for invalid
 list indices

---
 omegaconf/omegaconf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index f447e9d..52c5e16 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -725,7 +725,10 @@ class OmegaConf:
                 if isinstance(root, ListConfig) and is_int(k) and int(k) < 0:
                     k = str(len(root) + int(k))
                 # if next_root is a primitive (string, int etc) replace it with an empty map
-                next_root, key_ = _select_one(root, k, throw_on_missing=False)
+                try:
+                    next_root, key_ = _select_one(root, k, throw_on_missing=False)
+                except TypeError as e:
+                    root._format_and_raise(key=k, value=value, cause=e)
                 if not isinstance(next_root, Container):
                     if undo is None:
                         undo = _node_state(root, key_)
@@ -743,7 +746,7 @@ class OmegaConf:
             ), f"Unexpected type for root: {type(root).__name__}"
 
             last_key: Union[str, int] = last
-            if isinstance(root, ListConfig):
+            if isinstance(root, ListConfig) and is_int(last):
                 last_key = int(last)
 
             ctx = flag_override(root, "struct", False) if force_add else nullcontext()
@@ -760,8 +763,7 @@ class OmegaConf:
                     assert isinstance(last_key, str)
                     root.__setattr__(last_key, value)
                 elif OmegaConf.is_list(root):
-                    assert isinstance(last_key, int)
-                    root.__setitem__(last_key, value)
+                    root.__setitem__(last_key, value)  # type: ignore
                 else:
                     assert False
         except Exception:
-- 
2.43.0


From 417c085377aa124cc31bc33ea95f4902e6977f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 40/65] fix: access to a missing DictConfig raises config
 errors

---
 omegaconf/dictconfig.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index ebcf1d4..3ea5562 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -474,6 +474,22 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
                 else:
                     return None
 
+        if not isinstance(self.__dict__["_content"], dict):
+            # None, missing or an interpolation: there are no nodes
+            if not validate_access:
+                return None
+            try:
+                if self._is_missing():
+                    raise MissingMandatoryValue(
+                        "Cannot get_node from a missing DictConfig"
+                    )
+                what = "None" if self._is_none() else "an interpolation"
+                raise TypeError(
+                    f"Cannot get_node from a DictConfig object representing {what}"
+                )
+            except (MissingMandatoryValue, TypeError) as e:
+                self._format_and_raise(key=key, value=None, cause=e)
+
         if validate_access:
             self._validate_get(key)
 
-- 
2.43.0


From fa6655fb2dc235a53940f2396e5bdf6f9e979a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 41/65] fix: errors of iterating name the node

---
 omegaconf/dictconfig.py |  6 +++++-
 omegaconf/listconfig.py | 39 ++++++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 3ea5562..a185bcf 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -600,7 +600,11 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
                 cause=TypeError("Cannot iterate a DictConfig object representing None"),
             )
         if self._is_missing():
-            raise MissingMandatoryValue("Cannot iterate a missing DictConfig")
+            self._format_and_raise(
+                key=None,
+                value=None,
+                cause=MissingMandatoryValue("Cannot iterate a missing DictConfig"),
+            )
 
         for key in self.keys():
             if resolve:
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 165d2d8..1a03b64 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -31,6 +31,7 @@ from .errors import (
     ConfigAttributeError,
     ConfigTypeError,
     ConfigValueError,
+    InterpolationResolutionError,
     KeyValidationError,
     MissingMandatoryValue,
     ReadonlyConfigError,
@@ -541,6 +542,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
     class ListIterator(Iterator[Any]):
         def __init__(self, lst: Any, resolve: bool) -> None:
             self.resolve = resolve
+            self.lst = lst
             self.iterator = iter(lst.__dict__["_content"])
             self.index = 0
             from .nodes import ValueNode
@@ -550,9 +552,14 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         def __next__(self) -> Any:
             x = next(self.iterator)
             if self.resolve:
-                x = x._dereference_node()
-                if x._is_missing():
-                    raise MissingMandatoryValue(f"Missing value at index {self.index}")
+                try:
+                    x = x._dereference_node()
+                    if x._is_missing():
+                        raise MissingMandatoryValue(
+                            f"Missing value at index {self.index}"
+                        )
+                except (InterpolationResolutionError, MissingMandatoryValue) as e:
+                    self.lst._format_and_raise(key=self.index, value=None, cause=e)
 
             self.index = self.index + 1
             if isinstance(x, self.ValueNode):
@@ -603,18 +610,24 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         return self
 
     def __contains__(self, item: Any) -> bool:
-        if self._is_none():
-            raise TypeError(
-                "Cannot check if an item is in a ListConfig object representing None"
-            )
-        if self._is_missing():
-            raise MissingMandatoryValue(
-                "Cannot check if an item is in missing ListConfig"
-            )
+        try:
+            if self._is_none():
+                raise TypeError(
+                    "Cannot check if an item is in a ListConfig object representing None"
+                )
+            if self._is_missing():
+                raise MissingMandatoryValue(
+                    "Cannot check if an item is in missing ListConfig"
+                )
+        except (TypeError, MissingMandatoryValue) as e:
+            self._format_and_raise(key=None, value=item, cause=e)
 
         lst = self.__dict__["_content"]
-        for x in lst:
-            x = x._dereference_node()
+        for i, x in enumerate(lst):
+            try:
+                x = x._dereference_node()
+            except InterpolationResolutionError as e:
+                self._format_and_raise(key=i, value=item, cause=e)
             if x == item:
                 return True
         return False
-- 
2.43.0


From 0fdcf47406ddf4eb8d17e4d319cffdfdeeab0672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 42/65] fix: deleting from a None or missing dict raises config
 errors

---
 omegaconf/dictconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index a185bcf..5a0e6cf 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -392,6 +392,8 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         except KeyError:
             msg = "Attribute not found: '$KEY'"
             self._format_and_raise(key=key, value=None, cause=ConfigAttributeError(msg))
+        except TypeError as e:  # None, missing or an interpolation
+            self._format_and_raise(key=key, value=None, cause=e)
 
     def __delitem__(self, key: DictKeyType) -> None:
         try:
@@ -428,6 +430,8 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         except KeyError:
             msg = "Key not found: '$KEY'"
             self._format_and_raise(key=key, value=None, cause=ConfigKeyError(msg))
+        except TypeError as e:  # None, missing or an interpolation
+            self._format_and_raise(key=key, value=None, cause=e)
 
     def get(self, key: DictKeyType, default_value: Any = None) -> Any:
         """Return the value for `key` if `key` is in the dictionary, else
-- 
2.43.0


From 8b267f22733388deeae063ccb863d707a155f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 43/65] fix: formatting an error raises it when its type needs
 other arguments

---
 omegaconf/_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index e9559c7..c146e2d 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -939,7 +939,11 @@ def format_and_raise(
     elif exception_type == IndexError:
         exception_type = ConfigIndexError
 
-    ex = exception_type(f"{message}")
+    try:
+        ex = exception_type(f"{message}")
+    except Exception:
+        # an exception type that cannot be created from a message alone
+        raise cause
     if issubclass(exception_type, OmegaConfBaseException):
         ex._initialized = True
         ex.msg = message
-- 
2.43.0


From 98490903ad63a0aa4e1ed6743cac4b364f8acce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 44/65] fix: errors of merging name the nested key

---
 omegaconf/basecontainer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index c921697..6435dc2 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -367,7 +367,10 @@ class BaseContainer(Container, ABC):
             src_node_missing = src_vk is ValueKind.MANDATORY_MISSING
 
             if isinstance(dest_node, DictConfig):
-                dest_node._validate_merge(value=src_node)
+                try:
+                    dest_node._validate_merge(value=src_node)
+                except ValidationError as e:
+                    dest._format_and_raise(key=key, value=src_value, cause=e)
 
             if (
                 isinstance(dest_node, Container)
@@ -400,10 +403,13 @@ class BaseContainer(Container, ABC):
             if dest_node is not None:
                 if isinstance(dest_node, BaseContainer):
                     if isinstance(src_node, BaseContainer):
-                        dest_node._merge_with(
-                            src_node,
-                            list_merge_mode=list_merge_mode,
-                        )
+                        try:
+                            dest_node._merge_with(
+                                src_node,
+                                list_merge_mode=list_merge_mode,
+                            )
+                        except Exception as e:
+                            dest._format_and_raise(key=key, value=src_value, cause=e)
                     elif not src_node_missing:
                         dest.__setitem__(key, src_node)
                 else:
-- 
2.43.0


From 965c852e58993ad4cf27f7fe25d17045206bae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 45/65] fix: errors of DictConfig.get name the key

---
 omegaconf/dictconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 5a0e6cf..114581a 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -438,7 +438,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         `default_value` (defaulting to `None`)."""
         try:
             return self._get_impl(key=key, default_value=default_value)
-        except KeyValidationError as e:
+        except Exception as e:
             self._format_and_raise(key=key, value=None, cause=e)
 
     def _get_impl(
-- 
2.43.0


From 933bb7d7b3b1b9ea822fcb3d8e989d26a36166c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 46/65] fix: a missing DictConfig still has no attributes and
 no missing keys

---
 omegaconf/dictconfig.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 114581a..b00ba01 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -483,15 +483,15 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
             if not validate_access:
                 return None
             try:
-                if self._is_missing():
-                    raise MissingMandatoryValue(
-                        "Cannot get_node from a missing DictConfig"
+                if self._is_none():
+                    raise TypeError(
+                        "Cannot get_node from a DictConfig object representing None"
                     )
-                what = "None" if self._is_none() else "an interpolation"
-                raise TypeError(
-                    f"Cannot get_node from a DictConfig object representing {what}"
-                )
-            except (MissingMandatoryValue, TypeError) as e:
+                what = "a missing DictConfig"
+                if not self._is_missing():
+                    what = "a DictConfig that is an interpolation"
+                raise ConfigAttributeError(f"Cannot get_node from {what}")
+            except (TypeError, ConfigAttributeError) as e:
                 self._format_and_raise(key=key, value=None, cause=e)
 
         if validate_access:
-- 
2.43.0


From e10c8e2a7bc6eeba81289dd6124e07952b297975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 47/65] fix: merging None, an interpolation or an empty list
 over a read-only container raises

---
 omegaconf/basecontainer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 6435dc2..03d5b54 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -316,6 +316,7 @@ class BaseContainer(Container, ABC):
         #  - None => set the destination DictConfig to None
         #  - an interpolation => set the destination DictConfig to be the same interpolation
         if src._is_none() or src._is_interpolation():
+            _validate_not_readonly(dest)
             dest._set_value(src._value())
             _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
             return
@@ -323,6 +324,7 @@ class BaseContainer(Container, ABC):
         dest._validate_merge(value=src)
 
         def expand(node: Container) -> None:
+            _validate_not_readonly(node)
             rt = node._metadata.ref_type
             val: Any
             if rt is not Any:
@@ -444,6 +446,8 @@ class BaseContainer(Container, ABC):
                 else:
                     dest[key] = src._get_node(key)
 
+        if src_type not in (None, dict, dest._metadata.object_type):
+            _validate_not_readonly(dest)
         _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
 
         # explicit flags on the source config are replacing the flag values in the destination
@@ -465,12 +469,14 @@ class BaseContainer(Container, ABC):
         assert isinstance(src, ListConfig)
 
         if src._is_none():
+            _validate_not_readonly(dest)
             dest._set_value(None)
         elif src._is_missing():
             # do not change dest if src is MISSING.
             if dest._metadata.element_type is Any:
                 dest._metadata.element_type = src._metadata.element_type
         elif src._is_interpolation():
+            _validate_not_readonly(dest)
             dest._set_value(src._value())
         else:
             temp_target = ListConfig(content=[], parent=dest._get_parent())
@@ -499,6 +505,7 @@ class BaseContainer(Container, ABC):
                     if entry not in dest.__dict__["_content"]:
                         dest.__dict__["_content"].append(entry)
             else:  # REPLACE (default)
+                _validate_not_readonly(dest)
                 dest.__dict__["_content"] = temp_target.__dict__["_content"]
             dest._update_keys()
 
@@ -853,6 +860,11 @@ def _create_structured_with_missing_fields(
     return cfg
 
 
+def _validate_not_readonly(node: Container) -> None:
+    if node._get_flag("readonly"):
+        raise ReadonlyConfigError("Cannot change read-only config container")
+
+
 def _update_types(node: Node, ref_type: Any, object_type: Optional[type]) -> None:
     if object_type is not None and not is_primitive_dict(object_type):
         node._metadata.object_type = object_type
-- 
2.43.0


From 39ab4e31562f193fe5d553c3a11b4f393c5f0cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 48/65] fix: merging over a config that is None

---
 omegaconf/basecontainer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 03d5b54..e020293 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -337,7 +337,7 @@ class BaseContainer(Container, ABC):
             elif isinstance(node, DictConfig):
                 val = {}
             else:
-                assert False
+                val = []
 
             node._set_value(val)
 
@@ -354,7 +354,9 @@ class BaseContainer(Container, ABC):
                 ref_type=src_ref_type, object_type=src_type
             )
 
-        if (dest._is_interpolation() or dest._is_missing()) and not src._is_missing():
+        if (
+            dest._is_none() or dest._is_interpolation() or dest._is_missing()
+        ) and not src._is_missing():
             expand(dest)
 
         src_items = list(src) if not src._is_missing() else []
-- 
2.43.0


From 7f2f00eb95065148ebec55067de9ef7c633f9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 49/65] fix: a missing container does not override a value when
 merging

---
 omegaconf/basecontainer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index e020293..f051aad 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -418,7 +418,16 @@ class BaseContainer(Container, ABC):
                         dest.__setitem__(key, src_node)
                 else:
                     if isinstance(src_node, BaseContainer):
-                        dest.__setitem__(key, src_node)
+                        if not src_node_missing:
+                            dest.__setitem__(key, src_node)
+                        elif isinstance(dest_node, AnyNode) and src_node._has_ref_type():
+                            # a missing node keeps the value in dest, but gives it its type
+                            node = copy.copy(src_node)
+                            try:
+                                node._set_value(dest_node._value())
+                            except ValidationError as e:
+                                dest._format_and_raise(key=key, value=src_value, cause=e)
+                            dest.__setitem__(key, node)
                     else:
                         assert isinstance(dest_node, (ValueNode, UnionNode))
                         assert isinstance(src_node, (ValueNode, UnionNode))
-- 
2.43.0


From e682197af6da617fe13b8101f382df0509227457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 50/65] fix: a failed assignment restores the metadata of the
 container

---
 omegaconf/dictconfig.py | 3 +++
 omegaconf/listconfig.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index b00ba01..21c59d0 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -668,9 +668,12 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
         try:
             previous_content = self.__dict__["_content"]
+            previous_metadata = copy.copy(self.__dict__["_metadata"])
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
+            self.__dict__["_metadata"] = previous_metadata
+            self._invalidate_flags_cache()
             raise e
 
     def _set_value_impl(
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 1a03b64..efbf45d 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -635,7 +635,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
         try:
             previous_content = self.__dict__["_content"]
-            previous_metadata = self.__dict__["_metadata"]
+            previous_metadata = copy.copy(self.__dict__["_metadata"])
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
@@ -660,6 +660,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._metadata.object_type = None
         elif vk is ValueKind.MANDATORY_MISSING:
             self.__dict__["_content"] = MISSING
+            self._invalidate_flags_cache()
             self._metadata.object_type = None
         elif vk == ValueKind.INTERPOLATION:
             self.__dict__["_content"] = value
-- 
2.43.0


From 971f561331d0171ca69a89fb06036fd371d566be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 51/65] fix: setting a union node of a read-only config raises

---
 omegaconf/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 39667d9..4b798b6 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -29,6 +29,7 @@ from .errors import (
     InterpolationToMissingValueError,
     InterpolationValidationError,
     MissingMandatoryValue,
+    ReadonlyConfigError,
     UnsupportedInterpolationType,
     ValidationError,
 )
@@ -884,6 +885,9 @@ class UnionNode(Box):
     ) -> None:
         from omegaconf.omegaconf import _node_wrap
 
+        if self._get_flag("readonly"):
+            raise ReadonlyConfigError("Cannot set value of read-only config node")
+
         ref_type = self._metadata.ref_type
         type_hint = self._metadata.type_hint
 
-- 
2.43.0


From 1376d6ee69e9495fe5580cf3e09f1e9e97dd31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 52/65] fix: assigning a missing value node to a typed
 container keeps the element type

---
 omegaconf/basecontainer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index f051aad..608428d 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -644,6 +644,13 @@ class BaseContainer(Container, ABC):
 
         if input_is_typed_vnode and not is_union_annotation(target_ref_type):
             assign(key, value)
+            if (
+                target_ref_type is not Any
+                and value._metadata.object_type is not target_ref_type
+                and _is_special(value)
+            ):
+                # the node must be one that holds values of the element type only
+                self._wrap_value_and_set(key, value._value(), target_type_hint)
         else:
             # input is not a ValueNode, can be primitive or box
 
-- 
2.43.0


From fd038f0b0f4818f9d8becfbd6831692d9996a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 53/65] fix: bool elements are not accepted where another
 primitive type is expected

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 608428d..af93d14 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -967,7 +967,9 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
     elif vk == ValueKind.VALUE:
         if is_primitive_type_annotation(ref_type) and isinstance(node, ValueNode):
             value = node._value()
-            if not isinstance(value, ref_type):
+            if not isinstance(value, ref_type) or (
+                isinstance(value, bool) and ref_type is not bool
+            ):
                 raise ValidationError(
                     f"Value {value!r} ({type(value).__name__})"
                     + f" is incompatible with type hint '{ref_type.__name__}'"
-- 
2.43.0


From 072ea58e2117ab5cfcadeaf4f6890f1ad9636c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 54/65] fix: a failed sort leaves the list as it was

---
 omegaconf/listconfig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index efbf45d..dfc1355 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -509,8 +509,10 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 def key1(x: Any) -> Any:
                     return key(x._value())
 
-            assert isinstance(self.__dict__["_content"], list)
-            self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            content = self.__dict__["_content"]
+            assert isinstance(content, list)
+            # list.sort() leaves the list partially sorted if it fails
+            content[:] = sorted(content, key=key1, reverse=reverse)
             self._update_keys()
 
         except Exception as e:
-- 
2.43.0


From 56ecc77b0460db3ec347965ff5aa5f0063104ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 55/65] fix: reversing a list of containers

---
 omegaconf/listconfig.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index dfc1355..b524ad3 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -519,6 +519,23 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._format_and_raise(key=None, value=None, cause=e)
             assert False
 
+    def reverse(self) -> None:
+        try:
+            if self._get_flag("readonly"):
+                raise ReadonlyConfigError("Cannot reverse a read-only ListConfig")
+            if self._is_none():
+                raise TypeError("Cannot reverse a ListConfig object representing None")
+            if self._is_missing():
+                raise MissingMandatoryValue("Cannot reverse a missing ListConfig")
+
+            assert isinstance(self.__dict__["_content"], list)
+            self.__dict__["_content"].reverse()
+            self._update_keys()
+
+        except Exception as e:
+            self._format_and_raise(key=None, value=None, cause=e)
+            assert False
+
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, (list, tuple)) or other is None:
             other = ListConfig(other, flags={"allow_objects": True})
-- 
2.43.0


From 239162f720e2a6d12e9d7d5e644b75c0a51a35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 56/65] fix: iterating or sorting a list of unions uses the
 values

---
 omegaconf/listconfig.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index b524ad3..f2545df 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -15,6 +15,7 @@ from typing import (
 
 from ._utils import (
     ValueKind,
+    _get_value,
     _is_missing_literal,
     _is_none,
     _resolve_optional,
@@ -25,7 +26,7 @@ from ._utils import (
     is_structured_config,
     type_str,
 )
-from .base import Box, ContainerMetadata, Node
+from .base import Box, ContainerMetadata, Node, UnionNode
 from .basecontainer import BaseContainer
 from .errors import (
     ConfigAttributeError,
@@ -502,12 +503,12 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if key is None:
 
                 def key1(x: Any) -> Any:
-                    return x._value()
+                    return _get_value(x)
 
             else:
 
                 def key1(x: Any) -> Any:
-                    return key(x._value())
+                    return key(_get_value(x))
 
             content = self.__dict__["_content"]
             assert isinstance(content, list)
@@ -581,8 +582,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                     self.lst._format_and_raise(key=self.index, value=None, cause=e)
 
             self.index = self.index + 1
-            if isinstance(x, self.ValueNode):
-                return x._value()
+            if isinstance(x, (self.ValueNode, UnionNode)):
+                return _get_value(x)
             else:
                 # Must be omegaconf.Container. not checking for perf reasons.
                 if x._is_none():
@@ -659,6 +660,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         except Exception as e:
             self.__dict__["_content"] = previous_content
             self.__dict__["_metadata"] = previous_metadata
+            self._invalidate_flags_cache()
             raise e
 
     def _set_value_impl(
@@ -679,7 +681,6 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._metadata.object_type = None
         elif vk is ValueKind.MANDATORY_MISSING:
             self.__dict__["_content"] = MISSING
-            self._invalidate_flags_cache()
             self._metadata.object_type = None
         elif vk == ValueKind.INTERPOLATION:
             self.__dict__["_content"] = value
-- 
2.43.0


From 022eedc03288708638c54afb0cad0a7477d2c308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 57/65] fix: resolve keeps text that looks like an
 interpolation inside resolver results

---
 omegaconf/_impl.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 1f06642..1cf455c 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -26,10 +26,18 @@ def _set_resolved(node: Node, value: Any) -> None:
             value=value,
             cause=ReadonlyConfigError("Cannot resolve a read-only config node"),
         )
+    node._set_value(_escape(value))
+
+
+def _escape(value: Any) -> Any:
+    # Keep escaped interpolations escaped, so that the value still reads the same.
     if isinstance(value, str):
-        # Keep escaped interpolations escaped, so that the value still reads the same.
-        value = re.sub(r"(\\*)\$\{", lambda m: 2 * m.group(1) + r"\${", value)
-    node._set_value(value)
+        return re.sub(r"(\\*)\$\{", lambda m: 2 * m.group(1) + r"\${", value)
+    elif type(value) is dict:
+        return {k: _escape(v) for k, v in value.items()}
+    elif type(value) in (list, tuple):
+        return type(value)(_escape(v) for v in value)
+    return value
 
 
 def _resolve_container_value(cfg: Container, key: Any) -> None:
@@ -55,7 +63,7 @@ def _resolve_container_value_impl(cfg: Container, key: Any) -> None:
                 if is_primitive_container(resolved_value) or is_structured_config(
                     resolved_value
                 ):
-                    resolved = _ensure_container(resolved_value)
+                    resolved = _ensure_container(_escape(resolved_value))
             if isinstance(resolved, Container) and isinstance(node, ValueNode):
                 cfg[key] = resolved
             else:
-- 
2.43.0


From 3335ff1dc70572b5da55ca8686f8fbd72821dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 58/65] fix: resolving to or merging a tuple raises
 AssertionError

---
 omegaconf/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index c146e2d..b78143f 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -1009,7 +1009,7 @@ def _ensure_container(target: Any, flags: Optional[Dict[str, bool]] = None) -> A
     from omegaconf import OmegaConf
 
     if is_primitive_container(target):
-        assert isinstance(target, (list, dict))
+        assert isinstance(target, (list, tuple, dict))
         target = OmegaConf.create(target, flags=flags)
     elif is_structured_config(target):
         target = OmegaConf.structured(target, flags=flags)
-- 
2.43.0


From a51dd9b9ba471bfa066613a0f44ae776ad05792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 59/65] fix: a config given for a scalar field of a structured
 config is validated

---
 omegaconf/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index b78143f..cbde4a6 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -336,13 +336,15 @@ def _wrap_field(
     from omegaconf.base import Container, Node
     from omegaconf.omegaconf import _maybe_wrap, _node_wrap
 
-    is_typed_container = (
+    is_typed = (
         is_list_annotation(ref_type)
         or is_tuple_annotation(ref_type)
         or is_dict_annotation(ref_type)
         or is_structured_config(ref_type)
+        or is_primitive_type_annotation(ref_type)
+        or is_union_annotation(ref_type)
     )
-    if isinstance(value, Container) and is_typed_container:
+    if isinstance(value, Container) and is_typed:
         # a config is subject to the declared type like any other value
         if _is_special(value):
             value = value._value()
-- 
2.43.0


From 0d564f15193bbb0bea0aaf51d2e995cc60010466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 60/65] fix: unions inside containers that are put into typed
 containers

---
 omegaconf/basecontainer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index af93d14..9db84d4 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -933,6 +933,12 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
 
     subnode = node._get_node(key)
     assert isinstance(subnode, Node)
+    if is_union_annotation(_resolve_optional(value_type_hint)[1]) and not isinstance(
+        subnode, BaseContainer
+    ):
+        # the value must be one of the union's types, and be held by a UnionNode
+        node._wrap_value_and_set(key, _get_value(subnode), value_type_hint)
+        return
     is_special = _is_special(subnode)
     is_untyped = isinstance(subnode, AnyNode) and value_type_hint is not Any
     if is_untyped and not is_special:
-- 
2.43.0


From 6ff0f6a2afa5275ca2e58507ef9b29749b89862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 61/65] fix: merging a missing optional structured field, or a
 missing field over an interpolation

---
 omegaconf/basecontainer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 9db84d4..5856860 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -341,17 +341,18 @@ class BaseContainer(Container, ABC):
 
             node._set_value(val)
 
+        _, src_class = _resolve_optional(src_ref_type)
         if (
             src._is_missing()
-            and not dest._is_missing()
-            and is_structured_config(src_ref_type)
+            and not _is_special(dest)
+            and is_structured_config(src_class)
         ):
             # Replace `src` with a prototype of its corresponding structured config
             # whose fields are all missing (to avoid overwriting fields in `dest`).
             assert src_type is None  # src missing, so src's object_type should be None
-            src_type = src_ref_type
+            src_type = src_class
             src = _create_structured_with_missing_fields(
-                ref_type=src_ref_type, object_type=src_type
+                ref_type=src_class, object_type=src_type
             )
 
         if (
-- 
2.43.0


From a4480d828a427351de4846362132de1e3f45f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 62/65] fix: the type of a missing field applies to every value
 it is merged over

---
 omegaconf/basecontainer.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 5856860..f8a2b6b 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -304,7 +304,7 @@ class BaseContainer(Container, ABC):
         list_merge_mode: ListMergeMode = ListMergeMode.REPLACE,
     ) -> None:
         """merge src into dest and return a new copy, does not modified input"""
-        from omegaconf import AnyNode, DictConfig, ValueNode
+        from omegaconf import AnyNode, DictConfig, ValueNode, read_write
 
         assert isinstance(dest, DictConfig)
         assert isinstance(src, DictConfig)
@@ -360,6 +360,19 @@ class BaseContainer(Container, ABC):
         ) and not src._is_missing():
             expand(dest)
 
+        def set_typed(key: Any, dest_node: Node, src_node: Node) -> None:
+            # src_node is missing: use the value from dest_node,
+            # but validate it against the type of src_node before assignment
+            node = copy.deepcopy(src_node)
+            node._set_parent(None)
+            value = dest_node._value()
+            try:
+                with read_write(node):
+                    node._set_value(value)
+            except ValidationError as e:
+                dest._format_and_raise(key=key, value=value, cause=e)
+            dest.__setitem__(key, node)
+
         src_items = list(src) if not src._is_missing() else []
         for key in src_items:
             src_node = src._get_node(key, validate_access=False)
@@ -417,28 +430,21 @@ class BaseContainer(Container, ABC):
                             dest._format_and_raise(key=key, value=src_value, cause=e)
                     elif not src_node_missing:
                         dest.__setitem__(key, src_node)
+                    elif src_node._has_ref_type() and not dest_node._has_ref_type():
+                        set_typed(key, dest_node, src_node)
                 else:
                     if isinstance(src_node, BaseContainer):
                         if not src_node_missing:
                             dest.__setitem__(key, src_node)
                         elif isinstance(dest_node, AnyNode) and src_node._has_ref_type():
-                            # a missing node keeps the value in dest, but gives it its type
-                            node = copy.copy(src_node)
-                            try:
-                                node._set_value(dest_node._value())
-                            except ValidationError as e:
-                                dest._format_and_raise(key=key, value=src_value, cause=e)
-                            dest.__setitem__(key, node)
+                            set_typed(key, dest_node, src_node)
                     else:
                         assert isinstance(dest_node, (ValueNode, UnionNode))
                         assert isinstance(src_node, (ValueNode, UnionNode))
                         try:
                             if isinstance(dest_node, AnyNode):
                                 if src_node_missing:
-                                    node = copy.copy(src_node)
-                                    # if src node is missing, use the value from the dest_node,
-                                    # but validate it against the type of the src node before assigment
-                                    node._set_value(dest_node._value())
+                                    set_typed(key, dest_node, src_node)
                                 else:
                                     node = src_node
                                 dest.__setitem__(key, node)
-- 
2.43.0


From eed0fbbdd0b96d1267866c92beb3f6bd057129da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 63/65] fix: merging a typed list over an untyped one gives it
 its type

---
 omegaconf/basecontainer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index f8a2b6b..99a2efd 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -446,8 +446,7 @@ class BaseContainer(Container, ABC):
                                 if src_node_missing:
                                     set_typed(key, dest_node, src_node)
                                 else:
-                                    node = src_node
-                                dest.__setitem__(key, node)
+                                    dest.__setitem__(key, src_node)
                             else:
                                 if not src_node_missing:
                                     dest_node._set_value(src_value)
@@ -489,9 +488,20 @@ class BaseContainer(Container, ABC):
         if src._is_none():
             _validate_not_readonly(dest)
             dest._set_value(None)
+            _update_types(dest, ref_type=get_type_hint(src), object_type=None)
         elif src._is_missing():
             # do not change dest if src is MISSING.
-            if dest._metadata.element_type is Any:
+            if dest._metadata.element_type is Any and not dest._get_flag("readonly"):
+                if not dest._has_ref_type() and not _is_special(dest):
+                    # the elements of dest must be valid for the type it gets
+                    typed = ListConfig(
+                        content=[],
+                        parent=dest._get_parent(),
+                        element_type=src._metadata.element_type,
+                    )
+                    BaseContainer._list_merge(typed, dest)
+                    dest.__dict__["_content"] = typed.__dict__["_content"]
+                _update_types(dest, ref_type=get_type_hint(src), object_type=None)
                 dest._metadata.element_type = src._metadata.element_type
         elif src._is_interpolation():
             _validate_not_readonly(dest)
@@ -525,6 +535,7 @@ class BaseContainer(Container, ABC):
             else:  # REPLACE (default)
                 _validate_not_readonly(dest)
                 dest.__dict__["_content"] = temp_target.__dict__["_content"]
+                _update_types(dest, ref_type=get_type_hint(src), object_type=None)
             dest._update_keys()
 
         # explicit flags on the source config are replacing the flag values in the destination
-- 
2.43.0


From a8f4618f95acec46e4fb0098e448810e65e1ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 64/65] fix: configs holding nan are equal to themselves

---
 omegaconf/_utils.py        | 5 +++++
 omegaconf/basecontainer.py | 4 ++++
 omegaconf/nodes.py         | 6 +++---
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index cbde4a6..5bd552a 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -1,4 +1,5 @@
 import copy
+import math
 import os
 import pathlib
 import re
@@ -671,6 +672,10 @@ def _is_special(value: Any) -> bool:
     )
 
 
+def _is_nan(value: Any) -> bool:
+    return isinstance(value, float) and math.isnan(value)
+
+
 def is_float(st: str) -> bool:
     try:
         float(st)
diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 99a2efd..1b71b78 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -13,6 +13,7 @@ from ._utils import (
     _get_value,
     _is_interpolation,
     _is_missing_value,
+    _is_nan,
     _is_none,
     _is_special,
     _resolve_optional,
@@ -757,6 +758,9 @@ class BaseContainer(Container, ABC):
         if dv1 is None or dv2 is None:
             # an interpolation that cannot be resolved has no value to compare
             return v1_inter and v2_inter and bool(v1._value() == v2._value())
+        elif _is_nan(_get_value(dv1)) and _is_nan(_get_value(dv2)):
+            # nan is equal to nan, otherwise a config could differ from itself
+            return True
         elif v1_inter and v2_inter:
             # if both are containers compare as container
             if isinstance(dv1, Container) and isinstance(dv2, Container):
diff --git a/omegaconf/nodes.py b/omegaconf/nodes.py
index 462d1f5..bdc88dc 100644
--- a/omegaconf/nodes.py
+++ b/omegaconf/nodes.py
@@ -350,11 +350,11 @@ class FloatNode(ValueNode):
             other_val = other._val
         else:
             other_val = other
-        if self._val is None and other is None:
+        if self._val is None and other_val is None:
             return True
-        if self._val is None and other is not None:
+        if self._val is None and other_val is not None:
             return False
-        if self._val is not None and other is None:
+        if self._val is not None and other_val is None:
             return False
         nan1 = math.isnan(self._val) if isinstance(self._val, float) else False
         nan2 = math.isnan(other_val) if isinstance(other_val, float) else False
-- 
2.43.0


From fa82f4ac7ea620abc6d2034a3c5ccd2a81366ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 65/65] fix: ListConfig.sort orders elements that are
 references by the values they name

---
 omegaconf/listconfig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index f2545df..f450c05 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -503,12 +503,12 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if key is None:
 
                 def key1(x: Any) -> Any:
-                    return _get_value(x)
+                    return _get_value(x._dereference_node())
 
             else:
 
                 def key1(x: Any) -> Any:
-                    return key(_get_value(x))
+                    return key(_get_value(x._dereference_node()))
 
             content = self.__dict__["_content"]
             assert isinstance(content, list)
-- 
2.43.0

