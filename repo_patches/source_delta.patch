From 4dded73a0ea3d3b815184dc0bb20bcf4a414cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 01/98] fix: accept min and max at any bound of a range or
 length expression

---
 yangson/constraint.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index d1a94c0..55c71f3 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -99,24 +99,18 @@ class Intervals(Constraint, Generic[N]):
         def simpl(rng: list[N]) -> list[N]:
             return ([rng[0]] if rng[0] == rng[1] else rng)
 
-        def to_num(xs): return [parse(x) for x in xs]
         lo = self.intervals[0][0]
         hi = self.intervals[-1][-1]
-        ran = []
-        for p in [p.strip() for p in expr.split("|")]:
+
+        def bound(x: str) -> N:
+            return lo if x == "min" else hi if x == "max" else parse(x)
+        intervals = []
+        for p in expr.split("|"):
             r = [i.strip() for i in p.split("..")]
             if len(r) > 2:
                 raise InvalidArgument(expr)
-            ran.append(r)
-        if ran[0][0] != "min":
-            lo = parse(ran[0][0])
-        if ran[-1][-1] != "max":
-            hi = parse(ran[-1][-1])
-        self.intervals = (
-            [simpl([lo, hi])] if len(ran) == 1 else (
-                [simpl([lo, parse(ran[0][-1])])] +
-                [to_num(r) for r in ran[1:-1]] +
-                [simpl([parse(ran[-1][0]), hi])]))
+            intervals.append(simpl([bound(r[0]), bound(r[-1])]))
+        self.intervals = intervals
         if error_tag:
             self.error_tag = error_tag
         if error_message:
-- 
2.43.0


From ba28e08a2563e4270f7f995e5e51045084df34f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 02/98] fix: enforce mandatory choices with a single case or
 with optional cases only

---
 yangson/schemanode.py | 6 +++---
 yangson/schpattern.py | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 12d83df..c539753 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -662,7 +662,7 @@ class InternalNode(SchemaNode):
                     "member-not-allowed", m)
             p = newp
         if not p.nullable(ctype):
-            mms = p._mandatory_members(ctype)
+            mms = p._mandatory_members(ctype) or []
             msg = "one of " if len(mms) > 1 else ""
             raise SchemaError(
                 inst, "missing-data",
@@ -1488,8 +1488,8 @@ class ChoiceNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         if not self.children:
             return Empty()
-        prev = self.children[0]._schema_pattern()
-        for c in self.children[1:]:
+        prev = NotAllowed()
+        for c in self.children:
             prev = ChoicePattern(c._schema_pattern(), prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 7a53ce9..abee203 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -280,8 +280,10 @@ class ChoicePattern(Alternative, Typeable):
                 f"Choice {self.name}\n{self.left.tree(indent + 2)}\n"
                 f"{self.right.tree(indent + 2)}")
 
-    def _members(self, ctype: ContentType) -> list[InstanceName]:
-        return super()._members(ctype) if self._active(ctype) else []
+    def _mandatory_members(
+            self, ctype: ContentType) -> Optional[list[InstanceName]]:
+        if self._active(ctype):
+            return super()._mandatory_members(ctype) or [self.name]
 
 
 class Pair(SchemaPattern):
-- 
2.43.0


From d70c8105283165545a0161f99482e413ed211779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 03/98] fix: compare structured values by content instead of by
 hash

---
 yangson/instvalue.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index c706834..25ce736 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -24,7 +24,7 @@ This module implements the following classes:
 * ObjectValue: Cooked object value of an instance node.
 """
 from datetime import datetime
-from typing import Union
+from typing import Any, Union
 from .typealiases import InstanceName, PrefName, ScalarValue
 
 # Type aliases
@@ -66,7 +66,11 @@ class StructuredValue:
         Args:
         :param val: value to compare
         """
-        return self.__class__ == val.__class__ and hash(self) == hash(val)
+        return self.__class__ == val.__class__ and _key(self) == _key(val)
+
+    def __ne__(self, val: "StructuredValue") -> bool:
+        """Return ``True`` if the receiver is not equal to `val`."""
+        return not self == val
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
@@ -83,7 +87,7 @@ class ArrayValue(StructuredValue, list):
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        return tuple([x.__hash__() for x in self]).__hash__()
+        return hash(_key(self))
 
 
 class ObjectValue(StructuredValue, dict):
@@ -96,5 +100,13 @@ class ObjectValue(StructuredValue, dict):
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        sks = sorted(self.keys())
-        return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()
+        return hash(_key(self))
+
+
+def _key(val: Any) -> Any:
+    """Return a hashable object that characterizes value `val`."""
+    if isinstance(val, dict):
+        return dict, frozenset((k, _key(v)) for k, v in val.items())
+    if isinstance(val, list):
+        return list, tuple([_key(v) for v in val])
+    return val.__class__, val
-- 
2.43.0


From 5b38cd074fe903316e86ebcc9dca8f1390af368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 04/98] fix: give an entry inserted after another one the right
 index

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0d9a575..1b94988 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -941,7 +941,7 @@ class ArrayEntry(InstanceNode):
         nbef = self.before.copy()
         nbef.appendleft(self.value)
         return ArrayEntry(
-            self.index, nbef, self.after, self._cook_value(value, raw),
+            self.index + 1, nbef, self.after, self._cook_value(value, raw),
             self.parinst, self.schema_node, datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
-- 
2.43.0


From 4198d9ed63f0188a555e51023482904c649e0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 05/98] fix: leave the merged instances unchanged and merge
 anyxml, keyless lists, list entries and metadata

---
 yangson/instance.py | 47 ++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1b94988..3082ade 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -310,43 +310,50 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the merged value.
         """
-        if (isinstance(self.schema_node, (LeafNode, AnydataNode)) or
+        newval = self._cook_value(value, raw)
+        if (isinstance(self.schema_node, AnyContentNode) or
+                not isinstance(self.value, StructuredValue) or
                 not self.value):
-            return self.update(value, raw)
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
+            return self.update(newval)
         if isinstance(self.value, ArrayValue):
             return self._merge_list(newval)
         return self._merge_container(newval)
 
+    def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
+        return (self.schema_node.from_raw(value, self.json_pointer())
+                if raw else value)
+
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
+        keys = getattr(self.schema_node, "_key_members", None)
+        if not keys:
+            old = set([(en.__class__, en) for en in self.value])
+            newval = self.value.copy()
+            newval += [en for en in value if (en.__class__, en) not in old]
+            return self._copy(newval)
         inst = self._copy(self.value)
-        if isinstance(self.schema_node, LeafListNode):
-            inst.value += [
-                en for en in value if en in set(value) - set(self.value)]
-            return inst
-        keys = self.schema_node._key_members
         mki = {}
         for i in range(len(value)):
-            mki[tuple([value[i][k] for k in keys])] = i
+            mki[tuple([value[i].get(k) for k in keys])] = i
         for i in range(len(self.value)):
-            kval = tuple([self.value[i][k] for k in keys])
+            kval = tuple([self.value[i].get(k) for k in keys])
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
-        inst.value += [value[i] for i in sorted(mki.values())]
-        return inst
+        newval = inst.value.copy()
+        newval += [value[i] for i in sorted(mki.values())]
+        return inst._copy(newval)
 
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
         inst = self._copy(self.value)
-        rest = []
+        rest = {}
         for k in value:
-            if k in self.value:
+            if k in self.value and not k.startswith("@"):
                 inst = inst[k].merge(value[k]).up()
             else:
-                rest.append(k)
-        inst.value.update({k: value[k] for k in rest})
-        return inst
+                rest[k] = value[k]
+        newval = inst.value.copy()
+        newval.update(rest)
+        return inst._copy(newval)
 
     def goto(self, iroute: "InstanceRoute") -> "InstanceNode":
         """Move the focus to an instance inside the receiver's value.
@@ -1357,9 +1364,9 @@ class InstanceIdParser(Parser):
 
 
 from .schemanode import (       # NOQA
-            AnyContentNode, AnydataNode, CaseNode,
+            AnyContentNode, CaseNode,
             ChoiceNode, DataNode, InputNode,
-            InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
+            InternalNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
             TerminalNode)
 from .datatype import (         # NOQA
-- 
2.43.0


From 1cc935d7058f01dbedeefc94b935c39adafa76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 06/98] fix: print leaf-list values and keys in instance
 identifiers canonically and without escapes

---
 yangson/instance.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3082ade..783870e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -34,7 +34,6 @@ This module implements the following classes:
 """
 from collections import deque
 from datetime import datetime
-import json
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
@@ -976,7 +975,10 @@ class ArrayEntry(InstanceNode):
     def _instance_route_entry(self):
         sn = self.schema_node
         if isinstance(sn, LeafListNode):
-            return EntryValue(str(self.value))
+            try:
+                return EntryValue(str(self))
+            except YangTypeError:
+                return EntryIndex(self._key)
         if not sn.keys:
             return EntryIndex(self._key)
         kdict = {}
@@ -986,7 +988,7 @@ class ArrayEntry(InstanceNode):
                     kdict[(k[0], None)] = str(self[k[0]])
                 else:
                     kdict[k] = str(self[f"{k[1]}:{k[0]}"])
-            except NonexistentInstance:
+            except (NonexistentInstance, YangTypeError):
                 return EntryIndex(self._key)
         return EntryKeys(kdict)
 
@@ -1121,6 +1123,11 @@ class EntryIndex:
         return inst[self.index]
 
 
+def _quoted(text: str) -> str:
+    """Return `text` as a quoted string of an instance identifier."""
+    return f"'{text}'" if '"' in text else f'"{text}"'
+
+
 class EntryValue:
     """Value-based selectors of an array entry.
 
@@ -1136,7 +1143,7 @@ class EntryValue:
         self.value = value
 
     def __str__(self) -> str:
-        return f"[.={json.dumps(self.value)}]"
+        return f"[.={_quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
         return self.value == other.value
@@ -1185,7 +1192,7 @@ class EntryKeys:
         res = []
         for k in self.keys:
             kn = f"{k[1]}:{k[0]}" if k[1] else k[0]
-            res.append(f"[{kn}={json.dumps(self.keys[k])}]")
+            res.append(f"[{kn}={_quoted(self.keys[k])}]")
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 29cc4e7fd50c5faa0eada8e44d8928e1093bd235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 07/98] fix: report instance routes that are incompatible with
 the data instead of crashing

---
 yangson/instance.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 783870e..5b082ac 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -245,7 +245,8 @@ class InstanceNode:
             InstanceValueError: If the receiver's value is not a YANG list.
             NonexistentInstance: If no entry with matching keys exists.
         """
-        if not isinstance(self.schema_node, ListNode):
+        if not (isinstance(self.schema_node, ListNode) and
+                isinstance(self.value, ArrayValue)):
             raise InstanceValueError(self, "lookup on non-list")
         if raw:
             for k in keys:
@@ -1054,7 +1055,8 @@ class MemberName:
         self.namespace = ns
 
     def __eq__(self, other: object) -> bool:
-        return self.name == other.name and self.namespace == other.namespace
+        return (isinstance(other, MemberName) and self.name == other.name and
+                self.namespace == other.namespace)
 
     def __str__(self) -> str:
         return "/" + self.iname()
@@ -1065,11 +1067,11 @@ class MemberName:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
-        cn = sn.get_data_child(self.name, self.namespace)
-        try:
-            return (val[cn.iname()], cn)
-        except (IndexError, KeyError, TypeError):
+        cn = (sn.get_data_child(self.name, self.namespace)
+              if isinstance(sn, InternalNode) else None)
+        if cn is None or not isinstance(val, ObjectValue):
             return (None, cn)
+        return (val.get(cn.iname()), cn)
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
         return inst[self.iname()]
@@ -1092,6 +1094,13 @@ class ActionName(MemberName):
         raise NonDataNode(inst, "action " + self.iname())
 
 
+def _check_array(inst: InstanceNode, cls: type) -> None:
+    """Make sure that `inst` is an array whose schema node is a `cls`."""
+    if not (isinstance(inst.value, ArrayValue) and
+            isinstance(inst.schema_node, cls)):
+        raise InstanceValueError(inst, "entry of non-array")
+
+
 class EntryIndex:
     """Numeric selectors for a list or leaf-list entry.
 
@@ -1107,7 +1116,7 @@ class EntryIndex:
         self.index = index
 
     def __eq__(self, other: object) -> bool:
-        return self.index == other.index
+        return isinstance(other, EntryIndex) and self.index == other.index
 
     def __str__(self) -> str:
         return f"[{self.index + 1}]"
@@ -1115,11 +1124,13 @@ class EntryIndex:
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
         try:
-            return val[self.index], sn
-        except (IndexError, KeyError, TypeError):
+            return (val[self.index] if isinstance(val, ArrayValue) and
+                    isinstance(sn, SequenceNode) else None), sn
+        except IndexError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        _check_array(inst, SequenceNode)
         return inst[self.index]
 
 
@@ -1146,7 +1157,7 @@ class EntryValue:
         return f"[.={_quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
-        return self.value == other.value
+        return isinstance(other, EntryValue) and self.value == other.value
 
     def parse_value(self, sn: "DataNode") -> ScalarValue:
         """Let schema node's type parse the receiver's value."""
@@ -1157,12 +1168,16 @@ class EntryValue:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Value, "DataNode"]:
+        if not (isinstance(val, ArrayValue) and
+                isinstance(sn, LeafListNode)):
+            return None, sn
         try:
             return (val[val.index(self.parse_value(sn))], sn)
         except ValueError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        _check_array(inst, LeafListNode)
         try:
             return inst._entry(
                 inst.value.index(self.parse_value(inst.schema_node)))
@@ -1196,7 +1211,7 @@ class EntryKeys:
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-        return self.keys == other.keys
+        return isinstance(other, EntryKeys) and self.keys == other.keys
 
     def parse_keys(self, sn: "DataNode") -> dict[InstanceName, ScalarValue]:
         """Parse key dictionary in the context of a schema node.
@@ -1209,6 +1224,8 @@ class EntryKeys:
             knod = sn.get_data_child(*k)
             if knod is None:
                 raise NonexistentSchemaNode(sn.qual_name, *k)
+            if not isinstance(knod, TerminalNode):
+                raise BadSchemaNodeType(knod.qual_name, "leaf")
             kval = knod.type.parse_value(self.keys[k])
             if kval is None:
                 raise InvalidKeyValue(self.keys[k])
@@ -1223,6 +1240,8 @@ class EntryKeys:
             val: Current value (array).
             sn:  Current schema node.
         """
+        if not (isinstance(val, ArrayValue) and isinstance(sn, ListNode)):
+            return (None, sn)
         keys = self.parse_keys(sn)
         for en in val:
             flag = True
@@ -1243,6 +1262,7 @@ class EntryKeys:
         Args:
             inst: Current instance.
         """
+        _check_array(inst, ListNode)
         return inst.look_up(**self.parse_keys(inst.schema_node))
 
 
-- 
2.43.0


From 37491d87057ac4981d3c749b2ca6c434e7a987eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 08/98] fix: raise documented errors for members of anydata and
 for the parent of an orphan

---
 yangson/instance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 5b082ac..8a2f0e8 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -273,6 +273,8 @@ class InstanceNode:
         Raises:
             NonexistentInstance: If there is no parent.
         """
+        if self.parinst is None:
+            raise NonexistentInstance(self, "up of top")
         ts = max(self.timestamp, self.parinst.timestamp)
         return self.parinst._copy(self._zip(), ts)
 
@@ -649,6 +651,8 @@ class InstanceNode:
         return self.peek(irt)
 
     def _member_schema_node(self, name: InstanceName) -> "DataNode":
+        if not self.is_internal():
+            raise InstanceValueError(self, "member of non-internal node")
         qname = self.schema_node._iname2qname(name)
         res = self.schema_node.get_data_child(*qname)
         if res is None:
-- 
2.43.0


From dab7ada24738814b3ce385e63063f81d13fd82b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 09/98] fix: store and find members under their instance names
 when given a redundant prefix

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 8a2f0e8..364497e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -210,6 +210,7 @@ class InstanceNode:
             raise InstanceValueError(self, "member of non-object")
         csn = self._member_schema_node(name)
         newval = self.value.copy()
+        name = csn.iname()
         newval[name] = (csn.from_raw(value, self.json_pointer()) if raw
                         else value)
         return self._copy(newval)._member(name)
@@ -807,6 +808,7 @@ class ObjectMember(InstanceNode):
             NonexistentInstance: If sibling member `name` doesn't exist.
         """
         ssn = self.parinst._member_schema_node(name)
+        name = ssn.iname()
         try:
             sibs = self.siblings.copy()
             newval = sibs.pop(name)
-- 
2.43.0


From 1f40efd3bdee1ecd622eb7c0610bc898e3a62fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 10/98] fix: keep metadata of list entries and in raw form, and
 check it properly

---
 yangson/instance.py   | 30 +++++++++++++++++++++---------
 yangson/schemanode.py | 13 +++++++++++--
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 364497e..2f9a921 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -477,6 +477,15 @@ class InstanceNode:
                 attr[m[1:]] = self.value[m]
         return attr
 
+    def _raw_metadata(self, attr: dict) -> dict:
+        """Return metadata object `attr` in the raw form."""
+        ans = self.schema_node.schema_root().annotations
+        res = {}
+        for m in attr:
+            an = ans.get(self.schema_node._iname2qname(m))
+            res[m] = attr[m] if an is None else an.type.to_raw(attr[m])
+        return res
+
     def raw_value(self, filter: OutputFilter = OutputFilter()) -> RawValue:
         """Return receiver's value in a raw form (ready for JSON encoding)."""
         if isinstance(self.schema_node, AnyContentNode):
@@ -496,17 +505,19 @@ class InstanceNode:
                         value[m] = member_value
 
                         if m_attr:
-                            if isinstance(value[m], dict):
-                                value[m]['@'] = attr[m]
+                            md = self._raw_metadata(attr[m])
+                            if isinstance(member.value, ObjectValue):
+                                if member.is_internal():
+                                    value[m]['@'] = md
                             else:
-                                value['@'+m] = attr[m]
+                                value['@'+m] = md
 
             return value
         if isinstance(self.value, ArrayValue):
             value = list()
             for en in self:
-                if isinstance(en, dict) and '@' in en.value:
-                    e_attr = en['@']
+                if isinstance(en.value, ObjectValue) and '@' in en.value:
+                    e_attr = en.value['@']
                 else:
                     e_attr = {}
                 add1 = filter.begin_element(self, en, e_attr)
@@ -514,9 +525,9 @@ class InstanceNode:
                     member_value = en.raw_value(filter)
                 add2 = filter.end_element(self, en, e_attr)
                 if (add1 and add2 and member_value is not None
-                        and member_value != {}):
+                        and (member_value != {} or not en._member_names())):
                     if e_attr:
-                        member_value['@'] = e_attr
+                        member_value['@'] = self._raw_metadata(e_attr)
                     value.append(member_value)
             return value
         return self.schema_node.type.to_raw(self.value)
@@ -551,8 +562,9 @@ class InstanceNode:
 
                     if isinstance(m.schema_node, (ListNode, LeafListNode)):
                         for en in m:
-                            if isinstance(en, dict) and '@' in en.value:
-                                e_attr = en['@'].copy()
+                            if (isinstance(en.value, ObjectValue) and
+                                    '@' in en.value):
+                                e_attr = en.value['@'].copy()
                             else:
                                 e_attr = {}
                             add1 = filter.begin_element(m, en, e_attr)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c539753..ad33b39 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -539,12 +539,17 @@ class InternalNode(SchemaNode):
         res = ObjectValue()
         for qn in rval:
             if qn.startswith("@"):
+                npath = jptr
+                iname = qn
                 if qn != "@":
                     tgt = qn[1:]
                     if tgt not in rval:
                         raise MissingAnnotationTarget(jptr, tgt)
-                    jptr += '/' + tgt
-                res[qn] = self._process_metadata(rval[qn], jptr)
+                    npath += '/' + tgt
+                    ch = self.get_data_child(*self._iname2qname(tgt))
+                    if ch is not None:
+                        iname = "@" + ch.iname()
+                res[iname] = self._process_metadata(rval[qn], npath)
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
@@ -609,6 +614,8 @@ class InternalNode(SchemaNode):
 
     def _process_metadata(self, rmo: RawMetadataObject,
                           jptr: JSONPointer) -> MetadataObject:
+        if not isinstance(rmo, dict):
+            raise RawTypeError(jptr, "object")
         res = {}
         ans = self.schema_root().annotations
         for mem in rmo:
@@ -617,6 +624,8 @@ class InternalNode(SchemaNode):
             except KeyError:
                 raise UndefinedAnnotation(jptr, mem)
             res[mem] = an.type.from_raw(rmo[mem])
+            if res[mem] is None:
+                raise AnnotationTypeError(jptr, mem, f"expected {an.type}")
             if res[mem] not in an.type:
                 raise AnnotationTypeError(jptr, mem, an.type.error_message)
         return res
-- 
2.43.0


From 4ac03486bb9632c7b44529542cbc5bc367f72b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 11/98] fix: add no defaults where a when condition of a case,
 uses or augment is false

---
 yangson/instance.py   |  2 +-
 yangson/schemanode.py | 32 ++++++++++++++++++--------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 2f9a921..7ca7784 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -422,7 +422,7 @@ class InstanceNode:
             return self
         res = self
         if isinstance(val, ObjectValue):
-            if val:
+            if self._member_names():
                 for mn in self._member_names():
                     m = res._member(mn) if res is self else res.sibling(mn)
                     res = m.add_defaults(ctype, tag=tag)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index ad33b39..c027f44 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -712,8 +712,8 @@ class InternalNode(SchemaNode):
         for c in self.filter_children(ctype):
             if isinstance(c, DataNode):
                 inst = c._default_instance(inst, ctype, lazy)
-            elif not isinstance(c, (RpcActionNode, NotificationNode)):
-                inst = c._add_defaults(inst, ctype)
+            elif not c.when or c.when.evaluate(inst):
+                inst = c._add_defaults(inst, ctype, lazy)
         return inst
 
     def _state_roots(self) -> list[SchemaNode]:
@@ -1471,25 +1471,29 @@ class ChoiceNode(InternalNode):
         return self._mandatory
 
     def _add_defaults(self, inst: InstanceNode,
-                      ctype: Optional[ContentType]) -> InstanceNode:
+                      ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
         if self.when and not self.when.evaluate(inst):
             return inst
         ac = self._active_case(inst.value)
-        if ac:
-            return ac._add_defaults(inst, ctype)
-        elif self.default_case:
-            n = dc = self.get_child(*self.default_case)
-            while n is not self:
-                if n.when and not n.when.evaluate(inst):
-                    return inst
-                n = n.parent
-            return dc._add_defaults(inst, ctype)
-        else:
+        if ac is None and self.default_case:
+            ac = self.get_child(*self.default_case)
+        if ac is None:
             return inst
+        n = ac
+        while n is not self:
+            if n.when and not n.when.evaluate(inst):
+                return inst
+            n = n.parent
+        return ac._add_defaults(inst, ctype, lazy)
 
     def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return receiver's case that's active in an instance node value."""
-        for c in self.children:
+        todo = self.children
+        while any(isinstance(c, GroupNode) for c in todo):
+            todo = [cc for c in todo for cc in (
+                c.children if isinstance(c, GroupNode) else [c])]
+        for c in todo:
             for cc in c.data_children():
                 if cc.iname() in value:
                     return c
-- 
2.43.0


From 11b80e640aafedd4363ba215059fb3f795941bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 12/98] fix: show defaults of an active case to XPath
 expressions

---
 yangson/instance.py   | 10 +++++++---
 yangson/schemanode.py | 11 ++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 7ca7784..7531807 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -692,13 +692,17 @@ class InstanceNode:
             wd = cn._default_instance(self, ContentType.all, lazy=True)
             if iname not in wd.value:
                 return []
+            case = None
             while True:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.evaluate(self) or
-                    isinstance(cn, CaseNode) and
-                        cn.qual_name != cn.parent.default_case):
+                if cn.when and not cn.when.evaluate(self):
+                    return []
+                if isinstance(cn, CaseNode):
+                    case = cn
+                elif (isinstance(cn, ChoiceNode) and
+                      cn._case_in_use(self.value) is not case):
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c027f44..98f6e69 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1475,9 +1475,7 @@ class ChoiceNode(InternalNode):
                       lazy: bool = False) -> InstanceNode:
         if self.when and not self.when.evaluate(inst):
             return inst
-        ac = self._active_case(inst.value)
-        if ac is None and self.default_case:
-            ac = self.get_child(*self.default_case)
+        ac = self._case_in_use(inst.value)
         if ac is None:
             return inst
         n = ac
@@ -1487,6 +1485,13 @@ class ChoiceNode(InternalNode):
             n = n.parent
         return ac._add_defaults(inst, ctype, lazy)
 
+    def _case_in_use(self, value: ObjectValue) -> Optional["CaseNode"]:
+        """Return receiver's active case or else its default case."""
+        ac = self._active_case(value)
+        if ac is None and self.default_case:
+            return self.get_child(*self.default_case)
+        return ac
+
     def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return receiver's case that's active in an instance node value."""
         todo = self.children
-- 
2.43.0


From 79fd84bec5db2c3ac51fd5351e6feb0f66d3e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 13/98] fix: reject unqualified top-level names defined inside
 a choice

---
 yangson/schemanode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 98f6e69..eec7e62 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -464,6 +464,8 @@ class InternalNode(SchemaNode):
             ns: Child's namespace (= `self.ns` if absent).
         """
         ns = ns if ns else self.ns
+        if ns is None:
+            return None
         todo = []
         for child in self.children:
             if child.name is None:
@@ -497,6 +499,8 @@ class InternalNode(SchemaNode):
                        ns: YangIdentifier = None) -> Optional["DataNode"]:
         """Return data node directly under the receiver."""
         ns = ns if ns else self.ns
+        if ns is None:
+            return None
         todo = []
         for child in self.children:
             if child.name == name and child.ns == ns:
-- 
2.43.0


From f920aea52461e998926cbe12324a160a816d13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 14/98] fix: accept only the lexical representation of numbers,
 print small decimal64 values canonically

---
 yangson/datatype.py | 54 ++++++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ed91a47..109e773 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -854,6 +854,9 @@ class NumericType(DataType[N, RN]):
 class Decimal64Type(NumericType[decimal.Decimal, str]):
     """Class representing YANG "decimal64" type."""
 
+    lexical = re.compile(r"[-+]?[0-9]+(\.[0-9]+)?")
+    """Regular expression for the lexical representation."""
+
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
@@ -882,9 +885,10 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
+        if not isinstance(raw, str) or not self.lexical.fullmatch(raw):
+            return None
         try:
-            return (decimal.Decimal(raw).quantize(self._epsilon)
-                    if isinstance(raw, str) else None)
+            return decimal.Decimal(raw).quantize(self._epsilon)
         except decimal.InvalidOperation:
             return None
 
@@ -892,11 +896,8 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[decimal.Decimal]:
-        try:
-            return (decimal.Decimal(xml.text).quantize(self._epsilon)
-                    if isinstance(xml.text, str) else None)
-        except decimal.InvalidOperation:
-            return None
+        return (self.from_raw(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def to_raw(self, val: decimal.Decimal) -> str:
         return self.canonical_string(val)
@@ -909,7 +910,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
             return None
         if val == 0:
             return "0.0"
-        sval = str(val.quantize(self._epsilon)).rstrip("0")
+        sval = format(val.quantize(self._epsilon), "f").rstrip("0")
         return (sval + "0") if sval.endswith(".") else sval
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
@@ -924,6 +925,9 @@ class IntegralType(NumericType[int, RN]):
     octhex = re.compile("[-+]?0([x0-9])")
     """Regular expression for octal or hexadecimal default."""
 
+    lexical = re.compile("[-+]?[0-9]+")
+    """Regular expression for the lexical representation."""
+
     def __contains__(self, val: int) -> bool:
         if not isinstance(val, int) or isinstance(val, bool):
             self._set_error_info()
@@ -935,6 +939,8 @@ class IntegralType(NumericType[int, RN]):
 
     def parse_value(self, text: str) -> Optional[int]:
         """Override superclass method."""
+        if not isinstance(text, str) or not self.lexical.fullmatch(text):
+            return None
         try:
             return int(text)
         except ValueError:
@@ -949,10 +955,8 @@ class IntegralType(NumericType[int, RN]):
             return None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return (self.parse_value(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def from_yang(self, text: str) -> int:
         """Override the superclass method."""
@@ -1004,22 +1008,15 @@ class Int64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str) or isinstance(raw, bool):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw)
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return (self.parse_value(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
@@ -1065,22 +1062,15 @@ class Uint64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw)
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return (self.parse_value(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From a816b91fb2f518d92142a680e3d62da91a25afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 15/98] fix: accept empty strings, bits and binary values in
 XML and refuse malformed binary and instance-identifier values

---
 yangson/datatype.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 109e773..3b05fe4 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -45,7 +45,6 @@ This module implements the following classes:
 """
 from abc import ABC, abstractmethod
 import base64
-import binascii
 import decimal
 import xml.etree.ElementTree as ET
 import re
@@ -267,7 +266,7 @@ class EmptyType(DataType[tuple[None], list[None]]):
         return [None]
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[None]]:
-        return (None,) if xml.text is None else None
+        return (None,) if not xml.text else None
 
     def to_xml(self, val: tuple[None]) -> None:
         return None
@@ -302,10 +301,7 @@ class BitsType(DataType[tuple[str, ...], str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
-        try:
-            return tuple(cast(str, xml.text).split())
-        except AttributeError:
-            return None
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: tuple[str, ...]) -> Optional[str]:
         return self.canonical_string(val)
@@ -477,7 +473,7 @@ class StringType(LinearType[str]):
         return raw if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[str]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: str) -> Optional[str]:
         return val if val in self else None
@@ -517,7 +513,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(raw, validate=True)
-        except (TypeError, binascii.Error):
+        except (TypeError, ValueError):
             return None
 
     def parse_value(self, text: str) -> Optional[bytes]:
@@ -525,10 +521,7 @@ class BinaryType(LinearType[bytes]):
 
     def from_xml(self, xml: ET.Element) -> Optional[bytes]:
         """Override superclass method."""
-        try:
-            return base64.b64decode(cast(str, xml.text), validate=True)
-        except TypeError:
-            return None
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: bytes) -> Optional[str]:
         return self.canonical_string(val)
@@ -693,6 +686,8 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def from_raw(self, raw: InstanceIdentifier) -> Optional[InstanceRoute]:
+        if not isinstance(raw, str):
+            return None
         try:
             return InstanceIdParser(raw).parse()
         except ParserException:
-- 
2.43.0


From 1ae50cfa8b317035b3e0b8b30358edcdb8701e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 16/98] fix: report and print union and leafref values by the
 member type that contains them

---
 yangson/datatype.py | 60 +++++++++++++++++++++++++++++++--------------
 yangson/instance.py |  3 ++-
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 3b05fe4..6b2aced 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -232,6 +232,10 @@ class DataType(ABC, Generic[S, RS]):
         """Handle type restriction substatements."""
         pass
 
+    def _member_type(self, val: S) -> Optional["DataType"]:
+        """Return the type that determines the representation of `val`."""
+        return self
+
     def _type_digest(self, config: bool) -> dict[str, Any]:
         """Return receiver's type digest.
 
@@ -281,9 +285,12 @@ class BitsType(DataType[tuple[str, ...], str]):
         self.bit: dict[str, int] = {}
 
     def __contains__(self, val: tuple[str, ...]) -> bool:
+        if not isinstance(val, tuple):
+            self._set_error_info()
+            return False
         for b in val:
             if b not in self.bit:
-                self._set_error_info(error_message="unknown bit " + b)
+                self._set_error_info(error_message=f"unknown bit {b}")
                 return False
         return True
 
@@ -626,7 +633,14 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         super().__init__(sctx, name)
 
     def __contains__(self, val: ScalarValue) -> bool:
-        return val in self.ref_type
+        if val in self.ref_type:
+            return True
+        self._set_error_info(self.ref_type.error_tag,
+                             self.ref_type.error_message)
+        return False
+
+    def _member_type(self, val: ScalarValue) -> Optional[DataType]:
+        return self.ref_type._member_type(val)
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
@@ -679,7 +693,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def __contains__(self, val: InstanceRoute) -> bool:
-        return isinstance(val, InstanceRoute)
+        if isinstance(val, InstanceRoute):
+            return True
+        self._set_error_info()
+        return False
 
     def yang_type(self) -> YangIdentifier:
         """Override the superclass method."""
@@ -725,6 +742,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         self.bases: list[QualName] = []
 
     def __contains__(self, val: QualName) -> bool:
+        if not isinstance(val, tuple) or len(val) != 2:
+            self._set_error_info()
+            return False
         for b in self.bases:
             if not self.sctx.schema_data.is_derived_from(val, b):
                 self._set_error_info(
@@ -1083,31 +1103,32 @@ class UnionType(DataType[ScalarValue, RawScalar]):
         self.types: list[DataType] = []
 
     def __contains__(self, val: ScalarValue) -> bool:
+        if self._member_type(val) is not None:
+            return True
+        self._set_error_info()
+        return False
+
+    def _member_type(self, val: ScalarValue) -> Optional[DataType]:
+        """Return the first member type that contains `val`."""
         for t in self.types:
             try:
                 if val in t:
-                    return True
+                    return t._member_type(val)
             except TypeError:
                 continue
-        return False
+        return None
 
     def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
-        for t in self.types:
-            if val in t:
-                return t.to_raw(val)
-        return None
+        t = self._member_type(val)
+        return None if t is None else t.to_raw(val)
 
     def to_xml(self, val: ScalarValue) -> Optional[str]:
-        for t in self.types:
-            if val in t:
-                return t.to_xml(val)
-        return None
+        t = self._member_type(val)
+        return None if t is None else t.to_xml(val)
 
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
-        for t in self.types:
-            if val in t:
-                return t.canonical_string(val)
-        return None
+        t = self._member_type(val)
+        return None if t is None else t.canonical_string(val)
 
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         for t in self.types:
@@ -1125,7 +1146,10 @@ class UnionType(DataType[ScalarValue, RawScalar]):
 
     def from_xml(self, xml: ET.Element) -> Optional[ScalarValue]:
         for t in self.types:
-            val = t.from_xml(xml)
+            try:
+                val = t.from_xml(xml)
+            except MissingModuleNamespace:
+                continue
             if val is not None and val in t:
                 return val
         return None
diff --git a/yangson/instance.py b/yangson/instance.py
index 7531807..31e5e34 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -609,7 +609,8 @@ class InstanceNode:
         else:
             sn = self.schema_node
             if isinstance(sn, TerminalNode):
-                if isinstance(sn.type, IdentityrefType):
+                if isinstance(sn.type._member_type(self.value),
+                              IdentityrefType):
                     module = self.schema_data.modules_by_name.get(
                         self.value[1])
                     if not module:
-- 
2.43.0


From 14007eb77ea373c50ba75871dc4e86a1ef70473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 17/98] fix: assign enum values and bit positions from the
 highest one used so far

---
 yangson/datatype.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 6b2aced..ef8e72e 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -337,7 +337,7 @@ class BitsType(DataType[tuple[str, ...], str]):
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         """Handle **bit** statements."""
-        nextpos = 0
+        nextpos = None
         for bst in stmt.find_all("bit"):
             if not sctx.schema_data.if_features(bst, sctx.text_mid):
                 continue
@@ -345,12 +345,11 @@ class BitsType(DataType[tuple[str, ...], str]):
             pst = bst.find1("position")
             if pst:
                 pos = int(cast(str, pst.argument))
-                self.bit[label] = pos
-                if pos > nextpos:
-                    nextpos = pos
             else:
-                self.bit[label] = nextpos
-            nextpos += 1
+                pos = 0 if nextpos is None else nextpos
+            self.bit[label] = pos
+            if nextpos is None or pos >= nextpos:
+                nextpos = pos + 1
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
@@ -576,7 +575,7 @@ class EnumerationType(DataType[str, str]):
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         """Handle **enum** statements."""
-        nextval = 0
+        nextval = None
         for est in stmt.find_all("enum"):
             if not sctx.schema_data.if_features(est, sctx.text_mid):
                 continue
@@ -584,12 +583,11 @@ class EnumerationType(DataType[str, str]):
             vst = est.find1("value")
             if vst:
                 val = int(cast(str, vst.argument))
-                self.enum[label] = val
-                if val > nextval:
-                    nextval = val
             else:
-                self.enum[label] = nextval
-            nextval += 1
+                val = 0 if nextval is None else nextval
+            self.enum[label] = val
+            if nextval is None or val >= nextval:
+                nextval = val + 1
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-- 
2.43.0


From 1a675c5e63526f882dfebf605c6271da1c3d9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:22 +0000
Subject: [PATCH 18/98] fix: make bits values independent of the order in which
 the bits are written

---
 yangson/datatype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ef8e72e..51ba1cd 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -300,9 +300,10 @@ class BitsType(DataType[tuple[str, ...], str]):
 
     def from_raw(self, raw: str) -> Optional[tuple[str, ...]]:
         try:
-            return tuple(raw.split())
+            bits = set(raw.split())
         except AttributeError:
             return None
+        return tuple(sorted(bits, key=lambda b: (self.bit.get(b, -1), b)))
 
     def parse_value(self, text: str) -> Optional[tuple[str, ...]]:
         return self.from_raw(text)
-- 
2.43.0


From 7add30d072110c3d8db8cf0d819212221e15e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 19/98] fix: leave identity derivations unchanged when they are
 queried

---
 yangson/schemadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 3685539..23e2d24 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -472,7 +472,7 @@ class SchemaData:
     def derived_from(self, identity: QualName) -> MutableSet[QualName]:
         """Return list of identities transitively derived from `identity`."""
         try:
-            res = self.identity_adjs[identity].derivs
+            res = self.identity_adjs[identity].derivs.copy()
         except KeyError:
             return set()
         for id in res.copy():
-- 
2.43.0


From 43927258a616552561b53962f1daacd9b500d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 20/98] fix: tell union values of different types apart in
 keys, unique and leaf-list values

---
 yangson/instance.py   | 45 +++++++++++++++++++++++++------------------
 yangson/instvalue.py  | 18 ++++++++++-------
 yangson/schemanode.py | 11 ++++++-----
 3 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 31e5e34..7842012 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -45,7 +45,7 @@ from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          YangTypeError)
 from .instroute import InstanceRoute
 from .instvalue import (ArrayValue, InstanceKey, ObjectValue, Value,
-                        ScalarValue, StructuredValue)
+                        ScalarValue, StructuredValue, value_key)
 from .parser import Parser
 from .typealiases import (InstanceName, JSONPointer, QualName, RawScalar,
                           RawValue, SchemaRoute, YangIdentifier)
@@ -258,7 +258,8 @@ class InstanceNode:
             flag = True
             for k in keys:
                 try:
-                    if en[k] != keys[k]:
+                    if (en[k] != keys[k] or isinstance(en[k], bool) !=
+                            isinstance(keys[k], bool)):
                         flag = False
                         break
                 except KeyError:
@@ -1189,21 +1190,25 @@ class EntryValue:
             raise InvalidKeyValue(self.value)
         return res
 
+    def _index(self, val: ArrayValue, sn: "DataNode") -> int:
+        """Return the index of the entry of `val` that matches the receiver."""
+        return [value_key(v) for v in val].index(
+            value_key(self.parse_value(sn)))
+
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Value, "DataNode"]:
         if not (isinstance(val, ArrayValue) and
                 isinstance(sn, LeafListNode)):
             return None, sn
         try:
-            return (val[val.index(self.parse_value(sn))], sn)
+            return (val[self._index(val, sn)], sn)
         except ValueError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
         _check_array(inst, LeafListNode)
         try:
-            return inst._entry(
-                inst.value.index(self.parse_value(inst.schema_node)))
+            return inst._entry(self._index(inst.value, inst.schema_node))
         except ValueError:
             raise NonexistentInstance(
                 inst, f"entry '{self.value!s}'") from None
@@ -1255,6 +1260,16 @@ class EntryKeys:
             res[knod.iname()] = kval
         return res
 
+    def _index(self, val: ArrayValue, sn: "DataNode") -> Optional[int]:
+        """Return the index of the entry of `val` that matches the receiver."""
+        keys = self.parse_keys(sn)
+        for i in range(len(val)):
+            en = val[i]
+            if all(k in en and value_key(en[k]) == value_key(keys[k])
+                   for k in keys):
+                return i
+        return None
+
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[ObjectValue], "DataNode"]:
         """Return the entry addressed by the receiver + its schema node.
@@ -1265,19 +1280,8 @@ class EntryKeys:
         """
         if not (isinstance(val, ArrayValue) and isinstance(sn, ListNode)):
             return (None, sn)
-        keys = self.parse_keys(sn)
-        for en in val:
-            flag = True
-            try:
-                for k in keys:
-                    if en[k] != keys[k]:
-                        flag = False
-                        break
-            except KeyError:
-                continue
-            if flag:
-                return (en, sn)
-        return (None, sn)
+        i = self._index(val, sn)
+        return (None, sn) if i is None else (val[i], sn)
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
         """Return member instance of `inst` addressed by the receiver.
@@ -1286,7 +1290,10 @@ class EntryKeys:
             inst: Current instance.
         """
         _check_array(inst, ListNode)
-        return inst.look_up(**self.parse_keys(inst.schema_node))
+        i = self._index(inst.value, inst.schema_node)
+        if i is None:
+            raise NonexistentInstance(inst, "entry lookup failed")
+        return inst._entry(i)
 
 
 class ResourceIdParser(Parser):
diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index 25ce736..7bb8b6e 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -66,7 +66,7 @@ class StructuredValue:
         Args:
         :param val: value to compare
         """
-        return self.__class__ == val.__class__ and _key(self) == _key(val)
+        return self.__class__ == val.__class__ and value_key(self) == value_key(val)
 
     def __ne__(self, val: "StructuredValue") -> bool:
         """Return ``True`` if the receiver is not equal to `val`."""
@@ -87,7 +87,7 @@ class ArrayValue(StructuredValue, list):
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        return hash(_key(self))
+        return hash(value_key(self))
 
 
 class ObjectValue(StructuredValue, dict):
@@ -100,13 +100,17 @@ class ObjectValue(StructuredValue, dict):
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        return hash(_key(self))
+        return hash(value_key(self))
 
 
-def _key(val: Any) -> Any:
-    """Return a hashable object that characterizes value `val`."""
+def value_key(val: Any) -> Any:
+    """Return a hashable object that characterizes value `val`.
+
+    In contrast to the values themselves, keys of scalar values that are of
+    different types are always different.
+    """
     if isinstance(val, dict):
-        return dict, frozenset((k, _key(v)) for k, v in val.items())
+        return dict, frozenset((k, value_key(v)) for k, v in val.items())
     if isinstance(val, list):
-        return list, tuple([_key(v) for v in val])
+        return list, tuple([value_key(v) for v in val])
     return val.__class__, val
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index eec7e62..41a49ba 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -58,7 +58,7 @@ from .exceptions import (
 from .instance import (ArrayEntry, InstanceNode, MemberName, ObjectMember)
 from .instroute import InstanceRoute
 from .instvalue import (
-    ArrayValue, EntryValue, MetadataObject, ObjectValue, Value)
+    ArrayValue, EntryValue, MetadataObject, ObjectValue, Value, value_key)
 from .schemadata import IdentityAdjacency, SchemaContext, SchemaData
 from .schpattern import (ChoicePattern, ConditionalPattern, Empty, Member,
                          NotAllowed, Pair, SchemaPattern)
@@ -1376,10 +1376,11 @@ class ListNode(SequenceNode, InternalNode):
             except KeyError as e:
                 raise SchemaError(inst._entry(i),
                                   "list-key-missing", e.args[0]) from None
-            if kval in ukeys:
+            ukey = tuple([value_key(v) for v in kval])
+            if ukey in ukeys:
                 raise SemanticError(inst, "non-unique-key",
                                     repr(kval[0] if len(kval) < 2 else kval))
-            ukeys.add(kval)
+            ukeys.add(ukey)
 
     def _check_unique(self, unique: list[LocationPath],
                       inst: InstanceNode) -> None:
@@ -1389,7 +1390,7 @@ class ListNode(SequenceNode, InternalNode):
             den = en.add_defaults()
             uvals = []
             for uex in unique:
-                uval = [n.value for n in uex.evaluate(den)]
+                uval = [value_key(n.value) for n in uex.evaluate(den)]
                 uvals.append(uval)
             tups = set(product(*uvals))
             if tups & allvals:
@@ -1628,7 +1629,7 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _check_list_props(self, inst: InstanceNode) -> None:
         if (self.content_type() == ContentType.config and
-                len(set(inst.value)) < len(inst.value)):
+                len({value_key(v) for v in inst.value}) < len(inst.value)):
             raise SemanticError(inst, "repeated-leaf-list-value")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 01365262fb22578ddd3e7afa83f1fd706c3448fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 21/98] fix: reject member names with an empty namespace

---
 yangson/schemanode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 41a49ba..e8f890a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -463,7 +463,8 @@ class InternalNode(SchemaNode):
             name: Child's name.
             ns: Child's namespace (= `self.ns` if absent).
         """
-        ns = ns if ns else self.ns
+        if ns is None:
+            ns = self.ns
         if ns is None:
             return None
         todo = []
@@ -498,7 +499,8 @@ class InternalNode(SchemaNode):
     def get_data_child(self, name: YangIdentifier,
                        ns: YangIdentifier = None) -> Optional["DataNode"]:
         """Return data node directly under the receiver."""
-        ns = ns if ns else self.ns
+        if ns is None:
+            ns = self.ns
         if ns is None:
             return None
         todo = []
-- 
2.43.0


From f04f6f9c067bf1cc9102b2925240276d3ae718a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 22/98] fix: interpret identity prefixes in defaults of unions

---
 yangson/datatype.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 51ba1cd..26cc8f3 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -54,7 +54,8 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 from .constraint import Intervals, Pattern
 from .exceptions import (
     InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError)
+    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError,
+    YangsonException)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -1136,6 +1137,17 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return val
         return None
 
+    def from_yang(self, text: str) -> ScalarValue:
+        """Override the superclass method."""
+        for t in self.types:
+            try:
+                val = t.from_yang(text)
+            except YangsonException:
+                continue
+            if val in t:
+                return val
+        raise InvalidArgument(text)
+
     def from_raw(self, raw: RawScalar) -> Optional[ScalarValue]:
         for t in self.types:
             val = t.from_raw(raw)
-- 
2.43.0


From d1866d95ab78bcc541746142b60748569de6f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 23/98] fix: convert operands of XPath comparisons and boolean
 operators as XPath 1.0 requires

---
 yangson/nodeset.py  | 95 ++++++++++++++++++++-------------------------
 yangson/xpathast.py | 47 +++++++++++-----------
 2 files changed, 65 insertions(+), 77 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index f26b457..67cf13a 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -16,6 +16,7 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """XPath node-set"""
+import re
 from typing import Callable, Union
 from numbers import Number
 from .instance import InstanceNode
@@ -26,8 +27,38 @@ NodeExpr = Callable[[InstanceNode], "NodeSet"]
 XPathValue = Union["NodeSet", str, float, bool]
 
 
+_number_re = re.compile(r"[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*")
+
+
+def string_to_number(string: str) -> float:
+    """Convert string to a number according to the rules of XPath 1.0."""
+    mo = _number_re.fullmatch(string)
+    return float(mo.group(1)) if mo else float("nan")
+
+
+def node_to_number(node: InstanceNode) -> float:
+    """Convert the value of an instance node to a number."""
+    if isinstance(node.value, Number):
+        return float(node.value)
+    if node.is_internal():
+        return float("nan")
+    return string_to_number(str(node))
+
+
+def to_boolean(val: XPathValue) -> bool:
+    """Convert an XPath value to a boolean."""
+    return val == val and bool(val) if isinstance(val, float) else bool(val)
+
+
+def to_number(val: XPathValue) -> float:
+    """Convert an XPath value to a number."""
+    return string_to_number(val) if isinstance(val, str) else float(val)
+
+
 def comparison(meth):
     def wrap(self, arg):
+        if isinstance(arg, bool):
+            return getattr(float(bool(self)), meth.__name__)(float(arg))
         if isinstance(arg, NodeSet):
             for n in arg:
                 if n.is_internal():
@@ -50,7 +81,7 @@ class NodeSet(list):
             {m.path: m for n in self for m in trans(n)}.values())
 
     def __float__(self) -> float:
-        return (float(self[0].value) if self else float("nan"))
+        return node_to_number(self[0]) if self else float("nan")
 
     def __str__(self) -> str:
         return str(self[0]) if self else ""
@@ -63,10 +94,7 @@ class NodeSet(list):
             if isinstance(val, str):
                 if str(n) == val:
                     return True
-            elif isinstance(n.value, Number):
-                if float(n.value) == val:
-                    return True
-            elif n.value == val:
+            elif node_to_number(n) == val:
                 return True
         return False
 
@@ -78,65 +106,26 @@ class NodeSet(list):
             if isinstance(val, str):
                 if str(n) != val:
                     return True
-            elif isinstance(n.value, Number):
-                if float(n.value) != val:
-                    return True
-            elif n.value != val:
+            elif node_to_number(n) != val:
                 return True
         return False
 
     @comparison
     def __gt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) > val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
+        val = to_number(val)
+        return any(node_to_number(n) > val for n in self)
 
     @comparison
     def __lt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) < val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
+        val = to_number(val)
+        return any(node_to_number(n) < val for n in self)
 
     @comparison
     def __ge__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) >= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
+        val = to_number(val)
+        return any(node_to_number(n) >= val for n in self)
 
     @comparison
     def __le__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) <= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
+        val = to_number(val)
+        return any(node_to_number(n) <= val for n in self)
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0fb6756..19ee8fe 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor, isnan
+from math import ceil, copysign, floor
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -35,7 +35,8 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue
+from .nodeset import (NodeExpr, NodeSet, XPathValue, node_to_number,
+                      to_boolean, to_number)
 from .typealiases import QualName
 
 
@@ -75,11 +76,10 @@ class Expr:
         return self._eval(XPathContext(node, node, 1, 1))
 
     def _eval_float(self, xctx: XPathContext) -> float:
-        val = self._eval(xctx)
-        try:
-            return float(val)
-        except ValueError:
-            return float('nan')
+        return to_number(self._eval(xctx))
+
+    def _eval_bool(self, xctx: XPathContext) -> bool:
+        return to_boolean(self._eval(xctx))
 
     def _eval_string(self, xctx: XPathContext) -> str:
         val = self._eval(xctx)
@@ -91,6 +91,7 @@ class Expr:
                 return "Infinity" if val > 0 else "-Infinity"
             except ValueError:
                 return "NaN"
+            return format(decimal.Decimal(repr(val)), "f")
         if isinstance(val, bool):
             return str(val).lower()
         return str(val)
@@ -213,7 +214,7 @@ class OrExpr(BinaryExpr):
         return self._as_str("or")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) or self.right._eval(xctx)
+        return self.left._eval_bool(xctx) or self.right._eval_bool(xctx)
 
 
 class AndExpr(BinaryExpr):
@@ -224,7 +225,7 @@ class AndExpr(BinaryExpr):
         return self._as_str("and")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) and self.right._eval(xctx)
+        return self.left._eval_bool(xctx) and self.right._eval_bool(xctx)
 
 
 class EqualityExpr(BinaryExpr):
@@ -246,6 +247,11 @@ class EqualityExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
+        if not (isinstance(lres, NodeSet) or isinstance(rres, NodeSet)):
+            if isinstance(lres, bool) or isinstance(rres, bool):
+                lres, rres = to_boolean(lres), to_boolean(rres)
+            elif isinstance(lres, float) or isinstance(rres, float):
+                lres, rres = to_number(lres), to_number(rres)
         return lres != rres if self.negate else lres == rres
 
 
@@ -271,6 +277,8 @@ class RelationalExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
+        if not (isinstance(lres, NodeSet) or isinstance(rres, NodeSet)):
+            lres, rres = to_number(lres), to_number(rres)
         if self.less:
             return lres <= rres if self.equal else lres < rres
         return lres >= rres if self.equal else lres > rres
@@ -542,10 +550,7 @@ class FuncBitIsSet(BinaryExpr):
 class FuncBoolean(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        val = self.expr._eval(xctx)
-        if isinstance(val, float) and isnan(val):
-            return False
-        return bool(val)
+        return self.expr._eval_bool(xctx)
 
 
 class FuncCeiling(UnaryExpr):
@@ -714,17 +719,14 @@ class FuncNormalizeSpace(UnaryExpr):
 class FuncNot(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return not self.expr._eval(xctx)
+        return not self.expr._eval_bool(xctx)
 
 
 class FuncNumber(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
         if self.expr is None:
-            try:
-                return float(xctx.cnode.value)
-            except ValueError:
-                return float('nan')
+            return node_to_number(xctx.cnode)
         return self.expr._eval_float(xctx)
 
 
@@ -733,8 +735,8 @@ class FuncPosition(Expr):
     def __str__(self) -> str:
         return "position()"
 
-    def _eval(self, xctx: XPathContext) -> int:
-        return xctx.position
+    def _eval(self, xctx: XPathContext) -> float:
+        return float(xctx.position)
 
 
 class FuncReMatch(BinaryExpr):
@@ -836,10 +838,7 @@ class FuncSum(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        try:
-            return float(sum([n.value for n in ns]))
-        except TypeError:
-            return float('nan')
+        return float(sum([node_to_number(n) for n in ns]))
 
 
 class FuncTranslate(BinaryExpr):
-- 
2.43.0


From 488d661f5e8966fe7bf46d8344043ab9d37e740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 24/98] fix: XPath predicates, parent axis and document order
 of node-sets

---
 yangson/instance.py |  9 +++++++++
 yangson/nodeset.py  | 22 ++++++++++++++++++++--
 yangson/xpathast.py | 31 ++++++++++++++++---------------
 3 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 7842012..71f3860 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -760,6 +760,11 @@ class RootNode(InstanceNode):
         """Override the superclass property."""
         return None
 
+    @property
+    def qual_name(self) -> None:
+        """Return ``None`` because the root node has no name."""
+        return None
+
     def up(self) -> None:
         """Override the superclass method.
 
@@ -796,6 +801,10 @@ class RootNode(InstanceNode):
         """XPath - return the list of receiver's ancestors."""
         return []
 
+    def _parent(self: "RootNode") -> list[InstanceNode]:
+        """XPath - return empty list because the root node has no parent."""
+        return []
+
 
 class ObjectMember(InstanceNode):
     """This class represents an object member."""
diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index 67cf13a..75143f8 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -80,11 +80,29 @@ class NodeSet(list):
         return self.__class__(
             {m.path: m for n in self for m in trans(n)}.values())
 
+    def document_order(self) -> "NodeSet":
+        """Return the receiver's nodes sorted in document order.
+
+        The mutual order of different members of the same object is
+        determined by their first appearance in the receiver.
+        """
+        rank = {}
+
+        def order(node):
+            return [k if isinstance(k, int) else
+                    rank.setdefault((node.path[:i], k), len(rank))
+                    for i, k in enumerate(node.path)]
+        return self.__class__(sorted(self, key=order))
+
+    def first(self) -> InstanceNode:
+        """Return the receiver's node that is first in document order."""
+        return self[0] if len(self) == 1 else self.document_order()[0]
+
     def __float__(self) -> float:
-        return node_to_number(self[0]) if self else float("nan")
+        return node_to_number(self.first()) if self else float("nan")
 
     def __str__(self) -> str:
-        return str(self[0]) if self else ""
+        return str(self.first()) if self else ""
 
     @comparison
     def __eq__(self, val: XPathValue) -> bool:
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 19ee8fe..3ba44c4 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -140,12 +140,8 @@ class Expr:
             size = len(ns)
             for i in range(size):
                 pval = p._eval(XPathContext(ns[i], xctx.origin, i + 1, size))
-                try:
-                    if isinstance(pval, float) and pval > 0:
-                        res.append(ns[int(pval) - 1])
-                        break
-                except IndexError:
-                    return res
+                if isinstance(pval, float):
+                    pval = pval == i + 1
                 if pval:
                     res.append(ns[i])
             ns = res
@@ -367,6 +363,9 @@ class UnionExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> NodeSet:
         lres, rres = self._eval_ops(xctx)
+        for res in (lres, rres):
+            if not isinstance(res, NodeSet):
+                raise XPathTypeError(str(res))
         return lres.union(rres)
 
 
@@ -430,15 +429,18 @@ class FilterExpr(Expr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         res = self.primary._eval(xctx)
-        return self._apply_predicates(res, xctx)
+        if not self.predicates:
+            return res
+        if not isinstance(res, NodeSet):
+            raise XPathTypeError(str(res))
+        return self._apply_predicates(res.document_order(), xctx)
 
 
 class LocationPath(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         lres = self.left._eval(xctx)
-        ns = lres.bind(self.right._node_trans())
-        return self.right._apply_predicates(ns, xctx)
+        return lres.bind(lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
         sep = "" if isinstance(self.left, Root) else "/"
@@ -520,8 +522,8 @@ class Step(Expr):
             Axis.following_sibling:
                 lambda n, qn=self.qname: n._following_siblings(qn),
             Axis.parent: (
-                lambda n, qn=self.qname: [] if qn and qn != n.parent.qual_name
-                else n._parent()),
+                lambda n, qn=self.qname: [p for p in n._parent()
+                                          if not qn or qn == p.qual_name]),
             Axis.preceding_sibling:
                 lambda n, qn=self.qname: n._preceding_siblings(qn),
             Axis.self:
@@ -695,12 +697,11 @@ class FuncName(UnaryExpr):
             node = xctx.cnode
         else:
             ns = self.expr._eval(xctx)
-            try:
-                node = ns[0]
-            except TypeError:
+            if not isinstance(ns, NodeSet):
                 raise XPathTypeError(str(ns))
-            except IndexError:
+            if not ns:
                 return ""
+            node = ns.first()
         if node.parinst is None:
             return ""
         if self.local:
-- 
2.43.0


From ad07cbedc8c22a5fe66fa93bddd9a813a2b14c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 25/98] fix: results of XPath functions and operators for
 special arguments

---
 yangson/xpathast.py | 79 +++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 3ba44c4..122c938 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor
+from math import ceil, copysign, floor, fmod, isfinite
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -33,13 +33,21 @@ from .schemadata import SchemaContext
 from .enumerations import Axis, MultiplicativeOp
 from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
-                       MemberName)
+                       MemberName, StructuredValue)
 from .instroute import InstanceRoute
 from .nodeset import (NodeExpr, NodeSet, XPathValue, node_to_number,
                       to_boolean, to_number)
 from .typealiases import QualName
 
 
+def round_number(num: float) -> float:
+    """Return the integer that is closest to `num` (greater if two are)."""
+    if not isfinite(num):
+        return num
+    res = floor(num)
+    return float(res + 1 if num - res >= 0.5 else res)
+
+
 class XPathContext:
 
     def __init__(self, cnode: InstanceNode, origin: InstanceNode,
@@ -327,11 +335,10 @@ class MultiplicativeExpr(BinaryExpr):
             try:
                 return lres / rres
             except ZeroDivisionError:
-                return (float("nan") if lres == 0.0
-                        else copysign(float('inf'), lres))
+                return lres * copysign(float('inf'), rres)
         try:
-            return copysign(lres % rres, lres)
-        except ZeroDivisionError:
+            return fmod(lres, rres)
+        except ValueError:
             return float('nan')
 
 
@@ -543,10 +550,14 @@ class FuncBitIsSet(BinaryExpr):
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
         bit = self.right._eval_string(xctx)
-        try:
-            return bit in ns[0].value
-        except (IndexError, TypeError):
+        if not ns:
             return False
+        node = ns.first()
+        if node.is_internal() or isinstance(node.value, StructuredValue):
+            return False
+        mtype = node.schema_node.type._member_type(node.value)
+        return (mtype is not None and mtype.yang_type() == "bits" and
+                bit in node.value)
 
 
 class FuncBoolean(UnaryExpr):
@@ -558,7 +569,8 @@ class FuncBoolean(UnaryExpr):
 class FuncCeiling(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(ceil(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return float(ceil(val)) if isfinite(val) else val
 
 
 class FuncConcat(Expr):
@@ -607,8 +619,7 @@ class FuncDeref(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        ref = ns[0]
-        return NodeSet(ref._deref())
+        return NodeSet(ns.first()._deref()) if ns else ns
 
 
 class FuncDerivedFrom(BinaryExpr):
@@ -634,7 +645,7 @@ class FuncDerivedFrom(BinaryExpr):
             self.right._eval_string(xctx), self.sctx.text_mid)
         for n in ns:
             if not n.schema_node._is_identityref():
-                return False
+                continue
             if self.or_self and n.value == i:
                 return True
             if self.sctx.schema_data.is_derived_from(n.value, i):
@@ -648,10 +659,12 @@ class FuncEnumValue(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
+        if not ns:
+            return float('nan')
+        node = ns.first()
         try:
-            node = ns[0]
             return float(node.schema_node.type.enum[node.value])
-        except (AttributeError, IndexError, KeyError):
+        except (AttributeError, KeyError, TypeError):
             return float('nan')
 
 
@@ -667,7 +680,8 @@ class FuncFalse(Expr):
 class FuncFloor(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(floor(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return float(floor(val)) if isfinite(val) else val
 
 
 class FuncLast(Expr):
@@ -714,7 +728,7 @@ class FuncNormalizeSpace(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.expr._eval_string(xctx) if self.expr else str(xctx.cnode)
-        return " ".join(string.strip().split())
+        return re.sub("[ \t\r\n]+", " ", string).strip(" ")
 
 
 class FuncNot(UnaryExpr):
@@ -755,12 +769,7 @@ class FuncReMatch(BinaryExpr):
 class FuncRound(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        dec = decimal.Decimal(self.expr._eval_float(xctx))
-        try:
-            return float(dec.to_integral_value(
-                decimal.ROUND_HALF_UP if dec > 0 else decimal.ROUND_HALF_DOWN))
-        except decimal.InvalidOperation:
-            return float('nan')
+        return round_number(self.expr._eval_float(xctx))
 
 
 class FuncStartsWith(BinaryExpr):
@@ -802,19 +811,11 @@ class FuncSubstring(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.left._eval_string(xctx)
-        rres = self.right._eval_float(xctx)
-        try:
-            start = round(rres) - 1
-        except (ValueError, OverflowError):
-            return "" if self.length or rres != float("-inf") else string
-        if self.length is None:
-            return string[max(start, 0):]
-        length = self.length._eval_float(xctx)
-        try:
-            end = start + round(length)
-        except (ValueError, OverflowError):
-            return string[max(start, 0):] if length == float('inf') else ""
-        return string[max(start, 0):end]
+        start = round_number(self.right._eval_float(xctx))
+        end = (float("inf") if self.length is None else
+               start + round_number(self.length._eval_float(xctx)))
+        return "".join([c for i, c in enumerate(string, start=1)
+                        if start <= i < end])
 
 
 class FuncSubstringAfter(BinaryExpr):
@@ -857,8 +858,10 @@ class FuncTranslate(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string, old = self._eval_ops_string(xctx)
-        new = self.nchars._eval_string(xctx)[:len(old)]
-        ttab = str.maketrans(old[:len(new)], new, old[len(new):])
+        new = self.nchars._eval_string(xctx)
+        ttab = {}
+        for i, c in enumerate(old):
+            ttab.setdefault(ord(c), new[i] if i < len(new) else None)
         return string.translate(ttab)
 
 
-- 
2.43.0


From 6460667a4fac3d17844392ba05ec614486931bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 26/98] fix: deref() of dangling instance identifiers and of
 nodes that are not references

---
 yangson/datatype.py | 12 +++++++++---
 yangson/instance.py |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 26cc8f3..7d3a5b9 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -237,6 +237,10 @@ class DataType(ABC, Generic[S, RS]):
         """Return the type that determines the representation of `val`."""
         return self
 
+    def _deref(self, node: InstanceNode) -> list[InstanceNode]:
+        """Return the list of nodes that `node` refers to."""
+        return []
+
     def _type_digest(self, config: bool) -> dict[str, Any]:
         """Return receiver's type digest.
 
@@ -728,9 +732,11 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         """Override the superclass method."""
         return XPathParser(text, self.sctx).parse().as_instance_route()
 
-    @staticmethod
-    def _deref(node: InstanceNode) -> list[InstanceNode]:
-        return [node.top().goto(cast(InstanceRoute, node.value))]
+    def _deref(self, node: InstanceNode) -> list[InstanceNode]:
+        try:
+            return [node.top().goto(cast(InstanceRoute, node.value))]
+        except YangsonException:
+            return []
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
diff --git a/yangson/instance.py b/yangson/instance.py
index 71f3860..208dc53 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -741,8 +741,8 @@ class InstanceNode:
 
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
-        return ([] if self.is_internal() else
-                self.schema_node.type._deref(self))
+        return (self.schema_node.type._deref(self)
+                if isinstance(self.schema_node, TerminalNode) else [])
 
 
 class RootNode(InstanceNode):
-- 
2.43.0


From f573638c7d9887385fd874cb3a58587ad726d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 27/98] fix: parsing of operator names, numbers, lone slash and
 double slash in XPath

---
 yangson/datatype.py    |  5 ++-
 yangson/parser.py      |  2 +-
 yangson/xpathparser.py | 75 ++++++++++++++++++++++++++----------------
 3 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 7d3a5b9..cf82b13 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -649,7 +649,10 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
         pathst = cast(Statement, stmt.find1("path", required=True))
-        self.path = XPathParser(cast(str, pathst.argument), sctx).parse()
+        xpp = XPathParser(cast(str, pathst.argument), sctx)
+        self.path = xpp.parse()
+        if not xpp.at_end():
+            raise InvalidArgument(pathst.argument)
 
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.canonical_string(val)
diff --git a/yangson/parser.py b/yangson/parser.py
index df76597..0ed610b 100644
--- a/yangson/parser.py
+++ b/yangson/parser.py
@@ -47,7 +47,7 @@ class Parser:
     uint_re = re.compile(_uint)
     """Regular expression for unsigned integer."""
 
-    ufloat_re = re.compile(fr"{_uint}(\.{_uint})?|\.{_uint}")
+    ufloat_re = re.compile(fr"{_uint}(\.[0-9]*)?|\.{_uint}")
     """Regular expression for unsigned float."""
 
     def __init__(self, text: str) -> None:
diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 3df7793..8cfab3c 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -67,9 +67,17 @@ class XPathParser(Parser):
         self.skip_ws()
         return self._or_expr()
 
+    def _operator_name(self, name: str) -> bool:
+        """If operator `name` comes next, return ``True`` and skip it."""
+        mo = self.ident_re.match(self.input, self.offset)
+        if mo is None or mo.group() != name:
+            return False
+        self.offset = mo.end()
+        return True
+
     def _or_expr(self) -> Expr:
         op1 = self._and_expr()
-        while self.test_string("or"):
+        while self._operator_name("or"):
             self.skip_ws()
             op2 = self._and_expr()
             op1 = OrExpr(op1, op2)
@@ -77,7 +85,7 @@ class XPathParser(Parser):
 
     def _and_expr(self) -> Expr:
         op1 = self._equality_expr()
-        while self.test_string("and"):
+        while self._operator_name("and"):
             self.skip_ws()
             op2 = self._equality_expr()
             op1 = AndExpr(op1, op2)
@@ -139,9 +147,9 @@ class XPathParser(Parser):
         while True:
             if self.test_string("*"):
                 mulop = MultiplicativeOp.multiply
-            elif self.test_string("div"):
+            elif self._operator_name("div"):
                 mulop = MultiplicativeOp.divide
-            elif self.test_string("mod"):
+            elif self._operator_name("mod"):
                 mulop = MultiplicativeOp.modulo
             else:
                 return op1
@@ -196,21 +204,22 @@ class XPathParser(Parser):
 
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
-        if self.test_string("/"):
-            return PathExpr(fexpr, self._location_path())
-        return fexpr
+        if not self.test_string("/"):
+            return fexpr
+        left = self._any_depth() if self.test_string("/") else None
+        return PathExpr(fexpr, self._relative_path(left))
 
     def _filter_expr(self, fname: str) -> Expr:
         if fname is None:
             prim = self._or_expr()
         else:
-            mname = "_func_" + fname.replace("-", "_")
-            try:
-                prim = getattr(self, mname)()
-            except AttributeError:
-                if fname in ("id", "lang", "namespace-uri"):
-                    raise NotSupported(self, f"function '{fname}()'") from None
-                raise InvalidXPath(self) from None
+            if fname in ("id", "lang", "namespace-uri"):
+                raise NotSupported(self, f"function '{fname}()'")
+            method = getattr(
+                self, "_func_" + fname.replace("-", "_"), None)
+            if method is None or "_" in fname:
+                raise InvalidXPath(self)
+            prim = method()
         self.char(")")
         self.skip_ws()
         return FilterExpr(prim, self._predicates())
@@ -227,19 +236,32 @@ class XPathParser(Parser):
     def _predicate(self) -> Expr:
         return self._or_expr()
 
-    def _location_path(self) -> LocationPath:
+    def _location_path(self) -> Expr:
+        if not self.test_string("/"):
+            return self._relative_path()
         if self.test_string("/"):
+            return self._relative_path(LocationPath(Root(), self._any_depth()))
+        self.skip_ws()
+        if self.at_end() or not (self.peek() in ".*" or
+                                 self.ident_re.match(self.input, self.offset)):
+            return Root()
+        return self._relative_path(Root())
+
+    def _relative_path(self, left: Optional[Expr] = None) -> Expr:
+        """Parse relative location path that continues path `left`."""
+        res = left
+        while True:
             self.skip_ws()
-            if self.at_end():
-                return Root()
-            op1 = LocationPath(Root(), self._step())
-        else:
-            op1 = self._step()
-        while self.test_string("/"):
-            self.skip_ws()
-            op2 = self._step()
-            op1 = LocationPath(op1, op2)
-        return op1
+            step = self._step()
+            res = step if res is None else LocationPath(res, step)
+            if not self.test_string("/"):
+                return res
+            if self.test_string("/"):
+                res = LocationPath(res, self._any_depth())
+
+    def _any_depth(self) -> Step:
+        """Return the step that is abbreviated as the double slash."""
+        return Step(Axis.descendant_or_self, None, [])
 
     def _step(self) -> Step:
         return Step(*self._axis_qname(), self._predicates())
@@ -249,9 +271,6 @@ class XPathParser(Parser):
         if next == "*":
             self.adv_skip_ws()
             return (Axis.child, False)
-        if next == "/":
-            self.skip_ws()
-            return (Axis.descendant_or_self, None)
         if next == ".":
             self.offset += 1
             res = (Axis.parent if self.test_string(".") else Axis.self, None)
-- 
2.43.0


From 9077cd12226ca978e2cdbc9b81eaf12fab62dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 28/98] fix: string representation and syntax tree of XPath
 expressions

---
 yangson/xpathast.py | 54 +++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 122c938..f59cd88 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -67,6 +67,11 @@ class Expr:
     indent = 2
     _precedence = 8
 
+    @property
+    def is_function(self) -> bool:
+        """Is the receiver a function call?"""
+        return self.__class__.__name__.startswith("Func")
+
     def __str__(self) -> str:
         """Return a string representation of the receiver."""
         raise NotImplementedError
@@ -204,7 +209,7 @@ class BinaryExpr(Expr):
         if self.left._precedence < self._precedence:
             lft = "(" + lft + ")"
         rt = str(self.right)
-        if self.right._precedence < self._precedence:
+        if self.right._precedence <= self._precedence:
             rt = "(" + rt + ")"
         sop = f" {op} " if spaces else op
         return f"{lft}{sop}{rt}"
@@ -351,7 +356,10 @@ class UnaryMinusExpr(UnaryExpr):
         self.negate = negate
 
     def __str__(self) -> str:
-        return f"{'-' if self.negate else ''}{self.expr}"
+        ex = str(self.expr)
+        if self.expr._precedence <= self._precedence:
+            ex = "(" + ex + ")"
+        return f"{'-' if self.negate else ''}{ex}"
 
     def _properties_str(self) -> str:
         return "-" if self.negate else "+"
@@ -397,7 +405,7 @@ class Number(Expr):
         self.value = value
 
     def __str__(self) -> str:
-        return str(self.value)
+        return format(decimal.Decimal(repr(self.value)), "f")
 
     def _properties_str(self) -> str:
         return str(self.value)
@@ -409,7 +417,7 @@ class Number(Expr):
 class PathExpr(BinaryExpr):
 
     def __str__(self) -> str:
-        return self._as_str("/", spaces=False)
+        return f"{self.left}/{self.right}"
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         ns = self.left._eval(xctx)
@@ -428,8 +436,10 @@ class FilterExpr(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        return (str(self.primary) +
-                "".join([f"[{p}]" for p in self.predicates]))
+        prim = str(self.primary)
+        if not self.primary.is_function:
+            prim = "(" + prim + ")"
+        return prim + "".join([f"[{p}]" for p in self.predicates])
 
     def _children_ast(self, indent) -> str:
         return self.primary.syntax_tree(indent) + self._predicates_str(indent)
@@ -450,8 +460,13 @@ class LocationPath(BinaryExpr):
         return lres.bind(lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
-        sep = "" if isinstance(self.left, Root) else "/"
-        return f"{self.left}{sep}{self.right}"
+        left = self.left
+        if isinstance(left, LocationPath) and left.right._is_any_depth():
+            left = left.left
+            sep = "//"
+        else:
+            sep = "/"
+        return f"{'' if isinstance(left, Root) else left}{sep}{self.right}"
 
     def as_instance_route(self) -> InstanceRoute:
         return InstanceRoute(self.left.as_instance_route() +
@@ -481,12 +496,11 @@ class Step(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        if self.axis == Axis.descendant_or_self and self.qname is None:
-            return ""
-        if self.axis == Axis.self and self.qname is None:
-            return "."
-        if self.axis == Axis.parent and self.qname is None:
-            return ".."
+        if self.qname is None and not self.predicates:
+            if self.axis == Axis.self:
+                return "."
+            if self.axis == Axis.parent:
+                return ".."
         if self.qname:
             qn = f"{self.qname[1]}:{self.qname[0]}"
         elif self.qname is None:
@@ -497,6 +511,11 @@ class Step(Expr):
         prs = "".join([f"[{p}]" for p in self.predicates])
         return ax + qn + prs
 
+    def _is_any_depth(self) -> bool:
+        """Is the receiver the step that is abbreviated as double slash?"""
+        return (self.axis == Axis.descendant_or_self and self.qname is None
+                and not self.predicates)
+
     def as_instance_route(self) -> InstanceRoute:
         m = MemberName(*self.qname)
         if not self.predicates:
@@ -634,8 +653,8 @@ class FuncDerivedFrom(BinaryExpr):
         return ("derived-from-or-self" if self.or_self else "derived-from")
 
     def _properties_str(self) -> str:
-        return ("OR-SELF, " if self.or_self
-                else "") + self.sctx.schema_data.namespace(self.mid)
+        return ("OR-SELF, " if self.or_self else
+                "") + self.sctx.schema_data.namespace(self.sctx.text_mid)
 
     def _eval(self, xctx: XPathContext) -> bool:
         ns = self.left._eval(xctx)
@@ -807,7 +826,8 @@ class FuncSubstring(BinaryExpr):
         return res + ")"
 
     def _children_ast(self, indent: int) -> str:
-        return super()._children_ast(indent) + self.length.syntax_tree(indent)
+        res = super()._children_ast(indent)
+        return res + self.length.syntax_tree(indent) if self.length else res
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.left._eval_string(xctx)
-- 
2.43.0


From b46fa4310e90cb76ffae3ade3d93c8b71426714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 29/98] fix: treat NaN as false in when and must expressions

---
 yangson/instance.py   |  2 +-
 yangson/schemanode.py | 10 +++++-----
 yangson/schpattern.py |  2 +-
 yangson/xpathast.py   | 12 ++++++++++++
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 208dc53..e4b50fb 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -699,7 +699,7 @@ class InstanceNode:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if cn.when and not cn.when.evaluate(self):
+                if cn.when and not cn.when.is_true(self):
                     return []
                 if isinstance(cn, CaseNode):
                     case = cn
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e8f890a..ce6544f 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -718,7 +718,7 @@ class InternalNode(SchemaNode):
         for c in self.filter_children(ctype):
             if isinstance(c, DataNode):
                 inst = c._default_instance(inst, ctype, lazy)
-            elif not c.when or c.when.evaluate(inst):
+            elif not c.when or c.when.is_true(inst):
                 inst = c._add_defaults(inst, ctype, lazy)
         return inst
 
@@ -1004,7 +1004,7 @@ class DataNode(SchemaNode):
         if iname in pnode.value:
             return pnode
         nm = pnode.put_member(iname, (None,))
-        if not self.when or self.when.evaluate(nm):
+        if not self.when or self.when.is_true(nm):
             wd = self._default_value(nm, ctype, lazy)
             if wd.value is not None:
                 return wd.up()
@@ -1012,7 +1012,7 @@ class DataNode(SchemaNode):
 
     def _check_must(self, inst: InstanceNode) -> None:
         for m in self.must:
-            if not m.expression.evaluate(inst):
+            if not m.expression.is_true(inst):
                 raise SemanticError(inst, m.error_tag, m.error_message)
 
     def _pattern_entry(self) -> SchemaPattern:
@@ -1480,14 +1480,14 @@ class ChoiceNode(InternalNode):
     def _add_defaults(self, inst: InstanceNode,
                       ctype: Optional[ContentType],
                       lazy: bool = False) -> InstanceNode:
-        if self.when and not self.when.evaluate(inst):
+        if self.when and not self.when.is_true(inst):
             return inst
         ac = self._case_in_use(inst.value)
         if ac is None:
             return inst
         n = ac
         while n is not self:
-            if n.when and not n.when.evaluate(inst):
+            if n.when and not n.when.is_true(inst):
                 return inst
             n = n.parent
         return ac._add_defaults(inst, ctype, lazy)
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index abee203..2e7c310 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -130,7 +130,7 @@ class Conditional(SchemaPattern):
         return not self.when or self._val_when
 
     def _eval_when(self, cnode: "InstanceNode") -> None:
-        self._val_when = bool(self.when.evaluate(cnode))
+        self._val_when = self.when.is_true(cnode)
 
     def _active(self, ctype: ContentType) -> bool:
         return super()._active(ctype) and self.check_when()
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index f59cd88..b83ae9a 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -88,6 +88,18 @@ class Expr:
         """
         return self._eval(XPathContext(node, node, 1, 1))
 
+    def is_true(self, node: InstanceNode) -> bool:
+        """Evaluate the receiver and convert the result to a boolean.
+
+        Args:
+            node: Context node for XPath evaluation.
+
+        Raises:
+            XPathTypeError: If a subexpression of the receiver is of a wrong
+                type.
+        """
+        return self._eval_bool(XPathContext(node, node, 1, 1))
+
     def _eval_float(self, xctx: XPathContext) -> float:
         return to_number(self._eval(xctx))
 
-- 
2.43.0


From 7f717723de25514ad73be3ad07447750b326d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 30/98] fix: an anyxml array is a single node for XPath

---
 yangson/instance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index e4b50fb..f8f3463 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -676,7 +676,8 @@ class InstanceNode:
 
     def _node_set(self) -> list["InstanceNode"]:
         """XPath - return the list of all receiver's nodes."""
-        return list(self) if isinstance(self.value, ArrayValue) else [self]
+        return (list(self) if isinstance(self.value, ArrayValue) and
+                isinstance(self.schema_node, SequenceNode) else [self])
 
     def _children(self,
                   qname: Union[QualName, bool] = None) -> list["InstanceNode"]:
-- 
2.43.0


From 81a3e2f09dfd18b36c31fb3919e9736201b926b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 31/98] fix: string representation of scalar anyxml instances

---
 yangson/instance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index f8f3463..3b02a68 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -122,7 +122,8 @@ class InstanceNode:
     def __str__(self) -> str:
         """Return string representation of the receiver's value."""
         sn = self.schema_node
-        if isinstance(self.value, StructuredValue):
+        if (isinstance(self.value, StructuredValue) or
+                not isinstance(sn, TerminalNode)):
             return str(self.value)
         else:
             res = sn.type.canonical_string(self.value)
-- 
2.43.0


From 7cf64456ef0fa3c6d50d8cbf258477bbcffbb11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:38 +0000
Subject: [PATCH 32/98] fix: report invalid regular expressions as
 InvalidArgument

---
 yangson/constraint.py | 2 +-
 yangson/xpathast.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index 55c71f3..bd244b6 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -133,7 +133,7 @@ class Pattern(Constraint):
             self.regex = re.compile(translate_pattern(
                 pattern, back_references=False,
                 lazy_quantifiers=False, anchors=False))
-        except RegexError:
+        except (RegexError, re.error):
             raise InvalidArgument(pattern) from None
 
 
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index b83ae9a..864ae28 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -793,7 +793,7 @@ class FuncReMatch(BinaryExpr):
             return re.match(translate_pattern(
                 rres, back_references=False,
                 lazy_quantifiers=False, anchors=False), lres) is not None
-        except RegexError:
+        except (RegexError, re.error):
             raise InvalidArgument(rres) from None
 
 
-- 
2.43.0


From d5a37ff5b7408a46da5d6ec5ac3baf4c573f060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:21 +0000
Subject: [PATCH 33/98] fix: adding defaults to operation input or output

---
 yangson/schemanode.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index ce6544f..30834b5 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1790,6 +1790,10 @@ class InputNode(InternalNode, DataNode):
         """Override the superclass method."""
         return self.ns + ":" + self.name
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
@@ -1813,6 +1817,10 @@ class OutputNode(InternalNode, DataNode):
         """Override the superclass method."""
         return self.ns + ":" + self.name
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
-- 
2.43.0


From 4f14afb477be429694d6d601ab94aaaf2ee2a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:42 +0000
Subject: [PATCH 34/98] fix: notifications in XML

---
 yangson/instance.py   | 6 +++++-
 yangson/schemanode.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3b02a68..c95293b 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -780,10 +780,14 @@ class RootNode(InstanceNode):
             tag: str = "content-data",
             urn: str = "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"):
         """put receiver's value into a XML element"""
+        if isinstance(self.schema_node, NotificationNode):
+            tag = self.schema_node.name
+            urn = self.schema_data.modules_by_name[
+                self.schema_node.ns].xml_namespace
         element = ET.Element(tag)
         element.attrib['xmlns'] = urn
         et = super().to_xml(filter, element)
-        if isinstance(self.schema_node, (RpcActionNode, NotificationNode)):
+        if isinstance(self.schema_node, RpcActionNode):
             return et[0]
         return et
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 30834b5..35f7c2c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -608,7 +608,7 @@ class InternalNode(SchemaNode):
         if ch is None:
             raise RawMemberError(npath)
 
-        if rval is not None and self.ns == ch.ns:
+        if jptr != "" and self.ns == ch.ns:
             iname = ch.name
         else:
             iname = '{1}:{0}'.format(*ch.qual_name)
-- 
2.43.0


From c3fe8b95b6a6320e917cc2cccacd7f39d392fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 35/98] fix: dumping anydata and anyxml whose content has a
 member named '@'

---
 yangson/instance.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c95293b..bfdae84 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -473,7 +473,7 @@ class InstanceNode:
                 continue
 
             if (m[0] != '@' and isinstance(self.value[m], ObjectValue)
-                    and '@' in self.value[m]):
+                    and isinstance(self.value[m].get('@'), dict)):
                 attr[m] = self.value[m]['@']
             elif m[0] == '@':
                 attr[m[1:]] = self.value[m]
@@ -507,12 +507,10 @@ class InstanceNode:
                         value[m] = member_value
 
                         if m_attr:
-                            md = self._raw_metadata(attr[m])
-                            if isinstance(member.value, ObjectValue):
-                                if member.is_internal():
-                                    value[m]['@'] = md
-                            else:
-                                value['@'+m] = md
+                            if not isinstance(member.value, ObjectValue):
+                                value['@'+m] = self._raw_metadata(attr[m])
+                            elif member.is_internal():
+                                value[m]['@'] = self._raw_metadata(attr[m])
 
             return value
         if isinstance(self.value, ArrayValue):
-- 
2.43.0


From 1290a71c06fecaab8c43b6ac1dfbc4053d10bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 36/98] fix: JSON form of union values that another member type
 reads differently

---
 yangson/datatype.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index cf82b13..9d081aa 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -59,6 +59,7 @@ from .exceptions import (
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
+from .instvalue import value_key
 from .nodeset import NodeSet
 from .statement import Statement
 from .typealiases import (InstanceIdentifier, L, N, RN, QualName, RawScalar,
@@ -1128,8 +1129,18 @@ class UnionType(DataType[ScalarValue, RawScalar]):
         return None
 
     def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
-        t = self._member_type(val)
-        return None if t is None else t.to_raw(val)
+        res = None
+        for t in self.types:    # prefer a form that is read as the same value
+            try:
+                raw = t.to_raw(val) if val in t else None
+            except TypeError:
+                continue
+            if raw is not None:
+                if value_key(self.from_raw(raw)) == value_key(val):
+                    return raw
+                if res is None:
+                    res = raw
+        return res
 
     def to_xml(self, val: ScalarValue) -> Optional[str]:
         t = self._member_type(val)
-- 
2.43.0


From eba05c75844ca3d15a82403a0207e55f1d988c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:35 +0000
Subject: [PATCH 37/98] fix: interpret prefixes in a default statement in the
 module of that statement

---
 yangson/datatype.py   | 27 ++++++++++++++++-----------
 yangson/schemanode.py | 18 +++++++++---------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 9d081aa..16b2dcd 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -148,13 +148,15 @@ class DataType(ABC, Generic[S, RS]):
         """Return canonical form of a value."""
         return str(val)
 
-    def from_yang(self, text: str) -> S:
+    def from_yang(self, text: str, sctx: SchemaContext = None) -> S:
         """Parse value specified as default in a YANG module.
 
         Conformance to the receiving type isn't guaranteed.
 
         Args:
             text: String representation of the value.
+            sctx: Schema context in which `text` appears (receiver's context
+                if not given).
 
         Raises:
             InvalidArgument: If the receiver type cannot parse the text.
@@ -219,7 +221,7 @@ class DataType(ABC, Generic[S, RS]):
             dfst = tdef.find1("default")
             if dfst:
                 dval = cast(str, dfst.argument)
-                res.default = res.from_yang(dval)
+                res.default = res.from_yang(dval, tsc)
                 if res.default is None:
                     raise InvalidArgument(dval)
         res._handle_restrictions(stmt, sctx)
@@ -673,8 +675,8 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
-    def from_yang(self, text: str) -> ScalarValue:
-        return self.ref_type.from_yang(text)
+    def from_yang(self, text: str, sctx: SchemaContext = None) -> ScalarValue:
+        return self.ref_type.from_yang(text, sctx or self.sctx)
 
     def _deref(self, node: InstanceNode) -> list[InstanceNode]:
         ns = self.path.evaluate(node)
@@ -732,9 +734,11 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         """Override the superclass method."""
         return str(val)
 
-    def from_yang(self, text: str) -> InstanceRoute:
+    def from_yang(self, text: str,
+                  sctx: SchemaContext = None) -> InstanceRoute:
         """Override the superclass method."""
-        return XPathParser(text, self.sctx).parse().as_instance_route()
+        return XPathParser(
+            text, sctx or self.sctx).parse().as_instance_route()
 
     def _deref(self, node: InstanceNode) -> list[InstanceNode]:
         try:
@@ -801,11 +805,12 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
-    def from_yang(self, text: YangIdentifier) -> QualName:
+    def from_yang(self, text: YangIdentifier,
+                  sctx: SchemaContext = None) -> QualName:
         """Override the superclass method."""
         try:
             return self.sctx.schema_data.translate_pname(
-                text, self.sctx.text_mid)
+                text, (sctx or self.sctx).text_mid)
         except (ModuleNotRegistered, UnknownPrefix):
             raise InvalidArgument(text)
 
@@ -983,7 +988,7 @@ class IntegralType(NumericType[int, RN]):
         return (self.parse_value(xml.text.strip())
                 if isinstance(xml.text, str) else None)
 
-    def from_yang(self, text: str) -> int:
+    def from_yang(self, text: str, sctx: SchemaContext = None) -> int:
         """Override the superclass method."""
         mo = self.octhex.match(text)
         if mo:
@@ -1157,11 +1162,11 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return val
         return None
 
-    def from_yang(self, text: str) -> ScalarValue:
+    def from_yang(self, text: str, sctx: SchemaContext = None) -> ScalarValue:
         """Override the superclass method."""
         for t in self.types:
             try:
-                val = t.from_yang(text)
+                val = t.from_yang(text, sctx or self.sctx)
             except YangsonException:
                 continue
             if val in t:
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 35f7c2c..b608cf0 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1596,14 +1596,14 @@ class LeafNode(DataNode, TerminalNode):
         if self._mandatory:
             self.parent._add_mandatory_child(self)
         elif self._default is not None:
-            self._default = self.type.from_yang(self._default)
+            self._default = self.type.from_yang(*self._default)
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line() + ("" if self._mandatory else "?")
         return res if no_type else f"{res} <{self.type}>"
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        self._default = stmt.argument
+        self._default = (stmt.argument, sctx)
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1636,9 +1636,9 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if self._default is None:
-            self._default = [stmt.argument]
+            self._default = [(stmt.argument, sctx)]
         else:
-            self._default.append(stmt.argument)
+            self._default.append((stmt.argument, sctx))
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1647,17 +1647,17 @@ class LeafListNode(SequenceNode, TerminalNode):
                 self._default = []
             self._default_stmt(stmt, sctx)
         elif action == "delete":
-            val = self.type.parse_value(stmt.argument)
-            for i in range(len(self._default)):
-                if self._default[i] == val:
-                    del self._default[i]
+            dflt = self._default or []
+            for i in range(len(dflt)):
+                if dflt[i][0] == stmt.argument:
+                    self._default = dflt[:i] + dflt[i + 1:] or None
                     return
 
     def _post_process(self) -> None:
         super()._post_process()
         if self._default is not None:
             self._default = ArrayValue(
-                [self.type.from_yang(v) for v in self._default])
+                [self.type.from_yang(*v) for v in self._default])
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line()
-- 
2.43.0


From 334b510d02659bb28c083679b1b3b9bf98727e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:09 +0000
Subject: [PATCH 38/98] fix: resolve identity names in XML by the namespaces in
 scope

---
 yangson/datatype.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 16b2dcd..0d0fcde 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -783,21 +783,18 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         except AttributeError:
             return None
 
-        if not s:
-            # not prefixed, so assume default ns
-            return (i1, self.sctx.default_ns)
-        elif i1 == self.sctx.default_ns:
-            # prefixed with default ns
-            return (i2, self.sctx.default_ns)
-
-        # the following code has issues (Issue #79)
-        ns_url = xml.attrib.get('xmlns:'+i1)
+        loc = i2 if s else i1
+        # namespace declarations are attributes added by XMLParser
+        ns_url = xml.attrib.get('xmlns:' + i1 if s else 'xmlns')
         if not ns_url:
-            raise MissingModuleNamespace(cast(str, ns_url))
+            if s and i1 != self.sctx.default_ns:
+                raise MissingModuleNamespace(cast(str, ns_url))
+            return (loc, self.sctx.default_ns)
+
         module = self.sctx.schema_data.modules_by_ns.get(ns_url)
         if not module:
             raise MissingModuleNamespace(ns_url)
-        return (i2, module.main_module[0])
+        return (loc, module.main_module[0])
 
     def to_raw(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
-- 
2.43.0


From 5ed3c4b1dc912820f3b5c508435bdddb1981ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 39/98] fix: schema nodes cook values without a JSON pointer
 under the right member names

---
 yangson/schemanode.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b608cf0..a1cbb2d 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -542,6 +542,7 @@ class InternalNode(SchemaNode):
         """Override the superclass method."""
         if not isinstance(rval, dict):
             raise RawTypeError(jptr, "object")
+        top = jptr == "" and isinstance(self, SchemaTreeNode)
         res = ObjectValue()
         for qn in rval:
             if qn.startswith("@"):
@@ -559,14 +560,14 @@ class InternalNode(SchemaNode):
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
-                if jptr == "" and ch is None:
+                if top and ch is None:
                     ch = self.get_child(*cn)
                     if not isinstance(ch, SchemaTreeNode):
                         ch = None
                 npath = jptr + "/" + qn
                 if ch is None:
                     raise RawMemberError(npath)
-                if jptr == "" or self.ns != ch.ns:
+                if top or self.ns != ch.ns:
                     iname = '{1}:{0}'.format(*ch.qual_name)
                 else:
                     iname = ch.name
@@ -600,7 +601,8 @@ class InternalNode(SchemaNode):
         qn = fqn if ns != self.ns else name
 
         ch = self.get_data_child(name, ns)
-        if jptr == "" and ch is None:
+        top = jptr == "" and isinstance(self, SchemaTreeNode)
+        if top and ch is None:
             ch = self.get_child(name, ns)
             if not isinstance(ch, SchemaTreeNode):
                 ch = None
@@ -608,7 +610,7 @@ class InternalNode(SchemaNode):
         if ch is None:
             raise RawMemberError(npath)
 
-        if jptr != "" and self.ns == ch.ns:
+        if not top and self.ns == ch.ns:
             iname = ch.name
         else:
             iname = '{1}:{0}'.format(*ch.qual_name)
-- 
2.43.0


From a475f88c7d9273c5b8bd11c7aa16d123b843707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:38 +0000
Subject: [PATCH 40/98] fix: merge and look_up tell key values of different
 types apart

---
 yangson/instance.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index bfdae84..764534b 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -259,8 +259,7 @@ class InstanceNode:
             flag = True
             for k in keys:
                 try:
-                    if (en[k] != keys[k] or isinstance(en[k], bool) !=
-                            isinstance(keys[k], bool)):
+                    if value_key(en[k]) != value_key(keys[k]):
                         flag = False
                         break
                 except KeyError:
@@ -338,9 +337,9 @@ class InstanceNode:
         inst = self._copy(self.value)
         mki = {}
         for i in range(len(value)):
-            mki[tuple([value[i].get(k) for k in keys])] = i
+            mki[tuple([value_key(value[i].get(k)) for k in keys])] = i
         for i in range(len(self.value)):
-            kval = tuple([self.value[i].get(k) for k in keys])
+            kval = tuple([value_key(self.value[i].get(k)) for k in keys])
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
-- 
2.43.0


From 3dab9d0fba1bf72b51062a937db5d36fdfcaddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 41/98] fix: resource identifiers that continue below a leaf
 are refused with NonexistentSchemaNode

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 764534b..3b3601e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1332,6 +1332,8 @@ class ResourceIdParser(Parser):
         sn = self.schema_node
         while True:
             name, ns = self.prefixed_name()
+            if not isinstance(sn, InternalNode):
+                raise NonexistentSchemaNode(sn.qual_name, name, ns)
             cn = sn.get_data_child(name, ns)
             if cn is None:
                 for cn in sn.children:
-- 
2.43.0


From 83ec5770725882251988c5f6d78048e4b3ee4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 42/98] fix: unescape long double-quoted strings without
 recursion

---
 yangson/statement.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index c4872e4..fc0a9d1 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -22,7 +22,8 @@ This module implements the following classes:
 * ModuleParser: Recursive-descent parser for YANG modules.
 * Statement: YANG statements.
 """
-from typing import Final, Optional
+import re
+from typing import Final, Optional, Pattern
 from .exceptions import (
     EndOfInput, StatementNotFound, UnexpectedInput, InvalidArgument,
     ModuleNameMismatch, ModuleRevisionMismatch)
@@ -128,6 +129,9 @@ class ModuleParser(Parser):
                                            "\\": "\\"}
     """Dictionary for mapping escape sequences to characters."""
 
+    escape_re: Final[Pattern] = re.compile(r"\\(.?)", re.DOTALL)
+    """Regular expression for an escape sequence."""
+
     def __init__(self, text: str, name: YangIdentifier = None,
                  rev: str = "") -> None:
         """Initialize the parser instance.
@@ -180,11 +184,9 @@ class ModuleParser(Parser):
         Args:
             text: Text to unescape.
         """
-        chop = text.split("\\", 1)
         try:
-            return (chop[0] if len(chop) == 1
-                    else chop[0] + cls.unescape_map[chop[1][0]] +
-                    cls.unescape(chop[1][1:]))
+            return cls.escape_re.sub(
+                lambda mo: cls.unescape_map[mo.group(1)], text)
         except KeyError:
             raise InvalidArgument(text) from None
 
-- 
2.43.0


From fb05c07faa9130286ab2727ecf05b205f11d1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 43/98] fix: end an unquoted argument after a slash and at a
 closing brace

---
 yangson/statement.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yangson/statement.py b/yangson/statement.py
index fc0a9d1..965d436 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -366,10 +366,18 @@ class ModuleParser(Parser):
                 "\r": lambda: -1,
                 "\n": lambda: -1,
                 "{": lambda: -1,
+                "}": lambda: -1,
                 '/': lambda: 1
             },
             {  # state 1: comment?
                 "": lambda: 0,
+                ";": lambda: -1,
+                " ": lambda: -1,
+                "\t": lambda: -1,
+                "\r": lambda: -1,
+                "\n": lambda: -1,
+                "{": lambda: -1,
+                "}": lambda: -1,
                 "/": self._back_break,
                 "*": self._back_break
             }])
-- 
2.43.0


From 4cfdc5ab9e23fc8e0487b62efe438ab128510e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 44/98] fix: accept an empty quoted string as the first part of
 a concatenation

---
 yangson/statement.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 965d436..40fd0fa 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -274,7 +274,7 @@ class ModuleParser(Parser):
         elif not pres:
             raise UnexpectedInput(self, "separator")
         else:
-            self._arg = ""
+            self._arg = None
             sub = self.argument()
             arg = self._arg
         self.offset += 1
@@ -297,7 +297,7 @@ class ModuleParser(Parser):
         elif next == '"':
             quoted = True
             self.dq_argument()
-        elif self._arg == "":
+        elif self._arg is None:
             quoted = False
             self.unq_argument()
         else:
@@ -323,7 +323,7 @@ class ModuleParser(Parser):
             EndOfInput: If past the end of input.
         """
         self.offset += 1
-        self._arg += self.up_to("'")
+        self._arg = (self._arg or "") + self.up_to("'")
 
     def dq_argument(self) -> str:
         """Parse double-quoted argument.
@@ -346,8 +346,9 @@ class ModuleParser(Parser):
             {  # state 1: after escape
                 "": lambda: 0
             }])
-        self._arg += (self.unescape(self.input[start:self.offset])
-                      if self._escape else self.input[start:self.offset])
+        arg = self.input[start:self.offset]
+        self._arg = (self._arg or "") + (
+            self.unescape(arg) if self._escape else arg)
         self.offset += 1
 
     def unq_argument(self) -> str:
-- 
2.43.0


From da72961eb6b4720e8ac770c518e497ff18c1d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 45/98] fix: refuse an unterminated comment or a lone slash
 after the module

---
 yangson/statement.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 40fd0fa..74290bc 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -25,7 +25,7 @@ This module implements the following classes:
 import re
 from typing import Final, Optional, Pattern
 from .exceptions import (
-    EndOfInput, StatementNotFound, UnexpectedInput, InvalidArgument,
+    StatementNotFound, UnexpectedInput, InvalidArgument,
     ModuleNameMismatch, ModuleRevisionMismatch)
 from .parser import Parser
 from .typealiases import YangIdentifier
@@ -132,6 +132,10 @@ class ModuleParser(Parser):
     escape_re: Final[Pattern] = re.compile(r"\\(.?)", re.DOTALL)
     """Regular expression for an escape sequence."""
 
+    end_re: Final[Pattern] = re.compile(
+        r"(?:[ \t\n]|\r\n|//[^\n]*(?:\n|\Z)|/\*(?:[^*]|\*(?!/))*\*/)*\Z")
+    """Regular expression for a separator at the end of input."""
+
     def __init__(self, text: str, name: YangIdentifier = None,
                  rev: str = "") -> None:
         """Initialize the parser instance.
@@ -167,10 +171,9 @@ class ModuleParser(Parser):
         modrev = revst.argument if revst else ""
         if self.rev != modrev:
             raise ModuleRevisionMismatch(modrev, self.rev)
-        try:
-            self.opt_separator()
-        except EndOfInput:
+        if self.end_re.match(self.input, self.offset):
             return res
+        self.opt_separator()
         raise UnexpectedInput(self, "end of input")
 
     def _back_break(self) -> int:
-- 
2.43.0


From d88b231cc238b11ba943f931aa785bea97e330d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 46/98] fix: strip layout white space of multi-line
 double-quoted strings

---
 yangson/statement.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 74290bc..0711db6 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -349,11 +349,36 @@ class ModuleParser(Parser):
             {  # state 1: after escape
                 "": lambda: 0
             }])
-        arg = self.input[start:self.offset]
+        arg = self._strip_layout(self.input[start:self.offset], start)
         self._arg = (self._arg or "") + (
             self.unescape(arg) if self._escape else arg)
         self.offset += 1
 
+    def _strip_layout(self, text: str, start: int) -> str:
+        """Strip white space around line breaks of a double-quoted string.
+
+        Args:
+            text: Text between the quotes.
+            start: Offset of `text` in the input.
+        """
+        if "\n" not in text:
+            return text
+        before = self.input[self.input.rfind("\n", 0, start) + 1:start]
+        width = len(before.replace("\t", 8 * " "))
+        first, *rest = text.split("\n")
+        lines = [first]
+        for ln in rest:
+            body = ln.lstrip(" \t")
+            pos = col = 0
+            while col < width and pos < len(ln) - len(body):
+                col += 8 if ln[pos] == "\t" else 1
+                pos += 1
+            lines.append(max(0, col - width) * " " + ln[pos:])
+        for i in range(len(lines) - 1):
+            cr = "\r" if lines[i].endswith("\r") else ""
+            lines[i] = lines[i].removesuffix("\r").rstrip(" \t") + cr
+        return "\n".join(lines)
+
     def unq_argument(self) -> str:
         """Parse unquoted argument.
 
-- 
2.43.0


From b443f581bec67cc85fdc59a8beb7b89ae3eb445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 47/98] fix: refuse a prefixed keyword as the top-level
 statement

---
 yangson/statement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 0711db6..fcbfb79 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -162,7 +162,7 @@ class ModuleParser(Parser):
         self.opt_separator()
         start = self.offset
         res = self.statement()
-        if res.keyword not in ["module", "submodule"]:
+        if res.prefix or res.keyword not in ["module", "submodule"]:
             self.offset = start
             raise UnexpectedInput(self, "'module' or 'submodule'")
         if self.name is not None and res.argument != self.name:
-- 
2.43.0


From 4a731d874b179240a1d4bfaee29c64d420c25dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 48/98] fix: if-feature expressions with feature names starting
 with 'not' and with repeated negation

---
 yangson/schemadata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 23e2d24..6048a33 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -25,6 +25,7 @@ This module implements the following classes:
 * SchemaData: Repository of YANG schema structures and methods.
 * FeatureExprParser: Parser for if-feature expressions.
 """
+import re
 from collections.abc import MutableSet
 from typing import Any, Optional, Sequence
 from .exceptions import (
@@ -516,6 +517,9 @@ class SchemaData:
 class FeatureExprParser(Parser):
     """Parser and evaluator for if-feature expressions."""
 
+    not_re = re.compile("not(?![a-zA-Z0-9_.:-])")
+    """Regular expression for the negation operator."""
+
     def __init__(self, text: str, schema_data: SchemaData,
                  mid: ModuleId) -> None:
         """Initialize the parser instance.
@@ -564,10 +568,10 @@ class FeatureExprParser(Parser):
         return x
 
     def _feature_term(self) -> bool:
-        if self.test_string("not"):
+        if self.match_regex(self.not_re):
             if not self.skip_ws():
                 raise InvalidFeatureExpression(self)
-            return not self._feature_atom()
+            return not self._feature_term()
         return self._feature_atom()
 
     def _feature_atom(self) -> bool:
-- 
2.43.0


From 172be23565d6f196ded9ae557f6be73688b2b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 49/98] fix: unsupported enums and bits count for automatically
 assigned values and positions

---
 yangson/datatype.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 0d0fcde..7732a3f 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -348,15 +348,14 @@ class BitsType(DataType[tuple[str, ...], str]):
         """Handle **bit** statements."""
         nextpos = None
         for bst in stmt.find_all("bit"):
-            if not sctx.schema_data.if_features(bst, sctx.text_mid):
-                continue
             label = cast(str, bst.argument)
             pst = bst.find1("position")
             if pst:
                 pos = int(cast(str, pst.argument))
             else:
                 pos = 0 if nextpos is None else nextpos
-            self.bit[label] = pos
+            if sctx.schema_data.if_features(bst, sctx.text_mid):
+                self.bit[label] = pos
             if nextpos is None or pos >= nextpos:
                 nextpos = pos + 1
 
@@ -586,15 +585,14 @@ class EnumerationType(DataType[str, str]):
         """Handle **enum** statements."""
         nextval = None
         for est in stmt.find_all("enum"):
-            if not sctx.schema_data.if_features(est, sctx.text_mid):
-                continue
             label = cast(str, est.argument)
             vst = est.find1("value")
             if vst:
                 val = int(cast(str, vst.argument))
             else:
                 val = 0 if nextval is None else nextval
-            self.enum[label] = val
+            if sctx.schema_data.if_features(est, sctx.text_mid):
+                self.enum[label] = val
             if nextval is None or val >= nextval:
                 nextval = val + 1
 
-- 
2.43.0


From 65b07c0ee458282cc99d1decb6a2ca42450770b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 50/98] fix: no implicit case for a shorthand case whose
 if-feature is false

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a1cbb2d..89f6428 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -895,7 +895,7 @@ class GroupNode(InternalNode):
         if not isinstance(
                 self.parent, ChoiceNode) or isinstance(node, CaseNode):
             super()._handle_child(node, stmt, sctx)
-        else:
+        elif sctx.schema_data.if_features(stmt, sctx.text_mid):
             cn = CaseNode()
             cn.name = stmt.argument
             cn.ns = sctx.default_ns
@@ -1536,7 +1536,7 @@ class ChoiceNode(InternalNode):
                       sctx: SchemaContext) -> None:
         if isinstance(node, CaseNode):
             super()._handle_child(node, stmt, sctx)
-        else:
+        elif sctx.schema_data.if_features(stmt, sctx.text_mid):
             cn = CaseNode()
             cn.name = stmt.argument
             cn.ns = sctx.default_ns
-- 
2.43.0


From a70ae36aa0e6522b6887c26b5dbe6b1c8203de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 51/98] fix: schema digest of a leaf-list with default values

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 89f6428..7919ad8 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1074,7 +1074,9 @@ class TerminalNode(SchemaNode):
         res["type"] = self.type._type_digest(self.config)
         df = self.default
         if df is not None:
-            res["default"] = self.type.to_raw(df)
+            res["default"] = ([self.type.to_raw(v) for v in df]
+                              if isinstance(df, ArrayValue)
+                              else self.type.to_raw(df))
         if self.units:
             res["units"] = self.units
         return res
-- 
2.43.0


From c568f9f9b221816edf091b7ae7ded318ff9b587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 52/98] fix: instance names and data paths of operations and
 notifications (schema digest lost all notifications but one)

---
 yangson/schemanode.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 7919ad8..269fa88 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1750,9 +1750,9 @@ class RpcActionNode(SchemaTreeNode):
         """Override the superclass method."""
         return super(GroupNode, self).iname()
 
-    def data_parent(self) -> None:
+    def data_parent(self) -> Optional[InternalNode]:
         """Override the superclass method."""
-        return self.parent
+        return super(GroupNode, self).data_parent()
 
     def _handle_substatements(self, stmt: Statement,
                               sctx: SchemaContext) -> None:
@@ -1838,6 +1838,14 @@ class NotificationNode(SchemaTreeNode):
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
 
+    def iname(self) -> InstanceName:
+        """Override the superclass method."""
+        return super(GroupNode, self).iname()
+
+    def data_parent(self) -> Optional[InternalNode]:
+        """Override the superclass method."""
+        return super(GroupNode, self).data_parent()
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
-- 
2.43.0


From add58052022d1dc924b9fedce3a7ab5bf1772d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 53/98] fix: list identities in the schema digest in a stable
 order

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 7732a3f..e5cbd8d 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -827,7 +827,7 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
         if config:
-            res["identities"] = list(
+            res["identities"] = sorted(
                 self.sctx.schema_data.derived_from_all(self.bases))
         return res
 
-- 
2.43.0


From e439b1d8b5e288f6be723b8436065743632921de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 54/98] fix: positions of bits in the schema digest

---
 yangson/datatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index e5cbd8d..fbc2d8e 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -378,6 +378,7 @@ class BitsType(DataType[tuple[str, ...], str]):
                 bits.append(None)
                 i += 1
             bits.append(b[0])
+            i += 1
         res["bits"] = bits
         return res
 
-- 
2.43.0


From 0b4c86b1534fa9abe6bddaad024816c13f9d0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 55/98] fix: ASCII tree of a node that has only an empty
 conditional group

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 269fa88..e95a696 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -867,11 +867,11 @@ class InternalNode(SchemaNode):
         def suffix(sn):
             return f" {{{sn.val_count}}}\n" if val_count and isinstance(
                 sn, (SchemaTreeNode, DataNode)) else "\n"
-        if not self.children:
-            return ""
         cs = []
         for c in self.children:
             cs.extend(c._flatten())
+        if not cs:
+            return ""
         cs.sort(key=lambda x: x.qual_name)
         res = ""
         for c in cs[:-1]:
-- 
2.43.0


From c9b2f29264d6672695c8b9caba5caa4034243be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 56/98] fix: derivation of identities through modules that are
 only imported

---
 yangson/datamodel.py | 9 +++++++++
 yangson/datatype.py  | 9 ++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index b5a86d9..b34aaf8 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -231,6 +231,15 @@ class DataModel:
                 self.schema_data, self.schema_data.namespace(mid), mid)
             self.schema._handle_substatements(
                 self.schema_data.modules[mid].statement, sctx)
+        for mid in self.schema_data.modules:
+            if mid in self.schema_data._module_sequence:
+                continue
+            # identities of imported modules take part in derivation
+            sctx = SchemaContext(
+                self.schema_data, self.schema_data.namespace(mid), mid)
+            for idst in self.schema_data.modules[mid].statement.find_all(
+                    "identity"):
+                self.schema._identity_stmt(idst, sctx)
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/datatype.py b/yangson/datatype.py
index fbc2d8e..aa2b0dd 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -758,6 +758,11 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         if not isinstance(val, tuple) or len(val) != 2:
             self._set_error_info()
             return False
+        if val[1] not in self.sctx.schema_data.implement:
+            self._set_error_info(
+                error_message=f"'{self.canonical_string(val)}'" +
+                " not defined in an implemented module")
+            return False
         for b in self.bases:
             if not self.sctx.schema_data.is_derived_from(val, b):
                 self._set_error_info(
@@ -828,8 +833,10 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
         if config:
+            sdata = self.sctx.schema_data
             res["identities"] = sorted(
-                self.sctx.schema_data.derived_from_all(self.bases))
+                i for i in sdata.derived_from_all(self.bases)
+                if i[1] in sdata.implement)
         return res
 
 
-- 
2.43.0


From ef932d8839d33590960f36587a9e83dab59ca67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 57/98] fix: apply the description of a refine statement to the
 refined node

---
 yangson/schemanode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e95a696..a4e2ded 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -777,6 +777,7 @@ class InternalNode(SchemaNode):
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             target.parent.children.remove(target)
         else:
+            target._get_description(stmt)
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 2243ef92834a2f0edd6b39935ae4a691c1df68c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 58/98] fix: let refined default values replace those of a
 leaf-list

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a4e2ded..ef8d8ee 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -778,6 +778,8 @@ class InternalNode(SchemaNode):
             target.parent.children.remove(target)
         else:
             target._get_description(stmt)
+            if isinstance(target, LeafListNode) and stmt.find1("default"):
+                target._default = None      # replace the original defaults
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From b6a417ab88207bd66a4344a6ef92b647c753faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 59/98] fix: let config true in refine and deviate override
 config false

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index ef8d8ee..b8f3ce5 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -312,8 +312,8 @@ class SchemaNode:
         pass
 
     def _config_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        if stmt.argument == "false":
-            self._ctype = ContentType.nonconfig
+        self._ctype = (
+            ContentType.nonconfig if stmt.argument == "false" else None)
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.argument == "deprecated":
-- 
2.43.0


From 76598cedbd0438317eb757e1b4bb9b8bf0d2f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 60/98] fix: deletion of a unique constraint by deviate

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b8f3ce5..dc54109 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1447,9 +1447,9 @@ class ListNode(SequenceNode, InternalNode):
                 self.unique = []
             self._unique_stmt(stmt, sctx)
         elif action == "delete":
-            uniq = self._parse_unique(stmt, sctx)
+            uniq = [str(u) for u in self._parse_unique(stmt, sctx)]
             for i in range(len(self.unique)):
-                if self.unique[i] == uniq:
+                if [str(u) for u in self.unique[i]] == uniq:
                     del self.unique[i]
                     return
 
-- 
2.43.0


From beb22cd4a2529d5b354f7d157bc5cc0bdd5016c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 61/98] fix: augments of nodes that another augment adds later

---
 yangson/datamodel.py  | 17 +++++++++++------
 yangson/schemanode.py | 13 +++++++++----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index b34aaf8..77d3b7f 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -240,12 +240,17 @@ class DataModel:
             for idst in self.schema_data.modules[mid].statement.find_all(
                     "identity"):
                 self.schema._identity_stmt(idst, sctx)
-        for mid in self.schema_data._module_sequence:
-            sctx = SchemaContext(
-                self.schema_data, self.schema_data.namespace(mid), mid)
-            mod = self.schema_data.modules[mid].statement
-            for aug in mod.find_all("augment"):
-                self.schema._augment_stmt(aug, sctx)
+        augs = [(aug, SchemaContext(self.schema_data,
+                                    self.schema_data.namespace(mid), mid))
+                for mid in self.schema_data._module_sequence
+                for aug in self.schema_data.modules[mid].statement.find_all(
+                    "augment")]
+        while augs:         # an augment may target nodes added by another
+            later = [(aug, sctx) for (aug, sctx) in augs
+                     if not self.schema._augment_stmt(aug, sctx)]
+            if len(later) == len(augs):
+                break
+            augs = later
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index dc54109..58f5d49 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -744,19 +744,24 @@ class InternalNode(SchemaNode):
         node._handle_substatements(stmt, sctx)
 
     def _augment_stmt(self, stmt: Statement,
-                      sctx: SchemaContext) -> None:
-        """Handle **augment** statement."""
+                      sctx: SchemaContext) -> bool:
+        """Handle **augment** statement.
+
+        Returns:
+            ``False`` if the target node is missing.
+        """
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
-            return
+            return True
         target = self.get_schema_descendant(
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
-            return
+            return False
         if stmt.find1("when"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
         target._handle_substatements(stmt, sctx)
+        return True
 
     def _deviation_stmt(self, stmt: Statement,
                         sctx: SchemaContext) -> None:
-- 
2.43.0


From 998c85c89567381946da2470a8a3c7a5d2d23195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 62/98] fix: augments in a uses statement targeting nodes of
 one another

---
 yangson/datamodel.py  |  7 +------
 yangson/schemanode.py | 13 +++++++++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 77d3b7f..2950489 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -245,12 +245,7 @@ class DataModel:
                 for mid in self.schema_data._module_sequence
                 for aug in self.schema_data.modules[mid].statement.find_all(
                     "augment")]
-        while augs:         # an augment may target nodes added by another
-            later = [(aug, sctx) for (aug, sctx) in augs
-                     if not self.schema._augment_stmt(aug, sctx)]
-            if len(later) == len(augs):
-                break
-            augs = later
+        self.schema._augment_all(augs)
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 58f5d49..5160076 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -763,6 +763,16 @@ class InternalNode(SchemaNode):
         target._handle_substatements(stmt, sctx)
         return True
 
+    def _augment_all(
+            self, augs: list[tuple[Statement, SchemaContext]]) -> None:
+        """Handle augments, some of which may target nodes of others."""
+        while augs:
+            later = [(stmt, sctx) for (stmt, sctx) in augs
+                     if not self._augment_stmt(stmt, sctx)]
+            if len(later) == len(augs):
+                break
+            augs = later
+
     def _deviation_stmt(self, stmt: Statement,
                         sctx: SchemaContext) -> None:
         """Handle **deviation** statement."""
@@ -804,8 +814,7 @@ class InternalNode(SchemaNode):
         else:
             sn = self
         sn._handle_substatements(grp, gid)
-        for augst in stmt.find_all("augment"):
-            sn._augment_stmt(augst, sctx)
+        sn._augment_all([(augst, sctx) for augst in stmt.find_all("augment")])
         for refst in stmt.find_all("refine"):
             sn._refine_stmt(refst, sctx)
 
-- 
2.43.0


From ef64c47f895048e91f57361b660778fc4d92e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 63/98] fix: default case added or replaced by a deviation

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 5160076..a620a06 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1572,6 +1572,8 @@ class ChoiceNode(InternalNode):
             self.default_case = None
         elif action in ("add", "replace"):
             self._default_stmt(stmt, sctx)
+            if ":" not in stmt.argument:    # a case of the target's module
+                self.default_case = (stmt.argument, self.ns)
 
     def _tree_line(self, no_type: bool = False) -> str:
         """Return the receiver's contribution to tree diagram."""
-- 
2.43.0


From add733f46ebd62f4680c417c1a93a767d74e11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 64/98] fix: unprefixed names in must expressions and leafref
 paths of deviations

---
 yangson/schemanode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a620a06..91aa36e 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -346,6 +346,8 @@ class SchemaNode:
 
     def _deviate_must(self, stmt: Statement,
                       sctx: SchemaContext, action: str) -> None:
+        # names without prefix belong to the module of the target node
+        sctx = SchemaContext(sctx.schema_data, self.ns, sctx.text_mid)
         if action in ("add", "replace"):
             if action == "replace":
                 self.must = []
@@ -1084,7 +1086,8 @@ class TerminalNode(SchemaNode):
     def _deviate_type(self, stmt: Statement,
                       sctx: SchemaContext, action: str) -> None:
         if action == "replace":
-            self.type = DataType._resolve_type(stmt, sctx)
+            self.type = DataType._resolve_type(stmt, SchemaContext(
+                sctx.schema_data, self.ns, sctx.text_mid))
 
     def _node_digest(self) -> dict[str, Any]:
         res = super()._node_digest()
-- 
2.43.0


From 4454117cfcc90ebb5089cc7775aa1feae3df4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 65/98] fix: don't look for data nodes inside operations and
 notifications

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 91aa36e..3791c53 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -507,6 +507,8 @@ class InternalNode(SchemaNode):
             return None
         todo = []
         for child in self.children:
+            if isinstance(child, SchemaTreeNode):
+                continue        # operations and notifications aren't data
             if child.name == name and child.ns == ns:
                 if isinstance(child, DataNode):
                     return child
-- 
2.43.0


From 254882cd7c6eb6348f951b308e3680d01ea52d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 66/98] fix: defaults of derived types that are identities
 defined in submodules

---
 yangson/datamodel.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 2950489..15e41cb 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -226,20 +226,19 @@ class DataModel:
         return json.dumps(res)
 
     def _build_schema(self) -> None:
-        for mid in self.schema_data._module_sequence:
-            sctx = SchemaContext(
-                self.schema_data, self.schema_data.namespace(mid), mid)
-            self.schema._handle_substatements(
-                self.schema_data.modules[mid].statement, sctx)
+        # all identities, including those of modules that are only imported,
+        # take part in derivation and may be needed in default values
         for mid in self.schema_data.modules:
-            if mid in self.schema_data._module_sequence:
-                continue
-            # identities of imported modules take part in derivation
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
             for idst in self.schema_data.modules[mid].statement.find_all(
                     "identity"):
                 self.schema._identity_stmt(idst, sctx)
+        for mid in self.schema_data._module_sequence:
+            sctx = SchemaContext(
+                self.schema_data, self.schema_data.namespace(mid), mid)
+            self.schema._handle_substatements(
+                self.schema_data.modules[mid].statement, sctx)
         augs = [(aug, SchemaContext(self.schema_data,
                                     self.schema_data.namespace(mid), mid))
                 for mid in self.schema_data._module_sequence
-- 
2.43.0


From 27b089979d514e553776b82c9aab019fe09242f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 67/98] fix: state roots of schemas with anydata or anyxml
 nodes

---
 yangson/schemanode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 3791c53..379bea2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1746,6 +1746,9 @@ class AnyContentNode(DataNode):
     def _ascii_tree(self, indent: str, no_types: bool, val_count: bool) -> str:
         return ""
 
+    def _state_roots(self) -> list[SchemaNode]:
+        return TerminalNode._state_roots(self)
+
     def _post_process(self) -> None:
         if self._mandatory:
             self.parent._add_mandatory_child(self)
-- 
2.43.0


From 87953a82f16653eb9201bba45707fbcfc329ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 68/98] fix: don't qualify names in conditional groups in the
 ASCII tree

---
 yangson/schemanode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 379bea2..0c3aacf 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -236,7 +236,10 @@ class SchemaNode:
 
     def _tree_name(self) -> str:
         """Return the receiver's name to be displayed in ASCII tree."""
-        return cast(str, self.name if self.parent and self.ns == self.parent.ns
+        parent = self.parent
+        while type(parent) is GroupNode:
+            parent = parent.parent
+        return cast(str, self.name if parent and self.ns == parent.ns
                     else f"{self.ns}:{self.name}")
 
     def _validate(self, inst: InstanceNode, scope: ValidationScope,
-- 
2.43.0


From 5d75b051719cbdc1bc85614f40b3d4e933dd1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 69/98] fix: data paths that continue below a terminal node,
 and the root path

---
 yangson/datamodel.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 15e41cb..69866f6 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -183,14 +183,16 @@ class DataModel:
             InvalidSchemaPath: If the schema path is invalid.
         """
         addr = self.schema_data.path2route(path)
-        node: InternalNode = self.schema
+        if not addr:
+            return None
+        node: SchemaNode = self.schema
         for p in addr:
-            child = node.get_data_child(*p)
-            if child is None:
+            if not isinstance(node, InternalNode):
                 return None
-            if isinstance(child, InternalNode):
-                node = child
-        return child
+            node = node.get_data_child(*p)
+            if node is None:
+                return None
+        return node
 
     def ascii_tree(self, no_types: bool = False,
                    val_count: bool = False) -> str:
-- 
2.43.0


From 0495918bfcb42c38b50dc71c522e08ba733a1c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 70/98] fix: containers with both mandatory state data and
 mandatory configuration

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 0c3aacf..e25db6e 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1177,7 +1177,9 @@ class ContainerNode(DataNode, InternalNode):
         return res
 
     def _add_mandatory_child(self, node: SchemaNode):
-        propagate = not (self.presence or self.mandatory)
+        propagate = not self.presence and not (
+            self.mandatory_config or
+            self.mandatory and not node.mandatory_config)
         super()._add_mandatory_child(node)
         if propagate:
             self.parent._add_mandatory_child(self)
-- 
2.43.0


From 7375904e383aa8a03161033d63c12c40349fdae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 71/98] fix: lexical form of integers in default values

---
 yangson/datatype.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index aa2b0dd..df5a244 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -961,6 +961,9 @@ class IntegralType(NumericType[int, RN]):
     lexical = re.compile("[-+]?[0-9]+")
     """Regular expression for the lexical representation."""
 
+    yang_lexical = re.compile("[-+]?([1-9][0-9]*|0[0-7]*|0x[0-9a-fA-F]+)")
+    """Regular expression for the representation in YANG modules."""
+
     def __contains__(self, val: int) -> bool:
         if not isinstance(val, int) or isinstance(val, bool):
             self._set_error_info()
@@ -993,6 +996,8 @@ class IntegralType(NumericType[int, RN]):
 
     def from_yang(self, text: str, sctx: SchemaContext = None) -> int:
         """Override the superclass method."""
+        if not self.yang_lexical.fullmatch(text):
+            raise InvalidArgument(text)
         mo = self.octhex.match(text)
         if mo:
             base = 16 if mo.group(1) == "x" else 8
-- 
2.43.0


From 960627c25fc210eebdc6b51a9c9013da7d9a464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 72/98] fix: order of schema nodes does not depend on hash
 values

---
 yangson/schemadata.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 6048a33..58901f6 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -196,11 +196,11 @@ class SchemaData:
         raise ModuleNotFound(name, rev)
 
     def _process_imports(self) -> None:
-        impl = set(self.implement.items())
+        impl = list(self.implement.items())
         if len(impl) == 0:
             return
         deps = {mid: set() for mid in impl}
-        impby = {mid: set() for mid in impl}
+        impby: dict[ModuleId, list[ModuleId]] = {mid: [] for mid in impl}
         for mid in self.modules:
             mod = self.modules[mid].statement
             for impst in mod.find_all("import"):
@@ -215,16 +215,17 @@ class SchemaData:
                     imid = self.last_revision(impn)
                 self.modules[mid].prefix_map[prefix] = imid
                 mm = self.modules[mid].main_module
-                if mm in impl and imid in impl:
+                if mm in deps and imid in deps and imid not in deps[mm]:
                     deps[mm].add(imid)
-                    impby[imid].add(mm)
+                    impby[imid].append(mm)
         free = [mid for mid in deps if len(deps[mid]) == 0]
         if not free:
             raise CyclicImports()
         while free:
             nid = free.pop()
             self._module_sequence.append(nid)
-            self._module_sequence.extend(self.modules[nid].submodules)
+            self._module_sequence.extend(
+                sorted(self.modules[nid].submodules))
             for mid in impby[nid]:
                 deps[mid].remove(nid)
                 if len(deps[mid]) == 0:
-- 
2.43.0


From 8ceb52f6dd94d14ac2b1a0a7303a1de1712af89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 73/98] fix: report malformed YANG library data as such

---
 yangson/schemadata.py | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 58901f6..dd138b0 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -128,6 +128,7 @@ class SchemaData:
             ModuleNotFound: If a YANG module wasn't found in any of the
                 directories specified in `mod_path`.
         """
+        self._check_yang_library(yang_lib)
         try:
             for item in yang_lib["ietf-yang-library:modules-state"]["module"]:
                 name = item["name"]
@@ -172,6 +173,43 @@ class SchemaData:
         self._process_imports()
         self._check_feature_dependences()
 
+    def _check_yang_library(self, yang_lib: dict[str, Any]) -> None:
+        """Check the types of the YANG library members that are used.
+
+        Raises:
+            BadYangLibraryData: If YANG library data is invalid.
+        """
+        def check(obj: dict[str, Any], *members: str,
+                  mtype: type = str) -> None:
+            for m in members:
+                if not isinstance(obj.get(m, mtype()), mtype):
+                    raise BadYangLibraryData("invalid '" + m + "'")
+        if not isinstance(yang_lib, dict):
+            raise BadYangLibraryData("not an object")
+        top = "ietf-yang-library:modules-state"
+        check(yang_lib, top, mtype=dict)
+        state = yang_lib.get(top, {})
+        check(state, "module-set-id")
+        check(state, "module", mtype=list)
+        if "module" in state and "module-set-id" not in state:
+            raise BadYangLibraryData("missing 'module-set-id'")
+        for item in state.get("module", []):
+            check({"module": item}, "module", mtype=dict)
+            check(item, "feature", "submodule", mtype=list)
+            for feature in item.get("feature", []):
+                check({"feature": feature}, "feature")
+            for s in item.get("submodule", []):
+                check({"submodule": s}, "submodule", mtype=dict)
+            for mod in [item, *item.get("submodule", [])]:
+                check(mod, "name", "revision", "namespace",
+                      "conformance-type")
+                if "name" in mod and not re.fullmatch(
+                        r"[A-Za-z_][A-Za-z0-9_.-]*", mod["name"]):
+                    raise BadYangLibraryData("invalid 'name'")
+                if not re.fullmatch(r"([0-9]{4}-[0-9]{2}-[0-9]{2})?",
+                                    mod.get("revision", "")):
+                    raise BadYangLibraryData("invalid 'revision'")
+
     def _load_module(self, name: YangIdentifier,
                      rev: RevisionDate, mdata: ModuleData) -> Statement:
         """Read and parse a YANG module or submodule."""
@@ -188,8 +226,7 @@ class SchemaData:
                     with open(fn, encoding='utf-8') as infile:
                         res = ModuleParser(infile.read(), name, rev).parse()
                         mdata.path = fn
-                except (FileNotFoundError, PermissionError,
-                        ModuleContentMismatch):
+                except (OSError, ModuleContentMismatch):
                     run += 1
                     continue
                 return res
-- 
2.43.0


From 303470642b445baf888ca23831c757849e89b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 74/98] fix: attribute axis of XPath selects nothing

---
 yangson/xpathast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 864ae28..135ff65 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -553,6 +553,7 @@ class Step(Expr):
             Axis.ancestor: lambda n, qn=self.qname: n._ancestors(qn),
             Axis.ancestor_or_self:
                 lambda n, qn=self.qname: n._ancestors_or_self(qn),
+            Axis.attribute: lambda n: [],   # instance nodes have none
             Axis.child: lambda n, qn=self.qname: n._children(qn),
             Axis.descendant: lambda n, qn=self.qname: n._descendants(qn),
             Axis.descendant_or_self:
-- 
2.43.0


From d283adb1ce2fcdd6f1a39524610cc918bfa7b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 75/98] fix: to_xml of an empty operation document and of empty
 member names

---
 yangson/instance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3b3601e..c74cecf 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -471,10 +471,10 @@ class InstanceNode:
                 # handled when processing the level higher or no metadata
                 continue
 
-            if (m[0] != '@' and isinstance(self.value[m], ObjectValue)
+            if (m[:1] != '@' and isinstance(self.value[m], ObjectValue)
                     and isinstance(self.value[m].get('@'), dict)):
                 attr[m] = self.value[m]['@']
-            elif m[0] == '@':
+            elif m[:1] == '@':
                 attr[m[1:]] = self.value[m]
         return attr
 
@@ -550,7 +550,7 @@ class InstanceNode:
             attr = self._get_attributes()
             for cname in self:
                 childs = list()
-                if cname[0] == '@':
+                if cname[:1] == '@':
                     continue
 
                 m = self[cname]
@@ -784,7 +784,7 @@ class RootNode(InstanceNode):
         element = ET.Element(tag)
         element.attrib['xmlns'] = urn
         et = super().to_xml(filter, element)
-        if isinstance(self.schema_node, RpcActionNode):
+        if isinstance(self.schema_node, RpcActionNode) and len(et) > 0:
             return et[0]
         return et
 
-- 
2.43.0


From f60f5373df8a52170b19193c3eaedd410f922d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 76/98] fix: from_xml of unknown namespaces, un-namespaced
 elements and wrong subschemas

---
 yangson/datamodel.py  |  3 +++
 yangson/datatype.py   |  2 +-
 yangson/schemanode.py | 10 ++++++----
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 69866f6..a3f5587 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -149,6 +149,9 @@ class DataModel:
                 raise NonexistentSchemaNode(self.schema.qual_name, loc, p)
             if isinstance(subsn, SchemaTreeNode):
                 schema = subsn
+            else:
+                raise BadSchemaNodeType(subsn.qual_name,
+                                        "notification or rpc")
         else:
             schema = self.schema
         cooked = cast(ObjectValue, schema.from_xml(root))
diff --git a/yangson/datatype.py b/yangson/datatype.py
index df5a244..9569659 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -792,7 +792,7 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         ns_url = xml.attrib.get('xmlns:' + i1 if s else 'xmlns')
         if not ns_url:
             if s and i1 != self.sctx.default_ns:
-                raise MissingModuleNamespace(cast(str, ns_url))
+                raise MissingModuleNamespace(i1)
             return (loc, self.sctx.default_ns)
 
         module = self.sctx.schema_data.modules_by_ns.get(ns_url)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e25db6e..9a4cdd4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -604,6 +604,8 @@ class InternalNode(SchemaNode):
         else:
             name = xmlchild.tag
             ns = self.ns
+            if ns is None:
+                raise RawMemberError(jptr + "/" + name)
             fqn = ns + ':' + name
         qn = fqn if ns != self.ns else name
 
@@ -1335,11 +1337,11 @@ class SequenceNode(DataNode):
             module = self.schema_root().schema_data.modules_by_ns.get(xmlns)
             if not module:
                 raise MissingModuleNamespace(xmlns)
-            ns = module.yang_id[0]
-            qn = ns + ':' + name
+            qn = module.yang_id[0] + ':' + name
         else:
-            name = qn = xmlchild.tag
-            ns = self.ns
+            dp = self.data_parent()
+            ns = dp.ns if dp else self.ns
+            qn = ns + ':' + xmlchild.tag
         if tagname is None or qn == tagname:
             child = self.entry_from_xml(xmlchild, jptr + "/" + str(len(res)))
             res.append(child)
-- 
2.43.0


From 6f5086f101aa6a3ccaee1dd61855fd9849800c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 77/98] fix: list keys, augment targets and leafref paths of a
 wrong kind are reported

---
 yangson/datatype.py   |  3 ++-
 yangson/schemanode.py | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 9569659..2dd71e3 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -685,7 +685,8 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
 
     def _post_process(self, tnode: "TerminalNode") -> None:
         ref = tnode._follow_leafref(self.path, tnode)
-        if ref is None:
+        # the path has to lead to a leaf or leaf-list
+        if not hasattr(ref, "type"):
             raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
         self.ref_type = ref.type
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 9a4cdd4..56a753d 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -51,10 +51,10 @@ from .datatype import DataType, LinkType, IdentityrefType
 from .enumerations import (Axis, ContentType, DefaultDeny,
                            NodeStatus, ValidationScope)
 from .exceptions import (
-    AnnotationTypeError, InvalidArgument,
-    MissingAnnotationTarget, MissingModuleNamespace, RawMemberError,
-    RawTypeError, SchemaError, SemanticError, UndefinedAnnotation,
-    YangsonException, YangTypeError)
+    AnnotationTypeError, BadSchemaNodeType, InvalidArgument,
+    MissingAnnotationTarget, MissingModuleNamespace, NonexistentSchemaNode,
+    RawMemberError, RawTypeError, SchemaError, SemanticError,
+    UndefinedAnnotation, YangsonException, YangTypeError)
 from .instance import (ArrayEntry, InstanceNode, MemberName, ObjectMember)
 from .instroute import InstanceRoute
 from .instvalue import (
@@ -765,6 +765,8 @@ class InternalNode(SchemaNode):
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
             return False
+        if not isinstance(target, InternalNode):
+            raise BadSchemaNodeType(target.qual_name, "augment target")
         if stmt.find1("when"):
             gr = GroupNode()
             target._add_child(gr)
@@ -1441,6 +1443,10 @@ class ListNode(SequenceNode, InternalNode):
         super()._post_process()
         for k in self.keys:
             kn = self.get_data_child(*k)
+            if kn is None:
+                raise NonexistentSchemaNode(self.qual_name, *k)
+            if not isinstance(kn, LeafNode):
+                raise BadSchemaNodeType(kn.qual_name, "leaf")
             self._key_members.append(kn.iname())
             if not kn._mandatory:
                 kn._mandatory = True
-- 
2.43.0


From ca72bf5977df272ef6fe45d513567aeec6b82dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 78/98] fix: XPath and delete_item of annotated data

---
 yangson/instance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c74cecf..c70d56e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -233,6 +233,8 @@ class InstanceNode:
             del newval[key]
         except (KeyError, IndexError, TypeError):
             raise NonexistentInstance(self, f"item '{key}'") from None
+        if isinstance(newval, ObjectValue):
+            newval.pop(f"@{key}", None)
         return self._copy(newval)
 
     def look_up(self, raw: bool = False, /,
@@ -707,7 +709,7 @@ class InstanceNode:
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
-        for mn in wd.value:
+        for mn in wd._member_names():
             res.extend(wd._member(mn)._node_set())
         return res
 
-- 
2.43.0


From cbeb3d97388c7449b172c4fe6b9b09dde749ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 79/98] fix: the command line tool reports all model and data
 errors with its exit codes

---
 yangson/__main__.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 89d0a90..34f2423 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -30,7 +30,7 @@ from yangson.exceptions import (
     BadYangLibraryData, FeaturePrerequisiteError, InvalidArgument,
     MultipleImplementedRevisions, ModuleNotFound, ModuleNotRegistered,
     NonexistentSchemaNode, RawMemberError, RawTypeError,
-    SchemaError, SemanticError, YangTypeError)
+    SchemaError, SemanticError, YangsonException, YangTypeError)
 from yangson.typealiases import PrefName
 
 
@@ -127,15 +127,15 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         try:
             with open(infile, "rb") as pif:
                 dm = pickle.load(pif)
-        except (FileNotFoundError, pickle.UnpicklingError) as e:
+        except (OSError, pickle.UnpicklingError, AttributeError, EOFError,
+                ImportError, IndexError) as e:
             print("Pickle file:", str(e), file=sys.stderr)
             return 1
     else:
         try:
             with open(infile, encoding="utf-8") as ylf:
                 yl = ylf.read()
-        except (FileNotFoundError, PermissionError, UnicodeDecodeError,
-                json.decoder.JSONDecodeError) as e:
+        except (OSError, UnicodeDecodeError) as e:
             print("YANG library:", str(e), file=sys.stderr)
             return 1
         sp = path if path else os.environ.get("YANG_MODPATH", ".")
@@ -157,6 +157,10 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         except ModuleNotRegistered as e:
             print("Module not registered:", str(e), file=sys.stderr)
             return 2
+        except (YangsonException, OSError, UnicodeDecodeError) as e:
+            print("Invalid data model:", type(e).__name__, str(e),
+                  file=sys.stderr)
+            return 2
     if set_id:
         print(dm.module_set_id())
         return 0
@@ -178,8 +182,7 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     try:
         with open(validate, encoding="utf-8") as instf:
             itxt = json.load(instf)
-    except (FileNotFoundError, PermissionError, UnicodeDecodeError,
-            json.decoder.JSONDecodeError) as e:
+    except (OSError, UnicodeDecodeError, json.decoder.JSONDecodeError) as e:
         print("Instance data:", str(e), file=sys.stderr)
         return 1
     try:
@@ -197,6 +200,9 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except NonexistentSchemaNode:
         print("Subschema", subschema, "not found", file=sys.stderr)
         return 3
+    except YangsonException as e:
+        print("Invalid data:", type(e).__name__, str(e), file=sys.stderr)
+        return 3
     try:
         i.validate(scope, ctype)
     except SchemaError as e:
@@ -208,6 +214,10 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except YangTypeError as e:
         print("Invalid type:", str(e), file=sys.stderr)
         return 3
+    except YangsonException as e:
+        print("Validation failed:", type(e).__name__, str(e),
+              file=sys.stderr)
+        return 3
     return 0
 
 
-- 
2.43.0


From 4762ed8a65fe6c60329e0f8b5c315084860941cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:29 +0000
Subject: [PATCH 80/98] fix: include of a submodule that the library data do
 not list is refused

---
 yangson/schemadata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index dd138b0..213f28e 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -240,6 +240,13 @@ class SchemaData:
         impby: dict[ModuleId, list[ModuleId]] = {mid: [] for mid in impl}
         for mid in self.modules:
             mod = self.modules[mid].statement
+            subs = self.modules[self.modules[mid].main_module].submodules
+            for incst in mod.find_all("include"):
+                revst = incst.find1("revision-date")
+                if not [sid for sid in subs if sid[0] == incst.argument and
+                        (revst is None or sid[1] == revst.argument)]:
+                    raise ModuleNotRegistered(
+                        incst.argument, revst.argument if revst else "")
             for impst in mod.find_all("import"):
                 impn = impst.argument
                 prefix = impst.find1("prefix", required=True).argument
-- 
2.43.0


From 8502baf3507cef51defbc0d9dd40d39c5900d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 81/98] fix: convert8525 handles deviations, shared modules and
 unusable input

---
 yangson/convert8525.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index e94a86c..361b758 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -31,6 +31,7 @@ from yangson import DataModel
 from yangson.enumerations import ContentType
 from yangson.exceptions import (
     NonexistentInstance, ValidationError, RawDataError)
+from yangson.instance import InstanceNode
 from yangson.instvalue import ObjectValue
 from yangson.typealiases import RawObject
 
@@ -123,8 +124,9 @@ class ModuleData:
 
 class MainModuleData(ModuleData):
 
-    def __init__(self, val: ObjectValue, import_only: bool) -> None:
+    def __init__(self, entry: InstanceNode, import_only: bool) -> None:
         """Initialize the receiver."""
+        val = cast(ObjectValue, entry.value)
         super().__init__(val)
         self.import_only = import_only
         self.namespace: str = val["namespace"].strip()
@@ -135,7 +137,7 @@ class MainModuleData(ModuleData):
         self.feature: list[str] = val.get("feature", [])
         self.deviation: list[tuple[str, str]] = []
         if "deviation" in val:
-            for dev in val["deviation"]:
+            for dev in entry["deviation"]:
                 dmod = dev._deref()[0]
                 try:
                     rev = dmod.sibling("revision").value
@@ -199,15 +201,15 @@ def main() -> int:
     sp = path if path else os.environ.get("YANG_MODPATH", ".")
     dm8525 = DataModel(YL8525, sp.split(":"))
     try:
-        with open(fn8525) as infile:
+        with open(fn8525, encoding="utf-8") as infile:
             ri = json.load(infile)
         inst = dm8525.from_raw(ri)
         inst.validate(ctype=ContentType.nonconfig)
-    except (FileNotFoundError, PermissionError, json.decoder.JSONDecodeError,
-            RawDataError, ValidationError) as e:
+        top = inst["ietf-yang-library:yang-library"]
+    except (OSError, UnicodeDecodeError, json.decoder.JSONDecodeError,
+            RawDataError, ValidationError, NonexistentInstance) as e:
         print("Invalid input data:", str(e), file=sys.stderr)
         return 1
-    top = inst["ietf-yang-library:yang-library"]
     if schema is None:
         try:
             schema = cast(str, top["datastore"].look_up(
@@ -217,21 +219,22 @@ def main() -> int:
                   file=sys.stderr)
             return 2
     try:
-        msets = top["schema"].look_up(name=schema)["module-set"]
+        sentry = top["schema"].look_up(name=schema)
     except NonexistentInstance:
         print(f"No such schema: '{schema}'", file=sys.stderr)
         return 2
+    msets = sentry["module-set"] if "module-set" in sentry else ()
     modules: dict[tuple[str, str], MainModuleData] = {}
     for ms in msets:
         msentry = top["module-set"].look_up(name=ms.value)
         if "module" in msentry:
             for yam in msentry["module"]:
-                ment = MainModuleData(yam.value, import_only=False)
+                ment = MainModuleData(yam, import_only=False)
                 modules[ment.key()] = ment
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
-                ment = MainModuleData(yam.value, import_only=True)
-                modules[ment.key()] = ment
+                ment = MainModuleData(yam, import_only=True)
+                modules.setdefault(ment.key(), ment)
     dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
         {"ietf-yang-library:modules-state":
@@ -242,7 +245,7 @@ def main() -> int:
     res.validate(ctype=ContentType.nonconfig)
     try:
         outf = open(fn7895, mode="w") if args.output else sys.stdout
-    except FileNotFoundError as e:
+    except OSError as e:
         print(e, file=sys.stderr)
         return 3
     json.dump(res.raw_value(), outf, indent=2)
-- 
2.43.0


From 98651496dd6fabee0abac270ad03671e23934625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 82/98] fix: raw data errors in lists give the entry

---
 yangson/schemanode.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 56a753d..ae481d1 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1299,7 +1299,7 @@ class SequenceNode(DataNode):
         res = ArrayValue()
         idx = 0
         for i in range(len(rval)):
-            if isinstance(self, ListNode):
+            if isinstance(self, ListNode) and self.keys:
                 try:
                     keys = [str(rval[i].get(k[0], '<missing>'))
                             for k in self.keys]
@@ -1315,20 +1315,11 @@ class SequenceNode(DataNode):
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "",
                  tagname: str = None, isroot: bool = False) -> ArrayValue:
         res = ArrayValue()
-        idx = 0
         if isroot:
             return self._process_xmlarray_child(res, rval, None, jptr)
         else:
             for xmlchild in rval:
-                if isinstance(self, ListNode):
-                    keys = [str(xmlchild.findtext(
-                        k[0], default='<missing>')) for k in self.keys]
-                    element = "=" + ",".join(keys)
-                else:
-                    element = "/" + str(idx)
-                self._process_xmlarray_child(
-                    res, xmlchild, tagname, jptr + element)
-                idx = idx + 1
+                self._process_xmlarray_child(res, xmlchild, tagname, jptr)
         return res
 
     def _process_xmlarray_child(
@@ -1345,7 +1336,14 @@ class SequenceNode(DataNode):
             ns = dp.ns if dp else self.ns
             qn = ns + ':' + xmlchild.tag
         if tagname is None or qn == tagname:
-            child = self.entry_from_xml(xmlchild, jptr + "/" + str(len(res)))
+            if isinstance(self, ListNode) and self.keys:
+                xns = xmlchild.tag[:xmlchild.tag.rfind('}') + 1]
+                keys = [str(xmlchild.findtext(
+                    xns + k[0], default='<missing>')) for k in self.keys]
+                element = "=" + ",".join(keys)
+            else:
+                element = "/" + str(len(res))
+            child = self.entry_from_xml(xmlchild, jptr + element)
             res.append(child)
         else:
             child = None
-- 
2.43.0


From 17a13a457939d267884d8be4a85fc4916ce14ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 83/98] fix: type errors raised in XPath evaluation carry their
 own tag

---
 yangson/instance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index c70d56e..80eef0e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -128,6 +128,7 @@ class InstanceNode:
         else:
             res = sn.type.canonical_string(self.value)
             if res is None:
+                sn.type._set_error_info()
                 raise YangTypeError(self, sn.type.error_tag,
                                     sn.type.error_message)
             return res
-- 
2.43.0


From 3b18db7581fd183ec9da37f6797af5e43eabfaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 84/98] fix: cases of a conditional augment of a choice are
 alternatives

---
 yangson/schemanode.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index ae481d1..b36d8e6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -931,7 +931,14 @@ class GroupNode(InternalNode):
             cn._handle_child(node, stmt, sctx)
 
     def _pattern_entry(self) -> SchemaPattern:
-        return super()._schema_pattern()
+        return self._schema_pattern()
+
+    def _schema_pattern(self) -> SchemaPattern:
+        """Override the superclass method: cases are alternatives."""
+        if not isinstance(self.parent, ChoiceNode):
+            return super()._schema_pattern()
+        res = self.parent._case_patterns(self.children)
+        return ConditionalPattern(res, self.when) if self.when else res
 
     def _flatten(self) -> list[SchemaNode]:
         res = []
@@ -1547,12 +1554,17 @@ class ChoiceNode(InternalNode):
                 if cc.iname() in value:
                     return c
 
+    def _case_patterns(self, cases: list[InternalNode]) -> SchemaPattern:
+        """Return the pattern that permits exactly one of `cases`."""
+        res = NotAllowed()
+        for c in cases:
+            res = ChoicePattern(c._schema_pattern(), res, self.name)
+        return res
+
     def _pattern_entry(self) -> SchemaPattern:
         if not self.children:
             return Empty()
-        prev = NotAllowed()
-        for c in self.children:
-            prev = ChoicePattern(c._schema_pattern(), prev, self.name)
+        prev = self._case_patterns(self.children)
         prev.ctype = self.content_type()
         if not self.mandatory:
             prev = SchemaPattern.optional(prev)
-- 
2.43.0


From 23c7208153f3f1462043b4585021fdbab6c89a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 85/98] fix: fix: the status of a grouping or augment is not
 that of the target node

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b36d8e6..f1131e3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -319,6 +319,8 @@ class SchemaNode:
             ContentType.nonconfig if stmt.argument == "false" else None)
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
+        if stmt.superstmt.keyword in ("augment", "grouping"):
+            return      # not the status of the receiver
         if stmt.argument == "deprecated":
             nst = NodeStatus.deprecated
         elif stmt.argument == "obsolete":
@@ -327,8 +329,7 @@ class SchemaNode:
                 mm].keep_obsolete else NodeStatus.obsolete
         else:
             nst = NodeStatus.current
-        if nst != self.parent.status:
-            self._status = nst
+        self._status = nst
 
     def _deviate_config(self, stmt: Statement,
                         sctx: SchemaContext, action: str) -> None:
-- 
2.43.0


From e02aa5a303ddf9bce78583a21f91da1ea9adb974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 86/98] fix: fix: obsolete nodes are removed from the schema

---
 yangson/instance.py   |  2 ++
 yangson/schemanode.py | 44 +++++++++++++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 80eef0e..48bed4a 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -693,6 +693,8 @@ class InstanceNode:
             iname = cn.iname()
             if iname in self.value:
                 return self._member(iname)._node_set()
+            if cn._removed():
+                return []
             wd = cn._default_instance(self, ContentType.all, lazy=True)
             if iname not in wd.value:
                 return []
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index f1131e3..3aefc4b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -129,6 +129,17 @@ class SchemaNode:
         """Return receiver's definition status."""
         return self._status if self._status else self.parent.status
 
+    def _removed(self) -> bool:
+        """Is the receiver, or a choice or case it belongs to, obsolete?"""
+        if self._status == NodeStatus.obsolete:
+            return True
+        return (not isinstance(self.parent, (DataNode, SchemaTreeNode)) and
+                self.parent is not None and self.parent._removed())
+
+    def _may_be_missing(self) -> bool:
+        """May the receiver be missing in data even if it is mandatory?"""
+        return self._status in (NodeStatus.deprecated, NodeStatus.obsolete)
+
     def delete(self) -> None:
         """Remove the receiver from the schema."""
         self.parent.children.remove(self)
@@ -534,7 +545,7 @@ class InternalNode(SchemaNode):
             ctype = self.content_type()
         return [c for c in self.children if
                 not isinstance(c, (RpcActionNode, NotificationNode)) and
-                c.content_type().value & ctype.value != 0]
+                not c._removed() and c.content_type().value & ctype.value != 0]
 
     def data_children(self) -> list["DataNode"]:
         """Return the set of all data nodes directly under the receiver."""
@@ -652,10 +663,13 @@ class InternalNode(SchemaNode):
         res = super()._node_digest()
         rc = res["children"] = {}
         for c in self.data_children():
+            if c._removed():
+                continue
             cdig = rc[c.iname()] = c._node_digest()
             if self.config and not c.config:
                 cdig["config"] = False
-        for c in [c for c in self.children if isinstance(c, SchemaTreeNode)]:
+        for c in [c for c in self.children if isinstance(c, SchemaTreeNode)
+                  and not c._removed()]:
             rc[c.iname()] = c._node_digest()
         return res
 
@@ -705,7 +719,7 @@ class InternalNode(SchemaNode):
     def _schema_pattern(self) -> SchemaPattern:
         todo = [c for c in self.children if not (
             isinstance(c, (RpcActionNode, NotificationNode)) or
-            c._status == NodeStatus.obsolete)]
+            c._removed())]
         if not todo:
             return Empty()
         prev = todo[0]._pattern_entry()
@@ -720,6 +734,8 @@ class InternalNode(SchemaNode):
 
     def _add_mandatory_child(self, node: SchemaNode) -> None:
         """Add `node` to the set of mandatory children."""
+        if node._may_be_missing():
+            return
         if node.mandatory_config:
             self._mandatory_children[1].add(node)
         else:
@@ -739,7 +755,8 @@ class InternalNode(SchemaNode):
             return [self]
         res = []
         for c in self.data_children():
-            res.extend(c._state_roots())
+            if not c._removed():
+                res.extend(c._state_roots())
         return res
 
     def _handle_child(self, node: SchemaNode, stmt: Statement,
@@ -1055,8 +1072,8 @@ class DataNode(SchemaNode):
 
     def _pattern_entry(self) -> SchemaPattern:
         m = Member(self.iname(), self.content_type(), self.when)
-        return m if (self.mandatory and self._status !=
-                     NodeStatus.deprecated) else SchemaPattern.optional(m)
+        return m if (self.mandatory and not self._may_be_missing()
+                     ) else SchemaPattern.optional(m)
 
     def _tree_line_prefix(self) -> str:
         return super()._tree_line_prefix() + (
@@ -1189,6 +1206,8 @@ class ContainerNode(DataNode, InternalNode):
         return res
 
     def _add_mandatory_child(self, node: SchemaNode):
+        if node._may_be_missing():
+            return
         propagate = not self.presence and not (
             self.mandatory_config or
             self.mandatory and not node.mandatory_config)
@@ -1209,7 +1228,7 @@ class ContainerNode(DataNode, InternalNode):
 
     def _pattern_entry(self) -> SchemaPattern:
         m = Member(self.iname(), self.content_type(), self.when)
-        if self._status == NodeStatus.deprecated:
+        if self._may_be_missing():
             return SchemaPattern.optional(m)
         if self.mandatory:
             return (m if self.mandatory_config else
@@ -1558,16 +1577,21 @@ class ChoiceNode(InternalNode):
     def _case_patterns(self, cases: list[InternalNode]) -> SchemaPattern:
         """Return the pattern that permits exactly one of `cases`."""
         res = NotAllowed()
-        for c in cases:
+        for c in [c for c in cases if not c._removed()]:
             res = ChoicePattern(c._schema_pattern(), res, self.name)
         return res
 
+    def _may_be_missing(self) -> bool:
+        """Extend the superclass method."""
+        return (super()._may_be_missing() or
+                all(c._removed() for c in self.children))
+
     def _pattern_entry(self) -> SchemaPattern:
-        if not self.children:
+        if all(c._removed() for c in self.children):
             return Empty()
         prev = self._case_patterns(self.children)
         prev.ctype = self.content_type()
-        if not self.mandatory:
+        if not self.mandatory or self._may_be_missing():
             prev = SchemaPattern.optional(prev)
         return ConditionalPattern(prev, self.when) if self.when else prev
 
-- 
2.43.0


From 813e2e90b910c7a56d0e2534a8c40e2293a05891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 87/98] fix: moving up keeps the timestamp of the object

---
 yangson/instance.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 48bed4a..5e005c4 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -855,9 +855,8 @@ class ObjectMember(InstanceNode):
 
     def _zip(self) -> ObjectValue:
         """Zip the receiver into an object and return it."""
-        res = ObjectValue(self.siblings.copy(), self.timestamp)
-        res[self.name] = self.value
-        return res
+        return ObjectValue(
+            {**self.siblings, self.name: self.value}, self.timestamp)
 
     def _copy(self, newval: Value, newts: datetime = None) -> "ObjectMember":
         if newts:
-- 
2.43.0


From e0fc2d93af4a142f8d75cc9ca36819891741c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 88/98] fix: updating with an older cooked value is a
 modification

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 5e005c4..9f85bd7 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -304,7 +304,7 @@ class InstanceNode:
         """
         newval = self.schema_node.from_raw(
             value, self.json_pointer()) if raw else value
-        return self._copy(newval)
+        return self._copy(newval, datetime.now())
 
     def merge(self, value: Union[RawValue, Value],
               raw: bool = False) -> "InstanceNode":
-- 
2.43.0


From 631282dc85ebfd2368dd090b75386799af1f1753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 89/98] fix: a presence container with mandatory children isn't
 mandatory in configuration

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 3aefc4b..e27ecdc 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1198,7 +1198,7 @@ class ContainerNode(DataNode, InternalNode):
     @property
     def mandatory_config(self) -> bool:
         """Override the superclass property."""
-        return bool(self._mandatory_children[1])
+        return not self.presence and bool(self._mandatory_children[1])
 
     def _node_digest(self) -> dict[str, Any]:
         res = super()._node_digest()
-- 
2.43.0


From a340828e9052d2e23cc70ce534c2d461c02f3bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 90/98] fix: state roots of choices and cases are data nodes

---
 yangson/schemanode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e27ecdc..5b050d8 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -751,7 +751,8 @@ class InternalNode(SchemaNode):
         return inst
 
     def _state_roots(self) -> list[SchemaNode]:
-        if self.content_type() == ContentType.nonconfig:
+        if (self.content_type() == ContentType.nonconfig and
+                isinstance(self, (DataNode, SchemaTreeNode))):
             return [self]
         res = []
         for c in self.data_children():
-- 
2.43.0


From 223e50fa65c298dac730cdadd2b1c86a58e3bc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 91/98] fix: split_instance_route accepts routes shorter than
 the receiver's path

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 5b050d8..8a3b05c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1036,7 +1036,7 @@ class DataNode(SchemaNode):
             if not sroute:
                 break
             inst = sroute.pop()
-            if inst != route[i].iname():
+            if i >= len(route) or inst != route[i].iname():
                 return None
             while True:         # skip up to next MemberName
                 i += 1
-- 
2.43.0


From afa5d2451df9db8bef01313f3ad1a871f9ce050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 92/98] fix: split_instance_route recognizes redundant module
 names

---
 yangson/schemanode.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 8a3b05c..9d463c4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1029,14 +1029,18 @@ class DataNode(SchemaNode):
         sroute = []
         sn = self
         while sn:
-            sroute.append(sn.iname())
+            sroute.append(sn.qual_name)
             sn = sn.data_parent()
         i = 0
+        ns = None
         while True:
             if not sroute:
                 break
-            inst = sroute.pop()
-            if i >= len(route) or inst != route[i].iname():
+            qname = sroute.pop()
+            if i >= len(route):
+                return None
+            ns = route[i].namespace or ns
+            if (route[i].name, ns) != qname:
                 return None
             while True:         # skip up to next MemberName
                 i += 1
-- 
2.43.0


From b8c4fad289ef44c2925f0e6ff5fe43987b3bfc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 93/98] fix: require-instance true in a derived type is
 respected

---
 yangson/datatype.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 2dd71e3..4de5db7 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -624,8 +624,9 @@ class LinkType(DataType[S, RS]):
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-        if stmt.find1("require-instance", "false"):
-            self.require_instance = False
+        rist = stmt.find1("require-instance")
+        if rist:
+            self.require_instance = rist.argument == "true"
 
 
 class LeafrefType(LinkType[ScalarValue, RawScalar]):
-- 
2.43.0


From a56a3d8763539f66898125846166a0b4c5be56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 94/98] fix: ASCII tree shows the names of types derived from
 instance-identifier

---
 yangson/datatype.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 4de5db7..5cf6270 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -700,9 +700,6 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
 class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
     """Class representing YANG "instance-identifier" type."""
 
-    def __str__(self):
-        return "instance-identifier"
-
     def __contains__(self, val: InstanceRoute) -> bool:
         if isinstance(val, InstanceRoute):
             return True
-- 
2.43.0


From 6d2ea1d728a15163347194eda15bab7045b09a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 95/98] fix: bit-is-set() of an anydata or anyxml node is false

---
 yangson/xpathast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 135ff65..85191bd 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -585,7 +585,8 @@ class FuncBitIsSet(BinaryExpr):
         if not ns:
             return False
         node = ns.first()
-        if node.is_internal() or isinstance(node.value, StructuredValue):
+        if (not hasattr(node.schema_node, "type") or
+                isinstance(node.value, StructuredValue)):
             return False
         mtype = node.schema_node.type._member_type(node.value)
         return (mtype is not None and mtype.yang_type() == "bits" and
-- 
2.43.0


From fb89e03b7ca5bcfa766e8bae20c2883439072abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 96/98] fix: entry index in a default instance-identifier is
 off by one

---
 yangson/xpathast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 85191bd..387c6b8 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -534,7 +534,7 @@ class Step(Expr):
             return InstanceRoute([m])
         p0 = self.predicates[0]
         if isinstance(p0, Number):  # entry index
-            espec = EntryIndex(int(p0.value))
+            espec = EntryIndex(int(p0.value) - 1)
         elif p0.left.axis == Axis.self:  # leaf-list value
             espec = EntryValue(p0.right.value)
         else:                   # list keys
-- 
2.43.0


From 36f548a051b55fe74a64db321928fb0f0cf9d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 97/98] fix: malformed default instance-identifier raises
 InvalidArgument

---
 yangson/datatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 5cf6270..95d91c1 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -735,6 +735,8 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
     def from_yang(self, text: str,
                   sctx: SchemaContext = None) -> InstanceRoute:
         """Override the superclass method."""
+        if self.parse_value(text) is None:
+            raise InvalidArgument(text)
         return XPathParser(
             text, sctx or self.sctx).parse().as_instance_route()
 
-- 
2.43.0


From 7e411a3b1d284ad291eeec70521846e1d4722b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 98/98] fix: mandatory choice whose cases only have obsolete
 nodes may be missing

---
 yangson/schemanode.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 9d463c4..d88e04c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -944,6 +944,7 @@ class GroupNode(InternalNode):
             super()._handle_child(node, stmt, sctx)
         elif sctx.schema_data.if_features(stmt, sctx.text_mid):
             cn = CaseNode()
+            cn._implicit = True
             cn.name = stmt.argument
             cn.ns = sctx.default_ns
             self._add_child(cn)
@@ -1615,6 +1616,7 @@ class ChoiceNode(InternalNode):
             super()._handle_child(node, stmt, sctx)
         elif sctx.schema_data.if_features(stmt, sctx.text_mid):
             cn = CaseNode()
+            cn._implicit = True
             cn.name = stmt.argument
             cn.ns = sctx.default_ns
             self._add_child(cn)
@@ -1642,6 +1644,13 @@ class ChoiceNode(InternalNode):
 class CaseNode(InternalNode):
     """Case node."""
 
+    _implicit: bool = False
+
+    def _removed(self) -> bool:
+        """Extend the superclass method."""
+        return super()._removed() or self._implicit and all(
+            c._status == NodeStatus.obsolete for c in self.children)
+
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
-- 
2.43.0

