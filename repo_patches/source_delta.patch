From 73f7df93b78055defc1363d8aa530ff5828b473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 01/46] fix: float64 field defaults are valid float64 values
 and are not discarded

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b1bb0af..71671df 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1068,7 +1068,7 @@ class DataTypeNoderefList(DataType):
 
 class DataTypes:
     """Layer field type factory"""
-    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0)
+    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0.0)
     _float64_raw = DataTypeFloat(DataTypeEnum.F64)
     _int32 = DataTypeInt32(DataTypeEnum.I32, default=0)
     _int32_raw = DataTypeInt32(DataTypeEnum.I32)
@@ -1105,7 +1105,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._float64_raw
         else:
-            return DataTypeFloat(DataTypeEnum.F64, default=0.0)
+            return DataTypeFloat(DataTypeEnum.F64, default=float(default))
 
     @staticmethod
     def string(default: Optional[str] = ""):
-- 
2.43.0


From a49d012ff3dd6bbd1747c00aaf6c51ee849e679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 02/46] fix: boolean and custom-default string field types
 validate their values

---
 py/docria/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 71671df..753cc3d 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1114,16 +1114,16 @@ class DataTypes:
         elif default is None:
             return DataTypes._string_raw
         else:
-            return DataType(DataTypeEnum.STRING, default=default)
+            return DataTypeString(DataTypeEnum.STRING, default=default)
 
     @staticmethod
     def bool(default: Optional[bool] = False):
-        if default == "":
-            return DataTypes._string
-        elif default is None:
+        if default is None:
             return DataTypes._bool_raw
+        elif not default:
+            return DataTypes._bool
         else:
-            return DataType(DataTypeEnum.BOOL, default=default)
+            return DataTypeBool(DataTypeEnum.BOOL, default=default)
 
     boolean = bool
 
-- 
2.43.0


From a7c2d1d256deb70c97bea05007929acaf8e780a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 03/46] fix: decoded documents carry validating field types

Decoding rebuilt every field as a plain DataType, which accepts any value, so
invalid values and dangling references added to a decoded document were
encoded without complaint.
---
 py/docria/codec.py | 10 +++++-----
 py/docria/model.py | 22 ++++++++++++++++++++++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5293445..30087cd 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -15,7 +15,7 @@
 # limitations under the License.
 #
 """Codecs, encoding/decoding documents to/from binary or text representations"""
-from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan
+from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, DataTypes, Node, ExtData, NodeSpan
 import msgpack
 import json
 import logging
@@ -221,10 +221,10 @@ class JsonCodec:
                 if isinstance(typedef, dict): # Advanced type
                     ttype = String2DataType[typedef["type"]]
                     args = typedef["args"]
-                    fields.append((fieldname, DataType(ttype, **args)))
+                    fields.append((fieldname, DataTypes.declared(ttype, **args)))
                 elif isinstance(typedef, str): # Simple type
                     ttype = String2DataType[typedef]
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, DataTypes.declared(ttype)))
                 else:
                     raise DataError("Could not decode layer %s field types, " \
                                     "failed on field %s. Got data: %s" % (typename, fieldname, repr(typedef)))
@@ -705,9 +705,9 @@ class MsgpackCodec:
 
                 if has_args:
                     fieldargs = next(unpacker)
-                    fields.append((fieldname, DataType(ttype, **fieldargs)))
+                    fields.append((fieldname, DataTypes.declared(ttype, **fieldargs)))
                 else:
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, DataTypes.declared(ttype)))
 
                 nl.add(fieldname, fields[-1][1])
 
diff --git a/py/docria/model.py b/py/docria/model.py
index 753cc3d..47f3f2e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -991,6 +991,9 @@ class DataTypeFloat(DataType):
 
     def __init__(self, typename: DataTypeEnum, **kwargs):
         super().__init__(typename, **kwargs)
+        if isinstance(self.options.get("default"), int):
+            # Older files declare integer defaults for this type.
+            self.options["default"] = float(self.options["default"])
 
     def is_valid(self, value) -> bool:
         return isinstance(value, float)
@@ -1066,6 +1069,20 @@ class DataTypeNoderefList(DataType):
                all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
 
 
+DataTypeEnum2Class = {
+    DataTypeEnum.I32: DataTypeInt32,
+    DataTypeEnum.I64: DataTypeInt64,
+    DataTypeEnum.F64: DataTypeFloat,
+    DataTypeEnum.BOOL: DataTypeBool,
+    DataTypeEnum.STRING: DataTypeString,
+    DataTypeEnum.BINARY: DataTypeBinary,
+    DataTypeEnum.NODEREF: DataTypeNoderef,
+    DataTypeEnum.NODEREF_MANY: DataTypeNoderefList,
+    DataTypeEnum.SPAN: DataTypeTextspan,
+    DataTypeEnum.NODEREF_SPAN: DataTypeNodespan
+}
+
+
 class DataTypes:
     """Layer field type factory"""
     _float64 = DataTypeFloat(DataTypeEnum.F64, default=0.0)
@@ -1169,6 +1186,11 @@ class DataTypes:
     def ext(typename):
         return DataType(DataTypeEnum.EXT, type=typename)
 
+    @staticmethod
+    def declared(typename: DataTypeEnum, **options) -> DataType:
+        """Get the type for an existing declaration, i.e. the type name and its options."""
+        return DataTypeEnum2Class.get(typename, DataType)(typename, **options)
+
     @staticmethod
     def matches(o, expected):
         return isinstance(o, expected) if expected is not None else None
-- 
2.43.0


From 65ac80c8a6ad128cacdd64dbdcf7845becffc152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 04/46] fix: retain works on a layer with gaps and a refused
 retain changes nothing

retain marked nodes by negating their index, it failed on removed positions
(None) and left negative indices behind when the input was refused.
---
 py/docria/model.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 47f3f2e..bc62c49 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1611,30 +1611,31 @@ class NodeLayerCollection(NodeCollection):
     def retain(self, nodes: Iterable["Node"]):
         """Retain all nodes in the given list nodes, remove everything else."""
 
+        keep = set()
         try:
             for n in iter(nodes):
-                # Mark the nodes to retain
-                if n.collection is not self:
+                if not isinstance(n, Node) or n.collection is not self:
                     raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
 
-                # Guards against more than one reference to a node in nodes
-                if n._id >= 0:
-                    n._id = -(n._id + 1)  # add 1, otherwise zero fails.
+                keep.add(n)
 
         except TypeError:
             raise ValueError("Given nodes is not iterable.")
 
-        # Compact and remove unmarked nodes
+        # Compact and remove nodes which are not retained
         k = 0
         for i in range(len(self._nodes)):
             n = self._nodes[i]
-            if n._id >= 0:
-                n.collection = None
-                self.num -= 1
-            else:
+            if n is None:
+                continue
+
+            if n in keep:
                 self._nodes[k] = n
                 n._id = k
                 k += 1
+            else:
+                n.collection = None
+                self.num -= 1
 
         # Compact list
         del self._nodes[k:]
-- 
2.43.0


From 434f271db4a63e3e8e4a1f051fbc3d72c6c9edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 05/46] fix: a failing sort leaves the layer unchanged

list.sort leaves a partially reordered list when a key or comparison fails,
the node indices then no longer matched their positions.
---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index bc62c49..df9d8cc 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1567,8 +1567,8 @@ class NodeLayerCollection(NodeCollection):
         :param keyfn: a function (input: Node) -> value to sort by.
         """
         self.compact()
-        self._nodes.sort(key=keyfn)
-        for i, n in zip(range(len(self)), self):
+        self._nodes = sorted(self._nodes, key=keyfn)
+        for i, n in enumerate(self._nodes):
             n._id = i
 
     def remove(self, node: Union["Node", Iterable["Node"]]):
-- 
2.43.0


From 0782dc338c158bc19e1f44b51861b0f7fdad780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 06/46] fix: remove_layer honours node spans, fieldcascade and
 its return value

References through node span fields were ignored, fieldcascade did not remove
the referring fields and None was returned for a removed layer.
---
 py/docria/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index df9d8cc..1560246 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1873,7 +1873,7 @@ class Document:
         for k, v in self.layers.items():
             if k != name:
                 for fk, fv in v.schema.fields.items():
-                    if fv.typename == DataTypeEnum.NODEREF or fv.typename == DataTypeEnum.NODEREF_MANY:
+                    if fv.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:
                         if fv.options["layer"] == name:
                             referencing_layer_field.setdefault(k, []).append(fk)
 
@@ -1886,7 +1886,12 @@ class Document:
             raise DataValidationError("Attempting to remove layer %s, but is referenced from layer(s)+field(s): %s"
                                       % (name, layer_field_names))
 
+        for k, fields in referencing_layer_field.items():
+            for fk in fields:
+                self.layers[k].remove_field(fk)
+
         del self.layers[name]
+        return True
 
     def __repr__(self):
         return "Document(%d layers, %d texts%s)" % (
-- 
2.43.0


From 61c202887ccae7071bace95f6a7b49be4a5baf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 07/46] fix: trimming a text span removes whitespace at both
 ends

---
 py/docria/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 1560246..d6b5441 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -685,7 +685,8 @@ class TextSpan:
                     break
 
                 new_start += 1
-        elif str.isspace(self.text.text[self.stop - 1]):
+
+        if str.isspace(self.text.text[self.stop - 1]):
             # move backward
             for i in range(len(self) - 1, -1, -1):
                 if not str.isspace(self.text.text[new_stop - 1]):
-- 
2.43.0


From d421f986a8af52b2510ffe78d9e63bb613f9698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 08/46] fix: reading selected texts from a msgpack document
 returns them

---
 py/docria/codec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 30087cd..b0c56a6 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -720,19 +720,19 @@ class MsgpackCodec:
         if len(texts) == 0:
             return next(unpacker)
         else:
-            texts = {}
+            text_keys = set(texts)
+            output = {}
 
-            prop_keys = set(texts)
             num_entries = unpacker.read_map_header()
             for i in range(num_entries):
                 k = next(unpacker)
-                if k in prop_keys:
+                if k in text_keys:
                     v = next(unpacker)
-                    texts[k] = v
+                    output[k] = v
                 else:
                     unpacker.skip()
 
-            return texts
+            return output
 
     @staticmethod
     def compute_text_offsets(doc, texts):
-- 
2.43.0


From c7a328ce9b311c4d8cd814c1e01d888129deb3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 09/46] fix: decoding selected layers commits only the selected
 layers

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index b0c56a6..47e1e7d 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -497,7 +497,7 @@ class MsgpackDocument:
             layerschema = schema[typename]
             all_nodes[typename] = MsgpackCodec.decode_layer(unpacker, doc, typename, text2offsets, layerschema, **kwargs)
 
-        Codec.commit_layers(doc, types, schema, all_nodes)
+        Codec.commit_layers(doc, layer_set, schema, all_nodes)
         return doc
 
 
-- 
2.43.0


From 544a6761509c6a322e5f3805e73affc38a1bfd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 10/46] fix: binary property values survive a msgpack round
 trip

Properties were packed without the bin type, binary values were written as
strings and could not be decoded (or were decoded as text).
---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 47e1e7d..89e8244 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -610,7 +610,7 @@ class MsgpackCodec:
         out_props = BytesIO()
 
         # TODO: Implement extension handling!
-        msgpack.pack(doc.props, out_props)
+        msgpack.pack(doc.props, out_props, use_bin_type=True)
 
         msgpack.pack(out_props.tell(), output)
         output.write(out_props.getbuffer()[0:out_props.tell()])
-- 
2.43.0


From ec3ecdd5469ae36816f081bf26e37ecf00848509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 11/46] fix: extended type fields can be encoded and decoded
 with msgpack

Encoding failed on a missing encoder and wrote every value twice, decoding
expected ExtType values although the column holds raw binary values.
---
 py/docria/codec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 89e8244..cb5900b 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -80,7 +80,7 @@ class Codec:
                 typeschema[field] = fieldtype.encode()
 
                 propvalues = []
-                encoder = Codec.encoders[fieldtype.typename]
+                encoder = Codec.encoders.get(fieldtype.typename)
                 if fieldtype.typename == DataTypeEnum.EXT:
                     for n in v:
                         extv = node_getter(n, field, None)
@@ -89,12 +89,12 @@ class Codec:
                                 propvalues.append(extv)
                             elif isinstance(extv, ExtData):
                                 propvalues.append(extv.encode())
+                            elif isinstance(extv, Document):
+                                propvalues.append(MsgpackCodec.encode(extv))
                             else:
                                 raise ValueError("Incorrect value.")
                         else:
                             propvalues.append(None)
-
-                        propvalues.append(None if extv is None else extv.encode())
                 elif fieldtype.typename == DataTypeEnum.SPAN:
                     encoder = encoder(offset_mapping[fieldtype.options["context"]][0])
                     for n in v:
@@ -789,7 +789,7 @@ class MsgpackCodec:
 
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = extdata(v.data)
+                            n[col] = extdata(v.data if isinstance(v, msgpack.ExtType) else v)
 
                 def span_field(text, offsets):
                     nonlocal nodes
-- 
2.43.0


From e91eb0bdc4d194e4e60355757b128123b35e919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 12/46] fix: children_of with several fields follows the fields
 of the given node

The composed iterator shadowed both the iterator and the node it was given.
---
 py/docria/algorithm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index a9e1a36..7593ca6 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -61,9 +61,9 @@ def children_of(layer: NodeLayerCollection, *props):
 
     def compose(yielders):
         def yielder(n: Node):
-            for yielder in yielders:
-                for n in yielder(n):
-                    yield n
+            for child_iter in yielders:
+                for child in child_iter(n):
+                    yield child
 
         return yielder
 
-- 
2.43.0


From d308577a6ae0a6d2752f2ff5741fc317fe368e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 13/46] fix: dfs_leaves only returns nodes without children

Nodes whose children all had been visited before were returned as leaves.
---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 7593ca6..b9f58b4 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -183,7 +183,7 @@ def dfs_leaves(start: Node,
 
         visited.add(current)
 
-        child_nodes = [ch for ch in children(current) if ch not in visited]
+        child_nodes = list(children(current))
         child_nodes.reverse()
 
         if not child_nodes and is_result and is_result(current):
@@ -191,7 +191,7 @@ def dfs_leaves(start: Node,
         elif not child_nodes and not is_result:
             yield current
 
-        stack.extend(child_nodes)
+        stack.extend(ch for ch in child_nodes if ch not in visited)
 
 
 def span_translate(doc: Document,
-- 
2.43.0


From 2b1600a81a1fdc16e4edea730c3b83d34cc0ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 14/46] fix: a node list of mixed layers has the joined type of
 each field

The joined type was computed and dropped, boolean values were seen as integers.
---
 py/docria/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index d6b5441..7835f7b 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -503,6 +503,8 @@ class NodeList(list, NodeCollection):
                                                  (repr(resolved_type), repr(el), fld, repr(self)))
                             else:
                                 resolved_type = resolved_type.cast_up(el)
+
+                        output_types[fld] = resolved_type
                 else:
                     output_types[fld] = next(iter(dtypes))
 
@@ -1200,6 +1202,8 @@ class DataTypes:
     def typeof(o, comparetype: "DataType" = None) -> DataType:
         if isinstance(o, str):
             return DataTypes.string()
+        elif isinstance(o, bool):
+            return DataTypes.bool()
         elif isinstance(o, int):
             if comparetype is not None and comparetype.typename == DataTypeEnum.I32:
                 if -0x80000000 <= o <= 0x7FFFFFFF:
@@ -1210,8 +1214,6 @@ class DataTypes:
                 return DataTypes.int64()
         elif isinstance(o, float):
             return DataTypes.float64()
-        elif isinstance(o, bool):
-            return DataTypes.bool()
         elif isinstance(o, bytes):
             return DataTypes.binary
         elif isinstance(o, TextSpan):
-- 
2.43.0


From 0784d82694dfb2a7705176520f4abbaec6955d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 15/46] fix: queries on queries, node lists and node spans

Fields of a query were looked up in the schema of its source, which only
layers have; the representations failed in the same way.
---
 py/docria/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 7835f7b..6c8b354 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -540,7 +540,7 @@ class NodeList(list, NodeCollection):
             return None
 
     def __repr__(self):
-        return repr(super())
+        return list.__repr__(self)
 
     def _repr_html_(self):
         tbl = self._table_repr_()
@@ -1290,7 +1290,7 @@ class NodeCollectionQuery(NodeCollection):
 
     def __getitem__(self, item):
         if isinstance(item, str):
-            if item in self.collection.schema.fields:
+            if item in self.fieldtypes:
                 return NodeFieldCollection(self, item)
         else:
             return super().__getitem__(item)
@@ -1299,7 +1299,7 @@ class NodeCollectionQuery(NodeCollection):
         self.result = [n for n in self.collection if self.predicate(n)]
 
     def __repr__(self):
-        return "NodeCollectionQuery(collection=%s, N=%d)" % (self.collection.name, len(self))
+        return "NodeCollectionQuery(collection=%s, N=%d)" % (repr(self.collection), len(self))
 
     def _repr_html_(self):
         return self._table_repr_("Query with %d nodes.").render_html()
-- 
2.43.0


From e20c25734c9456717246024709aa8f3e19f6f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 16/46] fix: reading bounded streams in parts

The position of a read was computed without the markers passed so far, reads
beyond the first segments lost or misplaced bytes or failed.
---
 py/docria/collection.py | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index e30fe31..0544ecb 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -75,48 +75,30 @@ class _BoundaryReader(RawIOBase):
         return offset
 
     def read(self, n=-1):
-        abs_start_position = ((self.offset + 1) >> self.boundary)*4+(self.offset + 1)
-        if n == -1:
-            alldata = self.inputio.read(n)
-            abs_stop_position = abs_start_position + len(alldata)
+        abs_start_position = self._to_absolute(self.offset)
+        if n is None or n < 0:
+            alldata = self.inputio.read()
         else:
-            abs_stop_position = ((self.offset + n + 1) >> self.boundary)*4+(self.offset + n + 1)
-            alldata = self.inputio.read(abs_stop_position-abs_start_position)
-            abs_stop_position = abs_start_position + len(alldata)
+            alldata = self.inputio.read(self._to_absolute(self.offset + n) - abs_start_position)
 
-        if len(alldata) == 0:
-            return alldata
+        output = bytearray()
 
-        if (abs_start_position >> self.boundary) << self.boundary == abs_start_position:
-            abs_start_position += 4
-
-        num_boundaries = (abs_stop_position >> self.boundary) - (abs_start_position >> self.boundary)
-        real_length = abs_stop_position-abs_start_position-num_boundaries*4
-
-        if (abs_stop_position >> self.boundary) << self.boundary == abs_stop_position:
-            real_length -= 4
-
-        output = bytearray(real_length)
-
-        output_position = 0
         rel_position = 0
         current_position = abs_start_position
 
-        while current_position < abs_stop_position:
-            max_read = min(((current_position >> self.boundary) + 1) << self.boundary, abs_stop_position)-current_position
+        while rel_position < len(alldata):
+            max_read = ((current_position >> self.boundary) + 1 << self.boundary) - current_position
 
-            output[output_position:output_position+max_read] = alldata[rel_position:rel_position+max_read]
+            output += alldata[rel_position:min(rel_position + max_read, len(alldata))]
             rel_position += 4 + max_read
             current_position += max_read + 4
-            output_position += max_read
 
-        assert output_position == real_length
-        self.offset += real_length
+        self.offset += len(output)
 
         return bytes(output)
 
     def tell(self):
-        return self.inputio.tell()-(self.inputio.tell() >> self.boundary)*4-1
+        return self.offset
 
     def readable(self):
         return True
-- 
2.43.0


From edae5428e717812b3d47b8864ae6758592c2d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 17/46] fix: document references name the block the document
 was read from

Reading a block in between changed the reference of the documents which
remained in the current block.
---
 py/docria/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 0544ecb..5e791e8 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -380,7 +380,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
         while self.block is None:
             datablock = self.readblock()
@@ -393,7 +393,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
     def close(self):
         self.inputio.close()
-- 
2.43.0


From e5b6a4797545d9d81ad4b87ddb6b0878610cdc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 18/46] fix: a document index finds its files relative to its
 base path

File paths are stored relative to the base path but were opened relative to
the current directory.
---
 py/docria/collection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 5e791e8..1765063 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -687,7 +687,7 @@ class DocumentFileIndex:
 
         return DocumentFileIndex(source_filepath, property2docis, docs)
 
-    def search(self, conds, lazy=False):
+    def search(self, conds, lazy=False, basepath=None):
         if len(conds) == 0:
             return
 
@@ -702,7 +702,8 @@ class DocumentFileIndex:
         from docria.codec import MsgpackCodec
 
         if len(results) > 0:
-            reader = MsgpackDocumentIO.read(self.filepath)
+            reader = MsgpackDocumentIO.read(self.filepath if basepath is None
+                                            else os.path.join(basepath, self.filepath))
             lastblk = None
 
             # Optimized reading if multiple hits exist within a block sequentially
@@ -738,7 +739,7 @@ class DocumentIndex:
 
     def search(self, conds, lazy=False):
         for indx in self.index.values():
-            for doc in indx.search(conds, lazy=lazy):
+            for doc in indx.search(conds, lazy=lazy, basepath=self.basepath):
                 yield doc
 
     def save(self, path):
-- 
2.43.0


From ea4d41e4881548662082df2b019054236714c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 19/46] fix: dangling nodes can be presented

The representation of a node without layer failed, which also replaced the
documented errors for such nodes with an AttributeError.
---
 py/docria/model.py    | 7 +++++--
 py/docria/printout.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6c8b354..5cb2109 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -176,10 +176,13 @@ class Node(dict):
         else:
             return self.collection.iter_nodespan(node, self)
 
+    def _layer_name_(self):
+        return self.collection.schema.name if self.collection is not None else "(dangling)"
+
     def _table_repr_(self):
         from docria.printout import Table, get_representation
         tbl = Table(hide_index=True,
-                    caption="Node %s#%d" % (self.collection.schema.name, self._id) if len(self) > 0 else "")
+                    caption="Node %s#%d" % (self._layer_name_(), self._id) if len(self) > 0 else "")
 
         tbl.set_header("field", "value")
 
@@ -193,7 +196,7 @@ class Node(dict):
         return tbl.render_html()
 
     def __repr__(self):
-        return "Node<%s#%d>" % (self.collection.schema.name, self._id) if len(self) > 0 else ""
+        return "Node<%s#%d>" % (self._layer_name_(), self._id) if len(self) > 0 else ""
 
 
 class NodeCollection(Sized):
diff --git a/py/docria/printout.py b/py/docria/printout.py
index 9b5e048..a3cab66 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -380,7 +380,7 @@ def get_representation(value):
 
             for elem in value:
                 if isinstance(elem, Node):
-                    nodetypes.add(elem.collection.name)
+                    nodetypes.add(elem.collection.name if elem.collection is not None else "(dangling)")
                 else:
                     all_nodes = False
                     break
-- 
2.43.0


From a57201e285687e1d8a6f821057288e078113bcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 20/46] fix: add refuses nodes which already belong to a layer

Adding a bound node left it in two positions (or two layers) with one index;
add_many already refuses it.
---
 py/docria/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 5cb2109..8117456 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1488,6 +1488,8 @@ class NodeLayerCollection(NodeCollection):
         if len(args) > 0:
             for n in args:
                 if isinstance(n, Node):
+                    assert n.collection is None, "Node is already bound to a collection: %s" % repr(n.collection)
+
                     n._id = len(self._nodes)
                     n.collection = self
                     self._nodes.append(n)
-- 
2.43.0


From b30cbde63d946a5e77f19fb16a579c067e70c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 21/46] fix: add_many validates nodes given by an iterator

The iterator was exhausted by adding, no node was validated.
---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 8117456..bcf16f5 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1530,7 +1530,7 @@ class NodeLayerCollection(NodeCollection):
             self.num += 1
 
         if full_validation:
-            for node in nodes:
+            for node in self._nodes[start_pos:]:
                 assert self.validate(node), "Node not valid"
 
         if default_fill and len(self._default_values) > 0:
-- 
2.43.0


From 889bd90f4670ced384a83ea9a175c02b28d7fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 22/46] fix: values which are not nodes are refused in
 reference fields

Validation failed with an AttributeError or reported False, which compile
ignored, e.g. a node in a node span field was encoded as something else.
---
 py/docria/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index bcf16f5..d1a952c 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1072,7 +1072,8 @@ class DataTypeNoderefList(DataType):
     def is_valid(self, value) -> bool:
         target_layer = self.options["layer"]
         return (isinstance(value, list) or isinstance(value, NodeCollection)) and \
-               all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
+               all(map(lambda n: isinstance(n, Node) and
+                       n.collection is not None and n.collection.name == target_layer, value))
 
 
 DataTypeEnum2Class = {
@@ -1405,6 +1406,8 @@ class NodeLayerCollection(NodeCollection):
                 fieldvalue = node[field]
                 if not node.collection.fieldtypes[field].is_valid(fieldvalue):
                     if fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                        assert isinstance(fieldvalue, NodeSpan), \
+                            "Not a node span: field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.left is not None, \
                             "Left node is None: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
@@ -1430,6 +1433,8 @@ class NodeLayerCollection(NodeCollection):
                             "field '%s' in layer '%s' for node %s" % \
                             (fieldvalue.left.i, fieldvalue.right.i, field, self.name, repr(node))
                     elif fieldtype.typename == DataTypeEnum.NODEREF:
+                        assert isinstance(fieldvalue, Node), \
+                            "Not a node: field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.collection is not None, \
                             "Node is removed: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
@@ -2020,7 +2025,8 @@ class Document:
             # Validate nodes
             if type_validation and not extra_fields_ok:
                 for n in v:
-                    validate_fn(n)
+                    if not validate_fn(n):
+                        raise DataValidationError("Invalid node in layer %s: %s" % (k, repr(n)))
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From 9a5a99039c3fd635eb5e9cea50ff777b93eff576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 23/46] fix: accepting extra fields does not disable type
 validation

extra_fields_ok=True also skipped type validation and type_validation=False
also skipped the check for extra fields.
---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index d1a952c..cf0cf45 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -2023,9 +2023,9 @@ class Document:
             validate_fn = v.validate
 
             # Validate nodes
-            if type_validation and not extra_fields_ok:
+            if type_validation or not extra_fields_ok:
                 for n in v:
-                    if not validate_fn(n):
+                    if type_validation and not validate_fn(n):
                         raise DataValidationError("Invalid node in layer %s: %s" % (k, repr(n)))
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
-- 
2.43.0


From 960217c94ecaa28b89b66995a5c8b21e6430e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 24/46] fix: references to nodes and texts outside of the
 document are refused

Validation compares layer and text names, a node of the same-named layer in
another document (or of a removed layer) was encoded as a different node and
a span of another text as a different range.
---
 py/docria/model.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index cf0cf45..48396b1 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1975,6 +1975,34 @@ class Document:
     def __contains__(self, item):
         return item in self._layers
 
+    def _validate_references(self):
+        """Verify that all references are to nodes and texts in this document, names can be equal elsewhere."""
+        for layer in self.layers.values():
+            for field, fieldtype in layer.schema.fields.items():
+                if fieldtype.typename == DataTypeEnum.SPAN:
+                    text = self.texts[fieldtype.options["context"]]
+                    for n in layer:
+                        if field in n and n[field].text is not text and n[field].text.text != text.text:
+                            raise DataValidationError("Text span is from another text: field '%s' in layer '%s' "
+                                                      "for node %s" % (field, layer.name, repr(n)))
+                elif fieldtype.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:
+                    target_layer = self.layers[fieldtype.options["layer"]]
+                    for n in layer:
+                        if field not in n:
+                            continue
+
+                        value = n[field]
+                        if fieldtype.typename == DataTypeEnum.NODEREF:
+                            targets = (value,)
+                        elif fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                            targets = (value.left, value.right)
+                        else:
+                            targets = value
+
+                        if any(target.collection is not target_layer for target in targets):
+                            raise DataValidationError("Node is not part of this document: field '%s' in layer '%s' "
+                                                      "for node %s" % (field, layer.name, repr(n)))
+
     def compile(self, extra_fields_ok=False, type_validation=True, **kwargs) -> \
             Dict[str, Tuple[Dict[int, int], List[int]]]:
         """Compile the document, validates and assigns compacted ids to nodes (internal use)
@@ -2046,6 +2074,9 @@ class Document:
                             offset_add(fieldvalue.start)
                             offset_add(fieldvalue.stop)
 
+        if type_validation:
+            self._validate_references()
+
         text_offset_mapping = {}
         for k, v in self._texts.items():
             offsets = text_offsets[k]
-- 
2.43.0


From 60d9325652810f0512be3cff08f015e3b953fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 25/46] fix: display width None disables its truncation,
 max_columns getter

---
 py/docria/printout.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index a3cab66..f8ee707 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -53,7 +53,7 @@ class PrintOptions:
     @property
     def max_columns(self):
         """Max number of columns to display"""
-        return self._max_rows
+        return self._max_columns
 
     @max_columns.setter
     def max_columns(self, max_columns):
@@ -113,7 +113,10 @@ def truncate(text):
     if options.max_column_width is None:
         return text
     else:
-        min_sz = min(options._max_display_width-5, options.max_column_width-5)
+        min_sz = options.max_column_width-5
+        if options.max_display_width is not None:
+            min_sz = min(options.max_display_width-5, min_sz)
+
         if len(text) > min_sz:
             part = min_sz >> 1
             return "%s ... %s" % (text[0:part], text[-part:])
-- 
2.43.0


From a1dbeb20658ae8fb7190fd62440ac0660afcc470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 26/46] fix: HTML presentation of a wikipedia urn without
 language

---
 py/docria/printout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index f8ee707..26ef4b1 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -152,6 +152,9 @@ def urn_link_wikidata(partial):
 
 def urn_link_wikipedia(partial):
     parts = partial.split(":", 1)
+    if len(parts) == 1:
+        return "https://www.wikipedia.org/wiki/{0}".format(escape(parts[0]))
+
     return "https://{0}.wikipedia.org/wiki/{1}".format(escape(parts[0]), escape(parts[1]))
 
 
-- 
2.43.0


From a38e7ff4242e474580e72bc6d74727abe2c69436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 27/46] fix: indexing a text span stays within the span

Out of range indices returned characters outside of the span.
---
 py/docria/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 48396b1..f03f1b9 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -624,8 +624,7 @@ class TextSpan:
         elif isinstance(indx, tuple) and len(indx) == 2:
             return self.text[indx[0] + self.start:indx[1] + self.start]
         elif isinstance(indx, int):
-            start, stop, step = slice(indx, indx + 1).indices(len(self))
-            return self.text.text[start + self.start]
+            return str(self)[indx]
         else:
             raise ValueError("Unsupported input indx: %s" % repr(indx))
 
-- 
2.43.0


From f44d79e797393b6547a6b1ec45e8471fb4d609bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 28/46] fix: layers with a percent sign in their name can be
 presented

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index f03f1b9..cc3a52d 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1698,10 +1698,10 @@ class NodeLayerCollection(NodeCollection):
         return "Layer(%s, N=%d)" % (self.name, self.num)
 
     def _repr_html_(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_html()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_html()
 
     def __str__(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_text()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_text()
 
     def __len__(self):
         return self.num
-- 
2.43.0


From bafcdf24d2fb7c3a61c46b6984795ac358b25bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 29/46] fix: XML export of binary, extended and materialised
 span values

Binary values failed as bytes are not allowed in attributes, materialised
spans failed on a tuple and characters outside of XML were written for texts
and properties, and the astral ranges of the filter were wrong.
---
 py/docria/codec.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index cb5900b..c0c7c0a 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -887,7 +887,7 @@ class MsgpackCodec:
 
 class XmlCodec:
     """XML Codec, only encoding support"""
-    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\u10000-\u10FFFF]", re.UNICODE)
+    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]", re.UNICODE)
 
     @staticmethod
     def _string_encoder(s, repl=" "):
@@ -902,7 +902,7 @@ class XmlCodec:
         DataTypeEnum.F64: lambda v: str(float(v)),
         DataTypeEnum.BOOL: lambda v: str(bool(v)),
         DataTypeEnum.STRING: lambda v: XmlCodec._string_encoder(v),
-        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)),
+        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)).decode("ascii"),
         DataTypeEnum.NODEREF: lambda v: str(v._id),
         DataTypeEnum.NODEREF_MANY: lambda v: [str(n._id) for n in v],
         DataTypeEnum.NODEREF_SPAN: lambda v: v
@@ -913,11 +913,15 @@ class XmlCodec:
         extv = value
         if extv is not None:
             if isinstance(extv, bytes):
-                return extv
+                rawv = extv
             elif isinstance(extv, ExtData):
-                return extv.encode()
+                rawv = extv.encode()
+            elif isinstance(extv, Document):
+                rawv = MsgpackCodec.encode(extv)
             else:
                 raise ValueError("Incorrect value.")
+
+            return standard_b64encode(rawv).decode("ascii")
         else:
             return None
 
@@ -1021,7 +1025,8 @@ class XmlCodec:
 
         prop_node = ET.SubElement(document_node, "props")
         for k, v in doc.props.items():
-            ET.SubElement(prop_node, "prop", {"key": k, "value": str(v)})
+            ET.SubElement(prop_node, "prop", {"key": XmlCodec._string_encoder(k),
+                                             "value": XmlCodec._string_encoder(str(v))})
 
         schema_node = ET.SubElement(document_node, "schema")
         for layer, schemadef in schema.items():
@@ -1042,14 +1047,14 @@ class XmlCodec:
                 pos = 0
                 i = 0
                 for entry in textv:
-                    ET.SubElement(seps_node, "s", {"v": entry, "id": str(i), "start": str(pos), "stop": str(pos + len(entry))})
+                    ET.SubElement(seps_node, "s", {"v": XmlCodec._string_encoder(entry), "id": str(i), "start": str(pos), "stop": str(pos + len(entry))})
                     pos += len(entry)
                     i += 1
 
-                ET.SubElement(text_node, "raw", {"value": "".join(textv)})
+                ET.SubElement(text_node, "raw", {"value": XmlCodec._string_encoder("".join(textv))})
             else:
                 for entry in textv:
-                    ET.SubElement(seps_node, "s", {"v": entry})
+                    ET.SubElement(seps_node, "s", {"v": XmlCodec._string_encoder(entry)})
 
         layers_node = ET.SubElement(document_node, "layers")
         for layerk, layerv in layers.items():
@@ -1071,7 +1076,7 @@ class XmlCodec:
                                           })
                         )
                         if verbose_node_spans:
-                            text_entries[fk] = XmlCodec._string_encoder(fv)
+                            text_entries[fk] = XmlCodec._string_encoder(str(span))
                     elif isinstance(fv, NodeSpan):
                         embedded_entries.append(
                             ET.Element("d",
-- 
2.43.0


From 51d1f1a73bdc281a1acdcfa1d9f266e5b4440a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 30/46] fix: binary and extended values in JSON documents

Binary values are not JSON serialisable, encoding failed; the decoder of
extended values passed the whole column as one base64 value.
---
 py/docria/codec.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index c0c7c0a..d0a9ef9 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -182,6 +182,12 @@ class JsonCodec:
     @staticmethod
     def encode_object(doc: "Document"):
         texts, types, types_num_nodes, schema = Codec.encode(doc, doc_encoder=JsonCodec.encode_object)
+
+        for typename, columns in types.items():
+            for col, typedef in doc.layers[typename].schema.fields.items():
+                if typedef.typename in {DataTypeEnum.BINARY, DataTypeEnum.EXT}:
+                    columns[col] = [None if v is None else standard_b64encode(v).decode("ascii") for v in columns[col]]
+
         return {
             "DM10": {
                 "props": doc.props,
@@ -275,23 +281,33 @@ class JsonCodec:
 
                     return decoder
 
+                def binary_field(data):
+                    nonlocal nodes
+
+                    for n, v in zip(nodes, data):
+                        if v is not None:
+                            n[col] = standard_b64decode(v)
+
                 def ext_field(data):
                     nonlocal nodes
 
-                    typename = typedef.options["type"]
-                    if typename == "doc":
-                        extdata = MsgpackDocumentExt
+                    exttype = typedef.options["type"]
+                    if exttype == "doc":
+                        extdata = MsgpackCodec.decode
                     else:
-                        extdata = lambda v: ExtData(typename, v)
+                        extdata = lambda v: ExtData(exttype, v)
 
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = typename(standard_b64decode(data))
+                            n[col] = extdata(standard_b64decode(v))
 
                 decoder = simple_field
                 if typedef.typename == DataTypeEnum.SPAN:
                     decoder = span_field(doc.texts[typedef.options["context"]], text2offsets[typedef.options["context"]])
 
+                if typedef.typename == DataTypeEnum.BINARY:
+                    decoder = binary_field
+
                 if typedef.typename == DataTypeEnum.EXT:
                     decoder = ext_field
 
-- 
2.43.0


From 18fcc949007c1f45dca1db11e4564751068d88cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 31/46] fix: add_field accepts type factories and reports
 existing fields

A type factory, accepted everywhere else, failed after the field was added;
the error for an existing field could not be constructed.
---
 py/docria/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index cc3a52d..22a996b 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1351,9 +1351,10 @@ class NodeLayerCollection(NodeCollection):
         :raises SchemaValidationError if the field conflicts with existing field
         """
         if name in self._schema.fields:
-            raise SchemaValidationError("Cannot add field %s, it already exists!" % name)
+            raise SchemaValidationError("Cannot add field %s, it already exists!" % name, {name})
 
         self._schema.add(name, dtype)
+        dtype = self._schema.fields[name]
         self._update_default_values()
 
         if init_with_default:
-- 
2.43.0


From 09158a4ade8f1976f4fdf6f5b08ab4ebc88a93d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 32/46] fix: node spans over removed nodes or nodes without
 text can be represented

---
 py/docria/model.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 22a996b..52e5f9d 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -451,13 +451,11 @@ class NodeSpan(NodeCollection):
         return sum(1 for _ in self)
 
     def __repr__(self):
-        fields = self.left.collection.schema.fields
-        if "text" in fields and fields["text"].typename == DataTypeEnum.SPAN:
-            return "NodeSpan[%s: %d to incl. %d] = %s" % (
-                self.left.collection.name, self.left.i, self.right.i, repr(self.text())
-            )
-        else:
-            return "NodeSpan[%s: %d to incl. %d]" % (self.left.collection.name, self.left.i, self.right.i)
+        output = "NodeSpan[%s: %d to incl. %d]" % (self.left._layer_name_(), self.left._id, self.right._id)
+        if isinstance(self.left.get("text"), TextSpan) and isinstance(self.right.get("text"), TextSpan):
+            output += " = %s" % repr(self.text())
+
+        return output
 
     def __str__(self):
         tbl = self._table_repr_()
-- 
2.43.0


From 1e758df1ed803278e009bb37ab505cd63effc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 33/46] fix: pickled encoded documents keep their reference

---
 py/docria/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index d0a9ef9..7a597da 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -414,6 +414,7 @@ class MsgpackDocument:
         return {"doc": self.rawdata.getvalue(), "ref": self.ref}
 
     def __setstate__(self, state):
+        self.ref = state["ref"]
         self.rawdata = BytesIO(state["doc"])
         if self.rawdata.read(4) != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
-- 
2.43.0


From 3e44aa820500c3d14b806378603e4735aad3e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:09 +0000
Subject: [PATCH 34/46] fix: XML export of default values with control
 characters

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 7a597da..b983a21 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -1052,7 +1052,7 @@ class XmlCodec:
                 if isinstance(fielddef, dict):
                     field_node = ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef["type"]})
                     for argk, argv in fielddef["args"].items():
-                        ET.SubElement(field_node, "arg", {"key": argk, "value": str(argv)})
+                        ET.SubElement(field_node, "arg", {"key": argk, "value": XmlCodec._string_encoder(str(argv))})
                 else:
                     ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef})
 
-- 
2.43.0


From 2c51be6fb96b0a6840946b1ec6d98c9f48813484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:03 +0000
Subject: [PATCH 35/46] fix: fetching a document by reference resumes reading
 after it, not after blocks read in between

---
 py/docria/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 1765063..98749c2 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -332,7 +332,8 @@ class MsgpackDocumentReader:
         :note:
         This method assumes and requires that the underlying I/O supports seeking.
         """
-        if self.block is None or self.block.position != ref[0]:
+        if self.block is None or self.block.position != ref[0] or self._lastblockpos != ref[0]:
+            # Not the current block, or reading has continued past it.
             self.seek(ref[0])
             self.block = self.readblock()
 
-- 
2.43.0


From 296d50593381c9a26e60a06606f046b8b344b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 36/46] fix: flush of a collection writer reaches the file

---
 py/docria/collection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 98749c2..c2d27fa 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -163,6 +163,9 @@ class _BoundaryWriter(RawIOBase):
                 self._write_boundary()
                 maxwrite = min(((self.seg + 1) << self.boundary) - self.written, left)
 
+    def flush(self):
+        self.outputio.flush()
+
     def close(self):
         self.outputio.close()
 
@@ -503,6 +506,9 @@ class MsgpackDocumentWriter:
             if isinstance(self.outputio, _BoundaryWriter):
                 self.outputio.split()
 
+            # The file object buffers as well
+            self.outputio.flush()
+
             self.currentblock = BytesIO()
             self.current_block_count = 0
 
-- 
2.43.0


From 1c2010f3461f8b1799c419724fd11edf4526ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 37/46] fix: is_any on span fields agrees with ==

---
 py/docria/query.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py/docria/query.py b/py/docria/query.py
index def2e67..322955d 100644
--- a/py/docria/query.py
+++ b/py/docria/query.py
@@ -88,7 +88,14 @@ class NodeFieldPredicateContains(NodePredicate):
         self.values = values
 
     def __call__(self, n: "Node"):
-        return n.get(self.fld) in self.values
+        from .model import TextSpan
+
+        value = n.get(self.fld)
+        if isinstance(value, TextSpan):
+            # A span equals strings and spans of equal text objects, which hash differently than the span itself.
+            return any(value == v for v in self.values)
+
+        return value in self.values
 
     def __repr__(self):
         return "({%s} is any of %s)" % (self.fld, repr(self.values))
-- 
2.43.0


From aa8964662788266d8dfc8a85ec4fbfe8be9d0dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 38/46] fix: HTML of a text escapes its name

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 52e5f9d..846c1bb 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -767,7 +767,7 @@ class Text:
 
     def _repr_html_(self):
         from html import escape
-        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(self.name, escape(self.text))
+        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(escape(self.name), escape(self.text))
 
     def compile(self, offsets: List[int]):
         """
-- 
2.43.0


From abe20bcaf01d0b02b7e7122e78250bc3d321694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 39/46] fix: text tables wrap before the display width is
 exceeded

---
 py/docria/printout.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 26ef4b1..1e17a6b 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -280,13 +280,16 @@ class Table:
             if not self.hide_index:
                 column_width += actual_widths[0] + self.style.padding*2
 
+            column_end = column_pos
             for i in range(column_pos, len(headers)):
-                column_width += actual_widths[i] + self.style.padding*2
-                column_end = i+1
-
-                if options.max_display_width is not None and column_width > options.max_display_width:
+                next_width = column_width + actual_widths[i] + self.style.padding*2
+                if options.max_display_width is not None and next_width > options.max_display_width \
+                        and column_end > column_pos:
                     break
 
+                column_width = next_width
+                column_end = i+1
+
             if column_pos == 1 and self.caption is not None:
                 # Print caption
                 output.append(str.format("{:^%d}" % column_width, truncate(self.caption)))
-- 
2.43.0


From ca13435d292529161f1693ed4970e98342c15e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 40/46] fix: text tables without columns show their caption

---
 py/docria/printout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 1e17a6b..2111455 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -275,6 +275,10 @@ class Table:
 
         column_pos = 1
 
+        if len(headers) == 1 and self.caption is not None:
+            # No columns at all
+            output.append(truncate(self.caption))
+
         while column_pos < len(headers):
             column_width = 0
             if not self.hide_index:
-- 
2.43.0


From d035d843215964594a667adc4f4a0e96e00686cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 41/46] fix: MsgpackDocument over a file keeps its own copy, so
 binary() and pickling work and the file position does not matter

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index b983a21..b3301b2 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -395,7 +395,7 @@ class MsgpackDocument:
         if isinstance(data_or_document, bytes):
             self.rawdata = BytesIO(data_or_document)
         elif isinstance(data_or_document, IOBase):
-            self.rawdata = data_or_document
+            self.rawdata = BytesIO(data_or_document.read())
         elif isinstance(data_or_document, Document):
             self.rawdata = BytesIO(MsgpackCodec.encode(data_or_document))
         else:
-- 
2.43.0


From 823b15c51ba2967c9a8c1bb5a88ac5fdac5c6649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 42/46] fix: show the predicate for >= as >=, not as >

---
 py/docria/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/query.py b/py/docria/query.py
index 322955d..e8d073c 100644
--- a/py/docria/query.py
+++ b/py/docria/query.py
@@ -158,7 +158,7 @@ class NodeFieldPredicateGe(NodePredicate):
         return n.get(self.fld) >= self.ge
 
     def __repr__(self):
-        return "({%s} > %s)" % (self.fld, repr(self.ge))
+        return "({%s} >= %s)" % (self.fld, repr(self.ge))
 
 
 class NodeFieldPredicateGt(NodePredicate):
-- 
2.43.0


From e80786879d28b5c709577dea720caa271ae9e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 43/46] fix: lists of removed nodes that refer to removed
 nodes, and of removed nodes with extension values

---
 py/docria/model.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 846c1bb..ebc8919 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1220,9 +1220,19 @@ class DataTypes:
         elif isinstance(o, TextSpan):
             return o.text.spantype
         elif isinstance(o, NodeSpan):
+            if o.left.collection is None:  # Removed node, no layer to refer to
+                return DataType(DataTypeEnum.NODEREF_SPAN)
+
             return DataTypes.nodespan(o.left.collection.name)
         elif isinstance(o, Node):
+            if o.collection is None:
+                return DataType(DataTypeEnum.NODEREF)
+
             return o.collection.nodetype
+        elif isinstance(o, ExtData):
+            return DataTypes.ext(o.type)
+        elif isinstance(o, Document):
+            return DataTypes.ext("doc")
         elif isinstance(o, list):
             if len(o) > 0 and not isinstance(o[0], Node):
                 raise ValueError("Unsupported type: %s" % type(o))
@@ -1233,6 +1243,9 @@ class DataTypes:
             else:
                 layer = o[0].collection
                 if sum(1 for n in o if isinstance(n, Node) and n.collection is layer) == len(o):
+                    if layer is None:
+                        return DataType(DataTypeEnum.NODEREF_MANY)
+
                     return DataTypes.noderef_many(layer.name)
                 else:
                     raise ValueError("Unsupported type: %s" % type(o))
-- 
2.43.0


From adf6d0a4be782e7e8b53c80d9da15f3d20de394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 44/46] fix: incomplete encoded documents raise an error
 instead of ending an iteration

---
 py/docria/codec.py      | 24 +++++++++++++++---------
 py/docria/collection.py |  6 +++---
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index b3301b2..e1c9545 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -32,6 +32,12 @@ class DataError(Exception):
         super().__init__(message)
 
 
+class _Unpacker(msgpack.Unpacker):
+    """Unpacker for which missing data is an error (OutOfData), and not the silent end of some iteration."""
+    def __next__(self):
+        return self.unpack()
+
+
 def _codec_encode_span(offset_mapping: Dict[int, int]):
     def encoder(l, v: "TextSpan"):
         if v is None:
@@ -429,7 +435,7 @@ class MsgpackDocument:
         if self._read_state < 1 and state > 0:
             self.rawdata.seek(4)
 
-            unpacker = msgpack.Unpacker(self.rawdata, raw=False)
+            unpacker = _Unpacker(self.rawdata, raw=False)
             prop_sz = next(unpacker)
             prop_start = unpacker.tell() + 4
 
@@ -438,7 +444,7 @@ class MsgpackDocument:
         if self._read_state < 2 and state > 1:
             start_pos = self._prop[0] + self._prop[1]
             self.rawdata.seek(start_pos)
-            unpacker = msgpack.Unpacker(self.rawdata, raw=False)
+            unpacker = _Unpacker(self.rawdata, raw=False)
 
             types, schema = MsgpackCodec.decode_schema(unpacker)
             self._schema = types, schema
@@ -450,7 +456,7 @@ class MsgpackDocument:
         if self._read_state < 3 and state > 2:
             start_pos = self._texts[0] + self._texts[1]
             self.rawdata.seek(start_pos)
-            unpacker = msgpack.Unpacker(self.rawdata, raw=False)
+            unpacker = _Unpacker(self.rawdata, raw=False)
 
             layer_mapping = {}
             for typename in self._schema[0]:
@@ -458,7 +464,7 @@ class MsgpackDocument:
                 layer_start = unpacker.tell() + start_pos
                 layer_mapping[typename] = (layer_start, layer_len)
                 self.rawdata.seek(layer_start+layer_len)
-                unpacker = msgpack.Unpacker(self.rawdata, raw=False)
+                unpacker = _Unpacker(self.rawdata, raw=False)
                 start_pos = layer_start + layer_len
 
             self._layers = layer_mapping
@@ -471,7 +477,7 @@ class MsgpackDocument:
         """Get document properties"""
         self._parse_state(1)
         self.rawdata.seek(self._prop[0])
-        unpacker = msgpack.Unpacker(self.rawdata, raw=False)
+        unpacker = _Unpacker(self.rawdata, raw=False)
         return MsgpackCodec.decode_property(unpacker, *props)
 
     def schema(self):
@@ -483,7 +489,7 @@ class MsgpackDocument:
         """Get document text"""
         self._parse_state(2)
         self.rawdata.seek(self._texts[0])
-        unpacker = msgpack.Unpacker(self.rawdata, raw=False)
+        unpacker = _Unpacker(self.rawdata, raw=False)
         return MsgpackCodec.decode_texts(unpacker, *texts)
 
     def document(self, *layers, **kwargs):
@@ -507,7 +513,7 @@ class MsgpackDocument:
         all_nodes = {}
         for typename in layer_set:
             self.rawdata.seek(self._layers[typename][0])
-            unpacker = msgpack.Unpacker(self.rawdata, raw=False)
+            unpacker = _Unpacker(self.rawdata, raw=False)
             # datalength = next(unpacker)
             #unpacker.skip()
 
@@ -546,7 +552,7 @@ class MsgpackCodec:
         elif isinstance(data, IOBase):
             pass
 
-        unpacker = msgpack.Unpacker(data, raw=False)
+        unpacker = _Unpacker(data, raw=False)
         header = unpacker.read_bytes(4)
 
         print("-- Content --")
@@ -862,7 +868,7 @@ class MsgpackCodec:
         elif isinstance(data, IOBase):
             pass
 
-        unpacker = msgpack.Unpacker(data, raw=False)
+        unpacker = _Unpacker(data, raw=False)
         header = unpacker.read_bytes(4)
 
         if header != b"DM_1":
diff --git a/py/docria/collection.py b/py/docria/collection.py
index c2d27fa..ac693ea 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -304,11 +304,11 @@ class MsgpackDocumentReader:
 
         self.unpacker = Unpacker(self.inputio, raw=False)
 
-        codecname = next(self.unpacker)
+        codecname = self.unpacker.unpack()
         self.codec = get_codec(codecname).decompress
 
-        self.num_doc_per_block = next(self.unpacker)
-        self.advanced = next(self.unpacker)
+        self.num_doc_per_block = self.unpacker.unpack()
+        self.advanced = self.unpacker.unpack()
         if self.advanced:
             raise NotImplementedError("Advanced mode not implemented.")
 
-- 
2.43.0


From b9c34f2169fb6b62891e1fe88224a4f8367f8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 45/46] fix: XML export of names that XML cannot represent or
 use as attribute names

---
 py/docria/codec.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index e1c9545..3b3015d 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -912,6 +912,13 @@ class XmlCodec:
     """XML Codec, only encoding support"""
     _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]", re.UNICODE)
 
+    # Names that can be the name of an attribute (those of the Basic Multilingual Plane, as not all parsers accept others)
+    _name_pattern = re.compile(r"(?![xX][mM][lL])"
+                               r"[A-Z_a-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C\u200D"
+                               r"\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD]"
+                               r"[-.0-9A-Z_a-z\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D\u037F-\u1FFF\u200C\u200D\u203F\u2040"
+                               r"\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD]*", re.UNICODE)
+
     @staticmethod
     def _string_encoder(s, repl=" "):
         return XmlCodec._string_pattern.sub(repl, s)
@@ -1037,6 +1044,7 @@ class XmlCodec:
         import xml.etree.ElementTree as ET
         texts, schema, layers = XmlCodec.encode_intermediate(doc, **kwargs)
 
+        document_id = XmlCodec._string_encoder(document_id)
         if document_id != "":
             document_node = ET.Element("document", {"{http://www.w3.org/XML/1998/namespace}id": document_id})
             prefix = document_id + "."
@@ -1053,18 +1061,18 @@ class XmlCodec:
 
         schema_node = ET.SubElement(document_node, "schema")
         for layer, schemadef in schema.items():
-            layer_schema_node = ET.SubElement(schema_node, "define", {"layer": layer})
+            layer_schema_node = ET.SubElement(schema_node, "define", {"layer": XmlCodec._string_encoder(layer)})
             for field, fielddef in schemadef.items():
                 if isinstance(fielddef, dict):
-                    field_node = ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef["type"]})
+                    field_node = ET.SubElement(layer_schema_node, "field", {"name": XmlCodec._string_encoder(field), "type": fielddef["type"]})
                     for argk, argv in fielddef["args"].items():
-                        ET.SubElement(field_node, "arg", {"key": argk, "value": XmlCodec._string_encoder(str(argv))})
+                        ET.SubElement(field_node, "arg", {"key": XmlCodec._string_encoder(argk), "value": XmlCodec._string_encoder(str(argv))})
                 else:
-                    ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef})
+                    ET.SubElement(layer_schema_node, "field", {"name": XmlCodec._string_encoder(field), "type": fielddef})
 
         texts_node = ET.SubElement(document_node, "texts")
         for textk, textv in texts.items():
-            text_node = ET.SubElement(texts_node, "text", {"name": textk})
+            text_node = ET.SubElement(texts_node, "text", {"name": XmlCodec._string_encoder(textk)})
             seps_node = ET.SubElement(text_node, "sep")
             if verbose:
                 pos = 0
@@ -1081,13 +1089,15 @@ class XmlCodec:
 
         layers_node = ET.SubElement(document_node, "layers")
         for layerk, layerv in layers.items():
+            layerk = XmlCodec._string_encoder(layerk)
             layer_node = ET.SubElement(layers_node, "layer", {"name": layerk})
             for i, n in enumerate(layerv):
                 array_entries = {}
                 simple_entries = {}
                 text_entries = {}
                 embedded_entries = []
-                for fk, fv in n.items():
+                for field, fv in n.items():
+                    fk = XmlCodec._string_encoder(field)
                     if isinstance(fv, tuple):
                         offset_mapping = fv[0]  # type: Dict[int,int]
                         span = fv[1]  # type: TextSpan
@@ -1099,18 +1109,21 @@ class XmlCodec:
                                           })
                         )
                         if verbose_node_spans:
-                            text_entries[fk] = XmlCodec._string_encoder(str(span))
+                            text_entries[field] = XmlCodec._string_encoder(str(span))
                     elif isinstance(fv, NodeSpan):
                         embedded_entries.append(
                             ET.Element("d",
                                           {"name": fk,
-                                           "from": fv.left.collection.name + "." + str(fv.left.i),
-                                           "to": fv.left.collection.name + "." + str(fv.right.i)})
+                                           "from": XmlCodec._string_encoder(fv.left.collection.name) + "." + str(fv.left.i),
+                                           "to": XmlCodec._string_encoder(fv.left.collection.name) + "." + str(fv.right.i)})
                         )
                     elif isinstance(fv, list):
-                        array_entries[fk] = fv
+                        array_entries[field] = fv
                     elif isinstance(fv, str):
-                        simple_entries[fk] = fv
+                        if XmlCodec._name_pattern.fullmatch(field) is not None:
+                            simple_entries[field] = fv
+                        else:
+                            embedded_entries.append(ET.Element("d", {"name": fk, "value": fv}))
                     else:
                         raise ValueError("Unsupported entry in output: %s, (%s)" % (repr(fv), type(fv)))
 
@@ -1121,13 +1134,13 @@ class XmlCodec:
                     n_node.append(ee)
 
                 for ak, av in array_entries.items():
-                    array_node = ET.SubElement(n_node, "a", {"name": ak})
+                    array_node = ET.SubElement(n_node, "a", {"name": XmlCodec._string_encoder(ak)})
                     for av_entry in av:
                         ET.SubElement(array_node, "e", {"v": av_entry})
 
                 if verbose_node_spans and len(text_entries) > 0:
                     for tk, tv in text_entries.items():
-                        ET.SubElement(n_node, "t", {"key": tk, "value": tv})
+                        ET.SubElement(n_node, "t", {"key": XmlCodec._string_encoder(tk), "value": tv})
 
         return root
 
-- 
2.43.0


From 0900dbde9fc05bca4faa2442253827e0e69b2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 46/46] fix: explicit ranges of a span beyond its text are
 refused

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index ebc8919..83a877e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -620,7 +620,7 @@ class TextSpan:
             start, stop, step = indx.indices(len(self))
             return self.text[start + self.start:stop + self.start]
         elif isinstance(indx, tuple) and len(indx) == 2:
-            return self.text[indx[0] + self.start:indx[1] + self.start]
+            return self.text[indx[0] + self.start, indx[1] + self.start]
         elif isinstance(indx, int):
             return str(self)[indx]
         else:
-- 
2.43.0

