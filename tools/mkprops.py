#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))
M, C, S, A, Q = ("py/docria/%s.py" % n for n in ("model", "codec", "collection", "algorithm", "query"))

p("C01", "Layers keep node order, identity and indices through any edit history",
  "After any sequence of adding, removing, retaining, sorting and compacting, a layer contains exactly the nodes that were put in and not taken out, each once, in insertion order or in the stable order of the last sort. Its length, iteration, first and last agree with that sequence; every member reports that layer as its owner and has an index that increases strictly along the order, is unique, and addresses that node in the layer; a node which left the layer is dangling. Encoding or compacting at any point changes neither membership nor order.",
  ["histories"], "every interleaving of edit operations on layers of any size, including layers past the size and fill level at which gaps are closed",
  "Tests remove or retain a few fixed node sets once; order and index agreement must hold after every operation of any history, in particular around the gap-closing threshold.",
  [M], [("add/add_many/remove/retain/sort/compact", M), ("gap list with compaction below 75% fill", M)],
  ["len(layer)", "iteration", "node.i", "layer[i]", "first/last", "is_dangling"],
  [("_nodes", "node slots with gaps", M), ("num", "number of live nodes", M), ("_id", "slot of a node", M)])

p("C02", "Navigation between nodes agrees with the order of the layer",
  "For every node of a layer the left and right neighbours are the nodes just before and after it in the layer's order (none at the ends), whatever was removed in between. Iterating a span between two nodes, in either argument order, and a node span's length, first, last, text and covered text range give exactly the nodes from one to the other inclusive that are still in the layer.",
  ["histories", "inputs"], "every pair of live nodes in every layer state reachable by edits",
  "Tests check two or three neighbours in one layer state; the property is over all pairs after arbitrary gaps, compactions and sorts.",
  [M], [("left/right/iter_nodespan/NodeSpan", M)], ["node.left", "node.right", "node.iter_span", "NodeSpan iteration/len/text/textspan"])

p("C03", "A refused edit leaves the layer intact and consistent",
  "When an edit is refused (wrong kind of value, node of another layer or no layer, node already owned, invalid field value, failing sort key, unknown or duplicate field, a second main text) an error is reported, every layer of the document stays consistent and the owned nodes stay addressable in order. Refused single-node additions, retains, sorts and schema changes change nothing; a refused bulk addition or removal has at most processed the items before the offending one (all items, if the refusal is by validation of field values).",
  ["histories", "fault_sequences"], "every edit operation with every kind of invalid argument at every position of an iterable argument, followed by further edits",
  "Tests hardly exercise refusals and never continue to use a layer after one.",
  [M], [("argument checks before mutation in the layer operations", M)], ["exception or not", "layer projection before/after"])

p("C04", "Schema edits and default values touch exactly the named field",
  "Adding a field declares it and sets it on every existing node exactly when a default exists and initialisation is not disabled; removing a field deletes its declaration and, unless the data is to be left, its values; no other field, node or layer changes. Nodes created from field values start with the defaults of all fields not given; nodes added in bulk get the missing defaults (and only those) unless default filling is disabled, and given values are never replaced by defaults.",
  ["histories"], "all sequences of schema edits and additions over schemas with and without defaults",
  "Tests use a single fixed schema; the property quantifies over schemas, default combinations and orders of edits.",
  [M], [("add_field/remove_field/_default_values", M)], ["layer schema fields", "node contents"])

p("C05", "Only documents that conform to their schema are accepted for encoding",
  "A value is accepted in a field exactly if it matches the field's declared type: numeric type and range, boolean, string, bytes, a live node (list of live nodes, ordered pair of live nodes) of the named layer, or a span of the named text; the type inferred for a value accepts that value, and declarations are equal exactly if they say the same. Adding with validation and encoding with default settings refuse any non-conforming value and undeclared extra fields, encoding also references to nodes outside the document and schemas that name absent layers or texts, and both accept everything else; this holds equally for documents obtained by decoding.",
  ["inputs", "histories"], "all field types, all kinds and boundary values, dangling and foreign references, on built and on decoded documents, with every combination of the validation options",
  "Tests cover a handful of accepted values; refusal at every type boundary and after decoding is not tested.",
  [M, C], [("is_valid of the data types, validate, compile", M), ("type declarations on decoding", C)], ["add/add_many/encode accepted or refused", "node.is_valid"])

p("C06", "A MessagePack round trip reproduces the document",
  "Decoding the MessagePack encoding of any valid document gives a document with the same properties, texts, layers in order, field declarations with their options, nodes in order and field values of every type, where every reference points to the node at the corresponding position and every span covers the same characters. Absent values stay absent, an empty reference list becomes absent, and the result does not depend on the edit history that produced the document.",
  ["inputs", "histories"], "all documents over all field types, values at the size and range limits of the encoding, arbitrary Unicode text, cyclic and self references, empty layers and texts, layers with gaps",
  "Tests round-trip small fixed documents and compare selected values.",
  [C, M], [("MsgpackCodec.encode/decode", C), ("Document.compile", M), ("Codec.commit_layers", C)], ["decoded document projection"])

p("C07", "A JSON round trip reproduces the document",
  "Decoding the JSON encoding of any valid document whose properties are JSON values gives the same document as the MessagePack round trip: the same properties, texts, layers, declarations, nodes, values, references and spans. The JSON text is plain standard JSON apart from the non-finite floating point literals.",
  ["inputs", "histories"], "as C06, with JSON representable properties",
  "Tests round-trip one small document through JSON.",
  [C], [("JsonCodec.encode/decode", C)], ["decoded document projection", "JSON text"])

p("C08", "Encoding is read-only, deterministic and stable",
  "Encoding in any format changes nothing observable in the document except that indices of nodes become consecutive: same nodes, order, values, schema, texts and properties. Encoding twice gives identical output, two documents with the same content built by different histories encode identically, and encoding a decoded document gives the same bytes again.",
  ["histories", "inputs"], "all documents and all sequences of encodings in the three formats between edits",
  "Tests never compare the document before and after encoding or two encodings.",
  [C, M], [("Document.compile", M), ("encoders", C)], ["document projection before/after", "encoded bytes"])

p("C09", "The encoded document follows the published wire layout",
  "The bytes of an encoded document are the magic, then length-prefixed properties, the layer names, per layer the field declarations, length-prefixed text segments, and per layer a length-prefixed column block, where every length is the exact number of bytes. Texts are stored as the segments between all distinct span boundaries, spans as a pair of boundary numbers, references as node positions, node spans as position and distance, absent values as nil, and every column has exactly one entry (two for spans) per node.",
  ["inputs"], "all valid documents",
  "Round trip tests cannot see a symmetric change of writer and reader, which breaks existing files and the Java implementation.",
  [C, M, "java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java"], [("MsgpackCodec.encode", C), ("Document.compile, Text.compile", M)], ["token stream of the encoded bytes read by an independent tokenizer"])

p("C10", "Partial and lazy access agrees with full decoding",
  "For any encoded document and any order of requests, reading selected properties, the schema, selected texts, selected layers (closed under references) or the whole document gives exactly the corresponding part of the fully decoded document. The requests do not influence each other or the raw bytes, and an encoded document that was copied, pickled, read from a file or created from a document behaves like the original; pickling a document preserves it.",
  ["inputs", "histories"], "all documents and all sequences of partial reads",
  "Tests read properties or texts of one document once.",
  [C, M], [("MsgpackDocument.properties/schema/texts/document", C), ("__getstate__/__setstate__", C)], ["results of the partial reads", "binary()"])

p("C11", "Text spans denote exact character ranges of their text",
  "A span sliced from a text (or from a span) denotes exactly the characters that slicing the string gives, counted in code points, and out-of-range or reversed explicit ranges are refused. Length, string value, indexing, joining two spans and comparing agree with the characters and offsets; trimming removes exactly the surrounding white space; the cover and intersection tests agree with interval arithmetic. None of these change the text or, except for in-place trimming, any span.",
  ["inputs"], "all texts (including astral characters, white space of all kinds and empty text), all offsets including negative and omitted ones",
  "Tests use one ASCII sentence and a few offsets.",
  [M], [("Text.__getitem__, TextSpan", M)], ["start, stop, len, str of spans", "predicates"])

p("C12", "A collection returns exactly the written documents in order",
  "Whatever the block size, compression codec, interleaving of flushes and mix of plain and pre-encoded documents, reading a closed collection returns each written document exactly once, in writing order and byte-identical to its encoding. Blocks hold at most the configured number of documents, no document is split over blocks, and the file is a header followed by blocks as published; the tar variant also returns exactly the written documents in order.",
  ["histories", "configurations"], "all sequences of write/flush/close, all block sizes and codecs, document sizes across the buffer sizes of the reader",
  "Tests write a few documents with one block size and one codec.",
  [S], [("MsgpackDocumentWriter/Reader", S), ("TarMsgpackWriter/Reader", S)], ["documents read back", "block structure of the file"])

p("C13", "Document references address the same document in any access order",
  "The reference delivered with a document while reading a collection, by iterating documents or blocks, identifies that document: fetching it by reference at any time, in any order, interleaved with sequential reading, block reading and seeking, returns exactly that document. Sequential reading continues after such a fetch with the documents that follow the fetched one, and the references of a collection are distinct and increase in file order.",
  ["histories"], "all interleavings of sequential reading, block reading, seeking and fetching",
  "Tests fetch a few references on a fresh reader.",
  [S], [("MsgpackDocumentReader.get/seek/readblock/__next__", S), ("MsgpackDocumentBlock", S)], ["documents and refs returned by the reader"])

p("C14", "An interrupted collection file reads as a prefix of its blocks",
  "If writing stops at any point, so that the file ends after any number of bytes, reading returns exactly the documents of the blocks that are completely in the file, in order, and then ends. No document is invented, altered, duplicated or dropped from a complete block; documents flushed before the interruption are always recovered.",
  ["crash_points", "histories"], "every byte position at which a file can be cut, for every write/flush history",
  "No test reads a truncated file.",
  [S], [("MsgpackDocumentReader.readblock", S), ("MsgpackDocumentWriter.flush", S)], ["documents read from every prefix of the file"])

p("C15", "Boundary framing is transparent and self-synchronising",
  "Data written through the boundary framing in any pieces reads back unchanged in any pieces and from any offset. The framed stream carries the boundary size in its first byte and, at every multiple of the boundary size that is followed by data, a four byte marker with the signed distance to the last block start declared by the writer; positions reported by the reader are positions in the unframed data, and a collection written through the framing reads like an unframed one.",
  ["inputs", "histories", "configurations"], "all boundary sizes, all partitions of the data in writes, splits, reads and seeks",
  "Tests cover one pattern of writes and reads per boundary size.",
  [S], [("_BoundaryWriter/_BoundaryReader", S)], ["framed bytes", "bytes read", "offsets"])

p("C16", "Index search returns exactly the matching documents",
  "Searching an index of one file or of a directory of files returns exactly the documents whose indexed properties equal all given values, each once and, within a file, in file order, decoded or lazily as asked. A saved and reloaded index gives the same answers, also from another working directory, and a property that was not indexed or a value that does not occur gives no result.",
  ["inputs", "histories", "configurations"], "all sets of documents, property values, condition combinations, block sizes and directory layouts",
  "Tests index a few documents with one property.",
  [S], [("DocumentFileIndex.build/search", S), ("DocumentIndex", S)], ["documents returned by search"])

p("C17", "Graph traversals visit exactly the reachable nodes in the stated order",
  "Breadth first search emits every node reachable from the start exactly once, in non-decreasing distance and with its exact distance; depth first search emits every reachable node exactly once in preorder of the child order; the leaf variant emits exactly the reachable nodes without children in that order. The result predicate only filters the output, self loops, cycles and shared children are handled, and the children of a node are those in the named fields in the given field order.",
  ["inputs"], "all graphs over node reference fields, all start nodes, all field selections and filters",
  "Tests traverse one small tree.",
  [A], [("bfs/dfs/dfs_leaves/children_of", A)], ["emitted sequence"])

p("C18", "Grouping by span assigns exactly the overlapping nodes",
  "Every group node with a span appears once, ordered by span start, with, for each named layer, exactly the nodes whose span intersects the group's span (or is covered by it, for the cover resolution), each once. Nodes and groups without span are ignored, touching spans do not intersect, empty groups are kept or dropped as asked, and the input nodes are not changed.",
  ["inputs"], "all multisets of group and member spans including nested, equal, touching and empty ones",
  "Tests use one sentence/token example.",
  [A], [("group_by_span", A)], ["returned groups"])

p("C19", "Overlap resolution keeps a disjoint set of dominant segments",
  "Resolving overlapping segments returns segments of the input, each at most once, in order and pairwise not overlapping. A segment that overlaps no other is always kept, and of segments that cover the same range or begin together exactly the dominant one (longest, then rightmost, then last given) can remain; every segment that was dropped overlaps a segment that dominates it.",
  ["inputs"], "all sequences of segments",
  "Tests use one list of segments.",
  [A], [("dominant_right/dominant_right_span", A)], ["returned list"])

p("C20", "Token sequences are located at matching, ordered positions",
  "Converting a token sequence to text spans returns one span per token, in order and never overlapping, inside the requested range; every span with length has exactly the characters of its token. A token that occurs in the rest of the range is located at its first occurrence after the previous match unless one of the next tokens within the look-ahead occurs earlier, in which case such a token is matched first, and a token that is skipped or not found gets an empty span at the position after the previous match.",
  ["inputs"], "all texts, token sequences, ranges and look-ahead values",
  "Tests align one sentence.",
  [A], [("sequence_to_textspans", A)], ["returned spans"])

p("C21", "Span translation moves spans by their mapping interval",
  "For a layer of non-empty spans over an extracted text and a mapping of non-overlapping, non-empty intervals to the original text, every node without target span gets the span in the original text that has the same offsets relative to the mapping intervals containing its first and last character. Nodes that already have a target span, the mapping and all other data are unchanged, and a span that begins or ends outside all intervals is refused.",
  ["inputs"], "all mappings of disjoint intervals in any order, including adjacent and reordered ones, and all spans",
  "Tests translate one example.",
  [A], [("span_translate", A)], ["target spans"])

p("C22", "Queries select exactly the matching nodes in order",
  "Filtering a layer, node list, node span or query by any combination of field predicates (comparison, membership, presence, span cover or intersection, functions, and, or, not) yields exactly the nodes for which the combination is true, in the order of the source. The result is a snapshot that changes only on update, gives the field views of exactly its nodes, can be queried and sliced further, and evaluating it changes no data.",
  ["inputs", "histories"], "all predicate expressions over all field types, nested queries, with edits between query and update",
  "Tests evaluate a few single predicates.",
  [M, Q], [("NodeCollectionQuery, NodeFieldCollection", M), ("predicates", Q)], ["nodes of query results"])

p("C23", "Removing a layer never leaves a declared reference to it",
  "Removing a layer that a field of another layer refers to (single, list or span reference) is refused and changes nothing, unless cascading is requested, in which case exactly the referring fields are removed with their values. Removal reports whether the layer existed, leaves all other layers, texts and properties unchanged, and the remaining document is encodable if it was before.",
  ["histories"], "all schemas with any reference graph between layers, including self references, removed in any order",
  "Tests remove one unreferenced layer.",
  [M], [("remove_layer", M)], ["layers and schemas before/after", "result or refusal", "encodability"])

p("C24", "The XML export is well-formed and faithful",
  "For every valid document and every export option the XML export is well-formed and contains the properties, schema, text segments, and per layer the nodes in order with all their field values, references, node spans and text spans, from which the document content can be recovered. The same holds for any names of layers, fields and texts: simple values whose field name cannot name an attribute appear as elements with name and value. Characters that XML cannot represent are replaced by a space and nothing else is altered; names that differ only in such characters are not told apart.",
  ["inputs", "configurations"], "all valid documents including control and astral characters, all option combinations",
  "Tests only export one document without looking at the content.",
  [C], [("XmlCodec", C)], ["parsed XML tree"])

p("C25", "Presentation never fails, never lies and never modifies",
  "Rendering any node, layer, list, span, query, predicate, field view or document as text or HTML succeeds under all display options and changes nothing. Each displayed row shows the values of that node, each predicate its fields, comparisons and values, the debug output of an encoded document each layer with its number of nodes and columns; rows and columns appear completely or are abridged only beyond the configured limits and visibly so, lines are wrapped at the display width, and in HTML all content is escaped.",
  ["inputs", "configurations"], "all contents (special characters, absent values, dangling nodes, wide and long tables) and all option values",
  "Tests only check that printing one object does not raise.",
  ["py/docria/printout.py", M], [("Table rendering, truncation, escaping", "py/docria/printout.py")], ["rendered text and HTML", "projection before/after"])

p("C26", "Node lists and views behave like the sequences they show",
  "Slices, index lists, field views and table conversions of a layer or node list contain exactly the selected live nodes (or their field values, none where absent) in order, as Python sequences would. A list of nodes from several layers has, for every field, the joined type of the layers' declarations (boolean below 32-bit below 64-bit below floating point) and is refused if the types cannot be joined.",
  ["inputs", "histories"], "all slices, index lists and layer states; all combinations of field types",
  "Tests slice one layer and merge identical schemas.",
  [M], [("NodeList, NodeFieldCollection, to_pandas", M), ("cast_up", M)], ["list contents", "field types"])

p("C27", "Incomplete or foreign data is refused, not decoded into something else",
  "Decoding any strict prefix of an encoded document (MessagePack from bytes, a stream, a file, lazily or embedded in a field; JSON; pickle) reports an error (and not the end of an iteration), and every part requested from a lazily opened prefix either equals that part of the complete document or reports an error. Data that is not a document or collection is refused by every reader: without the signature, with an unknown codec, advanced header, column encoding, field type, framing boundary, layer or text, lacking a required part, or with positions beyond the end of their layer or text. Collection writers refuse everything but valid documents and encoded documents, and the collection is then exactly what writing only the accepted ones gives.",
  ["inputs", "crash_points", "fault_sequences"], "every prefix length of every encoded document, every request to a lazily opened prefix, all kinds of foreign data, and every interleaving of accepted and refused items written to a collection",
  "Tests only decode complete documents and write valid ones; a truncated transfer or a wrong file must be noticed wherever it is cut.",
  [C, S], [("MsgpackCodec.decode, MsgpackDocument, JsonCodec.decode", C), ("header checks of MsgpackDocumentReader, type check of MsgpackDocumentWriter.write", S)], ["error or decoded document projection", "documents in the collection"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert r["statement"].count(". ") <= 2, (r["id"], r["statement"].count(". "))
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P))
