"""Data that is no complete document: prefixes of encodings, other formats, and writers given something else."""
import io, json, os, pickle, random, shutil, tempfile
import mpk
from docria.codec import MsgpackCodec, MsgpackDocument, JsonCodec
from docria.collection import (MsgpackDocumentWriter, MsgpackDocumentReader, MsgpackDocumentIO, DocumentIO, DocumentReader, TarMsgpackReader, TarMsgpackWriter,
                               _BoundaryReader, _BoundaryWriter, get_codec)
from docria.model import Document, DataTypes as T, Node
from docproj import random_document, project, canon

CASE_TIMEOUT = 60
SCRATCH = None
ERR = Exception


def document(r):
    """A random valid document and its encoding."""
    while True:
        d = random_document(r, jsonable=True, size=r.choice([0, 1, 3, 8]))
        try:
            return d, MsgpackCodec.encode(d)
        except ERR:
            continue


def ends(b):
    """Ends of the properties, the schema, the texts and of every layer."""
    d, out = mpk.read_document(b), []
    p = 4 + len_of(b, 4) + d["propsLen"]
    out.append(p)
    r = mpk.Reader(b, p)
    r.value()
    for l in d["layers"]:
        r.value()
        for _ in l["fields"]:
            has = (r.value(), r.value(), r.value())[1]
            if has[1]:
                r.value()
    out.append(r.p)
    for n in [d["textsLen"]] + [l["len"] for l in d["layers"]]:
        out.append(out[-1] + len_of(b, out[-1]) + n)
    return out


def len_of(b, p):
    r = mpk.Reader(b, p)
    r.value()
    return r.p - p


def dig(x):
    return json.dumps(x, sort_keys=True)


def pdoc(d):
    return dig(project(d))


def look(m, q):
    """One request to an encoded document, as comparable text."""
    if q[0] == "props":
        return dig(sorted([repr(k), canon(v)] for k, v in m.properties(*q[1:]).items()))
    if q[0] == "texts":
        return dig({k: "".join(v) for k, v in m.texts(*q[1:]).items()})
    if q[0] == "schema":
        ts, sc = m.schema()
        return dig([[k, [[f, repr(dt)] for f, dt in sc[k]]] for k in ts])
    return pdoc(m.document(*q[1:]))


def closed(doc, r):
    refs = {k: {dt.options["layer"] for dt in l.schema.fields.values() if "layer" in dt.options} for k, l in doc.layers.items()}
    s = set(r.sample(sorted(doc.layers), r.randint(1, len(doc.layers))))
    while any(not refs[k] <= s for k in s):
        s |= {x for k in list(s) for x in refs[k]}
    return sorted(s)


def outcome(f, want):
    """As one of many: an answer that ends the iteration instead is no error."""
    try:
        got = list(map(lambda _: f(), [0]))
    except ERR:
        return "error"
    return "same" if got == [want] else "other"


def run_prefix(c):
    r = random.Random(c["seed"])
    doc, b = document(r)
    full = pdoc(MsgpackCodec.decode(b))
    total = len(b)
    if "want" in c:                                          # the model's place of the cut, on this encoding's sections
        es = [0] + ends(b)
        k = min(c["cut"] // c["size"] * (len(es) - 1) // c["n"], len(es) - 1)
        within = c["cut"] % c["size"]
        w = es[k + 1] - es[k] if k + 1 < len(es) else 0
        cut = total if c["cut"] == c["n"] * c["size"] else es[k] + min([0, 1, w // 2, w - 1, w][within * 4 // c["size"] if within else 0], w)
    else:
        cut = r.choice([total, total - 1, total - 1, total - 2, r.randint(0, total), r.randint(0, total), r.randint(0, min(total, 8))])
    cut = max(0, min(cut, total))
    p = b[:cut]
    reads = []

    def read(whole, by, f, want=full):
        reads.append(dict(whole=whole, by=by, r=outcome(f, want)))
    if c["mode"] == "decode":
        read(True, "bytes", lambda: pdoc(MsgpackCodec.decode(p)))
        read(True, "stream", lambda: pdoc(MsgpackCodec.decode(io.BytesIO(p))))
        read(True, "lazy", lambda: pdoc(MsgpackDocument(p).document()))

        def file():
            with tempfile.TemporaryFile(buffering=r.choice([0, -1])) as f:
                f.write(p)
                f.seek(0)
                return pdoc(MsgpackCodec.decode(f))
        read(True, "file", file)

        def embedded():                                      # the prefix as a value in another document
            o = Document()
            o.add_layer("o", d=T.ext("doc")).add(d=p)
            v = MsgpackCodec.decode(MsgpackCodec.encode(o))["o"].first().get("d")
            return pdoc(v) if isinstance(v, Document) else "no document"
        read(True, "embedded", embedded)
    elif c["mode"] == "json":
        s = JsonCodec.encode(doc)
        s = s if isinstance(s, str) else s.decode("utf-8")
        want = pdoc(JsonCodec.decode(s))
        total = len(s.rstrip())
        cut = min(total, r.choice([total, total - 1, total - 2, r.randint(0, total), r.randint(0, total)]))
        read(True, "json", lambda: pdoc(JsonCodec.decode(s[:cut])), want)
        read(True, "json-bytes", lambda: pdoc(JsonCodec.decode(s[:cut].encode("utf-8"))), want)
    elif c["mode"] == "pickle":
        s = pickle.dumps(doc, r.choice([2, 4, 5]))
        total, cut = len(s), min(len(s), r.choice([len(s), len(s) - 1, r.randint(0, len(s)), r.randint(0, len(s))]))
        read(True, "pickle", lambda: pdoc(pickle.loads(s[:cut])))
    else:
        m0 = MsgpackDocument(b)
        try:
            m = MsgpackDocument(p if c["mode"] == "lazy" else io.BytesIO(p))
        except ERR:
            m = None
            reads.append(dict(whole=True, by="open", r="error"))
        for _ in range(r.randint(1, 6) if m is not None else 0):
            props, texts = sorted(doc.props), sorted(doc.texts)
            q = r.choice([("props",), ("props", *r.sample(props, min(1, len(props)))), ("schema",), ("texts",), ("texts", *r.sample(texts, min(1, len(texts)))),
                          ("document",), ("document",)] + ([("document", *closed(doc, r))] if doc.layers else []))
            want = look(m0, q)
            read(q == ("document",), q[0], lambda: look(m, q), want)
            if r.random() < .2:
                m = pickle.loads(pickle.dumps(m)) if cut >= 4 else m
    return dict(total=total, cut=cut, reads=reads, foreign=[], writes=[])


# -- other data -----------------------------------------------------------------------------------------
def header(codec="none", cap=128, advanced=False, magic=b"Dmf1"):
    return magic + mpk.pack(codec) + mpk.pack(cap) + mpk.pack(advanced)


def run_foreign(c):
    r = random.Random(c["seed"])
    doc, b = document(r)
    k = io.BytesIO()
    k.close = lambda: None
    with MsgpackDocumentWriter(k) as w:
        w.write(doc)
        w.write(doc)
    coll = k.getvalue()
    js = JsonCodec.encode(doc)
    js = js if isinstance(js, str) else js.decode("utf-8")
    out = []

    def refuse(what, f):
        out.append(dict(what=what, r="error" if outcome(lambda: f() and None, 0) == "error" else "accepted"))

    def flipped(x, i):
        return x[:i] + bytes([x[i] ^ r.choice([1, 2, 4, 8, 16, 32, 64, 128])]) + x[i + 1:]

    def every(what, data):                                   # every reader of documents
        refuse(what + " decode", lambda: MsgpackCodec.decode(data))
        refuse(what + " stream", lambda: MsgpackCodec.decode(io.BytesIO(data)))
        refuse(what + " open", lambda: MsgpackDocument(data).document())
        refuse(what + " open stream", lambda: MsgpackDocument(io.BytesIO(data)).document())

    def reader(what, data):
        refuse(what + " reader", lambda: list(MsgpackDocumentReader(io.BytesIO(data))))
        refuse(what + " io", lambda: list(MsgpackDocumentIO.readfile(io.BytesIO(data))))
        refuse(what + " documents", lambda: list(DocumentIO.readfile(io.BytesIO(data))))
    for i in range(4):
        every("signature %d" % i, flipped(b, i))
    for what, data in (("empty", b""), ("json", js.encode("utf-8")), ("collection", coll), ("framed", b"\x14" + b), ("shifted", b[1:])):
        every(what, data)
    for i in range(4):
        reader("signature %d" % i, flipped(coll, i))
    for what, data in (("empty", b""), ("document", b), ("json", js.encode("utf-8")), ("framed", b"\x14" + coll), ("unknown codec", header("nosuch") + coll[-9:]),
                       ("codec of another kind", header(None) + coll[-9:]), ("advanced", header(advanced=True) + coll[-9:]),
                       ("header only in part", coll[:r.randint(0, 6)])):
        reader(what, data)
    for x in (None, 7, "text", [b], {"doc": b}, Node(), doc.props):
        refuse("open %s" % type(x).__name__, lambda: MsgpackDocument(x))
    for v in (r.randint(0, 11), r.randint(31, 255), 11, 31, 0, 255):
        refuse("boundary %d" % v, lambda: _BoundaryReader(io.BytesIO(bytes([v]) + coll)))
        refuse("boundary to write %d" % v, lambda: _BoundaryWriter(io.BytesIO(), boundary=v))
    refuse("boundary of nothing", lambda: _BoundaryReader(io.BytesIO(b"")))
    # JSON
    o = json.loads(js)
    top = o["DM10"]
    for what, x in (("list", [o]), ("string", js), ("number", 3), ("none", None), ("true", True), ("nothing", {}), ("no signature", top), ("other signature", {"DM1": top}),
                    ("lower case", {"dm10": top})):
        refuse("json " + what, lambda: JsonCodec.decode(json.dumps(x)))
    for key in sorted(top):
        if not (any(top[key].values()) if key == "types" else top[key]):
            continue                                         # nothing is missing
        refuse("json without " + key, lambda: JsonCodec.decode(json.dumps({"DM10": {a: v for a, v in top.items() if a != key}})))
    refuse("json of a document", lambda: JsonCodec.decode(b))
    # declarations and positions that mean nothing
    n = r.randint(1, 5)

    def wrote(fields, cols, texts=(), size=n):
        return mpk.write_document({}, [("l", fields, size, cols)], list(texts), r.choice([0, 1, 2]))
    every("unknown type", wrote([("f", r.choice(["i16", "", "I32", "node"]), None)], [[None] * n]))
    far = r.choice([n, n + 1, 300, 70000])
    pad = [None] * (n - 1)
    every("reference outside", wrote([("f", "noderef", {"layer": "l"})], [pad + [far]]))
    every("list with a reference outside", wrote([("f", "noderef_array", {"layer": "l"})], [pad + [[0, far]]]))
    every("node span outside", wrote([("f", "nodespan", {"layer": "l"})], [pad + [[n - 1, r.choice([1, 2, far])]]]))
    every("no such layer", wrote([("f", "noderef", {"layer": "other"})], [pad + [0]]))
    every("span outside", wrote([("f", "span", {"context": "main"})], [[None, None] * (n - 1) + [0, r.choice([3, 4, far + 2])]], [("main", ["a", "b"])]))
    for t, args, col in r.sample([("i32", None, [7] * n), ("str", None, ["a"] * n), ("noderef", {"layer": "l"}, [0] * n), ("span", {"context": "main"}, [0, 1] * n), ("noderef_array", {"layer": "l"}, [[0]] * n)], 2):
        b2 = mpk.write_document({}, [("l", [("e", "i32", None), ("f", t, args)], n, [[1] * n, col])], [("main", ["a", "b"])], r.choice([0, 1, 2]), special=("f",))
        every("column of another encoding, " + t, b2)
    m = pickle.dumps(MsgpackDocument(b), r.choice([2, 4, 5]))
    if m.count(b"DM_1") == 1:
        refuse("pickle with another signature", lambda: pickle.loads(m.replace(b"DM_1", b"DM_" + bytes([r.choice(b"023aZ")]))))
    return dict(total=0, cut=0, reads=[], foreign=out, writes=[])


# -- writers --------------------------------------------------------------------------------------------
def wrong(r):
    """Something a collection cannot hold."""
    bad = Document()
    bad.maintext = "abc"
    l = bad.add_layer("x", v=T.int32(None), r=T.noderef("x"), s=T.span())
    k = r.randint(0, 12)
    if k == 0:
        bad.add_layer("y", r=T.noderef("nosuch"))
    elif k == 1:
        bad.add_layer("y", s=T.span("nosuch"))
    elif k == 2:
        l.add()["v"] = "text"
    elif k == 3:
        l.add()["extra"] = 1
    elif k == 4:
        n = l.add()
        m = l.add(r=n)
        l.remove(n)
    elif k == 5:
        l.add()["v"] = 2**31
    elif k == 6:
        bad.props["p"] = object()
    else:
        return [None, "text", b"DM_1", MsgpackCodec.encode(Document()), {}, Node(), l, l.to_list() if hasattr(l, "to_list") else [], io.BytesIO(MsgpackCodec.encode(Document()))][r.randint(0, 8)]
    return bad


def run_writes(c):
    r = random.Random(c["seed"])
    docs = [document(r) for _ in range(c["n"])]
    for i, (d, b) in enumerate(docs):
        d.props["i"] = i
    docs = [(d, MsgpackCodec.encode(d)) for d, b in docs]
    writes = []
    for sink in r.sample(["plain", "framed", "tar", "file"], 2):
        ops = [0 if r.random() < .3 else -1 if r.random() < .1 else r.randint(1, len(docs)) for _ in range(r.randint(1, 8))]
        limit = 0 if sink == "tar" else r.choice([1, 2, 3, 128])
        if limit:
            ops = [x for o in ops for x in ([o, -2] if r.random() < .2 else [o])]
        base = tempfile.mkdtemp(dir=SCRATCH)
        path = os.path.join(base, "x")
        kw = dict(num_docs_per_block=limit, codec=get_codec(r.choice(["none", "zip", "lzma"])))
        w = {"plain": lambda: MsgpackDocumentWriter(open(path, "wb"), **kw), "file": lambda: DocumentIO.write(path, **kw),
             "framed": lambda: MsgpackDocumentWriter(_BoundaryWriter(open(path, "wb"), boundary=12), **kw),
             "tar": lambda: TarMsgpackWriter(path)}[sink]()
        refused = []
        for o in ops:
            refused.append(False)
            if o == -2:
                w.flush()
                continue
            b = docs[max(o, 1) - 1][1]
            x = (wrong(r) if o == 0 else MsgpackDocument(b[:r.randint(4, len(b) - 1)]) if o == -1
                 else docs[o - 1][0] if r.random() < .5 else MsgpackDocument(b))
            opts = {}                                       # options count for that document only
            if o > 0 and sink != "tar" and isinstance(x, Document) and r.random() < .5:
                if r.random() < .5:
                    opts = r.choice([dict(type_validation=False), dict(extra_fields_ok=True), dict(extra_fields_ok=False, type_validation=True)])
                else:
                    x = MsgpackCodec.decode(b)
                    for l in x.layers.values():
                        for n in l:
                            n["not declared"] = r.choice([1, "x", object()])
                    opts = dict(extra_fields_ok=True)
            try:
                w.write(x, **opts)
            except ERR:
                refused[-1] = True
        w.close()
        num = {pdoc(MsgpackCodec.decode(b)): i for i, (d, b) in enumerate(docs, 1)}
        rd = {"plain": lambda: MsgpackDocumentReader(path), "file": lambda: MsgpackDocumentIO.read(path), "tar": lambda: TarMsgpackReader(path),
              "framed": lambda: MsgpackDocumentReader(_BoundaryReader(open(path, "rb")))}[sink]
        back = []
        for m in rd():
            try:
                back.append(num.get(pdoc(m.document()), -3))
            except ERR:
                back.append(-1)
        seq, failed = [], False
        try:
            for d in DocumentIO.read(path) if sink in ("plain", "file") else DocumentReader(rd()):
                seq.append(num.get(pdoc(d), -3))
        except ERR:
            failed = True
        blocks = [len(list(bl)) for bl in rd().blocks()] if limit else []
        writes.append(dict(sink=sink, ops=ops, refused=refused, back=back, docs=seq, failed=failed, limit=limit, blocks=blocks))
        shutil.rmtree(base, ignore_errors=True)
    return dict(total=0, cut=0, reads=[], foreign=[], writes=writes)


def run(c):
    return {"foreign": run_foreign, "writes": run_writes}.get(c["mode"], run_prefix)(c)


def cases(r, tier, prop, tlc):
    big = tier == "thorough"
    for t in tlc:
        for mode in ("decode", "lazy"):
            for _ in range(6 if big else 1):
                yield dict(cls="model/" + mode, mode=mode, seed=r.getrandbits(40), **t)
    for mode, n in (("decode", 300), ("lazy", 400), ("lazy-stream", 200), ("json", 300), ("pickle", 200), ("foreign", 60)):
        for _ in range(n * (10 if big else 1)):
            yield dict(cls=mode, mode=mode, seed=r.getrandbits(40))
    for _ in range(1500 if big else 150):
        yield dict(cls="writes", mode="writes", n=r.randint(1, 5), seed=r.getrandbits(40))
