"""Encoding and decoding: model documents, random documents, documents at size limits, independently written bytes,
sequences of partial accesses, pickling; everything is recorded as plain data for spec/JudgeCodec.tla."""
import copy, hashlib, io, json, os, pickle, random, subprocess, sys, tempfile
import mpk
from docria.codec import MsgpackCodec, JsonCodec, XmlCodec, MsgpackDocument, MsgpackDocumentExt, MsgpackDocumentExt
from docria.model import Document, DataTypes as T, DataType2String, DataTypeEnum as E, Node, NodeCollection, NodeSpan, ExtData, TextSpan
from docobs import atom, fatom
from docproj import project, canon, random_document, rebuild, build, dochash, NAMECH

CASE_TIMEOUT = 60


def sha(b):
    return hashlib.sha1(b if isinstance(b, bytes) else b.encode("utf-8", "surrogatepass")).hexdigest()


# -- wire form ------------------------------------------------------------------------------------
def tcanon(tv):
    k, v = tv
    if k in ("nil", "bool"):
        return repr(v)
    if k == "int":
        return "i%d" % v
    if k == "float":
        return "f" + fatom(v)
    if k == "str":
        return "s'" + atom(v) + "'"
    if k == "bin":
        return "b" + v.hex()
    if k == "arr":
        return "[" + ",".join(tcanon(x) for x in v) + "]"
    if k == "map":
        return "{" + ",".join(sorted(tcanon(a) + ":" + tcanon(b) for a, b in v)) + "}"
    return "?" + k


def token(tv, t, isdoc):
    k, v = tv
    r = dict(k=k, s="", e=[])
    if k == "bool":
        r["s"] = str(v)
    elif k == "int":
        r["s"] = str(v)
        if t in ("span", "noderef"):
            r["e"] = [v]
    elif k == "float":
        r["s"] = fatom(v)
    elif k == "str":
        r["s"] = atom(v)
    elif k == "bin":
        if isdoc:
            r.update(k="doc", s=dochash(MsgpackCodec.decode(v)))
        else:
            r["s"] = v.hex()
    elif k == "arr":
        r["e"] = [x[1] if x[0] == "int" else -9 for x in v]
    elif k != "nil":
        r["k"] = "?" + k
    return r


def wire(b):
    """The parts of encoded bytes as tokens; a layout that cannot be read is a wire of its own."""
    bad = dict(ok=False, why="", magic=False, propsLen=0, propsUsed=0, textsLen=0, textsUsed=0, rest=0, props=[], texts=[], layers=[])
    try:
        d = mpk.read_document(b)
    except Exception as e:
        bad["why"] = atom(repr(e))[:200]
        return bad
    ls = []
    for l in d["layers"]:
        fs, cols = [], []
        for (f, t, has, args), col in zip(l["fields"], l["cols"]):
            a = sorted([atom(mpk.r_str(k)), tcanon(v)] for k, v in args)
            fs.append(dict(f=atom(f), t=t, a=a))
            isdoc = t == "ext" and ["type", "s'doc'"] in a
            cols.append([token(x, t, isdoc) for x in col])
        ls.append(dict(name=atom(l["name"]), n=l["n"], fields=fs, cols=cols, len=l["len"], used=l["used"], special=l["special"]))
    return dict(ok=True, why="", magic=d["magic"], propsLen=d["propsLen"], propsUsed=d["propsUsed"], textsLen=d["textsLen"],
                textsUsed=d["textsUsed"], rest=d["rest"],
                props=[dict(k=atom(k[1]) if k[0] == "str" else "?" + tcanon(k), v=tcanon(v)) for k, v in d["props"]],
                texts=[dict(name=atom(k), segs=[[ord(c) for c in s] for s in v]) for k, v in d["texts"]],
                layers=ls)


def write(doc, wide, extra=()):
    """Encoded bytes of a document, by an independent writer; extra: further text boundaries."""
    bounds = {k: {0, len(t.text)} | {x for x in extra if x <= len(t.text)} for k, t in doc.texts.items()}
    for l in doc.layers.values():
        for f, dt in l.schema.fields.items():
            if dt.typename == E.SPAN:
                for n in l:
                    if f in n:
                        bounds[dt.options["context"]] |= {n[f].start, n[f].stop}
    order = {k: sorted(v) for k, v in bounds.items()}
    num = {k: {x: i for i, x in enumerate(v)} for k, v in order.items()}
    pos = {id(n): i for l in doc.layers.values() for i, n in enumerate(l)}
    layers = []
    for name, l in doc.layers.items():
        cols = []
        for f, dt in l.schema.fields.items():
            t, col = dt.typename, []
            for n in l:
                v = n[f] if f in n else None
                if t == E.SPAN:
                    m = num[dt.options["context"]]
                    col += [None, None] if v is None else [m[v.start], m[v.stop]]
                elif v is None:
                    col.append(None)
                elif t in (E.I32, E.I64):
                    col.append(int(v))
                elif t == E.NODEREF:
                    col.append(pos[id(v)])
                elif t == E.NODEREF_MANY:
                    col.append([pos[id(x)] for x in v] or None)
                elif t == E.NODEREF_SPAN:
                    col.append([pos[id(v.left)], pos[id(v.right)] - pos[id(v.left)]])
                elif t == E.EXT:
                    v = v.data if isinstance(v, ExtData) else v
                    col.append(v if isinstance(v, bytes) else write(v, wide))
                else:
                    col.append(v)
            cols.append(col)
        layers.append((name, [(f, DataType2String[dt.typename], dict(dt.options) or None) for f, dt in l.schema.fields.items()], len(list(l)), cols))
    texts = [(k, [t.text[a:b] for a, b in zip(order[k], order[k][1:])]) for k, t in doc.texts.items()]
    return mpk.write_document(dict(doc.props), layers, texts, wide)


# -- documents ------------------------------------------------------------------------------------
def sized(r, n, kind):
    """Documents at the limits of the length fields."""
    doc = Document()
    if kind == "nodes":
        doc.maintext = "a\U0001F600b"
        l = doc.add_layer("l", v=T.int32(None), h=T.noderef("l"), s=T.textspan())
        ns = [Node() for _ in range(n)]
        l.add_many(ns, default_fill=False)
        for i in {0, n - 1, n // 2, 15, 16, 255, 256, 65534, 65535} & set(range(n)):
            ns[i]["v"], ns[i]["h"], ns[i]["s"] = i, ns[n - 1 - i], doc.maintext[1:2]
    elif kind == "spans":
        doc.maintext = "".join(r.choice("ab\u00e5\U0001F600 ") for _ in range(n))
        l = doc.add_layer("l", s=T.textspan())
        for i in range(n):
            l.add(s=doc.maintext[i:i + 1])
    elif kind == "text":
        doc.maintext = "".join(r.choice("ab\u00e5\U0001F600 ") for _ in range(n))
        l = doc.add_layer("l", s=T.textspan(), p=T.nodespan("l"))
        cuts = sorted(r.sample(range(n + 1), 8))
        ns = [l.add(s=doc.maintext[a:b]) for a, b in zip(cuts, cuts[1:])]
        ns[0]["p"] = NodeSpan(ns[1], ns[-1])
    elif kind == "longseg":
        for nm, a in (("main", "a\u00e5\U0001F600"[r.randrange(3)]), ("alt", "b")):
            doc.add_text(nm, a * n + "xyz" + "c" * (n // 2))
        doc.add_text("free", "f\u00e5" * (n // 2))             # no span refers to it
        doc.add_text("declared", "d" * n)                      # a field could, no node does
        l = doc.add_layer("l", s=T.textspan(), t=T.textspan("alt"), d=T.textspan("declared"))
        l.add(s=doc.texts["main"][n:n + 1], t=doc.texts["alt"][0:n])
        l.add(s=doc.texts["main"][n + 1:n + 3], t=doc.texts["alt"][n:n + 3])
    elif kind == "farspans":
        l = doc.add_layer("l", p=T.nodespan("l"), h=T.noderef("l"))
        ns = [Node() for _ in range(n)]
        l.add_many(ns)
        for i in range(0, n, max(1, n // 7)):
            ns[i]["p"], ns[i]["h"] = NodeSpan(ns[i // 2], ns[n - 1 - i // 3]), ns[n - 1 - i]
    elif kind == "props":
        for i in range(n):
            doc.props["k%d" % i] = i
        doc.maintext = "x"
        doc.add_layer("l", s=T.textspan()).add(s=doc.maintext[:])
    elif kind == "propsbytes":
        doc.props["x"] = "y" * n
        doc.maintext = "xyz"
        doc.add_layer("l", s=T.textspan()).add(s=doc.maintext[1:2])
    elif kind == "layers":
        doc.maintext = "xyz"
        for i in range(n):
            doc.add_layer("l%d" % i, s=T.textspan(), r=T.noderef("l%d" % (n - 1 - i)))
        for i in range(n):
            doc.layers["l%d" % i].add(s=doc.maintext[i % 3:])
        for i in range(n):
            doc.layers["l%d" % i].first()["r"] = doc.layers["l%d" % (n - 1 - i)].first()
    elif kind == "fields":
        l = doc.add_layer("l", **{"f%d" % i: T.int32(None) for i in range(n)})
        l.add(**{"f%d" % i: i for i in range(0, n, 2)})
        l.add()
    elif kind == "texts":
        for i in range(n):
            doc.add_text("t%d" % i, "ab" * (i % 3))
        l = doc.add_layer("l", **{"f%d" % i: T.textspan("t%d" % i) for i in range(min(n, 30))})
        l.add(**{"f%d" % i: doc.texts["t%d" % i][0:1] for i in range(min(n, 30))})
    elif kind == "string":
        l = doc.add_layer("l", s=T.string(None), b=T.binary)
        for k in (n - 1, n, n + 1):
            l.add(s="\u00e5" * (k // 2) + "x" * (k % 2), b=b"\xff" * k)
    elif kind == "refs":
        l = doc.add_layer("l", m=T.noderef_many("l"))
        ns = [l.add() for _ in range(n)]
        ns[0]["m"] = ns[::-1]
        ns[-1]["m"] = ns[:3] * 2
    elif kind == "nested":
        v = 1
        for i in range(n):
            v = [v] if i % 2 else {"k": v, "l": []}
        doc.props["x"] = v
    return doc


def make(c):
    k = c["kind"]
    if k == "model":
        return build(c["D"])
    r = random.Random(c["seed"])
    if k == "sized":
        return sized(r, c["n"], c["what"])
    return random_document(r, jsonable=c.get("jsonable", False), size=c.get("size"))


# -- running --------------------------------------------------------------------------------------
class Out:
    def __init__(self):
        self.docs, self.ix = [], {}
        self.o = dict(docs=self.docs, d0=1, after=[], dec=[], same=[], flags=[], wires=[], reqs=[])

    def doc(self, d, **kw):
        p = project(d, **kw)
        h = sha(json.dumps(p))
        if h not in self.ix:
            self.docs.append(p)
            self.ix[h] = len(self.docs)
        return self.ix[h]

    def dec(self, clause, d):
        self.o["dec"].append(dict(c=clause, d=self.doc(d, decoded=True)))

    def flag(self, clause, ok):
        self.o["flags"].append(dict(c=clause, ok=bool(ok)))

    def same(self, clause, *bs):
        self.o["same"].append(dict(c=clause, h=[sha(b) for b in bs]))


def consecutive(doc):
    return all([n.i for n in l] == list(range(len(l))) for l in doc.layers.values())


def run(c):
    return globals()["run_" + c["mode"]](c)


def start(c):
    doc = make(c)
    o = Out()
    o.o["d0"] = o.doc(doc)
    return doc, o


def run_msgpack(c):                                          # C06
    doc, o = start(c)
    b = MsgpackCodec.encode(doc)
    o.dec("C06.decoded", MsgpackCodec.decode(b))
    o.dec("C06.stream", MsgpackCodec.decode(io.BytesIO(b)))
    k = len(b) % 4
    o.dec("C06.stream", MsgpackCodec.decode(stream(["stream-at", "file", "file-at", "file-raw"][k], b + b"DM_1\x01\x80"[:len(b) % 7], 1 + k)))
    o.dec("C06.lazy", MsgpackDocument(b).document())
    o.dec("C06.lazy", MsgpackDocument(doc).document())
    o.dec("C06.embedded", MsgpackDocumentExt(b).decode())
    o.dec("C06.embedded", MsgpackCodec.decode(MsgpackDocumentExt(doc).encode()))
    o.dec("C06.twice", MsgpackCodec.decode(MsgpackCodec.encode(MsgpackCodec.decode(b))))
    o.dec("C06.history", MsgpackCodec.decode(MsgpackCodec.encode(rebuild(doc))))
    return o.o


def run_written(c):                                          # C06: bytes of an independent writer
    doc, o = start(c)
    b = write(doc, c["wide"], c["extra"])
    o.o["wires"].append(dict(c="C06.harness", exact=False, w=wire(b)))
    o.dec("C06.written", MsgpackCodec.decode(b))
    o.dec("C06.written-lazy", MsgpackDocument(b).document())
    return o.o


def run_json(c):                                             # C07
    doc, o = start(c)
    s = JsonCodec.encode(doc)
    odd = []
    parsed = json.loads(s, parse_constant=lambda x: odd.append(x) or float(x.replace("Infinity", "inf")))
    o.flag("C07.text", isinstance(s, str) and all(x in ("NaN", "Infinity", "-Infinity") for x in odd))
    o.dec("C07.decoded", JsonCodec.decode(s))
    o.dec("C07.decoded", JsonCodec.decode(json.dumps(parsed)))
    o.dec("C07.object", JsonCodec.decode_object(JsonCodec.encode_object(make(c))))
    o.dec("C07.msgpack", MsgpackCodec.decode(MsgpackCodec.encode(JsonCodec.decode(s))))
    o.dec("C07.from-decoded", JsonCodec.decode(JsonCodec.encode(MsgpackCodec.decode(MsgpackCodec.encode(doc)))))
    return o.o


ENC = dict(msgpack=(MsgpackCodec.encode, MsgpackCodec.decode), json=(JsonCodec.encode, JsonCodec.decode), xml=(XmlCodec.encode_utf8string, None))


def run_stable(c):                                           # C08
    doc, o = start(c)
    for k in c["formats"]:
        enc, dec = ENC[k]
        b = enc(doc)
        o.o["after"].append(dict(c="C08.changed-by-" + k, d=o.doc(doc)))
        o.flag("C08.indices", consecutive(doc))
        hs = [b, enc(doc), enc(rebuild(doc)), enc(make(c))]
        if dec:
            d = dec(b)
            hs += [enc(d), enc(dec(enc(d)))]
        o.same("C08.differs-" + k, *hs)
        o.o["after"].append(dict(c="C08.changed-by-" + k, d=o.doc(doc)))
    r = random.Random(c.get("eseed", 0))
    for _ in range(r.choice([0, 1, 3])):                     # an encoding depends on nothing that is gone
        shrink(doc, r)
        k = r.choice(c["formats"])
        enc, dec = ENC[k]
        o.same("C08.edited-" + k, enc(doc), enc(rebuild(doc)), *[enc(dec(enc(doc)))] if dec else [])
    return o.o


def shrink(doc, r):
    """Takes something out of a document, which stays valid."""
    layers = list(doc.layers.items())
    held = set()
    for _, l in layers:
        for n in l:
            for v in n.values():
                held.update(map(id, [v] if isinstance(v, Node) else [v.left, v.right] if isinstance(v, NodeSpan)
                            else v if isinstance(v, (list, NodeCollection)) else []))
    for name, l in r.sample(layers, min(2, len(layers))):
        x = r.random()
        free = [n for n in l if id(n) not in held]
        if x < .35 and free:
            l.remove(r.sample(free, r.randint(1, len(free))))
        elif x < .65:
            for n in l:
                for f in list(n):
                    if r.random() < .4:
                        del n[f]
        elif x < .75 and l.schema.fields:
            l.remove_field(r.choice(list(l.schema.fields)))
        elif x < .85:
            doc.remove_layer(name, fieldcascade=True)
        elif l.schema.fields:
            for n in list(l):
                l.add(**{f: v for f, v in n.items() if r.random() < .7})
    if doc.props and r.random() < .3:
        doc.props.pop(r.choice(list(doc.props)))


SUB = """
import sys, random, hashlib
sys.path[:0] = %r
import d_codec
for s in %r:
    d = d_codec.random_document(random.Random(s), jsonable=True)
    print(d_codec.sha(d_codec.MsgpackCodec.encode(d)), d_codec.sha(d_codec.JsonCodec.encode(d)), d_codec.sha(d_codec.XmlCodec.encode_utf8string(d)))
"""


def run_process(c):                                          # C08: another process, another hash seed
    o = Out()
    doc = Document()
    o.o["d0"] = o.doc(doc)
    outs = []
    for h in c["hashseeds"]:
        p = subprocess.run([sys.executable, "-B", "-c", SUB % (sys.path, c["seeds"])], env=dict(os.environ, PYTHONHASHSEED=str(h)),
                           capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError(p.stderr[-1000:])
        outs.append(p.stdout.split("\n"))
    for rows in zip(*outs):
        o.same("C08.process", *rows)
    return o.o


def run_wire(c):                                             # C09
    doc, o = start(c)
    b = MsgpackCodec.encode(doc)
    o.o["wires"].append(dict(c="C09", exact=True, w=wire(b)))
    return o.o


def closed(doc, r):
    refs = {k: {dt.options["layer"] for dt in l.schema.fields.values() if "layer" in dt.options} for k, l in doc.layers.items()}
    s = set(r.sample(sorted(doc.layers), r.randint(1, len(doc.layers))))
    while True:
        n = s | {x for k in s for x in refs[k]}
        if n == s:
            return s
        s = n


def fields(l):
    return [dict(f=atom(f), t=DataType2String.get(dt.typename, "?"), a=sorted([atom(k), canon(v)] for k, v in dt.options.items())) for f, dt in l]


def stream(src, b, skip):
    """A readable source: memory, a file on disk, or either one positioned behind other content."""
    f = io.BytesIO() if src.startswith("stream") else tempfile.TemporaryFile()
    skip = skip if src.endswith("at") else 0
    f.write(b"DM_1" * skip + b)
    f.seek(4 * skip)
    return f.detach() if src == "file-raw" else f


def run_lazy(c):                                             # C10
    doc, o = start(c)
    r = random.Random(c["rseed"])
    b = MsgpackCodec.encode(doc) if c["src"] != "written" else write(doc, r.choice([0, 1, 2]))
    ref = r.choice([None, ("ref", 1)])
    m = MsgpackDocument(doc if c["src"] == "doc" else b if c["src"] in ("bytes", "written") else stream(c["src"], b, c["rseed"] % 40), ref)
    objs = [m]
    names, texts, props = sorted(doc.layers), sorted(doc.texts), sorted(doc.props)
    for step in range(c["steps"]):
        m = r.choice(objs)
        op = r.choice(["props", "props", "texts", "texts", "schema", "document", "document", "part", "part", "binary", "pickle", "copy",
                       "deepcopy", "edit", "open", "open"])
        q = dict(c="C10." + op, op=op, keys=[], props=[], texts=[], layers=[], d=0)
        if op == "props":
            ks = r.sample(props, r.randint(0, len(props)))
            ks += ks[:1] if r.random() < .2 else []
            absent = r.random() < .2
            q["keys"] = [atom(k) for k in ks] + (["nosuch"] if absent else [])
            got = m.properties(*(ks + (["nosuch"] if absent else [])))
            q["props"] = [dict(k=atom(k), v=canon(v)) for k, v in got.items()]
        elif op == "texts":
            ks = r.sample(texts, r.randint(0, len(texts)))
            if r.random() < .3:                             # a text that is not there, or asked for twice
                ks = r.sample(ks + ["nosuch"] + ks[:1], len(ks) + 1 + len(ks[:1]))
            q["keys"] = [atom(k) for k in ks]
            q["texts"] = [dict(name=atom(k), cps=[ord(x) for x in "".join(v)]) for k, v in m.texts(*ks).items()]
        elif op == "schema":
            ts, sc = m.schema()
            q["layers"] = [dict(name=atom(k), fields=fields(sc[k])) for k in ts]
            if ts and r.random() < .3:                      # what was handed out is the caller's
                sc.pop(ts[-1])
                ts.reverse()
        elif op == "document":
            q["d"] = o.doc(m.document(), decoded=True)
        elif op == "part":
            if not names:
                continue
            ks = list(closed(doc, r))
            r.shuffle(ks)
            d = m.document(*ks)
            q["keys"], q["d"] = [atom(k) for k in ks], o.doc(d, decoded=True)
        elif op == "binary":
            o.same("C10.binary", m.binary(), b)
            o.flag("C10.ref", m.ref == ref)
            continue
        elif op == "open":     # layers without those they refer to: what comes back is not said, what follows is
            ks = r.sample(names, r.randint(0, len(names))) + (["nosuch"] if r.random() < .2 else [])
            try:
                m.document(*ks)
            except Exception:
                pass
            continue
        elif op == "edit":     # what was handed out is the caller's own
            d = m.document()
            d.props["zz"] = 1
            for l in list(d.layers.values()):
                l.remove(list(l))
            continue
        else:
            k = pickle.loads(pickle.dumps(m, r.choice([2, 4, 5]))) if op == "pickle" else getattr(copy, op)(m)
            o.flag("C10.ref", k.ref == ref)
            objs.append(k)
            continue
        o.o["reqs"].append(q)
    for m in objs:
        o.same("C10.binary", m.binary(), b)
    return o.o


def run_pickle(c):                                           # C10: pickling documents
    doc, o = start(c)
    for p in (2, 3, 4, 5):
        o.dec("C10.pickled", pickle.loads(pickle.dumps(doc, p)))
    o.o["after"].append(dict(c="C10.pickle-changed", d=o.doc(doc)))
    o.dec("C10.deepcopy", copy.deepcopy(doc))
    d = pickle.loads(pickle.dumps([doc, doc]))
    o.flag("C10.pickle-identity", d[0] is d[1])
    o.dec("C10.pickled-encoded", MsgpackCodec.decode(MsgpackCodec.encode(d[0])))
    return o.o


MODES = dict(C06=["msgpack", "written"], C07=["json"], C08=["stable"], C09=["wire"], C10=["lazy", "pickle"])
SIZES = [("nodes", [15, 16, 17, 255, 256]), ("spans", [7, 8, 127, 128, 300]), ("longseg", [254, 65535, 65536, 70000]), ("farspans", [17, 130, 300, 2000]), ("text", [8, 31, 32, 255, 256, 9000, 70000]),
         ("props", [15, 16, 40]), ("propsbytes", [10, 120, 130, 250, 260, 17000, 66000, 1100000]), ("layers", [15, 16, 17]), ("fields", [15, 16, 30]),
         ("texts", [15, 16, 30]), ("string", [31, 32, 255, 256, 65535, 70000, 1100000]), ("refs", [15, 16, 17, 300]), ("nested", [3, 30])]


def cases(r, tier, prop, tlc):
    big = tier == "thorough"
    modes = MODES[prop]

    def fin(c):
        c.setdefault("cls", "%s/%s" % (c["mode"], c["kind"]))
        if c["mode"] == "written":
            c.update(wide=r.choice([0, 1, 1, 2]), extra=sorted(r.sample(range(12), r.choice([0, 0, 3]))))
        if c["mode"] == "stable":
            f = ["msgpack", "json", "xml"] if c.get("jsonable", True) else ["msgpack", "xml"]
            r.shuffle(f)
            c.update(formats=f, eseed=r.getrandbits(40))
        if c["mode"] == "lazy":
            c.update(rseed=r.getrandbits(40), steps=r.choice([3, 6, 12]), src=r.choice(["bytes", "bytes", "doc", "stream", "stream-at", "file", "file-at", "file-raw", "written"]))
        return c
    model = list(tlc)
    if not big and len(model) > 1600:
        model = r.sample(model, 1600)
    for k, t in enumerate(model):
        yield fin(dict(mode=modes[k % len(modes)], kind="model", D=t["D"]))
    for what, ns in SIZES:
        for n in ns + ({"nodes": [65535, 65536]}.get(what, []) if big or prop in ("C06", "C09") else []):
            for mode in modes if n < 5000 else modes[:1]:
                yield fin(dict(mode=mode, kind="sized", what=what, n=n, seed=r.getrandbits(40)))
    if prop == "C08":
        yield dict(mode="process", kind="process", cls="process", seeds=[r.getrandbits(40) for _ in range(60)], hashseeds=[0, 1, 77])
    for k in range((6000 if big else 900)):
        c = dict(mode=modes[k % len(modes)], kind="random", seed=r.getrandbits(40), jsonable=prop == "C07" or (prop == "C08" and k % 3 > 0))
        if k % 25 == 0:
            c["size"] = r.choice([100, 300, 600])
        yield fin(c)
