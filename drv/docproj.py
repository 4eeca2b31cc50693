"""Documents as plain data (the records of the codec specification), random documents, rebuilding documents."""
import json, hashlib
from docria.model import (Document, DataTypes as T, DataType2String, DataTypeEnum, DataType, Node, NodeCollection, NodeSpan, NodeList,
                          TextSpan, Text, ExtData)
from docobs import atom, fatom


def canon(v):
    """A property value as an atom: structure, types and numbers exactly."""
    if v is None or isinstance(v, bool):
        return repr(v)
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "f" + fatom(v)
    if isinstance(v, str):
        return "s'" + atom(v) + "'"
    if isinstance(v, bytes):
        return "b" + v.hex()
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(sorted(canon(k) + ":" + canon(x) for k, x in v.items())) + "}"
    return "?" + type(v).__name__


class Opaque(Exception):
    pass


def V(k, s="", e=()):
    return dict(k=k, s=s, e=list(e))


NONE = V("none")


def project(doc, cps=False, decoded=False):
    """cps: give the characters of strings (needed for the XML specification)."""
    pos = {}
    for name, l in doc.layers.items():
        for i, n in enumerate(l):
            pos[id(n)] = (name, i)

    def C(s):
        return [ord(c) for c in s]

    def ref(n, target):
        p = pos.get(id(n))
        return p[1] if p is not None and p[0] == target else -1

    def val(n, f, dt):
        if f not in n:
            return NONE
        v = n[f]
        if v is None:
            return V("null")
        if isinstance(v, bool):
            return V("bool", str(v))
        if isinstance(v, int):
            return V("int", str(v))
        if isinstance(v, float):
            return V("float", fatom(v))
        if isinstance(v, str):
            return V("str", atom(v), C(v) if cps else ())
        if isinstance(v, (bytes, bytearray)):
            if dt.typename == DataTypeEnum.EXT and dt.options.get("type") == "doc":
                from docria.codec import MsgpackCodec
                return V("encoded") if decoded else V("doc", dochash(MsgpackCodec.decode(bytes(v))))
            return V("bytes", v.hex())
        tgt = dt.options.get("layer")
        if isinstance(v, Node):
            return V("ref", "", [ref(v, tgt)])
        if isinstance(v, NodeSpan):
            return V("nspan", "", [ref(v.left, tgt), ref(v.right, tgt)])
        if isinstance(v, TextSpan):
            ok = v.text.name in doc.texts and (doc.texts[v.text.name] is v.text or doc.texts[v.text.name].text == v.text.text)
            return V("span", atom(v.text.name) if ok else "?", [int(v.start), int(v.stop)])
        if isinstance(v, (list, NodeCollection)):
            return V("refs", "", [ref(x, tgt) if isinstance(x, Node) else -2 for x in v])
        if isinstance(v, ExtData):
            d = v.data
            if v.type == "doc":
                from docria.codec import MsgpackCodec
                d = MsgpackCodec.decode(d) if isinstance(d, bytes) else d
                return V("encoded") if decoded else V("doc", dochash(d))
            return V("ext" if v.type == dt.options.get("type") else "extother", d.hex() if isinstance(d, bytes) else "?" + type(d).__name__)
        if isinstance(v, Document):
            return V("doc", dochash(v))
        return V("obj", type(v).__name__)
    layers = []
    for name, l in doc.layers.items():
        fs = list(l.schema.fields.items())
        ns = list(l)
        layers.append(dict(
            name=atom(name), n=len(ns), len=len(l),
            fields=[dict(f=atom(f), t=DataType2String.get(dt.typename, "?"), a=sorted([atom(k), arg(v)] for k, v in dt.options.items())) for f, dt in fs],
            cols=[[val(n, f, dt) for n in ns] for f, dt in fs],
            extra=sum(1 for n in ns for k in n if k not in l.schema.fields)))
    return dict(props=[dict(k=atom(k) if isinstance(k, str) else "?" + repr(k), v=canon(v),
                            kc=C(k) if cps else [], sv=C(str(v)) if cps else []) for k, v in doc.props.items()],
                texts=[dict(name=atom(k), cps=[ord(c) for c in t.text]) for k, t in doc.texts.items()],
                layers=layers)


def dochash(doc):
    return hashlib.sha1(json.dumps(project(doc)).encode()).hexdigest()[:16]


def arg(v):
    return canon(v)


# -- random documents -----------------------------------------------------------------------------
INTS32 = [0, 1, -1, 31, 32, -32, -33, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2**31 - 1, -2**31]
INTS64 = INTS32 + [2**31, 2**32 - 1, 2**32, -2**31 - 1, 2**63 - 1, -2**63, 2**53 + 1]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, float("inf"), float("-inf"), float("nan"), 1.7976931348623157e308, 123456789.123456789]
CHARS = "abc XYZ.,\n\t\u00e5\u00e4\u00f6\u0301\u20ac\u4e2d\U0001F600\U00010348\U0010FFFF\ufeff\u2028\x85"
CTRL = "\x00\x01\x0b\x0c\x1f\x7f\ufffe\uffff\r"
ODD = ["", " ", "a b", "\x01<&>\"'", "%s{0}", "1", "\u540d\u524d", "X" * 300, "x:y", "xml", "xmlns", "-", "DM10", "\U0001F600", "\ufffe"]
NAMECH = ["token", "sentence", "L1", "x_y", "\u00e5ngstr\u00f6m", "a.b-c", "Z", "entity", "n0", "t" * 40]
FNAMES = ["text", "pos", "id", "head", "f1", "f2", "f3", "\u00f6", "weight", "g" * 33]
TNAMES = ["alt", "title", "\u00fc", "long" * 9]


def rstr(r, n=None, ctrl=True):
    n = r.choice([0, 1, 2, 5, 12, 31, 32, 40]) if n is None else n
    cs = CHARS + (CTRL if ctrl and r.random() < .3 else "")
    return "".join(r.choice(cs) for _ in range(n))


def rprop(r, depth=0, jsonable=False):
    k = r.randrange(9 if depth < 2 else 6)
    if k == 0:
        return r.choice(INTS64)
    if k == 1:
        return r.choice(FLOATS)
    if k in (2, 3):
        return rstr(r, ctrl=True)
    if k == 4:
        return r.choice([True, False, None])
    if k == 5:
        return r.choice([b"", b"\x00\xff\x80", b"z" * 300]) if not jsonable else r.choice([1, "q", ""])
    if k == 6:
        return [rprop(r, depth + 1, jsonable) for _ in range(r.choice([0, 1, 3]))]
    return {rstr(r, r.choice([0, 1, 4]), False): rprop(r, depth + 1, jsonable) for _ in range(r.choice([0, 1, 3]))}


def inner(r, depth=0):
    """A document to put into another one: any of its parts may be missing."""
    d = Document()
    if r.random() < .5:
        d.props["k"] = rprop(r)
    if r.random() < .6:
        d.maintext = r.choice(["inner", "", "\U0001F600 x"])
    if r.random() < .6:
        l = d.add_layer("t", **({"text": T.textspan()} if d.texts else {"v": T.int32(None)}))
        for _ in range(r.choice([0, 1, 2])):
            l.add(**({"text": d.maintext[0:len(d.maintext) // 2]} if d.texts else {"v": 1}))
    if depth < 2 and r.random() < .3:
        l = d.add_layer("deep", d=T.ext("doc"))
        l.add(d=inner(r, depth + 1))
        l.add()
    return d


def rvalue(r, doc, dt, nodes, big=False):
    t, E = dt.typename, DataTypeEnum
    if t == E.I32:
        return r.choice(INTS32 + [True, False])
    if t == E.I64:
        return r.choice(INTS64 + [True])
    if t == E.F64:
        return r.choice(FLOATS)
    if t == E.BOOL:
        return r.random() < .5
    if t == E.STRING:
        return rstr(r, r.choice([255, 256, 300]) if big and r.random() < .1 else None)
    if t == E.BINARY:
        return r.choice([b"", b"\x00", bytes(range(256)), b"q" * 31, b"w" * 32])
    if t == E.EXT:
        if dt.options["type"] == "doc":
            from docria.codec import MsgpackCodec, MsgpackDocumentExt
            d, k = inner(r), r.random()
            if k < .5:
                return d
            return MsgpackCodec.encode(d) if k < .65 else MsgpackDocumentExt(d if k < .8 else MsgpackCodec.encode(d))
        return r.choice([ExtData(dt.options["type"], b"\x00\x01abc"), ExtData(dt.options["type"], b""), b"raw"])
    if t == E.SPAN:
        tx = doc.texts[dt.options["context"]]
        n = len(tx)
        a, b = sorted((r.randint(0, n), r.randint(0, n)))
        if r.random() < .3:
            b = min(n, a + r.choice([0, 1]))
        return tx[a:b]
    ns = nodes[dt.options["layer"]]
    if not ns:
        return [] if t == E.NODEREF_MANY else None
    if t == E.NODEREF:
        return r.choice(ns)
    if t == E.NODEREF_MANY:
        v = [r.choice(ns) for _ in range(r.choice([0, 1, 2, 4, 17 if big else 3]))]
        return r.choice([list, NodeList])(v)
    return tuple(sorted(r.sample(range(len(ns)), 2) if len(ns) > 1 else [0, 0])) if r.random() < .8 else (0, 0)


def rtype(r, texts, layers, ext=True):
    opts = [lambda: T.int32(), lambda: T.int32(None), lambda: T.int32(-7), lambda: T.int64(), lambda: T.int64(None), lambda: T.int64(2**40),
            lambda: T.float64(), lambda: T.float64(None), lambda: T.float64(0.25), lambda: T.float64(float("inf")), lambda: T.string(),
            lambda: T.string(None), lambda: T.string("d\u00e9f"), lambda: T.string("a<b&\"'\x01"), lambda: T.bool(), lambda: T.bool(True), lambda: T.bool(None),
            lambda: T.binary, lambda: T.binary]
    if ext:
        opts += [lambda: T.ext("myext"), lambda: T.ext("doc")]
    if texts:
        opts += [lambda: T.textspan(r.choice(texts))] * 6
    opts += [lambda: T.noderef(r.choice(layers)), lambda: T.noderef_many(r.choice(layers)), lambda: T.nodespan(r.choice(layers))] * 3
    return r.choice(opts)()


def random_document(r, jsonable=False, ext=True, size=None, messy=True, names=NAMECH, fnames=FNAMES):
    """A random document made through a random editing history."""
    doc = Document()
    for _ in range(r.choice([0, 1, 2, 5])):
        doc.props[r.choice(["id", "uri", "ID", "title", "k\u00e4", "n" * 35, "", " z", "z", "i"])] = rprop(r, 0, jsonable)
    tl = size or r.choice([0, 1, 3, 12, 40, 120])
    if r.random() < .9:
        doc.maintext = rstr(r, tl)
    odd = r.random() < .3
    names, fnames, tnames = [x + (r.sample(ODD, 6) if odd else []) for x in (names, fnames, TNAMES)]
    for nm in r.sample(tnames, r.choice([0, 0, 1, 2])):
        other = r.choice(list(doc.texts.values())).text if doc.texts and r.random() < .35 else None   # texts can be equal, or nearly
        doc.add_text(nm, rstr(r, r.choice([0, 2, 20])) if other is None else other + r.choice(["", "", "x"]))
    lnames = r.sample(names, r.choice([0, 1, 2, 3, 5]) if messy else r.choice([1, 2, 3]))
    texts = list(doc.texts)
    junk = None
    if messy and lnames and r.random() < .2:
        junk = doc.add_layer("junk", a=T.int32())
        junk.add(a=1)
    for nm in lnames:
        fs = {f: rtype(r, texts, lnames, ext) for f in r.sample(fnames, r.choice([0, 1, 2, 3, 5]))}
        doc.add_layer(nm, **fs)
    nodes = {}
    counts = {nm: (size if size and r.random() < .5 else r.choice([0, 1, 2, 3, 7, 15, 16, 17, 30])) for nm in lnames}
    gone = []
    for nm in lnames:
        l = doc.layers[nm]
        for k in range(counts[nm]):
            how = r.random()
            if how < .4:
                l.add_many([Node()], default_fill=r.random() < .5)
            elif how < .7:
                l.add(Node())
            else:
                l.add()
            if messy and r.random() < .2:
                x = Node()
                l.add(x)
                gone.append((l, x))
    if messy:
        r.shuffle(gone)
        for l, x in gone:
            if r.random() < .5:
                l.remove(x)
            else:
                x.detach()
    for nm in lnames:
        l = doc.layers[nm]
        if messy and r.random() < .3:
            key = {id(n): r.randrange(5) for n in l}
            l.sort(lambda n: key[id(n)])
        nodes[nm] = list(l)
    big = size is not None
    for nm in lnames:
        l = doc.layers[nm]
        dens = r.choice([.3, .8, 1])
        for f, dt in l.schema.fields.items():
            for n in nodes[nm]:
                if r.random() < dens:
                    v = rvalue(r, doc, dt, nodes, big)
                    if isinstance(v, tuple):
                        ns = nodes[dt.options["layer"]]
                        v = NodeSpan(ns[v[0]], ns[v[1]])
                    if v is not None:
                        n[f] = v
                elif f in n and r.random() < .5:
                    del n[f]
    if messy:   # more history after the values are there
        for nm in lnames:
            l = doc.layers[nm]
            if r.random() < .3:
                xs = [Node() for _ in range(r.choice([1, 5, 20]))]
                l.add_many(xs, default_fill=False)
                l.remove(xs)
            if r.random() < .15:
                l.compact()
            if r.random() < .2 and "tmpfield" not in l.schema.fields:
                l.add_field("tmpfield", T.int32())
                l.remove_field("tmpfield")
        if junk is not None:
            doc.remove_layer("junk")
    return doc


def rebuild(doc):
    """The same content by another history: layers first, nodes in order in bulk, values last."""
    out = Document(**{}) if not all(isinstance(k, str) for k in doc.props) else Document()
    for k, v in doc.props.items():
        out.props[k] = v
    for k, t in doc.texts.items():
        out.add_text(k, t.text)
    m = {}
    for name, l in doc.layers.items():
        nl = out.add_layer(name)
        for f, dt in l.schema.fields.items():
            nl.add_field(f, dt)
        ns = [Node() for _ in l]
        for n, x in zip(l, ns):
            m[id(n)] = x
        nl.add_many(ns, default_fill=False, full_validation=False)
    for name, l in doc.layers.items():
        for n in l:
            x = m[id(n)]
            for f, v in n.items():
                if isinstance(v, Node):
                    v = m[id(v)]
                elif isinstance(v, NodeSpan):
                    v = NodeSpan(m[id(v.left)], m[id(v.right)])
                elif isinstance(v, TextSpan):
                    v = out.texts[v.text.name][v.start:v.stop]
                elif isinstance(v, (list, NodeCollection)):
                    v = [m[id(y)] for y in v]
                x[f] = v
    return out


def build(D):
    """A document from the (model's) record: layers [name, fields [f, t, a], n, cols], texts [name, cps]."""
    doc = Document()
    for p in D["props"]:
        doc.props[p["k"]] = p["v"]
    for t in D["texts"]:
        doc.add_text(t["name"], "".join(map(chr, t["cps"])))
    mk = dict(i32=lambda a: T.int32(None), i64=lambda a: T.int64(None), str=lambda a: T.string(None), f64=lambda a: T.float64(None),
              i1=lambda a: T.bool(None), span=T.textspan, noderef=T.noderef, noderef_array=T.noderef_many, nodespan=T.nodespan)
    nodes = []

    def target(f):
        return f["a"][0][1][2:-1] if f["a"] else None
    for L in D["layers"]:
        l = doc.add_layer(L["name"], **{f["f"]: mk[f["t"]](target(f)) for f in L["fields"]})
        ns = [Node() for _ in range(L["n"])]
        l.add_many(ns, default_fill=False)
        nodes.append((L["name"], ns))
    by = dict(nodes)
    for L, (_, ns) in zip(D["layers"], nodes):
        for f, col in zip(L["fields"], L["cols"]):
            for n, v in zip(ns, col):
                tg = by.get(target(f))
                if v["k"] == "int":
                    n[f["f"]] = int(v["s"])
                elif v["k"] == "bool":
                    n[f["f"]] = v["s"] == "True"
                elif v["k"] == "span":
                    n[f["f"]] = doc.texts[target(f)][v["e"][0]:v["e"][1]]
                elif v["k"] == "ref":
                    n[f["f"]] = tg[v["e"][0]]
                elif v["k"] == "refs":
                    n[f["f"]] = [tg[i] for i in v["e"]]
                elif v["k"] == "nspan":
                    n[f["f"]] = NodeSpan(tg[v["e"][0]], tg[v["e"][1]])
    return doc
