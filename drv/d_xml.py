"""XML export, read back by an independent parser (expat)."""
import base64, binascii, random
from xml.parsers import expat
from docria.codec import XmlCodec, MsgpackCodec
from docria.model import Document, DataTypes as T, Node
from docobs import atom, fatom
from docproj import project, random_document, build, dochash, V
import d_codec

CASE_TIMEOUT = 40


def parse(s, docs):
    """docs: decode base64 content that is a document"""
    root, stack = [], []
    p = expat.ParserCreate("utf-8", None)
    p.buffer_text = True

    def attr(n, v):
        f = b = d = ""
        try:
            f = fatom(float(v))
        except ValueError:
            pass
        try:
            raw = base64.b64decode(v.encode("ascii"), validate=True)
            b = raw.hex()
            if docs and raw[:4] == b"DM_1":
                d = dochash(MsgpackCodec.decode(raw))
        except (ValueError, binascii.Error):
            pass
        return dict(n=atom(n), c=[ord(x) for x in v], s=atom(v), f=f, b=b, d=d)

    def start(name, attrs):
        el = dict(t=name, at=[attr(k, v) for k, v in attrs.items()], ch=[])
        (stack[-1]["ch"] if stack else root).append(el)
        stack.append(el)
    p.StartElementHandler = start
    p.EndElementHandler = lambda name: stack.pop()
    p.Parse(s.encode("utf-8") if isinstance(s, str) else s, True)
    return root[0]


def xproject(doc):
    D = project(doc, cps=True)
    for p, (k, v) in zip(D["props"], doc.props.items()):
        p["plain"] = isinstance(v, (str, int, float)) and not isinstance(v, bytes)
    for t, k in zip(D["texts"], doc.texts):
        t["nc"] = [ord(x) for x in k]
    for L, l in zip(D["layers"], doc.layers.values()):
        L["nc"] = [ord(x) for x in l.name]
        for fd, (f, dt) in zip(L["fields"], l.schema.fields.items()):
            o = {atom(k): v for k, v in dt.options.items()}
            fd["nc"] = [ord(x) for x in f]
            fd["ac"] = [[ord(x) for x in str(o[k])] if isinstance(o[k], (str, int, float)) else [-1] for k, _ in fd["a"]]
    return D


def run(c):
    doc = d_codec.make(c)
    D = xproject(doc)
    # the export shows the normal form: no empty reference lists, truth values of integer fields as numbers, bytes as they are
    for L in D["layers"]:
        for fd, col in zip(L["fields"], L["cols"]):
            for i, v in enumerate(col):
                if v["k"] == "bool" and fd["t"] in ("i32", "i64"):
                    col[i] = V("int", "1" if v["s"] == "True" else "0")
    kw = {}
    if c["id"]:
        kw["document_id"] = c["id"]
    if c["verbose"]:
        kw["verbose"] = True
    if c["spans"]:
        kw["verbose_node_spans"] = True
    o = dict(doc=D, opts=dict(idc=[ord(x) for x in c["id"]], verbose=c["verbose"], spans=c["spans"]), wf=True, tree=dict(t="", at=[], ch=[]))
    if c["via"] == "string":
        s = XmlCodec.encode_utf8string(doc, **kw)
    else:
        import io
        b = io.BytesIO()
        XmlCodec.encode_tree(doc, **kw).write(b, encoding=c["via"])
        s = b.getvalue()
        if c["via"] != "utf-8":
            s = s.decode(c["via"])
            s = s[s.index("?>") + 2:] if s.startswith("<?xml") else s
    try:
        o["tree"] = parse(s, True)
    except expat.ExpatError:
        o["wf"] = False
    return o


def hostile(r):
    """Properties, strings and texts full of characters that need escaping or replacing."""
    cs = "<>&\"'\t\n\r \x00\x01\x08\x0b\x1f\x7f\x85\ufffe\uffff\ufffd\U0001F600\U0010FFFF\ud7ff\ue000]]>"
    w = lambda: "".join(r.choice(cs) for _ in range(r.choice([0, 1, 3, 8])))
    doc = Document()
    doc.props[w()] = w()
    doc.props["k"] = w()
    doc.maintext = w() + "ab" + w()
    l = doc.add_layer("l", s=T.textspan(), v=T.string(w()), m=T.noderef_many("l"), w=T.string(None))
    n = len(doc.maintext)
    ns = []
    for _ in range(r.choice([1, 2, 4])):
        a, b = sorted((r.randint(0, n), r.randint(0, n)))
        ns.append(l.add(s=doc.maintext[a:b], v=w(), w=w()))
    ns[0]["m"] = ns
    return doc


d_codec_make = d_codec.make


def clear(name):
    """The name as XML can show it."""
    return "".join(x if x in "\t\n\r" or " " <= x <= "\ud7ff" or "\ue000" <= x <= "\ufffd" or x >= "\U00010000" else " " for x in name)


def make(c):
    """Fields of one layer whose names XML cannot tell apart are no part of the claim."""
    while True:
        doc = hostile(random.Random(c["seed"])) if c["kind"] == "hostile" else d_codec_make(c)
        if c["kind"] == "model" or all(len({clear(f) for f in l.schema.fields}) == len(l.schema.fields) for l in doc.layers.values()):
            return doc
        c["seed"] += 1


d_codec.make = make


def cases(r, tier, prop, tlc):
    big = tier == "thorough"

    def fin(c):
        c.setdefault("cls", c["kind"])
        c.update(id=r.choice(["", "", "doc1", "\u00e5.b", "<\x01&"]), verbose=r.random() < .5, spans=r.random() < .5,
                 via=r.choice(["string", "string", "utf-8", "utf-16"]))
        return c
    model = list(tlc)
    for t in model if big else r.sample(model, min(len(model), 1000)):
        yield fin(dict(kind="model", D=t["D"]))
    for what, ns in d_codec.SIZES:
        for n in [x for x in ns if x < 1000]:
            yield fin(dict(kind="sized", what=what, n=n, seed=r.getrandbits(40)))
    for k in range(2500 if big else 500):
        yield fin(dict(kind="hostile", seed=r.getrandbits(40)))
    for k in range(3500 if big else 700):
        yield fin(dict(kind="random", seed=r.getrandbits(40)))
