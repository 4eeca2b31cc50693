"""Text, HTML and repr of document objects under display options, parsed back."""
import random, re, io, contextlib
from html.parser import HTMLParser
from docria import printout
from docria.model import (Document, DataTypes as T, DataType2String, Node, NodeList, NodeSpan, NodeFieldCollection, NodeCollectionQuery, TextSpan, Text, ExtData)
from docria.printout import options, Table, TableRow, TableCell
from docproj import project
from docria.codec import MsgpackCodec

CASE_TIMEOUT = 40
DEFAULTS = (100, 8, 30, 120)


def chars(s):
    return ["NL" if c == "\n" else " " if c.isspace() else c if "!" <= c <= "~" else "u%x" % ord(c) for c in s]


def setopts(v):
    options.max_rows, options.max_columns, options.max_column_width, options.max_display_width = v


def getopts():
    return (options.max_rows, options.max_columns, options.max_column_width, options.max_display_width)


# ---- values and tables of the specification
def noderec(n):
    if n.collection is None:
        m = re.search(r"#(-?\d+)>$", repr(n))
        return dict(nm=chars("(dangling)"), id=int(m.group(1)) if m else -1, nf=len(n))
    return dict(nm=chars(n.collection.name), id=n.i, nf=len(n))


def value(v):
    o = dict(k="prim", s=[], nm=[], a=0, b=0, l=[])
    if v is None:
        o["k"] = "none"
    elif isinstance(v, TextSpan):
        o.update(k="span", s=chars(repr(v.text.text[v.start:v.stop])), nm=chars(v.text.name), a=v.start, b=v.stop)
    elif isinstance(v, Node):
        o.update(k="node", l=[noderec(v)])
    elif isinstance(v, NodeSpan):
        o.update(k="nspan", nm=chars(v.left.collection.name), a=v.left.i, b=v.right.i)
        x, y = v.left.get("text"), v.right.get("text")
        if isinstance(x, TextSpan) and isinstance(y, TextSpan):
            o["s"] = chars(repr(x.text.text[x.start:y.stop]))
    elif isinstance(v, list):
        o.update(k="list", l=[noderec(n) for n in v])
    else:
        o["s"] = chars(repr(v))
    return o


def predicate(r, src, depth):
    """A predicate and what it is, with what it shows of itself."""
    o = dict(f=[], vs=[])
    if depth and r.random() < .7:
        a, o["l"] = predicate(r, src, depth - 1)
        o["op"] = r.choice(["not", "and", "or"])
        if o["op"] == "not":
            p = ~a
        else:
            b, o["r"] = predicate(r, src, depth - 1)
            p = a & b if o["op"] == "and" else a | b
    else:
        f = r.choice(sorted(src.fieldtypes))
        o["op"] = r.choice(["eq", "ne", "lt", "le", "gt", "ge", "any"])
        vs = [r.choice([0, -1, 2.5, 10**9, "x", "it's", "a < b", "\u00e9", True, None, b"z"]) for _ in range(1 if o["op"] != "any" else r.randint(1, 3))]
        o.update(f=chars(f), vs=[chars(repr(v)) for v in set(vs)])
        c, v = src[f], vs[0]
        p = {"eq": lambda: c == v, "ne": lambda: c != v, "lt": lambda: c < v, "le": lambda: c <= v, "gt": lambda: c > v, "ge": lambda: c >= v,
             "any": lambda: c.is_any(*vs)}[o["op"]]()
    o["s"] = chars(repr(p))
    return p, o


def tab(cap, head, rows, hidx, hhead=False):
    """rows: (labels, cells); a cell: a value or a string that is shown as it is"""
    out = []
    for labs, cells in rows:
        out.append(dict(labs=[chars(str(x)) for x in labs],
                        cells=[dict(raw=isinstance(c, str), nil=isinstance(c, Val) and c.v is None,
                                    v=value(c.v) if isinstance(c, Val) else dict(k="prim", s=chars(c), nm=[], a=0, b=0, l=[])) for c in cells]))
    return dict(cap=cap, head=[chars(h) for h in head], rows=out, hidx=hidx, hhead=hhead)


class Val:
    def __init__(self, v):
        self.v = v


def lit(s):
    return dict(k="lit", s=chars(s), c=[])


def capnode(n):
    r = noderec(n)
    return lit("Node %s#%d" % ("(dangling)" if n.collection is None else n.collection.name, r["id"]) if len(n) else "")


def capcoll(x):
    """How a collection is named in a caption: built from names, numbers and node records"""
    if isinstance(x, NodeCollectionQuery):
        return dict(k="query", s=[], c=[capcoll(x.collection)], n=len(list(x)))
    if isinstance(x, NodeList):
        return dict(k="value", s=[], c=[], v=value(list(x)), n=0)
    if isinstance(x, NodeSpan):
        return dict(k="value", s=[], c=[], v=value(x), n=0)
    return dict(k="lit", s=chars("Layer(%s, N=%d)" % (x.name, len(list(x)))), c=[])


def captext(k):
    """The caption as characters; the composition is checked by the specification where it involves values"""
    if k["k"] == "lit":
        return k["s"]
    if k["k"] == "query":
        return chars("NodeCollectionQuery(collection=") + captext(k["c"][0]) + chars(", N=%d)" % k["n"])
    v = k["v"]
    if v["k"] == "list":
        out = []
        for i, n in enumerate(v["l"]):
            out += (chars(", ") if i else []) + ([] if n["nf"] == 0 else chars("Node<") + n["nm"] + chars("#%d>" % n["id"]))
        return ["["] + out + ["]"]
    return chars("NodeSpan[") + v["nm"] + chars(": %d to incl. %d]" % (v["a"], v["b"])) + ((chars(" = ") + v["s"]) if v["s"] else [])


class Direct:
    """A table made by hand."""

    def __init__(self, r):
        n = r.choice([1, 2, 4, 9])
        self.hidx, self.hhead, self.cap = r.random() < .3, r.random() < .2, r.choice([None, word(r)])
        self.head = [word(r, False) for _ in range(n)]
        self.rows = [([r.choice([None, None, r.randint(0, 999)])], [r.choice([word(r), Val(r.randint(-9, 99)), Val(None)]) for _ in range(n)]) for _ in range(r.choice([0, 1, 3, 8]))]
        t = self.t = Table(self.cap, hide_index=self.hidx, hide_headers=self.hhead)
        if r.random() < .5:
            t.set_header(*self.head)
        else:
            t.set_header(TableRow(*self.head))
        for (i,), cells in self.rows:
            vs = [c if isinstance(c, str) else printout.get_representation(c.v) if c.v is None else c.v for c in cells]
            if i is None and r.random() < .5 and n > 1:
                t.add_body(*vs)
            else:
                t.add_body(TableRow(*vs, index=i))

        if r.random() < .3:
            t.set_footer(*[word(r) for _ in range(n)])

    def __str__(self):
        return self.t.render_text()

    def _repr_html_(self):
        return self.t.render_html()


def table(x):
    """(table for text, table for html)"""
    if isinstance(x, Direct):
        t = tab(chars(x.cap or ""), x.head, [([k if i is None else i], cs) for k, ((i,), cs) in enumerate(x.rows)], x.hidx, x.hhead)
        return t, t
    if isinstance(x, Node):
        t = tab(capnode(x)["s"], ["field", "value"], [([i], [k, Val(v)]) for i, (k, v) in enumerate(x.items())], True)
        return t, t
    if isinstance(x, NodeFieldCollection):
        cap = chars("Field %s in " % x.field) + captext(capcoll(x.collection))
        t = tab(cap, [x.field], [([i], [v if isinstance(v, str) else str(v)]) for i, v in enumerate(n.get(x.field) for n in x.collection)], False)
        for r in t["rows"]:                                   # only strings are links
            pass
        for r, n in zip(t["rows"], list(x.collection)):
            r["cells"][0]["raw"] = isinstance(n.get(x.field), str)
        return t, t
    fs = sorted(x.fieldtypes)
    ns = list(x)
    rows = [([i], [Val(n.get(f)) for f in fs]) for i, n in enumerate(ns)]
    if isinstance(x, NodeSpan):
        hrows = [([x.left.i + i, n.i], r[1]) for i, (n, r) in enumerate(zip(ns, rows))]
        return (tab(chars("Node collection with N=%d elements" % len(ns)), fs, rows, True), tab(chars("Node span with N=%d elements" % len(ns)), fs, hrows, True))
    if isinstance(x, NodeCollectionQuery):
        cap = "Query with %d nodes." % len(ns)
    elif isinstance(x, NodeList):
        cap = "Node collection with N=%d elements" % len(ns)
    else:
        cap = "Layer '%s' with %d nodes." % (x.name, len(ns))
    t = tab(chars(cap), fs, rows, True)
    return t, t


# ---- parsing HTML back
class Tree(HTMLParser):
    TAGS = {"table", "thead", "tbody", "tr", "th", "td", "em", "a", "h3", "pre"}

    def __init__(self, s):
        super().__init__(convert_charrefs=True)
        self.root = dict(t="", at={}, ch=[])
        self.stack, self.clean = [self.root], True
        self.feed(s)
        self.close()
        self.clean = self.clean and len(self.stack) == 1

    def handle_starttag(self, tag, attrs):
        e = dict(t=tag, at=dict(attrs), ch=[])
        self.clean = self.clean and tag in self.TAGS and len(dict(attrs)) == len(attrs) and set(dict(attrs)) <= {"style", "colspan", "href"}
        self.stack[-1]["ch"].append(e)
        self.stack.append(e)

    def handle_endtag(self, tag):
        if len(self.stack) > 1 and self.stack[-1]["t"] == tag:
            self.stack.pop()
        else:
            self.clean = False

    def handle_data(self, d):
        self.stack[-1]["ch"].append(d)

    def handle_comment(self, d):
        self.clean = False
    handle_decl = handle_pi = unknown_decl = handle_comment


def text(e):
    return e if isinstance(e, str) else "".join(text(x) for x in e["ch"])


def elems(e, t=None):
    return [x for x in e["ch"] if not isinstance(x, str) and (t is None or x["t"] == t)]


def cell(e):
    k = elems(e)
    a = [x for x in k if x["t"] == "a"]
    return dict(s=chars(text(e)), href=chars(a[0]["at"].get("href") or "") if a else [], em=bool([x for x in k if x["t"] == "em"]))


def parse(s):
    t = Tree(s)
    clean = t.clean and [x["t"] for x in elems(t.root)] == ["table"] and text(t.root).strip() == text(elems(t.root)[0]).strip()
    o = dict(cap=[], head=[], rows=[], clean=bool(clean))
    if not clean:
        return o
    tb = elems(t.root)[0]
    clean = [x["t"] for x in elems(tb)] == ["thead", "tbody"]
    if clean:
        hs = elems(elems(tb)[0], "tr")
        if hs and elems(hs[0]) and "colspan" in elems(hs[0])[0]["at"] and len(elems(hs[0])) == 1 and len(hs) > 1:
            o["cap"] = chars(text(hs[0]))
            hs = hs[1:]
        clean = len(hs) == 1
        if clean:
            o["head"] = [cell(x) for x in elems(hs[0], "th")]
        for tr in elems(elems(tb)[1], "tr"):
            tds = elems(tr, "td")
            ell = len(tds) == 1 and "colspan" in tds[0]["at"]
            o["rows"].append(dict(ell=ell, cells=[] if ell else [cell(x) for x in tds]))
    o["clean"] = bool(clean)
    return o


# ---- objects
WORDS = ["a", "b<i>", "&amp;", "\"q'", "%d%s", "{0}", "x y", "\\n", "\u00e5\U0001F600", "urn:wikidata:Q34", "urn:wikipedia:sv:Sverige", "urn:WikiPedia:Lund", "urn:wikidata:'><b>",
         "urn:wikipedia:en:a&b:c", "urn:wikipedia:en:it's<b>&lt;", "urn:wikipedia:sv:'", "urn:other:x", "urn:wikidata:", "a\nb", "tab\there", "<script>alert(1)</script>", "...", "]]>", "<!-- c", "</td>", "NIL", "None", "\x00\x07", "&#39;"]


def word(r, big=True):
    x = r.random()
    if x < .5:
        return r.choice(WORDS)
    if x < .75:
        return "".join(r.choice("abc <&'") for _ in range(r.choice([0, 1, 2, 5])))
    return "".join(r.choice("abcdefghij <&>\"'\n\u00e5") for _ in range(r.choice([2, 5, 6, 9, 24, 25, 26, 28, 30, 31, 40, 130] if big else [2, 5, 6, 9, 25, 31])))


def opts(r):
    return [r.choice([None, 100, 100, 1, 2, 3, 4, 7]), r.choice([None, 8, 1]), r.choice([None, 30, 30, 7, 8, 11, 16, 200]), r.choice([None, 120, 120, 11, 14, 40, 80, 300])]


def make(r, c):
    d = Document()
    for _ in range(r.choice([0, 1, 3])):
        d.props[word(r, False)] = r.choice([1, "x", 2.5, None, word(r)])
    names = ["main"] + [w for w in {word(r, False) for _ in range(r.choice([0, 1, 2]))} if w != "main"]
    for n in names:
        d.add_text(n, "".join(r.choice("abc <&>\n'%{}\u00e5\U0001F600") for _ in range(r.choice([0, 3, 12, 60]))))
    layers = sorted({r.choice(["l", "m", word(r, False)]) for _ in range(r.choice([1, 2, 2]))})
    r.shuffle(layers)
    for ln in layers:
        fs = {}
        for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
            fs[r.choice(["text", "x", "y", word(r, False), word(r, False)])] = r.choice(
                [T.int32(), T.int64(), T.float64(), T.bool(), T.string, T.string, T.binary, T.span(r.choice(names)), T.span("main"), T.noderef(r.choice(layers)),
                 T.noderef_many(r.choice(layers)), T.nodespan(r.choice(layers))])
        d.add_layer(ln, **fs)
    objs = {ln: [] for ln in layers}
    k = r.choice([0, 1, 2, 5, 9]) if c["cls"] != "present/long" else r.choice([40, 101, 120])
    for ln in layers:
        for _ in range(k):
            objs[ln].append(d[ln].add())
    for ln in layers:
        for n in objs[ln]:
            for f, dt in d[ln].schema.fields.items():
                x = r.random()
                if x < .15:
                    continue
                if x < .2:
                    n[f] = None
                    continue
                tn = dt.typename.name.lower()
                tl = objs.get(dt.options.get("layer"), [])
                if tn.startswith("i"):
                    n[f] = r.choice([0, -1, 7, 2 ** 31 - 1, -2 ** 31])
                elif tn.startswith("f"):
                    n[f] = r.choice([0.0, -0.5, 1e300, 1 / 3, float("inf")])
                elif tn == "bool":
                    n[f] = r.random() < .5
                elif tn == "string":
                    n[f] = word(r)
                elif tn == "binary":
                    n[f] = bytes(r.randint(0, 255) for _ in range(r.choice([0, 1, 20])))
                elif tn == "span":
                    t = d.texts[dt.options["context"]]
                    a = r.randint(0, len(t))
                    n[f] = t[a:r.randint(a, len(t))]
                elif tl and "many" not in tn and "array" not in tn and "span" not in tn:
                    n[f] = r.choice(tl)
                elif tl and "span" in tn:
                    a, b = sorted(r.sample(range(len(tl)), 2)) if len(tl) > 1 else (0, 0)
                    n[f] = NodeSpan(tl[a], tl[b])
                elif tl:
                    n[f] = [r.choice(tl) for _ in range(r.choice([0, 1, 2, 4]))]
    return d, objs


def used(d, objs):
    """Nodes that end a node span (those have to stay)."""
    return {id(x) for ns in objs.values() for n in ns for v in n.values() if isinstance(v, NodeSpan) for x in (v.left, v.right)}


def show(x, html=True):
    """One rendering."""
    t, h = table(x)
    s = str(x)
    o = dict(kind="table", text=chars(s), lens=[len(l.rstrip()) for l in s.split("\n")], tt=t, th=h, html=dict(cap=[], head=[], rows=[], clean=True), ishtml=html)
    if html:
        o["html"] = parse(x._repr_html_())
    return o


def run(c):
    r = random.Random(c["seed"])
    setopts(DEFAULTS)
    res = []
    try:
        if c["cls"] == "present/options":
            return dict(debugs=[], kind="options", ops=optops(r), shows=[], reprs=[], preds=[], docs=[], texts=[], same=True, opt=dict(mr=0, w=0, dw=0))
        if c["cls"] == "present/model":
            t = c["t"]
            d = Document()
            fs = ["%s" % (ch * t["hw"]) for ch in "abcdef"[:t["k"]]]
            if t["hidx"]:
                l = d.add_layer("t", **{f: T.int64() for f in fs})
                for i in range(t["n"]):
                    l.add(**{f: int("123456789"[(i + j) % 9] * w) for j, (f, w) in enumerate(zip(fs, t["w"]))})
                objs = [l]
            else:
                l = d.add_layer("t", **{f: T.string for f in fs})
                for i in range(t["n"]):
                    l.add(**{f: "pqrstuvwxy"[(i + j) % 9] * w for j, (f, w) in enumerate(zip(fs, t["w"]))})
                objs = [l[f] for f in fs]
            o = [t["o"]["mr"] or None, 8, t["o"]["w"] or None, t["o"]["dw"] or None]
        else:
            d, byl = make(r, c)
            keep = used(d, byl)
            for ln, ns in byl.items():
                if r.random() < .4:
                    for n in r.sample(ns, len(ns) // 3):
                        if id(n) not in keep:
                            d[ln].remove(n)
                            byl[ln].append(byl[ln].pop(byl[ln].index(n)))
            objs = []
            for ln in d.layers:
                l = d[ln]
                objs.append(l)
                live = list(l)
                if byl[ln]:
                    objs.append(r.choice(byl[ln]))             # perhaps dangling
                if live:
                    a, b = sorted(r.randint(0, len(live) - 1) for _ in range(2))
                    objs += [NodeSpan(live[a], live[b]), l[live[a].i:live[b].i + 1], l[lambda n: n.i % 2 == 0]]
                colls = [x for x in objs if not isinstance(x, (Node, NodeFieldCollection)) and x.fieldtypes]
                if colls:
                    x = r.choice(colls)
                    objs.append(x[r.choice(sorted(x.fieldtypes))])
            objs += [NodeList([]), Direct(r), Direct(r)]
            objs.append(Node(**{r.choice(["k", "urn:wikidata:Q1", "<b>"]): word(r), "z": None}))
            objs = r.sample(objs, min(len(objs), 3 if c["cls"] == "present/long" else 5))
            o = opts(r)
        before = project(d)
        setopts(o)
        if r.random() < .05:
            o = o[:2] + [200, 200]
            printout.set_large_screen()
        shows = [show(x) for x in objs]
        reprs = []
        for ln in d.layers:
            for n in list(d[ln])[:2]:
                reprs.append(dict(v=value(n), s=chars(repr(n))))
                for f, v in n.items():
                    if isinstance(v, (TextSpan, NodeSpan)):
                        reprs.append(dict(v=value(v), s=chars(repr(v))))
        preds = [predicate(r, r.choice([l, l[lambda n: True], l.to_list()]), r.randint(0, 3))[1] for l in d.layers.values() if l.fieldtypes and len(l)]
        docs = []
        if c["cls"] != "present/model":
            s = str(d)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                d.printschema()
            docs.append(dict(text=chars(s), lens=[len(l.rstrip()) for l in s.split("\n")[1:]],   # without the title
                             t1=tab(chars("Texts"), ["key", "value"], [([i], [n, Val(x.text)]) for i, (n, x) in enumerate(d.texts.items())], True, True),
                             t2=tab(chars("Layers"), ["key", "value"], [([i], [n, "N=%d" % len(list(l))]) for i, (n, l) in enumerate(d.layers.items())], True, True),
                             repr=chars(repr(d)), nl=len(d.layers), nt=len(d.texts), props=[dict(k=chars(k), v=chars(str(v))) for k, v in d.props.items()],
                             schema=chars(buf.getvalue()),
                             decl=[dict(n=chars(n), f=[dict(n=chars(f), t=chars(DataType2String[dt.typename]), o=[dict(k=chars(k), v=chars(str(v))) for k, v in dt.options.items()])
                                                       for f, dt in l.schema.fields.items()]) for n, l in sorted(d.layers.items())]))
        texts = []
        for t in d.texts.values():
            h = Tree(t._repr_html_())
            k = elems(h.root)
            ok = h.clean and [x["t"] for x in k] == ["h3", "pre"]
            texts.append(dict(ok=bool(ok), name=chars(t.name), text=chars(t.text), h=chars(text(k[0])) if ok else [], b=chars(text(k[1])) if ok else []))
        same = before == project(d) and list(o) == list(getopts())
        w = 0 if o[2] is None else o[2] if o[3] is None else min(o[2], o[3])
        debugs = debug(d) if docs and c["cls"] != "present/long" else []
        return dict(debugs=debugs, kind="show", ops=[], shows=shows, reprs=reprs, preds=preds, docs=docs, texts=texts, same=bool(same), opt=dict(mr=o[0] or 0, w=w, dw=o[3] or 0))
    finally:
        setopts(DEFAULTS)


def debug(d):
    """What the debug output of the encoded document shows of each layer."""
    try:
        b = MsgpackCodec.encode(d)
    except Exception:
        return []
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            MsgpackCodec.debug(b)
        ok = True
    except Exception:
        ok = False
    return [dict(ok=ok, out=chars(buf.getvalue()), texts=[dict(n=chars(n), s=chars(t.text)) for n, t in d.texts.items()],
                 layers=[dict(n=chars(n), k=len(l), f=[chars(f) for f in l.schema.fields]) for n, l in d.layers.items()])]


def optops(r):
    """Sets options; refused values change nothing."""
    o, out = printout.PrintOptions(), []
    names = ["max_rows", "max_columns", "max_column_width", "max_display_width"]

    def now():
        return [-1 if v is None else v for v in (getattr(o, n) for n in names)]
    out.append(dict(n="", v=0, ok=True, st=now()))
    for _ in range(12):
        n = r.choice(names)
        v = r.choice([None, 0, -1, 1, 2, 5, 6, 7, 9, 10, 11, 12, 100, 1000])
        try:
            setattr(o, n, v)
            ok = True
        except ValueError:
            ok = False
        out.append(dict(n=n, v=-1000 if v is None else v, ok=ok, st=now()))
    return out


def cases(r, tier, prop, tlc):
    big = tier == "thorough"
    for t in tlc if big else r.sample(tlc, min(len(tlc), 1200)):
        yield dict(cls="present/model", t=t, seed=r.getrandbits(40))
    for _ in range(3000 if big else 420):
        yield dict(cls="present/random", seed=r.getrandbits(40))
    for _ in range(120 if big else 16):
        yield dict(cls="present/long", seed=r.getrandbits(40))
    for _ in range(200 if big else 40):
        yield dict(cls="present/options", seed=r.getrandbits(40))
