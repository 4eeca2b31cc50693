"""Lists of nodes of several layers and of none: their field types, parts and field views."""
import random
from docria.model import Document, DataTypes as T, Node, NodeList, NodeSpan, ExtData
from docria.codec import MsgpackDocumentExt
from docobs import atom

CASE_TIMEOUT = 60
TYPES = ["i1", "i32", "i64", "f64", "string", "binary", "span", "span_text", "node_a", "node_b", "nodes_a", "nodes_b", "nspan_a", "ext", "extdoc"]


def dtype(t, r):
    d = r.random() < .25
    return {"i1": lambda: T.bool(default=True) if d else T.bool(), "i32": lambda: T.int32(default=3) if d else T.int32(),
            "i64": lambda: T.int64(default=4) if d else T.int64(), "f64": lambda: T.float64(default=.5) if d else T.float64(),
            "string": lambda: T.string(default="x") if d else T.string(), "binary": lambda: T.binary, "span": lambda: T.span(),
            "span_text": lambda: T.span("text"), "node_a": lambda: T.noderef("a"), "node_b": lambda: T.noderef("b"),
            "nodes_a": lambda: T.noderef_many("a"), "nodes_b": lambda: T.noderef_many("b"), "nspan_a": lambda: T.nodespan("a"),
            "ext": lambda: T.ext("x"), "extdoc": lambda: T.ext("doc")}[t]()


def tname(dt):
    e = dt.encode()
    return e["type"] if isinstance(e, dict) else e


def run(c):
    r = random.Random(c["seed"])
    doc = Document()
    doc.maintext = "some main text"
    doc.add_text("text", "other")
    la, lb = doc.add_layer("a", x=T.int32()), doc.add_layer("b")
    A, B = [la.add(x=i) for i in range(3)], [lb.add() for _ in range(2)]
    X = [la.add() for _ in range(3)]                        # nodes that are gone in the end
    was = r.random() < .5
    inner = Document()

    def value(t, loose=False):
        if t == "bad":                                      # a value that no type covers
            return r.choice([None, {1}, ["x"], [A[0], "x"], [A[0], B[0]], [A[1], X[0]] if not was else (1, 2), [[A[0]]], {"k": 1}, object, [A[0], None],
                             [1, A[0]]])
        if loose and was and t in ("node_a", "nodes_a", "nspan_a"):
            return r.choice(X) if t == "node_a" else r.sample(X, r.randint(1, 3)) if t == "nodes_a" else NodeSpan(X[0], X[r.randint(0, 2)])
        if t in ("i32", "int"):
            return r.choice([0, 1, -5, 2**31 - 1, -2**31])
        return {"i1": lambda: r.random() < .5, "i64": lambda: r.choice([0, 7, 2**40, -2**63]), "f64": lambda: r.choice([0.0, 1.5, -0.0]),
                "string": lambda: r.choice(["", "x", "\U0001F600"]), "binary": lambda: r.choice([b"", b"a"]), "span": lambda: doc.maintext[2:r.randint(2, 9)],
                "span_text": lambda: doc.texts["text"][0:2], "node_a": lambda: r.choice(A), "node_b": lambda: r.choice(B),
                "nodes_a": lambda: r.sample(A, r.randint(1, 3)), "nodes_b": lambda: r.sample(B, r.randint(1, 2)), "nspan_a": lambda: NodeSpan(A[0], A[r.randint(0, 2)]),
                "ext": lambda: ExtData("x", r.choice([b"", b"a"])), "extdoc": lambda: inner if not loose or r.random() < .5 else MsgpackDocumentExt(inner)}[t]()
    origins, pool = [], []
    for i, o in enumerate(c["origins"]):
        if o["loose"]:
            if r.random() < .3 and all(t != "bad" for _, t in o["fields"]):   # a node that was in a layer
                l = doc.add_layer("was%d" % i, **{f: dtype(t, r) for f, t in o["fields"]})
                n = l.add(**{f: value(t, True) for f, t in o["fields"]})
                l.remove(n)
            else:
                n = Node(**{f: value(t, True) for f, t in o["fields"]})
            pool.append([n])
        else:
            types = {f: dtype(t, r) for f, t in o["fields"]}
            l = doc.add_layer("l%d" % i, **types)
            if types and r.random() < .3:                   # a field that came later
                f = sorted(types)[0]
                doc.remove_layer("l%d" % i)
                l = doc.add_layer("l%d" % i, **{k: v for k, v in types.items() if k != f})
                l.add_field(f, types[f])
            pool.append([l.add(**{f: value(t) for f, t in o["fields"] if r.random() < .7}) for _ in range(r.randint(1, 3))])
            if r.random() < .3:
                l.remove(pool[-1].pop(0)) if len(pool[-1]) > 1 else None
        # the kind names of the format
        loose = o["loose"]
        origins.append([dict(f=f, t=t if t == "bad" else "int" if loose and t in ("i32", "i64") else tname(dtype(t, random.Random(0)))) for f, t in o["fields"]])
    la.remove(X)
    nodes = [n for p in pool for n in p]
    num = {id(n): i for i, n in enumerate(nodes, 1)}
    lst = [p[0] for p in pool] if c["each"] else [r.choice(p) for p in pool]
    lst += [r.choice(nodes) for _ in nodes[:1] for _ in range(r.choice([0, 0, 2, 6]))]
    r.shuffle(lst)

    def va(v):
        if v is None:
            return "-"
        if isinstance(v, list):
            return "[" + " ".join(va(x) for x in v) + "]"
        if isinstance(v, Node):
            return "n%x" % id(v)
        if isinstance(v, NodeSpan):
            return "%x-%x" % (id(v.left), id(v.right))
        if isinstance(v, (ExtData, Document)):
            return "x%x" % id(v)
        if hasattr(v, "text"):
            return "%s:%d:%d" % (atom(v.text.name), v.start, v.stop)
        return atom(type(v).__name__ + repr(v))
    out = dict(kind="lists", origins=origins, refused=False, list=[num[id(n)] for n in lst], ids=[], types=[], has=[], parts=[],
               vals=[[dict(f=k, v=va(v)) for k, v in n.items()] for n in nodes])
    try:
        nl = NodeList(iter(lst) if r.random() < .5 else lst)
    except (ValueError, AssertionError):
        out["refused"] = True
        return out
    if r.random() < .3:                                     # a list of a list
        nl = NodeList(nl)
    ids = lambda q: [num.get(id(n), 0) for n in q]
    types = lambda q: [dict(f=f, t=tname(q[f].dtype)) for f in sorted(q.fieldtypes)]
    out["ids"], out["types"] = ids(nl), types(nl)
    names = sorted({f for o in origins for f in [x["f"] for x in o]} | {"f", "g", "nosuch"})
    for f in names:
        try:
            nl[f]
            out["has"].append(f)
        except (AssertionError, LookupError, ValueError):
            pass
    n, N = len(lst), 999
    for k in range(12):
        q = nl
        if k % 3 < 2:
            ix = [r.choice([N, 0, 1, -1, n, -n, n + 2, -n - 2, r.randint(-n - 1, n + 1)]) for _ in range(2)] + [r.choice([1, 1, 1, 2, 3, -1, -2])]
            sl = slice(*[None if x == N else x for x in ix[:2]] + [None if ix[2] == 1 and r.random() < .5 else ix[2]])
            kind = "slice"
            get = lambda: nl[sl]
        else:
            ix = [r.randint(-n, n - 1) for _ in range(r.choice([0, 1, 3, 9]))] if n else []
            if r.random() < .15:
                ix.append(r.choice([n, -n - 1]))
            kind = "pick"
            get = lambda: nl[list(ix)]
        p = dict(kind=kind, ix=ix, err=False, ids=[], first=0, last=0, types=[], cols=[])
        try:
            q = get()
            if k % 4 == 0:
                q = q.to_list()
            p["ids"], p["types"] = ids(q), types(q)
            p["first"], p["last"] = ids([q.first()])[0] if q.first() is not None else 0, ids([q.last()])[0] if q.last() is not None else 0
            for f in sorted(q.fieldtypes):
                v = q[f]
                a = [va(x) for x in v]
                b = [va(x) for x in v.to_list()]
                x = [k for k in range(-len(q), len(q)) if f in q[k]]
                if x and r.random() < .2:
                    x = r.choice(x)
                    a[x] = va(v[x])
                p["cols"].append(dict(f=f, v=a, l=b if len(v) == len(a) else b + ["length"]))
        except IndexError:
            p["err"] = True
        out["parts"].append(p)
    return out


def cases(r, tier, prop, tlc):
    big = tier == "thorough"
    for t in tlc:
        os = [dict(loose=False, fields=[["f", x]] if x != "-" else []) for x in t["ts"]]
        yield dict(cls="join/model", origins=os, each=True, seed=r.getrandbits(40))
        if r.random() < .5:
            for o in os:
                o = dict(o, loose=r.random() < .4)
            os = [dict(o, loose=r.random() < .4) for o in os]
            yield dict(cls="join/loose", origins=os, each=True, seed=r.getrandbits(40))
    for k in range(4000 if big else 500):
        few = r.choice([["i1", "i32", "i64", "f64"], ["i32", "i64"], ["string"], TYPES, r.sample(TYPES, 2)])
        os = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            os.append(dict(loose=r.random() < .25, fields=[[f, r.choice(few)] for f in ("f", "g", "h", "i") if r.random() < .6]))
        if r.random() < .05:
            for o in os:
                if o["loose"] and r.random() < .5:
                    o["fields"] = o["fields"][:r.randint(0, 3)] + [["z", "bad"]]
        yield dict(cls="join/random", origins=os, each=r.random() < .5, seed=r.getrandbits(40))
