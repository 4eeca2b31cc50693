"""Queries over layers, lists, spans and queries: histories with edits and updates."""
import random
from docria.model import Document, DataTypes as T, Node, TextSpan, NodeList, NodeSpan, NodeFieldCollection
from docria.query import NodePredicate

NONE = dict(k="none", n=0, q=[], t=[])
FIELDS = {"x": "num", "y": "num", "f": "num", "s": "str", "b": "num", "t": "span", "r": "node", "m": "list", "z": "bytes"}


class H:
    def __init__(self, c):
        self.c, self.r = c, random.Random(c["seed"])
        self.nodes, self.num = [], {}
        self.ev, self.snaps, self.qs = [], [], []
        self.same = True
        d = self.doc = Document()
        d.maintext = c["text"]
        self.l = d.add_layer("l", x=T.int32(None), y=T.int64(None), f=T.float64(None), s=T.string(None), b=T.bool(None), t=T.span(), r=T.noderef("l"),
                             m=T.noderef_many("l"), z=T.binary)

    # values as JSON, objects and records of the specification
    def obj(self, v, new=False):
        k = v[0]
        if k == "none":
            return None
        if k in ("int", "float", "str", "bool"):
            return float(v[1]) if k == "float" else v[1]
        if k == "bytes":
            return bytes(v[1])
        if k == "span":
            return self.doc.maintext[v[1]:v[2]]
        if k == "othertext":                                  # equal range of another text
            return Document_text(self.doc, v[1], v[2])
        live = [n for n in self.nodes if n.collection is self.l] or ([] if new else self.nodes)
        if k == "node":
            return live[v[1] % len(live)] if live else None
        return [live[i % len(live)] for i in v[1]] if live else []

    def rec(self, v):
        o = dict(NONE)
        if v is None:
            pass
        elif isinstance(v, float) and v != v:
            o["k"] = "nan"
        elif isinstance(v, (int, float)):
            o.update(k="num", n=int(v * 2))
        elif isinstance(v, str):
            o.update(k="str", q=[ord(x) for x in v])
        elif isinstance(v, bytes):
            o.update(k="bytes", q=list(v))
        elif isinstance(v, TextSpan):
            o.update(k="span", q=[v.start, v.stop], t=[ord(x) for x in v.text.text[v.start:v.stop]])
        elif isinstance(v, Node):
            o.update(k="node", n=self.id(v))
        else:
            o.update(k="list", q=[self.id(x) for x in v])
        return o

    def id(self, n):
        if id(n) not in self.num:
            self.nodes.append(n)
            self.num[id(n)] = len(self.nodes)
        return self.num[id(n)]

    def add(self, vals):
        n = self.l.add(**{k: self.obj(v, True) for k, v in vals.items() if self.obj(v, True) is not None})
        self.id(n)
        return n

    def state(self):
        """Everything, as it is now."""
        return [(id(n), n.collection is self.l, n.i if n.collection is self.l else -1,
                 [(k, id(v) if not isinstance(v, TextSpan) else (v.start, v.stop)) for k, v in n.items()]) for n in self.nodes] + [[id(n) for n in self.l]]

    def snap(self):
        s = dict(order=[self.id(n) for n in self.l], idx=[n.i if n.collection is self.l else 0 for n in self.nodes],
                 v=[{f: self.rec(n.get(f)) for f in FIELDS} for n in self.nodes])
        if not self.snaps or self.snaps[-1] != s:
            self.snaps.append(s)
        return len(self.snaps)

    def pred(self, p, src):
        """The real predicate, and the record of it. src: the collection the fields are taken from."""
        op = p["op"]
        r = dict(op=op)
        if op in ("not", "and", "or"):
            a, r["l"] = self.pred(p["l"], src)
            if op == "not":
                return ~a, r
            b, r["r"] = self.pred(p["r"], src)
            return (a & b if op == "and" else a | b), r
        if op == "even":
            return lambda n: (n.i if n.collection is self.l else 0) % 2 == 0, r
        f = p["f"]
        r["f"] = f
        fld = src[f]
        if op in ("same", "absent", "only"):
            r["g"] = p["g"]
            fn = dict(same=lambda a, b: a == b, absent=lambda a, b: a is None and b is None, only=lambda a, b: a is not None and b is None)[op]
            return self.l.filter(f, p["g"], fn=fn), r
        if op in ("eq", "ne", "lt", "le", "gt", "ge"):
            v = self.obj(p["v"])
            r["v"] = self.rec(v)
            return {"eq": lambda: fld == v, "ne": lambda: fld != v, "lt": lambda: fld < v, "le": lambda: fld <= v,
                    "gt": lambda: fld > v, "ge": lambda: fld >= v}[op](), r
        if op == "any":
            vs = [self.obj(v) for v in p["vs"]]
            r["vs"] = [self.rec(v) for v in vs]
            return fld.is_any(*vs), r
        if op == "none":
            return fld.is_none(), r
        if op == "has":
            return fld.has_value(), r
        if op in ("covered", "intersected"):
            r.update(a=p["a"], b=p["b"])
            return (fld.covered_by if op == "covered" else fld.intersected_by)(p["a"], p["b"]), r
        return fld.filter(bool if self.r.random() < .5 else (lambda v: v)), r   # truthy

    def record(self, op, **kw):
        e = dict(op=op, q=0, src=0, list=[], p=dict(op="even"), obs=[], ok=True, views=True, snap=self.snap())
        e.update(kw)
        self.ev.append(e)

    def seq(self, q):
        return [self.num.get(id(n), 0) for n in q]

    def views(self, q):
        """Every view of a query shows its nodes."""
        ns = list(q)
        ok = len(q) == len(ns) and [id(n) for n in iter(q)] == [id(n) for n in ns]
        ok = ok and q.first() is (ns[0] if ns else None) and q.last() is (ns[-1] if ns else None)
        l = q.to_list()
        ok = ok and isinstance(l, NodeList) and [id(n) for n in l] == [id(n) for n in ns]
        a, b = sorted([self.r.randint(0, len(ns)), self.r.randint(0, len(ns))])
        ok = ok and [id(n) for n in l[a:b]] == [id(n) for n in ns[a:b]] and [id(n) for n in l[::-1]] == [id(n) for n in ns[::-1]]
        for f in FIELDS:
            v = q[f]
            ok = ok and isinstance(v, NodeFieldCollection) and len(v) == len(ns)
            ok = ok and all(x is n.get(f) for x, n in zip(v, ns)) and len(list(v)) == len(ns) == len(v.to_list())
            ok = ok and v.dtype is self.l.schema.fields[f] and all(x is y for x, y in zip(v.to_list(), v))
        return bool(ok)

    def make(self, op):
        src = op["src"]
        if src == "layer" or (src == "query" and not self.qs):
            s, k, col = 0, [], self.l
        elif src == "query":
            k0 = op["n"] % len(self.qs)
            if self.qs[k0] is None:
                return
            s, k, col = k0 + 1, [], self.qs[k0]
        else:
            live = [n for n in self.l]
            if not live:
                return
            a, b = sorted([op["a"] % len(live), op["b"] % len(live)])
            if src == "span":
                col = NodeSpan(live[a], live[b])
            elif src == "slice":
                col = self.l[live[a].i:live[b].i + 1]
            elif src == "picked":
                order = list(range(a, b + 1))
                random.Random(op["a"]).shuffle(order)
                col = NodeList([live[x] for x in order], fieldtypes=self.l.fieldtypes)
            else:
                col = self.l.to_list()
            k, s = [self.id(n) for n in col], -1
            if src == "span":                                  # a span is live, queried at once only
                s = -2
        before = self.state()
        p, rec = self.pred(op["p"], col if self.r.random() < .4 else self.l)
        try:
            q = col[p]
            ok, obs = True, self.seq(q)
        except Exception:
            q, ok, obs = None, False, []
        self.same = self.same and before == self.state()
        self.qs.append(q)
        self.record("make", src=min(s, 0) if s <= 0 else s, list=k, p=rec, obs=obs, ok=ok)
        if s == -2:
            self.spanq.add(len(self.qs))

    def step(self, op):
        o = op["op"]
        if o == "make":
            self.make(op)
        elif o in ("update", "look"):
            if not self.qs:
                return
            k = op["n"] % len(self.qs)
            q = self.qs[k]
            if q is None or (o == "update" and k + 1 in self.spanq):
                return
            before = self.state()
            ok, obs, views = True, [], True
            try:
                if o == "update":
                    q.update()
                else:
                    views = self.views(q)
                obs = self.seq(q)
            except Exception:
                ok = False
            self.same = self.same and before == self.state()
            self.record(o, q=k + 1, ok=ok, obs=obs, views=views)
        elif o == "add":
            self.add(op["v"])
        elif o == "set" and self.nodes:
            n = self.nodes[op["n"] % len(self.nodes)]
            for k, v in op["v"].items():
                v = self.obj(v)
                if v is None:
                    n.pop(k, None)
                else:
                    n[k] = v
        elif o == "remove":
            live = list(self.l)
            if live:
                self.l.remove(live[op["n"] % len(live)])
        elif o == "compact":
            self.l.compact()


def Document_text(doc, a, b):
    from docria.model import Text
    return Text("other", doc.maintext.text.swapcase())[a:b]


def run(c):
    h = H(c)
    h.spanq = set()
    for v in c["nodes"]:
        h.add(v)
    for k in c["gone"]:
        live = list(h.l)
        if live:
            h.l.remove(live[k % len(live)])
    for op in c["ops"]:
        h.step(op)
    # node records of nodes added later than a snapshot are not needed by it
    return dict(ev=h.ev, snaps=h.snaps, same=h.same)


def rval(r, kind, n):
    if kind == "num":
        return r.choice([["int", r.randint(-2, 4)], ["int", r.randint(-2, 4)], ["float", r.choice([0.0, 0.5, 1.0, -1.5, 2.0])], ["bool", r.random() < .5]])
    if kind == "str":
        return ["str", "".join(r.choice("ab\U0001F600") for _ in range(r.choice([0, 1, 1, 2])))]
    if kind == "bytes":
        return ["bytes", [r.choice([0, 97, 255]) for _ in range(r.choice([0, 1, 2]))]]
    if kind == "span":
        a = r.randint(0, n)
        return ["span", a, min(n, a + r.choice([0, 1, 1, 2, 3]))]
    if kind == "node":
        return ["node", r.randint(0, 50)]
    return ["list", [r.randint(0, 50) for _ in range(r.choice([0, 1, 2]))]]


def exact(r, f, n):
    """A valid value of the field."""
    if f in ("x", "y"):
        return ["int", r.randint(-2, 4)]
    if f == "f":
        return ["float", r.choice([0.0, 0.5, 1.0, -1.5, 2.0, 3.0, "nan"])] if r.random() < .9 else ["float", 1.0]
    if f == "b":
        return ["bool", r.random() < .5]
    return rval(r, FIELDS[f], n)


def rpred(r, n, depth):
    x = r.random()
    if depth and x < .6:
        op = r.choice(["and", "or", "and", "or", "not"])
        d = dict(op=op, l=rpred(r, n, depth - 1))
        if op != "not":
            d["r"] = rpred(r, n, depth - 1)
            if r.random() < .1:
                d["r"] = dict(op="even")
            if op == "and" and "f" in d["r"] and r.random() < .6:   # guarded
                d["l"] = dict(op="has", f=d["r"]["f"])
        return d
    f = r.choice(list(FIELDS))
    kind = FIELDS[f]
    op = r.choice(["eq", "ne", "eq", "any", "none", "has", "truthy", "truthy", "same", "absent", "only", "only"] + (["lt", "le", "gt", "ge"] * 2 if kind in ("num", "str", "bytes") else [])
                  + (["covered", "intersected"] * 3 if kind == "span" else []))

    def val():
        y = r.random()
        if y < .1:
            return ["none"]
        if y < .2:
            return rval(r, r.choice(["num", "str", "bytes", "node"]), n)
        if kind == "span" and y < .5:
            return ["str", r.choice(["a", "b", "ab", " ", "", "ba"])]
        if kind == "span" and y < .6:
            a = r.randint(0, n)
            return ["othertext", a, min(n, a + 1)]
        return rval(r, kind, n)
    d = dict(op=op, f=f)
    if op in ("same", "absent", "only"):
        d["g"] = r.choice([g for g in FIELDS if r.random() < .5 or FIELDS[g] == kind] or ["x"])
    elif op in ("eq", "ne"):
        d["v"] = val()
    elif op in ("lt", "le", "gt", "ge"):
        d["v"] = rval(r, kind, n) if r.random() < .95 else val()
    elif op == "any":
        if kind == "list":
            return dict(op="has", f=f)
        d["vs"] = [val() for _ in range(r.choice([0, 1, 2, 4]))]
    elif op in ("covered", "intersected"):
        d["a"] = r.randint(0, n)
        d["b"] = r.randint(0, n)
        if r.random() < .8 and d["a"] > d["b"]:
            d["a"], d["b"] = d["b"], d["a"]
    return d


def fromtlc(p):
    d = dict(p)
    for k in ("l", "r"):
        if k in d:
            d[k] = fromtlc(d[k])
    conv = lambda v: ["none"] if v["k"] == "none" else ["int", v["n"] // 2]
    if "v" in d:
        d["v"] = conv(d["v"])
    if "vs" in d:
        d["vs"] = [conv(v) for v in d["vs"]]
    return d


def cases(r, tier, prop, tlc):
    big = tier == "thorough"
    grid = [{k: v for k, v in (("x", a), ("y", b)) if v is not None} for a in (None, ["int", 0], ["int", 1]) for b in (None, ["int", 0], ["int", 1])]
    for t in tlc if big else r.sample(tlc, min(len(tlc), 1500)):
        src = r.choice(["layer", "layer", "list", "slice", "span", "picked"])
        nodes = list(grid)
        r.shuffle(nodes)
        yield dict(cls="query/model", text="ab", nodes=nodes, gone=[], seed=r.getrandbits(40),
                   ops=[dict(op="make", src=src, a=0, b=8, n=0, p=fromtlc(t["p"])), dict(op="look", n=0)])
    for k in range(5000 if big else 900):
        text = "".join(r.choice("ab \u00e5") for _ in range(r.choice([0, 3, 8, 15])))
        n = len(text)

        def node():
            return {f: exact(r, f, n) for f in FIELDS if r.random() < .75}
        ops = []
        for _ in range(r.choice([2, 4, 8, 14])):
            x = r.random()
            if x < .45 or not ops:
                ops.append(dict(op="make", src=r.choice(["layer", "layer", "layer", "list", "slice", "span", "picked", "query", "query"]), a=r.randint(0, 40), b=r.randint(0, 40),
                                n=r.randint(0, 9), p=rpred(r, n, r.choice([0, 1, 2, 3]))))
            else:
                ops.append(r.choice([dict(op="look", n=r.randint(0, 9)), dict(op="update", n=r.randint(0, 9)), dict(op="update", n=r.randint(0, 9)), dict(op="add", v=node()),
                                     dict(op="set", n=r.randint(0, 40), v={f: (exact(r, f, n) if r.random() < .8 else ["none"]) for f in r.sample(sorted(FIELDS), 2)}),
                                     dict(op="remove", n=r.randint(0, 40)), dict(op="compact")]))
        ops += [dict(op="look", n=i) for i in range(3)]
        yield dict(cls="query/random", text=text, nodes=[node() for _ in range(r.choice([0, 1, 4, 9, 20, 40]))], gone=[r.randint(0, 40) for _ in range(r.choice([0, 0, 2, 12]))],
                   ops=ops, seed=r.getrandbits(40))
