"""Editing histories of documents on the real code; each step is recorded with its full effect."""
import random
from docria.model import (Document, DataTypes as T, Node, NodeSpan, NodeList, ExtData, Text, DataTypeEnum,
                          SchemaValidationError, NodeLayerCollection)
from docria.codec import MsgpackCodec, JsonCodec, XmlCodec
from docobs import Obs, atom

CASE_TIMEOUT = 40

MAIN = "".join(chr(c) for c in list(range(0x61, 0x7b)) + list(range(0x3b1, 0x3c9)) + list(range(0x10330, 0x1034b)))
ALT = "xyz \u00e4\U0001F600 0123456789"

#            structure ops ...                      invalid rate, big layer rate
PROFILES = {
    "C01": dict(w=dict(add_kw=6, add_nodes=4, add_many=4, remove=6, detach=3, delitem=3, remove_many=6, retain=4, sort=4, compact=2,
                       encode=2, load=.3, new_node=6), bad=.06, big=.5, steps=(8, 30)),
    "C02": dict(w=dict(add_kw=4, add_nodes=2, add_many=2, remove=5, detach=2, delitem=2, remove_many=5, retain=2, sort=3, compact=1,
                       encode=1, new_node=3, nav=16), bad=.02, big=.35, steps=(8, 22)),
    "C03": dict(w=dict(add_kw=6, add_nodes=6, add_many=7, remove=5, detach=3, delitem=3, remove_many=6, retain=6, sort=5, compact=1,
                       encode=2, load=.3, new_node=6, add_field=3, remove_field=2, remove_layer=2, add_layer=1, set=2, add_text=.5, maintext=1),
                bad=.5, big=.3, steps=(8, 24)),
    "C04": dict(w=dict(add_kw=7, add_nodes=3, add_many=7, remove=2, remove_many=1, new_node=6, add_field=8, remove_field=6,
                       set=4, unset=3, compact=1, load=.7, encode=1, sort=1, retain=.5, add_text=.4), bad=.12, big=.1, steps=(8, 24)),
    "C05": dict(w=dict(add_kw=8, add_nodes=2, add_many=8, remove=2, new_node=5, add_field=2, remove_field=1, set=7, unset=1,
                       encode=10, load=1.2, is_valid=8, sort=1, compact=.5, remove_layer=.6, add_layer=.6, add_text=.8), bad=.3, big=.1, steps=(6, 20)),
    "C08": dict(w=dict(add_kw=6, add_nodes=2, add_many=4, remove=5, remove_many=4, retain=2, sort=2, new_node=4, set=3, unset=1,
                       encode=14, load=.5, add_field=1, remove_field=1, compact=.5, add_text=.6, maintext=.2), bad=.12, big=.3, steps=(6, 20)),
    "C23": dict(w=dict(add_kw=5, add_many=3, set=4, new_node=2, add_field=6, remove_field=1, remove_layer=9, add_layer=6, encode=4,
                       load=.5, remove=1, add_text=.4), bad=.12, big=0, steps=(6, 20)),
    "C26": dict(w=dict(add_kw=4, add_many=3, remove=5, remove_many=4, retain=2, sort=2, compact=1, new_node=3, encode=.5, set=2, unset=1,
                       view=18), bad=.03, big=.3, steps=(6, 18)),
}
NAMES = ["f0", "f", "f00", "F0", "a.b c", "text"]           # names that contain one another
LNAMES = ["L1", "L", "L12", "a%b", "l1", "1"]


def cases(rng, tier, prop, tlc):
    seen = set()
    for c in tlc:
        key = str(c["ops"])
        if key in seen:
            continue
        seen.add(key)
        if tier == "quick" and len(c["ops"]) > 2 and rng.random() > .06:
            continue
        for fill in ((3, 19) if len(c["ops"]) < 3 else (rng.choice([3, 19]),) if tier == "quick" else (3, 19)):
            yield dict(cls="model-%d" % fill, kind="script", fill=fill, ops=c["ops"], seed=0, prof=prop)
    if prop == "C05":
        for t in ("i32", "i64", "f64", "i1", "str", "bin", "span", "spanalt", "noderef", "noderef_array", "nodespan", "selfref", "selfmany",
                  "selfspan", "i32d", "strd", "f64d", "i1d", "i64d"):
            for mode in ("built", "loaded"):
                yield dict(cls="matrix", kind="matrix", fill=0, ops=[t, mode], seed=0, prof=prop)
    if prop in ("C05", "C03"):
        whats = ("int", "wide", "span", "ref", "many", "long", "dflt", "extra", "foreign", "twin")
        for size in (3, 18, 70, 140) if tier == "quick" else (3, 9, 18, 33, 70, 140, 300):
            for pos in (0, size // 2, size - 1):
                for what in (whats if tier == "thorough" else rng.sample(whats, 5)):
                    yield dict(cls="late", kind="late", fill=0, ops=[size, pos, what], seed=rng.randrange(2**30), prof=prop)
    if prop in ("C01", "C02", "C03"):
        for size in (600, 1100) if tier == "quick" else (600, 700, 900, 1100, 1400, 1800):
            yield dict(cls="bulk", kind="bulk", fill=0, ops=[size], seed=rng.randrange(2**30), prof=prop)
    n = {"quick": 260, "thorough": 2400}[tier]
    for k in range(n):
        yield dict(cls="random", kind="random", fill=0, ops=[], seed=rng.randrange(2**40), prof=prop)


class Refused(Exception):
    pass


class Notcase(Exception):
    pass


FACTORY = dict(i32=T.int32, i64=T.int64, f64=T.float64, i1=T.bool, str=T.string, span=T.textspan, noderef=T.noderef, noderef_array=T.noderef_many,
               nodespan=T.nodespan)
UNSAID = dict(i32=0, i64=0, f64=0.0, i1=False, str="", bin=None)


class Decl:
    """A declaration: what was asked for, and the type object that the library made of it."""

    def __init__(self, o, t, dt):
        self.o, self.t, self.dt = o, t, dt

    def rec(self, f):
        t = self.t
        plain = t[0] in UNSAID
        d = (t[1] if len(t) > 1 else UNSAID[t[0]]) if plain else None
        if t[0] == "f64" and d is not None:
            d = float(d)
        return dict(f=atom(f), t=t[0], a="" if plain else atom(t[1]), d=self.o.value(d))


class H:
    def __init__(self, case):
        self.case = case
        self.o = Obs()
        self.rng = random.Random(case["seed"])
        self.ev = []
        self.last = []
        self.removed = []
        self.kept, self.views = [], {}

    # -- recording ------------------------------------------------------------------------------
    def snap(self):
        o = self.o
        ls = o.layers()
        k, out = 0, []
        while k < len(o.nodes):          # values may introduce further nodes
            n = o.nodes[k]
            cur = dict(u=k + 1, own=o.own(n), vals=o.vals(n))
            if k >= len(self.last):
                self.last.append(None)
            if self.last[k] != cur:
                out.append(cur)
                self.last[k] = cur
            k += 1
        return dict(layers=ls, chg=out, lname=list(o.lname), n=len(o.nodes))

    def init(self, doc):
        self.doc = self.o.doc = doc
        for l in doc.layers.values():
            self.o.layer(l)

    def step(self, op, fn):
        """Run fn, record what it reported and what it did."""
        r = dict(op=op, res="ok", ret="-", err="", x=dict(z=0))
        new = None
        try:
            ret = fn()
            if isinstance(ret, dict) and not isinstance(ret, Node):
                r["x"] = ret
            elif isinstance(ret, bool):
                r["ret"] = "T" if ret else "F"
            elif isinstance(ret, Node):
                self.o.node(ret)
            elif isinstance(ret, Document):
                new = ret
        except Exception as e:
            r["res"], r["err"] = "err", atom("%s: %s" % (type(e).__name__, e))[:160]
        if new is not None:
            self.doc = self.o.doc = new
            r["op"]["texts"] = [atom(k) for k in new.texts]
            for l in new.layers.values():
                self.o.layer(l)
        r["post"] = self.snap()
        self.ev.append(r)
        return r["res"] == "ok"

    # -- random pieces --------------------------------------------------------------------------
    def layer(self):
        ls = list(self.doc.layers.values())
        return self.rng.choice(ls) if ls else None

    def live(self, l=None):
        if l is None:
            l = self.layer()
        ns = list(l) if l is not None else []
        return self.rng.choice(ns) if ns else None

    def dangling(self):
        ns = [n for n in self.o.nodes if n.collection is None]
        return self.rng.choice(ns) if ns else None

    def span(self, name):
        t = self.doc.texts.get(name)
        if t is None:
            return None
        n = len(t)
        a, b = sorted((self.rng.randint(0, n), self.rng.randint(0, n)))
        if self.rng.random() < .25:
            b = a
        return t[a:b]

    def good(self, dt):
        """A value that conforms to the declared type, or None."""
        r, t = self.rng, dt.typename
        E = DataTypeEnum
        if t == E.I32:
            return r.choice([0, 1, -1, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, -2**31, r.randrange(-10**6, 10**6), True])
        if t == E.I64:
            return r.choice([0, 1, -33, 2**31, 2**32 - 1, 2**32, -2**31 - 1, 2**63 - 1, -2**63, False])
        if t == E.F64:
            return r.choice([0.0, -0.0, 1.5, float("inf"), 5e-324, r.random()])
        if t == E.BOOL:
            return r.choice([True, False])
        if t == E.STRING:
            return r.choice(["", "a", "\u00e5\U0001F600", "b" * 40, "\x00\n"])
        if t == E.BINARY:
            return r.choice([b"", b"\x00\xff", b"x" * 300])
        if t == E.SPAN:
            return self.span(dt.options["context"])
        if t == E.EXT:
            return ExtData(r.randrange(10), b"abc")
        tl = self.doc.layers.get(dt.options["layer"])
        ns = list(tl) if tl is not None else []
        if t == E.NODEREF:
            return r.choice(ns) if ns else None
        if t == E.NODEREF_MANY:
            k = r.choice([0, 1, 2, 3])
            v = [r.choice(ns) for _ in range(k)] if ns else []
            return r.choice([list, NodeList])(v)
        if t == E.NODEREF_SPAN:
            if not ns:
                return None
            a, b = sorted((r.randrange(len(ns)), r.randrange(len(ns))))
            return NodeSpan(ns[a], ns[b])

    def odd(self, dt):
        """A value that usually does not conform."""
        r = self.rng
        foreign = self.foreign
        ns = [n for l in self.doc.layers.values() for n in l]
        pick = lambda: r.choice(ns) if ns else None
        d = self.dangling()
        fn = r.choice(list(foreign.layers["L1"]))
        opts = [1.0, 1, 2**31, -2**31 - 1, 2**63, -2**63 - 1, "1", b"1", True, None, [1], {}, (1, 2), Text("main", "q")[0:1],
                foreign.texts["main"][0:2], foreign.texts["main"], self.twin.texts["main"][1:4], ExtData(1, b""), fn, [fn], NodeSpan(fn, fn), object, 1j, "", b"", [],
                bytearray(b"x")]
        for x in (pick(), d):
            if x is not None:
                opts += [x, [x], [x, None], [x, 1], (x,)]
        for l in self.doc.layers.values():
            if len(l):
                opts.append(NodeSpan(l.first(), l.last()))
                opts.append([l.first(), fn])
                opts.append([l.first(), d])
        for t in self.doc.texts.values():
            opts.append(t[0:min(2, len(t))])
        near = self.near(dt)
        if near and r.random() < .6:
            opts = near
        if dt is not None and dt.typename == DataTypeEnum.EXT:   # outside what is specified before encoding
            opts = [ExtData(3, b"q"), b"qq"]
        if dt is not None and dt.typename == DataTypeEnum.NODEREF_MANY:
            opts = [x for x in opts if not isinstance(x, NodeSpan)]
        return r.choice(opts)

    def near(self, dt):
        """Values that narrowly fail to conform (or just conform)."""
        if dt is None:
            return []
        E, t = DataTypeEnum, dt.typename
        if t == E.I32:
            return [2**31, -2**31 - 1, 2**31 - 1, -2**31, 2**63, 1.0, "1", None]
        if t == E.I64:
            return [2**63, -2**63 - 1, 2**63 - 1, -2**63, 2**64, 1.0, "1", None]
        if t == E.F64:
            return [1, 0, True, "1.0", None, 2**70]
        if t == E.BOOL:
            return [0, 1, "True", None, 1.0]
        if t == E.STRING:
            return [b"a", None, 1, ["a"]]
        if t == E.BINARY:
            return ["a", None, bytearray(b"a"), [1]]
        if t == E.SPAN:
            return [self.foreign.texts["main"][0:2], self.twin.texts["main"][0:2], "text", (0, 1), None] + [x[0:1] for x in self.doc.texts.values() if len(x)]
        if t == E.EXT:
            return []
        tl = self.doc.layers.get(dt.options["layer"])
        ok = list(tl) if tl is not None else []
        others = [n for l in self.doc.layers.values() if l is not tl for n in l]
        out = []
        wrong = [x for x in [self.dangling(), self.rng.choice(others) if others else None, self.rng.choice(list(self.foreign.layers["L1"]))]
                 if x is not None] + [None, 5]
        for w in wrong:
            if t == E.NODEREF:
                out += [w, [w], [ok[0]] if ok else None]
            elif t == E.NODEREF_MANY:
                k = self.rng.randint(0, 3)
                v = [self.rng.choice(ok) for _ in range(k)] if ok else []
                v.insert(self.rng.randint(0, len(v)), w)
                out += [v, w, ok[0] if ok else w, tuple(ok[:1])]
            else:
                if isinstance(w, Node) and w.collection is not None:
                    out.append(NodeSpan(w, w))
                out += [w, ok[0] if ok else w, [ok[0], ok[-1]] if ok else []]
        return out

    def kw(self, l, bad):
        r, kw = self.rng, {}
        items = list(l.schema.fields.items())
        for f, dt in items:
            if r.random() < .5:
                v = self.good(dt)
                if v is not None:
                    kw[f] = v
        if bad and items:
            f, dt = r.choice(items)
            kw[f] = self.odd(dt)
        if r.random() < (.3 if bad else .05):
            kw["undeclared"] = r.choice([1, "x"])
        return kw

    def newfield(self):
        r = self.rng
        names = list(self.doc.layers) + (["nowhere"] if r.random() < .02 else [])
        lay = r.choice(names) if names else "L1"
        tx = r.choice(list(self.doc.texts) + (["notext"] if r.random() < .03 else []))
        mk = [("i32",), ("i32", None), ("i32", 7), ("i64",), ("i64", -1), ("f64",), ("f64", 1.5), ("str",), ("str", None), ("str", "dflt"), ("i1",),
              ("i1", True), ("i1", None), ("bin",), ("f64", None), ("i64", None), ("i32", True), ("i32", 0), ("i1", False), ("f64", 0.0),
              ("span", tx), ("span", tx), ("noderef", lay), ("noderef", lay), ("noderef_array", lay), ("noderef_array", lay), ("nodespan", lay), ("nodespan", lay)]
        if self.case["prof"] == "C23" and r.random() < .6:
            mk = mk[-6:]
        t = r.choice(mk)
        if r.random() < .25 and lay in self.doc.layers and tx in self.doc.texts:      # declared with the layer or text itself
            lay, tx = self.doc.layers[lay], self.doc.texts[tx]
        arg = t[1:] if t[0] in ("i32", "i64", "f64", "i1", "str", "bin") else (tx if t[0] == "span" else lay,)
        return Decl(self.o, t, FACTORY[t[0]](*arg) if t[0] != "bin" else T.binary)

    # -- operations -----------------------------------------------------------------------------
    def do(self, name, bad):
        r, o = self.rng, self.o
        l = self.layer()
        if l is None and name not in ("add_layer", "remove_layer", "new_node", "encode", "load", "add_text", "maintext"):
            raise Notcase()
        lid = o.layer(l) if l is not None else 0
        if name == "add_layer":
            free = [n for n in LNAMES if n not in self.doc.layers]
            if not free:
                raise Notcase()
            nm = r.choice(free)
            fs = {}
            for f in r.sample(NAMES, r.randint(0, 3)):
                fs[f] = self.newfield()
            if bad:
                fs["f9"] = r.choice([int, "int32", 3, None, [T.int32()]])
            types = {k: v.dt if isinstance(v, Decl) else v for k, v in fs.items()}

            def f():
                self.doc.add_layer(nm, **types)
            op = dict(op="add_layer", name=nm, lid=len(o.lays) + 1, bad=bool(bad),
                      fields=[] if bad else [v.rec(k) for k, v in fs.items()])
            if self.step(op, f) and not bad:
                pass
        elif name == "new_node":
            kw = self.kw(l, bad) if l is not None else {}
            k = dict(kw)
            op = dict(op="new_node", kw=[dict(f=f, v=o.value(v)) for f, v in kw.items()])
            self.step(op, lambda: Node(k))
        elif name == "add_kw":
            kw = self.kw(l, bad)
            op = dict(op="add_kw", lid=lid, kw=[dict(f=f, v=o.value(v)) for f, v in kw.items()])
            self.step(op, lambda: l.add(**kw))
        elif name in ("add_nodes", "add_many"):
            k = r.choice([1, 1, 2, 3, 5]) if name == "add_nodes" else r.choice([0, 1, 2, 3, 6, 6, 20])
            items = []
            for _ in range(k):
                d = self.dangling()
                items.append(d if d is not None and r.random() < .6 else Node(self.kw(l, bad and r.random() < .5)))
            seen = []
            items = [x for x in items if not any(x is y for y in seen) and not seen.append(x)]
            if bad and r.random() < .7:
                n = self.live()
                items.insert(r.randint(0, len(items)), r.choice([None, 5, "x", {}, n if n is not None else 0] +
                                                                 ([r.choice(items)] if items else [])))
            if not items and name == "add_nodes":
                raise Notcase()
            new = [x for i, x in enumerate(items) if isinstance(x, Node) and id(x) not in o.uid and not any(x is y for y in items[:i])]
            if new:
                self.step(dict(op="new_nodes", kws=[o.vals(x) for x in new]), lambda: [o.node(x) for x in new] and None)
            us = [o.node(x) if isinstance(x, Node) else 0 for x in items]
            if name == "add_nodes":
                self.step(dict(op=name, lid=lid, items=us), lambda: l.add(*items) and None)
            else:
                fill, check = r.random() < .7, r.random() < .75
                form = r.choice([list, tuple, iter, lambda q: (x for x in q)])
                self.step(dict(op=name, lid=lid, items=us, fill=fill, check=check),
                          lambda: l.add_many(form(items), default_fill=fill, full_validation=check))
        elif name in ("remove", "detach", "delitem"):
            n = self.live(l)
            if bad and name != "detach":
                other = [x for m in self.doc.layers.values() if m is not l for x in m]
                n = r.choice([self.dangling(), r.choice(other) if other else 3, 5, None, "abc", r.choice(list(self.foreign.layers["L1"]))])
                if n is None or isinstance(n, int):
                    self.step(dict(op="remove", lid=lid, items=[0]), lambda: l.remove(n))
                    return
            if n is None:
                raise Notcase()
            us = [o.node(n) if isinstance(n, Node) else 0]
            fn = {"remove": lambda: l.remove(n), "detach": lambda: n.detach(), "delitem": lambda: l.__delitem__(n)}[name]
            self.step(dict(op=name, lid=lid, items=us), fn)
        elif name == "remove_many":
            ns = list(l)
            k = r.choice([0, 1, 2, 4, len(ns) // 2, len(ns)])
            items = r.sample(ns, min(k, len(ns)))
            if r.random() < .2:
                items.insert(r.randint(0, len(items)), None)
            if bad:
                other = [x for m in self.doc.layers.values() if m is not l for x in m]
                items.insert(r.randint(0, len(items)), r.choice([7, "z", self.dangling() or 1, r.choice(other) if other else 3] + [r.choice(list(self.foreign.layers["L1"]))] * 2 +
                                                                 ([items[0]] if items and items[0] is not None else [])))
            how = r.choice(["items", "items", "items", "live", "run", "gone"])
            if not bad and ns and how != "items":            # the layer itself or a part of it says what to remove
                if how == "run":
                    i, j = sorted((r.randrange(len(ns)), r.randrange(len(ns))))
                    items = ns[i:j + 1]
                    arg = NodeSpan(ns[i], ns[j])
                elif how == "live":
                    pick = {id(x) for x in items}
                    items = [x for x in ns if id(x) in pick]
                    arg = (x for x in l if id(x) in pick)
                else:
                    items, arg = ns, r.choice([l, l.to_list(), iter(l), reversed(ns)])
                    if not isinstance(arg, (list, NodeLayerCollection)) and type(arg).__name__ == "list_reverseiterator":
                        items = ns[::-1]
                us = [o.node(x) for x in items]
                self.step(dict(op=name, lid=lid, items=us), r.choice([lambda: l.remove(arg), lambda: l.__delitem__(arg)]))
                return
            us = [-1 if x is None else o.node(x) if isinstance(x, Node) else 0 for x in items]
            form = r.choice([list, tuple, iter, lambda q: (x for x in q)] + ([NodeList] if not bad and all(isinstance(x, Node) for x in items) else []))
            fn = r.choice([lambda: l.remove(form(items)), lambda: l.__delitem__(form(items))])
            self.step(dict(op=name, lid=lid, items=us), fn)
        elif name == "retain":
            ns = list(l)
            items = r.sample(ns, r.choice([0, len(ns) // 2, len(ns) * 3 // 4, max(0, len(ns) - 1), len(ns)]))
            nb = False
            if bad:
                other = [x for m in self.doc.layers.values() if m is not l for x in m]
                items.insert(r.randint(0, len(items)), r.choice([7, None, "z", self.dangling() or 1, r.choice(other) if other else 3] + [r.choice(list(self.foreign.layers["L1"]))] * 3))
            us = [o.node(x) if isinstance(x, Node) else 0 for x in items]
            arg = r.choice([list, tuple, iter])(items)
            if not bad and ns and r.random() < .4:
                i, j = sorted((r.randrange(len(ns)), r.randrange(len(ns))))
                pick = {id(x) for x in items}
                items, arg = r.choice([(ns[i:j + 1], NodeSpan(ns[i], ns[j])), (ns, l), ([x for x in ns if id(x) in pick], (x for x in l if id(x) in pick))])
                us = [o.node(x) for x in items]
            if bad and r.random() < .2:
                arg, nb, us = r.choice([5, object()]), True, []
            self.step(dict(op=name, lid=lid, items=us, bad=nb), lambda: l.retain(arg))
        elif name == "sort":
            ns = list(l)
            mode = r.choice(["key", "key", "ties", "rev", "const"])
            keys = {id(n): {"key": r.random(), "ties": r.randrange(3), "rev": -i, "const": 0}[mode] for i, n in enumerate(ns)}
            ks = [keys[id(n)] for n in ns]
            rank = {v: i for i, v in enumerate(sorted(set(ks)))}
            at = r.randrange(len(ns)) if ns else 0
            fail = bool(bad and len(ns) > 1)
            kind = r.choice(["raise", "mixed"])

            def keyfn(n):
                if fail and n is ns[at]:
                    if kind == "raise":
                        raise KeyError("key")
                    return "x"
                return keys[id(n)]
            self.step(dict(op=name, lid=lid, keys=[rank[k] for k in ks], fail=fail), lambda: l.sort(keyfn))
        elif name == "compact":
            self.step(dict(op=name, lid=lid), lambda: l.compact())
        elif name == "add_field":
            free = [n for n in NAMES if n not in l.schema.fields]
            if bad:
                used = list(l.schema.fields)
                if used and r.random() < .6:
                    f, dt, b = r.choice(used), self.newfield(), False
                elif free:
                    f, dt, b = r.choice(free), r.choice([3, "int32", None]), True
                else:
                    raise Notcase()
            else:
                if not free:
                    raise Notcase()
                f, dt, b = r.choice(free), self.newfield(), False
            init = r.random() < .7
            ft = o.field(f, T.int32()) if b else dt.rec(f)
            dt = dt if b else dt.dt
            self.step(dict(op=name, lid=lid, ft=ft, init=init, bad=b), lambda: l.add_field(f, dt, init_with_default=init))
        elif name == "remove_field":
            fs = list(l.schema.fields)
            f = r.choice(fs) if fs and not bad else "nofield"
            leave = r.random() < .3
            self.step(dict(op=name, lid=lid, f=f, leave=leave), lambda: l.remove_field(f, leave_data=leave))
        elif name in ("set", "unset"):
            n = self.live(l) if r.random() < .8 else self.dangling()
            if n is None:
                raise Notcase()
            if name == "set":
                fs = list(l.schema.fields.items())
                f, dt = r.choice(fs) if fs else ("undeclared", None)
                if bad and r.random() < .15:
                    f, dt = "undeclared", None
                v = self.odd(dt) if bad else (self.good(dt) if dt is not None else 3)
                if v is None and not bad:
                    raise Notcase()
                fn = r.choice([lambda: n.__setitem__(f, v), lambda: setattr(n.fld, f, v), lambda: n.update({f: v})])
                self.step(dict(op="set", n=o.node(n), f=f, v=o.value(v)), fn)
            else:
                if not len(n):
                    raise Notcase()
                f = r.choice(list(n))
                fn = r.choice([lambda: n.__delitem__(f), lambda: delattr(n.fld, f), lambda: (n.pop(f), None)[1]])
                self.step(dict(op="unset", n=o.node(n), f=f), fn)
        elif name == "remove_layer":
            names = list(self.doc.layers)
            nm = r.choice(names) if names and not bad else "nolayer"
            via = r.random() < .2
            cas = r.random() < .5 and not via
            fn = (lambda: self.doc.__delitem__(nm)) if via else (lambda: self.doc.remove_layer(nm, fieldcascade=cas))
            self.step(dict(op=name, name=nm, cascade=cas, viaDel=via), lambda: None if via and fn() is not None else (fn() if not via else None))
        elif name in ("encode", "load"):
            extra, typed = r.random() < .25, r.random() < .85
            codec = r.choice(["msgpack", "msgpack", "json", "xml", "compile"]) if name == "encode" else r.choice(["msgpack", "json"])
            if name == "load" or codec == "json":
                extra, typed = False, True
            if r.random() < .6:
                self.clean()
            doc = self.doc
            kw = dict(extra_fields_ok=extra, type_validation=typed)

            def f():
                if codec == "msgpack":
                    b = MsgpackCodec.encode(doc, **kw)
                    return MsgpackCodec.decode(b) if name == "load" else None
                elif codec == "json":
                    b = JsonCodec.encode(doc)
                    return JsonCodec.decode(b) if name == "load" else None
                elif codec == "xml":
                    XmlCodec.encode_utf8string(doc, **kw)
                else:
                    doc.compile(**kw)
            self.step(dict(op=name, extra=extra, typed=typed, codec=codec), f)
        elif name == "is_valid":
            n = self.live(l)
            if n is None:
                raise Notcase()
            form = r.choice(["is_valid", "validate", "noexcept"])

            def f():
                if form == "is_valid":
                    return bool(n.is_valid())
                try:
                    return bool(l.validate(n) if form == "validate" else n.is_valid(noexcept=False))
                except (AssertionError, SchemaValidationError):
                    return False
            self.step(dict(op=name, n=o.node(n), lid=lid), f)
        elif name == "add_text":
            nm = next((x for x in ("alt", "x1", "\u00e5 text") if x not in self.doc.texts), None)
            if nm is None:
                raise Notcase()
            op = dict(op=name, texts=[atom(t) for t in list(self.doc.texts) + [nm]])
            self.step(op, lambda: self.doc.add_text(nm, "added \U0001F600 text") and None)
        elif name == "maintext":                             # the main text is set once
            v = r.choice([MAIN, "other", "", Text("main", "other"), Text("notmain", "q"), None, 5])
            doc, other = r.choice([self.doc, None, self.doc]), r.choice(["", " x"])
            if doc is None:
                doc = Document()
                doc.maintext = other

            def f():
                look = lambda: [[atom(k), atom(str(t))] for k, t in doc.texts.items()]
                before, held, refused = look(), doc.maintext, True
                try:
                    doc.maintext = v
                    refused = False
                except Exception:
                    pass
                return dict(refused=refused, before=before, after=look(), same=doc.maintext is held)
            self.step(dict(op=name), f)
        elif name == "nav":
            self.step(dict(op=name, lid=lid), lambda: self.nav(l))
        elif name == "view":
            if r.random() < .3:
                self.step(dict(op="compact", lid=lid), lambda: l.compact())
            self.step(dict(op=name, lid=lid), lambda: self.view(l))
        else:
            raise AssertionError(name)

    @staticmethod
    def valid(dt, v):
        try:
            return bool(dt.is_valid(v))
        except Exception:
            return False

    def clean(self):
        """Edit until (usually) the document conforms, so that encoding has something to encode."""
        o, doc = self.o, self.doc
        for l in list(doc.layers.values()):
            for f, dt in list(l.schema.fields.items()):
                t = dt.options.get("layer")
                if (t is not None and t not in doc.layers) or ("context" in dt.options and dt.options["context"] not in doc.texts):
                    self.step(dict(op="remove_field", lid=o.layer(l), f=f, leave=False), lambda: l.remove_field(f))
        for l in list(doc.layers.values()):
            for n in list(l):
                for f in list(n):
                    dt = l.schema.fields.get(f)
                    v = n[f]
                    bad = dt is None or not self.valid(dt, v)
                    if not bad and "layer" in dt.options:
                        es = [v] if isinstance(v, Node) else [v.left, v.right] if isinstance(v, NodeSpan) else list(v)
                        bad = any(e.collection is not doc.layers[dt.options["layer"]] for e in es)
                    if not bad and "context" in dt.options:
                        bad = v.text is not doc.texts[dt.options["context"]]
                    if bad and self.rng.random() < .95:
                        self.step(dict(op="unset", n=o.node(n), f=f), lambda: n.__delitem__(f))

    # -- queries --------------------------------------------------------------------------------
    def seq(self, it):
        return [self.o.node(n) if isinstance(n, Node) else -1 for n in it]

    def nav(self, l):
        r, o = self.rng, self.o
        ns = list(l)
        N = lambda n: 0 if n is None else o.node(n)
        out = dict(left=[N(n.left) for n in ns], right=[N(n.right) for n in ns],
                   left2=[N(l.left(n)) for n in ns], right2=[N(l.right(n)) for n in ns], pairs=[])
        pos = {id(n): i for i, n in enumerate(ns)}
        pairs = [(a, b) for a in range(len(ns)) for b in range(len(ns))]
        if len(pairs) > 40:
            pairs = r.sample(pairs, 30) + [(0, len(ns) - 1), (len(ns) - 1, 0)]
        old = {(id(x), id(y)): s for x, y, s in self.kept[-60:] if id(x) in pos and id(y) in pos}      # node spans made before the last edits
        self.kept = [k for k in self.kept if (id(k[0]), id(k[1])) not in old]
        pairs = [(pos[x], pos[y]) for x, y in old] + [p for p in pairs if (id(ns[p[0]]), id(ns[p[1]])) not in old]
        hastext = "text" in l.schema.fields and l.schema.fields["text"].typename == DataTypeEnum.SPAN and \
            l.schema.fields["text"].options["context"] == "main"
        for a, b in pairs:
            x, y = ns[a], ns[b]
            p = dict(a=o.node(x), b=o.node(y), it=self.seq(x.iter_span(y)), ok=True, len=0, lst=[], tolist=[], first=0, last=0,
                     ht=False, text="", ts=[], direct=[])
            try:
                s = old.pop((id(x), id(y)), None) or NodeSpan(x, y)
                if r.random() < .7:
                    self.kept.append((x, y, s))
                p["len"], p["lst"], p["first"], p["last"] = len(s), self.seq(s), N(s.first()), N(s.last())
                p["tolist"] = self.seq(s.to_list())
                p["direct"] = self.seq(l.iter_nodespan(x, y))
            except AssertionError:
                p["ok"] = False
            if p["ok"] and hastext and "text" in x and "text" in y:
                sx, sy = x["text"], y["text"]
                if getattr(sx, "text", None) is self.doc.maintext and getattr(sy, "text", None) is self.doc.maintext and sx.start <= sy.stop:
                    p["ht"] = True
                    t = s.textspan()
                    p["text"] = atom(s.text())
                    p["ts"] = [int(t.start), int(t.stop)]
            out["pairs"].append(p)
        out["main"] = [atom(c) for c in self.doc.maintext.text] if any(p["ht"] for p in out["pairs"]) else []
        return out

    def view(self, l):
        r, o = self.rng, self.o
        n = len(l)
        out = dict(sl=[], nl=[], ix=[], fv=[], tab=[], tolist=self.seq(l.to_list()), nlist=[], n1=0, n2=0)
        hi = max([x.i for x in l], default=-1) + 1
        packed = hi == n

        def bnd():
            return r.choice([None, r.randint(0, hi + 2), r.randint(0, hi)])
        for _ in range(4):
            a, b, st = bnd(), bnd(), r.choice([None, None, 1, 2, 3])
            if b is None and not packed:
                b = hi + 5
            out["sl"].append(dict(a=0 if a is None else a, b=hi if b is None else b, st=st or 1, r=self.seq(l[a:b:st])))
        nl = l.to_list()
        out["nlist"] = self.seq(nl)
        out["n1"] = 0 if nl.first() is None else o.node(nl.first())
        out["n2"] = 0 if nl.last() is None else o.node(nl.last())
        for _ in range(4):
            a, b, st = (r.choice([None, r.randint(-n - 2, n + 2)]) for _ in range(3))
            st = st or r.choice([None, 1, -1])
            rng = range(*slice(a, b, st).indices(n))
            out["nl"].append(dict(ix=[i + 1 for i in rng], r=self.seq(nl[a:b:st]), t=sorted(atom(f) for f in nl[a:b:st].fieldtypes)))
        for _ in range(3):
            ix = [r.randrange(-n, n) for _ in range(r.randint(0, 4))] if n else []
            out["ix"].append(dict(ix=[(i % n) + 1 for i in ix], r=self.seq(nl[ix]), t=sorted(atom(f) for f in nl[ix].fieldtypes)))
        nsp = NodeSpan(l.first(), l.last()) if n else None
        for f in l.schema.fields:
            if any(isinstance(x.get(f), (list,)) and any(not isinstance(y, Node) for y in x.get(f)) for x in l):
                continue
            V = o.value
            fv = self.views.get((id(l), f)) or l[f]          # a view that was made before the last edits
            self.views[id(l), f] = fv
            out["fv"].append(dict(f=atom(f), r=[V(v) for v in fv], lst=[V(v) for v in fv.to_list()], nl=[V(v) for v in nl[f]],
                                  len=len(fv), sp=[V(v) for v in nsp[f]] if nsp else [], dt=o.field(f, fv.dtype),
                                  at=[V(nl[f][i]) if f in nl[i] else V(None) for i in range(n)]))
        from pandas import DataFrame
        fs = [f for f in l.schema.fields if r.random() < .6]
        r.shuffle(fs)
        mat = r.random() < .5
        refs = r.random() < .6
        allf = r.random() < .4
        df = l.to_pandas(None if allf else r.choice([list, tuple, iter])(fs), materialize_spans=mat, include_ref_field=refs)
        cols = list(df.columns)
        tab = dict(rows=len(df), cols=[atom(c) for c in cols], want=[atom(f) for f in (list(l.schema.fields) if allf else fs)], refs=refs,
                   ref=self.seq(df["__ref"]) if refs else [], mat=mat, spans=[], cells=[])
        for f in list(l.schema.fields) if allf else fs:
            vs = [x.get(f) for x in l]
            kinds = {type(v) for v in vs if v is not None}
            if mat and l.schema.fields[f].typename == DataTypeEnum.SPAN or complex in kinds or float in kinds and (len(kinds) > 1 or any(v != v for v in vs)) or \
                    int in kinds and (len(kinds) > 1 or any(abs(v) >= 2**53 for v in vs if v is not None)):
                continue                                      # pandas changes the values
            got = [v.item() if hasattr(v, "item") else v for v in df[f]]
            got = [None if isinstance(v, float) and v != v else int(v) if isinstance(v, float) and float not in kinds and v.is_integer() else v for v in got]
            tab["cells"].append(dict(f=atom(f), r=[o.value(v) for v in got]))
        if mat and n:
            for f in (list(l.schema.fields) if allf else fs):
                if l.schema.fields[f].typename == DataTypeEnum.SPAN and l.schema.fields[f].options["context"] == "main":
                    if all(f not in x or getattr(x[f], "text", None) is self.doc.maintext for x in l):
                        tab["spans"].append(dict(f=atom(f), r=[atom(v) if isinstance(v, str) else "-" for v in df[f]]))
        tab["main"] = [atom(c) for c in self.doc.maintext.text] if tab["spans"] else []
        out["tab"] = [tab]
        return out

    # -- histories ------------------------------------------------------------------------------
    def base(self):
        r = self.rng
        doc = Document()
        main = MAIN[:r.choice([10, 30, len(MAIN)])]
        doc.maintext = r.choice([lambda x: x, lambda x: Text("main", x)])(main)
        if r.random() < .6:
            doc.add_text("alt", ALT)
        self.foreign = Document()
        self.foreign.maintext = "other text"
        self.foreign.add_layer("L1", x=T.int32())
        for k in range(3):
            self.foreign.layers["L1"].add(x=k)
        self.twin = Document()                               # a text of the same name and length, other characters
        self.twin.maintext = doc.maintext.text[:1] + doc.maintext.text[:0:-1]
        self.init(doc)
        self.o.layer(self.foreign.layers["L1"])
        for n in self.foreign.layers["L1"]:
            self.o.node(n)

    def random(self):
        r = self.rng
        prof = PROFILES[self.case["prof"]]
        self.base()
        first = self.snap()
        start = dict(texts=[atom(t) for t in self.doc.texts], post=first)
        # layers
        nl = r.choice([1, 1, 2, 3]) if self.case["prof"] != "C23" else r.choice([2, 3, 4])
        lnames = r.sample(LNAMES, nl)
        for k in range(nl):
            fs = {}
            for f in r.sample(NAMES[:5], r.randint(0, 4)):
                fs[f] = self.newfield()
            if r.random() < .6:
                fs["text"] = Decl(self.o, ("span", "main"), T.textspan("main"))
            nm = lnames[k]
            self.step(dict(op="add_layer", name=nm, lid=len(self.o.lays) + 1, bad=False,
                           fields=[b.rec(a) for a, b in fs.items()]), lambda: self.doc.add_layer(nm, **{a: b.dt for a, b in fs.items()}) and None)
        big = r.random() < prof["big"]
        if big:
            l = self.layer()
            items = [Node(self.kw(l, False)) for _ in range(r.choice([17, 20, 24, 40, 70, 130] + ([300] if r.random() < .2 else [])))]
            self.step(dict(op="new_nodes", kws=[self.o.vals(x) for x in items]), lambda: [self.o.node(x) for x in items] and None)
            us = [self.o.node(x) for x in items]
            self.step(dict(op="add_many", lid=self.o.layer(l), items=us, fill=True, check=True), lambda: l.add_many(items))
        else:
            for _ in range(r.randint(0, 6)):
                try:
                    self.do("add_kw", False)
                except Notcase:
                    pass
        ops, ws = zip(*prof["w"].items())
        for _ in range(r.randint(*prof["steps"])):
            name = r.choices(ops, ws)[0]
            try:
                self.do(name, r.random() < prof["bad"])
            except Notcase:
                pass
        if r.random() < .5:
            try:
                self.do("encode", False)
            except Notcase:
                pass
        return dict(start=start, ev=self.ev)

    def bulk(self):
        """A long layer, thinned out and refilled."""
        r, o = self.rng, self.o
        self.base()
        start = dict(texts=[atom(t) for t in self.doc.texts], post=self.snap())
        fs = dict(f1=Decl(o, ("i32", 7), T.int32(7)), f2=Decl(o, ("noderef", "L1"), T.noderef("L1")))
        self.step(dict(op="add_layer", name="L1", lid=len(o.lays) + 1, bad=False, fields=[b.rec(a) for a, b in fs.items()]),
                  lambda: self.doc.add_layer("L1", **{a: b.dt for a, b in fs.items()}) and None)
        l = self.doc["L1"]
        lid = o.layer(l)

        def fill(n):
            items = [Node(f1=k) if k % 5 == 0 else Node() for k in range(n)]
            self.step(dict(op="new_nodes", kws=[o.vals(x) for x in items]), lambda: [o.node(x) for x in items] and None)
            us = [o.node(x) for x in items]
            self.step(dict(op="add_many", lid=lid, items=us, fill=bool(n % 2), check=True), lambda: l.add_many(items, default_fill=bool(n % 2)))

        def drop(items):
            us = [o.node(x) for x in items]
            self.step(dict(op="remove_many", lid=lid, items=us), lambda: l.remove(items))

        def run(share, at):
            ns = list(l)
            k = max(1, int(len(ns) * share))
            a = {"head": 0, "tail": len(ns) - k, "mid": (len(ns) - k) // 2}[at]
            drop(ns[a:a + k])
        fill(self.case["ops"][0])
        todo = ["head", "tail", "mid", "many", "few", "sort", "refused", "retain", "fill", "encode", "single"]
        r.shuffle(todo)
        bad = self.case["prof"] == "C03"
        for what in ["few"] + todo[:5 if self.case["prof"] == "C02" else 8]:
            try:
                if what in ("head", "tail", "mid"):
                    run(r.choice([.02, .2, .24, .26, .5]), what)
                elif what == "many":
                    self.do("remove_many", bad)
                elif what == "few":
                    drop(r.sample(list(l), min(len(l), r.choice([1, 3, 9]))))
                elif what == "refused":
                    self.do(r.choice(["remove_many", "add_many", "retain", "sort", "add_nodes"]), True)
                elif what == "fill":
                    fill(r.choice([1, 17, 300]))
                elif what == "single":
                    for _ in range(3):
                        self.do("remove", False)
                        self.do("add_kw", False)
                else:
                    self.do(what, bad and what in ("sort", "retain") and r.random() < .5)
                if self.case["prof"] == "C02":
                    self.do("nav", False)
            except Notcase:
                pass
        return dict(start=start, ev=self.ev)

    def late(self):
        """One non-conforming value among many nodes, at every kind of position."""
        self.base()
        o, doc = self.o, self.doc
        size, pos, what = self.case["ops"]
        l = doc.add_layer("L1", v=T.int32(None), s=T.textspan("main"), r=T.noderef("L1"), m=T.noderef_many("L1"), d=T.string("dd"))
        lid = o.layer(l)
        start = dict(texts=[atom(t) for t in doc.texts], post=self.snap())
        sp = doc.maintext[0:1]
        items = [Node(v=k) for k in range(size)]
        for k, x in enumerate(items):
            x["s"] = sp
            x["r"] = items[(k * 7 + 1) % size]
            x["m"] = [items[(k + 1) % size], items[k]]
        x = items[pos]
        gone = Node()
        f, v = {"int": ("v", "x"), "wide": ("v", 2**31), "span": ("s", self.foreign.maintext), "ref": ("r", gone), "many": ("m", [x, items[0], gone]), "long": ("m", items[:pos] + [gone] + items[pos:]),
                "dflt": ("d", 3), "extra": ("undeclared", 1), "foreign": ("r", self.foreign.layers["L1"].first()), "twin": ("s", self.twin.maintext[0:1])}[what]
        had = f in x
        old = x.get(f)
        x[f] = v
        o.node(gone)
        for n in items:
            o.node(n)
        start["post"] = self.snap_again()
        us = [o.node(n) for n in items]
        self.step(dict(op="add_many", lid=lid, items=us, fill=True, check=True), lambda: l.add_many(items))
        for y in (x, items[0]):
            self.step(dict(op="is_valid", n=o.node(y), lid=lid), lambda: bool(y.is_valid()))
        for codec in (MsgpackCodec.encode, JsonCodec.encode):
            self.step(dict(op="encode", extra=False, typed=True, codec="x"), lambda: codec(doc) and None)
        self.step(dict(op="encode", extra=True, typed=True, codec="x"), lambda: MsgpackCodec.encode(doc, extra_fields_ok=True) and None)
        if what == "extra":
            self.step(dict(op="encode", extra=False, typed=False, codec="x"), lambda: MsgpackCodec.encode(doc, type_validation=False) and None)
        if had:
            self.step(dict(op="set", n=o.node(x), f=f, v=o.value(old)), lambda: x.__setitem__(f, old))
        else:
            self.step(dict(op="unset", n=o.node(x), f=f), lambda: x.__delitem__(f))
        for codec in (MsgpackCodec.encode, JsonCodec.encode):
            self.step(dict(op="encode", extra=False, typed=True, codec="x"), lambda: codec(doc) and None)
        return dict(start=start, ev=self.ev)

    def snap_again(self):
        self.last = []
        return self.snap()

    def matrix(self):
        """Every kind of value against one field type, on a built or a decoded document, through every way of checking."""
        self.base()
        o, doc, T0 = self.o, self.doc, T
        if "alt" not in doc.texts:
            doc.add_text("alt", ALT)
        types = dict(i32=T.int32(None), i64=T.int64(None), f64=T.float64(None), i1=T.bool(None), str=T.string(None), bin=T.binary,
                     span=T.textspan("main"), spanalt=T.textspan("alt"), noderef=T.noderef("T1"), noderef_array=T.noderef_many("T1"),
                     nodespan=T.nodespan("T1"), selfref=T.noderef("L1"), selfmany=T.noderef_many("L1"), selfspan=T.nodespan("L1"),
                     i32d=T.int32(5), strd=T.string("d"), f64d=T.float64(2.5), i1d=T.bool(True), i64d=T.int64(9))
        tname = self.case["ops"][0]
        doc.add_layer("T1", x=T.int32(None))
        doc.add_layer("L1", v=types[tname])
        for k in range(4):
            doc["T1"].add(x=k)
            doc["L1"].add()
        start = dict(texts=[atom(t) for t in doc.texts], post=self.snap())
        if self.case["ops"][1] == "loaded":
            self.step(dict(op="load", extra=False, typed=True, codec="msgpack"), lambda: MsgpackCodec.decode(MsgpackCodec.encode(doc)))
            doc = self.doc
        l, t1 = doc["L1"], doc["T1"]
        lid = o.layer(l)
        ns, ts, fn = list(l), list(t1), list(self.foreign.layers["L1"])
        gone = Node(x=1)
        removed = t1.add(x=99)
        t1.remove(removed)
        ft = Document()
        ft.maintext = str(doc.maintext)
        other = Document()
        other.add_layer("T1", x=T.int32(None)).add(x=1)
        on = other["T1"].first()
        M, A = doc.texts["main"], doc.texts["alt"]
        values = [None, True, False, 0, 1, -1, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 0.0, -0.0,
                  1.0, float("inf"), float("-inf"), float("nan"), 1e300, "", "a", "\U0001F600", "1", b"", b"a", bytearray(b"a"), [], [1], ["a"], (), {},
                  1j, object, set(), M, A, M[0:0], M[0:1], M[1:len(M)], A[0:2], self.foreign.texts["main"][0:1], ft.texts["main"][0:2], self.twin.texts["main"][0:1], self.twin.texts["main"][0:3],
                  ns[0], ns[3], ts[0], ts[3], gone, removed, fn[0], on, [ns[0]], [ts[0]], [ts[0], ts[0]], [ts[3], ts[0], ts[1]], list(ns), NodeList(ts),
                  NodeList(ns[:2]), tuple(ts), [ts[0], None], [None, ts[0]], [ts[0], 1], [ts[0], ns[0]], [ns[0], ts[0]], [gone], [removed], [ts[0], removed],
                  [removed, ts[0]], [fn[0]], [on], [ts[0], on], [ns[1], ns[0], fn[0]], NodeList([]), NodeSpan(ns[0], ns[3]), NodeSpan(ns[1], ns[1]), NodeSpan(ts[0], ts[2]),
                  NodeSpan(ts[3], ts[3]), NodeSpan(fn[0], fn[1]), NodeSpan(on, on), "main", l, t1]
        sp1, sp2 = NodeSpan(ns[0], ns[1]), NodeSpan(ts[0], ts[1])
        values = [v for v in values if not (types[tname].typename == DataTypeEnum.NODEREF_MANY and isinstance(v, NodeSpan)) and v is not l and v is not t1]
        for x in (gone, removed, on):
            o.node(x)
        for v in values + ["sorted"]:
            if isinstance(v, str) and v == "sorted":
                ks = {id(n): -i for i, n in enumerate(ns)}
                self.step(dict(op="sort", lid=lid, keys=[3, 2, 1, 0], fail=False), lambda: l.sort(lambda n: ks[id(n)]))
                self.step(dict(op="sort", lid=o.layer(t1), keys=[3, 2, 1, 0], fail=False),
                          lambda: t1.sort(lambda n, d={id(n): -i for i, n in enumerate(ts)}: d[id(n)]))
                vs = [sp1, sp2]
            else:
                vs = [v]
            for v in vs:
                n = ns[2]
                self.step(dict(op="add_kw", lid=lid, kw=[dict(f="v", v=o.value(v))]), lambda: l.add(v=v))
                x = list(l)[-1]
                if x not in ns:
                    self.step(dict(op="remove", lid=lid, items=[o.node(x)]), lambda: l.remove(x))
                y = Node(v=v)
                self.step(dict(op="new_node", kw=o.vals(y)), lambda: y)
                self.step(dict(op="add_many", lid=lid, items=[o.node(y)], fill=True, check=True), lambda: l.add_many([y]))
                if y.collection is not None:
                    self.step(dict(op="remove", lid=lid, items=[o.node(y)]), lambda: l.remove(y))
                self.step(dict(op="set", n=o.node(n), f="v", v=o.value(v)), lambda: n.__setitem__("v", v))
                for cmp in (None, types[tname]) if tname in ("i32", "str") else (types[tname],):
                    self.step(dict(op="typeof", v=o.value(v), want32=cmp is not None and cmp.typename == DataTypeEnum.I32),
                              lambda: {k: z for k, z in o.field("", T.typeof(v, cmp)).items() if k in "ta"})
                self.step(dict(op="is_valid", n=o.node(n), lid=lid), lambda: bool(n.is_valid()))
                self.step(dict(op="encode", extra=False, typed=True, codec="msgpack"), lambda: MsgpackCodec.encode(doc) and None)
                self.step(dict(op="encode", extra=True, typed=True, codec="msgpack"), lambda: MsgpackCodec.encode(doc, extra_fields_ok=True) and None)
                self.step(dict(op="encode", extra=False, typed=True, codec="json"), lambda: JsonCodec.encode(doc) and None)
                self.step(dict(op="unset", n=o.node(n), f="v"), lambda: n.__delitem__("v"))
        def decls():                                         # declarations are equal if they say the same
            ts = [("i32",), ("i32", 7), ("i32", None), ("i64",), ("i64", 7), ("f64", None), ("f64", 2.5), ("str", None), ("str", "a"), ("str", "b"), ("i1", True), ("bin",),
                  ("span", "main"), ("span", "alt"), ("noderef", "L1"), ("noderef", "T1"), ("noderef_array", "L1"), ("nodespan", "L1")]
            two = []
            for _ in range(2):
                r = []
                for t in ts:
                    arg = t[1:]
                    dt = FACTORY[t[0]](*arg) if t[0] != "bin" else T.binary
                    r.append((Decl(o, t, dt).rec("f"), dt))
                two.append(r)
            loaded = self.doc["L1"].schema.fields["v"]
            two[1].append((o.field("f", loaded), loaded))
            two[0].append((o.field("f", types[tname]), types[tname]))
            return dict(a=[d for d, _ in two[0]], b=[d for d, _ in two[1]], eq=[[bool(x == y) for _, y in two[1]] for _, x in two[0]],
                        ne=[[bool(x != y) for _, y in two[1]] for _, x in two[0]],
                        hashed=[[x in {y} for _, y in two[1]] for _, x in two[0]])
        self.step(dict(op="decleq"), decls)
        n = ns[0]
        for ex, ty in ((False, True), (True, True), (False, False), (True, False)):
            self.step(dict(op="set", n=o.node(n), f="undeclared", v=o.value(1)), lambda: n.__setitem__("undeclared", 1))
            self.step(dict(op="encode", extra=ex, typed=ty, codec="msgpack"),
                      lambda: MsgpackCodec.encode(doc, extra_fields_ok=ex, type_validation=ty) and None)
            self.step(dict(op="unset", n=o.node(n), f="undeclared"), lambda: n.__delitem__("undeclared"))
        # values whose nodes go elsewhere and come back
        typ = types[tname].typename
        if typ in (DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN):
            home, other = (l, t1) if types[tname].options["layer"] == "L1" else (t1, l)
            hs = [x for x in home if x is not n]
            for x in hs:
                for f in list(x):
                    self.step(dict(op="unset", n=o.node(x), f=f), lambda: x.__delitem__(f))
            hs = list(home)[1:]

            def move(x, a, b):
                self.step(dict(op="remove", lid=o.layer(a), items=[o.node(x)]), lambda: a.remove(x))
                if b is not None:
                    self.step(dict(op="add_nodes", lid=o.layer(b), items=[o.node(x)]), lambda: b.add(x) and None)

            def try_():
                self.step(dict(op="is_valid", n=o.node(n), lid=lid), lambda: bool(n.is_valid()))
                y = Node(v=v)
                self.step(dict(op="new_node", kw=o.vals(y)), lambda: y)
                self.step(dict(op="add_many", lid=lid, items=[o.node(y)], fill=True, check=True), lambda: l.add_many([y]))
                if y.collection is not None:
                    self.step(dict(op="remove", lid=lid, items=[o.node(y)]), lambda: l.remove(y))
                self.step(dict(op="encode", extra=False, typed=True, codec="msgpack"), lambda: MsgpackCodec.encode(doc) and None)
            mk = {DataTypeEnum.NODEREF: lambda a, b: a, DataTypeEnum.NODEREF_MANY: lambda a, b: [a, b, a], DataTypeEnum.NODEREF_SPAN: NodeSpan}[typ]
            for a, b, moved in ((0, 1, [1]), (0, 1, [0]), (0, 1, [0, 1]), (1, 1, [1])):
                v = mk(hs[a], hs[b])
                self.step(dict(op="set", n=o.node(n), f="v", v=o.value(v)), lambda: n.__setitem__("v", v))
                for to in (None, other):
                    for k in moved:
                        move(hs[k], home, to)
                    try_()
                    for k in moved:
                        if to is None:
                            self.step(dict(op="add_nodes", lid=o.layer(home), items=[o.node(hs[k])]), lambda: home.add(hs[k]) and None)
                        else:
                            move(hs[k], other, home)
                    try_()
                self.step(dict(op="unset", n=o.node(n), f="v"), lambda: n.__delitem__("v"))
                hs = [x for x in home if x is not n]
        # layers without nodes are part of the schema as well
        for nm, dt in (("E1", T.noderef("E2")), ("E1", T.noderef_many("nowhere")), ("E1", T.nodespan("t1")), ("E1", T.textspan("Main")),
                       ("E1", T.noderef("E1")), ("E1", T.textspan("alt"))):
            self.step(dict(op="add_layer", name=nm, lid=len(o.lays) + 1, bad=False, fields=[o.field("q", dt)]), lambda: doc.add_layer(nm, q=dt) and None)
            for codec, f in (("msgpack", MsgpackCodec.encode), ("json", JsonCodec.encode)):
                self.step(dict(op="encode", extra=False, typed=True, codec=codec), lambda: f(doc) and None)
            self.step(dict(op="remove_layer", name=nm, cascade=False, viaDel=False), lambda: doc.remove_layer(nm, fieldcascade=False))
        return dict(start=start, ev=self.ev)

    def script(self):
        """A history of abstract operations made by the model (see LayersGen)."""
        self.base()
        o, case = self.o, self.case
        doc = self.doc
        l = doc.add_layer("L1", k=T.int32(), r=T.noderef("L1"))
        lid = o.layer(l)
        l.add_many([Node(k=i) for i in range(case["fill"])])
        start = dict(texts=[atom(t) for t in doc.texts], post=self.snap())
        cnt = [100]

        def fresh(k):
            out = []
            for _ in range(k):
                cnt[0] += 1
                x = Node(k=cnt[0])
                self.step(dict(op="new_node", kw=o.vals(x)), lambda: x)
                out.append(x)
            return out
        U = lambda q: [o.node(x) if isinstance(x, Node) else 0 for x in q]
        gone = []
        for q in case["ops"]:
            ns = list(l)
            pick = lambda k: ns[k % len(ns)] if ns else None
            name, k = q["op"], q["k"]
            if name == "add":
                cnt[0] += 1
                kw = dict(k=cnt[0])
                self.step(dict(op="add_kw", lid=lid, kw=[dict(f="k", v=o.value(cnt[0]))]), lambda: l.add(**kw))
            elif name == "addmany":
                q2 = fresh(k)
                self.step(dict(op="add_many", lid=lid, items=U(q2), fill=True, check=True), lambda: l.add_many(iter(q2)))
            elif name == "readd":
                x = gone[-1] if gone else None
                if x is None:
                    continue
                self.step(dict(op="add_nodes", lid=lid, items=U([x])), lambda: l.add(x))
                if x.collection is l:
                    gone.pop()
            elif name == "remove":
                x = pick(k)
                if x is None:
                    continue
                gone.append(x)
                self.step(dict(op="remove", lid=lid, items=U([x])), lambda: l.remove(x))
            elif name == "removehalf":
                xs = ns[k::2]
                gone += xs
                self.step(dict(op="remove_many", lid=lid, items=U(xs)), lambda: l.remove(xs))
            elif name == "removeall":
                gone += ns
                self.step(dict(op="remove_many", lid=lid, items=U(ns)), lambda: l.remove(l))
            elif name == "retain":
                xs = ns[:k] if k >= 0 else ns[max(0, len(ns) + k):]
                self.step(dict(op="retain", lid=lid, items=U(xs), bad=False), lambda: l.retain(xs))
            elif name == "sort":
                self.step(dict(op="sort", lid=lid, keys=[(-i if k < 0 else i % 2) + len(ns) for i in range(len(ns))], fail=False),
                          lambda: l.sort(lambda n, d={id(n): (-i if k < 0 else i % 2) for i, n in enumerate(ns)}: d[id(n)]))
            elif name == "sortfail":
                if len(ns) < 2:
                    continue

                def kf(n):
                    if n is ns[-1]:
                        raise ValueError()
                    return 0
                self.step(dict(op="sort", lid=lid, keys=[0] * len(ns), fail=True), lambda: l.sort(kf))
            elif name == "compact":
                self.step(dict(op="compact", lid=lid), lambda: l.compact())
            elif name == "encode":
                self.step(dict(op="encode", extra=False, typed=True, codec="msgpack"), lambda: MsgpackCodec.encode(doc) and None)
            elif name == "badadd":
                x = pick(k)
                y = fresh(1)
                self.step(dict(op="add_nodes", lid=lid, items=U(y + [x])), lambda: l.add(*(y + [x])))
            elif name == "badmany":
                x = pick(k)
                y = fresh(2)
                z = [y[0], x, y[1]]
                self.step(dict(op="add_many", lid=lid, items=U(z), fill=True, check=True), lambda: l.add_many(z))
            elif name == "badvalue":
                self.step(dict(op="add_kw", lid=lid, kw=[dict(f="k", v=o.value("no"))]), lambda: l.add(k="no"))
            elif name == "badremove":
                z = [pick(k), pick(k)] if ns else [None, 5]
                us = [-1 if x is None else o.node(x) if isinstance(x, Node) else 0 for x in z]
                if ns:
                    gone.append(z[0])
                self.step(dict(op="remove_many", lid=lid, items=us), lambda: l.remove(z))
            elif name == "badretain":
                z = ns[:1] + [gone[-1] if gone else 5]
                self.step(dict(op="retain", lid=lid, items=U(z), bad=False), lambda: l.retain(z))
            elif name == "link":
                x, y = pick(k), pick(k + 1)
                if x is None:
                    continue
                self.step(dict(op="set", n=o.node(x), f="r", v=o.value(y)), lambda: x.__setitem__("r", y))
            else:
                raise AssertionError(name)
            if case["prof"] == "C02":
                self.step(dict(op="nav", lid=lid), lambda: self.nav(l))
            gone = [x for x in gone if x.collection is None]
        return dict(start=start, ev=self.ev)


def run(case):
    h = H(case)
    return getattr(h, case["kind"])()
