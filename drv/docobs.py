"""Observation of docria documents through the public API, as records of the specification."""
import math, struct
from docria.model import (Document, DataTypes, DataType2String, DataTypeEnum, Node, NodeCollection, NodeSpan, NodeList,
                          TextSpan, Text, ExtData)

REFT = {"noderef", "noderef_array", "nodespan"}


def atom(s):
    """Any string as an ASCII atom, injectively."""
    return s.encode("unicode_escape", "surrogatepass").decode("ascii") if isinstance(s, str) else repr(s)


def fatom(x):
    return "nan" if x != x else struct.pack(">d", x).hex()


class Obs:
    """Numbers nodes and layer instances, and turns them into records."""

    def __init__(self):
        self.uid, self.nodes = {}, []       # id(node) -> number; nodes kept alive
        self.lid, self.lays = {}, []
        self.lname = []
        self.doc = None

    def node(self, n):
        k = self.uid.get(id(n))
        if k is None:
            self.nodes.append(n)
            k = self.uid[id(n)] = len(self.nodes)
        return k

    def layer(self, l):
        k = self.lid.get(id(l))
        if k is None:
            self.lays.append(l)
            self.lname.append(atom(l.name))
            k = self.lid[id(l)] = len(self.lays)
        return k

    def own(self, n):
        if n.is_dangling() != (n.collection is None):        # no consistent answer
            return -7
        return 0 if n.collection is None else self.layer(n.collection)

    def value(self, v):
        r = dict(k="obj", s="", w=0, e=[])
        if v is None:
            r["k"] = "none"
        elif isinstance(v, bool):
            r.update(k="bool", s=str(v), w=1)
        elif isinstance(v, int):
            r.update(k="int", s=str(v), w=32 if -2**31 <= v < 2**31 else 64 if -2**63 <= v < 2**63 else 65)
        elif isinstance(v, float):
            r.update(k="float", s=fatom(v))
        elif isinstance(v, str):
            r.update(k="str", s=atom(v))
        elif isinstance(v, bytes):
            r.update(k="bytes", s=v.hex())
        elif isinstance(v, Node):
            r.update(k="node", e=[self.node(v)])
        elif isinstance(v, NodeSpan):
            r.update(k="nspan", e=[self.node(v.left), self.node(v.right)])
        elif isinstance(v, (list, NodeCollection)):
            r.update(k="list", e=[self.node(x) if isinstance(x, Node) else 0 for x in v])
        elif isinstance(v, TextSpan):
            t = self.doc.texts.get(v.text.name) if self.doc is not None else None
            r.update(k="tspan", s=atom(v.text.name), w=1 if t is not None and (t is v.text or t.text == v.text.text) else 0,
                     e=[int(v.start), int(v.stop)])
        elif isinstance(v, ExtData):
            r.update(k="ext", s="%d:%s" % (v.type, v.data.hex()) if isinstance(v.data, bytes) else "%s:%r" % (v.type, v.data))
        elif isinstance(v, Document):
            r.update(k="doc", s="doc")
        else:
            r.update(s=type(v).__name__)
        return r

    def vals(self, n):
        return [dict(f=atom(k), v=self.value(v)) for k, v in n.items()]

    def field(self, name, dt):
        o = dt.options
        return dict(f=atom(name), t=DataType2String.get(dt.typename, str(dt.typename)),
                    a=atom(o.get("layer", o.get("context", o.get("type", "")))), d=self.value(dt.default()))

    def fields(self, layer):
        return [self.field(k, v) for k, v in layer.schema.fields.items()]

    def layer_state(self, name, l):
        order = list(l)
        known = []
        for n in order:
            known.append(self.node(n) if isinstance(n, Node) else 0)
        idx, at = [], []
        for n in order:
            try:
                i = n.i
                idx.append(int(i))
                at.append(self.node(l[i]) if isinstance(l[i], Node) else 0)
            except Exception:
                idx.append(-1)
                at.append(0)
        # slots between the live ones must not show a node
        stale = []
        for i in range(0, max(idx, default=-1) + 1):
            if i not in idx:
                try:
                    if isinstance(l[i], Node):
                        stale.append(i)
                except Exception:
                    pass
        f, t = l.first(), l.last()
        return dict(lid=self.layer(l), name=atom(name), fields=self.fields(l), order=known, len=len(l),
                    first=0 if f is None else self.node(f), last=0 if t is None else self.node(t), idx=idx, at=at,
                    stale=len(stale), inn=self.inside(l, order), named=l.name == name and name in self.doc and self.doc[name] is l)

    def inside(self, l, order):
        """The layer and its members agree on who is a member."""
        if any(n not in l or l[n] is not n for n in order):
            return False
        for m in self.doc.layers.values():
            if m is not l and len(m):
                n = m.first()
                try:
                    l[n]
                    return False
                except Exception:
                    pass
                if n in l:
                    return False
        return True

    def layers(self):
        return [self.layer_state(k, l) for k, l in self.doc.layers.items()]
