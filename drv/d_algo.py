"""Algorithms over documents: graph traversal, grouping, overlap resolution, token location, span translation."""
import random
from docria.algorithm import (bfs, dfs, dfs_leaves, children_of, group_by_span, dominant_right, dominant_right_span, sequence_to_textspans,
                              span_translate, is_covered_by, get_prop, chain)
from docria.model import Document, DataTypes as T, Node, TextSpan, NodeList

CASE_TIMEOUT = 60


def snap(doc, but=()):
    """Everything in the document, fields in but left out."""
    out = [sorted((k, t.text) for k, t in doc.texts.items()), sorted(map(repr, doc.props.items()))]
    for name, l in doc.layers.items():
        out.append((name, [(k, id(v)) for k, v in l.schema.fields.items()]))
        for n in l:
            out.append((id(n), n.i, [(k, (id(v.text), v.start, v.stop) if isinstance(v, TextSpan) else [id(x) for x in v] if isinstance(v, list) else
                                      id(v) if isinstance(v, Node) else repr(v)) for k, v in n.items() if (name, k) not in but]))
    return out


def filler(l, r, n, make):
    """n nodes in a layer with a history: some that were there are gone."""
    nodes, gone = [], []
    for k in range(n):
        while r.random() < .3:
            gone.append(l.add(**make(None)))
        nodes.append(l.add(**make(k)))
    for g in gone:
        l.remove(g)
    return nodes


# -- graphs ---------------------------------------------------------------------------------------
def run_graph(c):
    r = random.Random(c["seed"])
    doc = Document()
    doc.maintext = "text"
    l = doc.add_layer("g", one=T.noderef("g"), two=T.noderef("g"), many=T.noderef_many("g"), more=T.noderef_many("g"), s=T.span(), x=T.int32())
    nodes = filler(l, r, len(c["nodes"]), lambda k: {})
    num = {id(n): i for i, n in enumerate(nodes, 1)}
    start = nodes[c["start"] - 1]
    ch = children_of(l, *c["fields"])
    used = c["seed"] % 5 < 2 and len(nodes) <= 300            # the same function, used before when the references were others
    if used:
        for n in nodes:
            for f in ("one", "two"):
                if r.random() < .5:
                    n[f] = r.choice(nodes)
            for f in ("many", "more"):
                if r.random() < .6:
                    n[f] = [r.choice(nodes) for _ in range(r.choice([0, 1, 3]))]
        for _ in (bfs(start, ch), dfs(start, ch), dfs_leaves(start, ch)):
            for _ in _:
                pass
    for n, d in zip(nodes, c["nodes"]):
        for f in ("one", "two"):
            if d[f]:
                n[f] = nodes[d[f] - 1]
            elif f in n:
                del n[f]
        for f in ("many", "more"):
            if f in n and r.random() < .5:                    # the list that is there changes
                n[f][:] = [nodes[x - 1] for x in d[f]]
            elif d[f] or r.random() < .3:
                k = [nodes[x - 1] for x in d[f]]
                n[f] = NodeList(k) if k and r.random() < .3 else k
            elif f in n:
                del n[f]
    if c["own"]:
        inner = ch
        ch = lambda n: list(inner(n)) if r.random() < .5 else (x for x in inner(n))
    keep = {id(nodes[k - 1]) for k in c["keep"]}
    if c["fields"] in (["many"], ["more"]) and c["seed"] % 3 == 0:
        ch = get_prop(c["fields"][0], ())                   # the helper instead
    if c["seed"] % 4 < 2:
        pred = [(lambda n: id(n) in keep) if c["seed"] % 2 else (lambda n: [1] if id(n) in keep else [])]
    else:                                                   # what is kept is written on the nodes, and read by the helpers
        for n in nodes:
            if id(n) in keep:
                n["x"] = 7
            elif r.random() < .5:
                n["x"] = 0
        pred = [get_prop("x") if c["seed"] % 4 == 2 else chain(get_prop("x", -7), lambda x: x - 7, lambda x: not x)]
    pred = [] if c["all"] else pred
    before = snap(doc)
    its = [bfs(start, ch, *pred), dfs(start, ch, *pred), dfs_leaves(start, ch, *pred)]
    outs = [[], [], []]
    live = [0, 1, 2]
    while live:                                               # traversals at the same time do not disturb each other
        k = r.choice(live) if c["mixed"] else live[0]
        x = next(its[k], None)
        if x is None:
            live.remove(k)
        else:
            outs[k].append(x)
    refused = True
    for bad in ([], ["x"], ["s"], ["one", "x"], ["s", "many"]):
        try:
            children_of(l, *bad)
            refused = False
        except Exception:
            pass
    again = [n for n in dfs(start, ch, *pred)]
    return dict(kind="graph", nodes=c["nodes"], fields=c["fields"], start=c["start"], all=c["all"], keep=c["keep"],
                kids=[[num[id(x)] for x in children_of(l, *c["fields"])(n)] for n in nodes],
                bfs=[[d, num[id(n)]] for d, n in outs[0]], dfs=[num[id(n)] for n in outs[1]], leaves=[num[id(n)] for n in outs[2]],
                same=snap(doc) == before and list(map(id, again)) == list(map(id, outs[1])), refused=refused)


# -- grouping -------------------------------------------------------------------------------------
def sp(x):
    return dict(b=x[0], e=x[1])


def run_group(c):
    r = random.Random(c["seed"])
    doc = Document()
    doc.maintext = "x" * c["len"]
    gf = r.choice(["text", "span"])
    both = r.random() < .4                                    # the nodes have other spans as well
    doc.add_layer("groups", **{gf: T.span(), "n": T.int32(), **({f: T.span() for f in ("text", "span", "at")} if both else {})})

    def make(f, x):
        out = {} if x is None or x[0] < 0 else {f: doc.maintext[x[0]:x[1]]}
        for g in ("text", "span", "at") if both else ():
            if g != f and r.random() < .7:
                a, b = sorted((r.randint(0, c["len"]), r.randint(0, c["len"])))
                out[g] = doc.maintext[a:b]
        return out
    gs = filler(doc["groups"], r, len(c["groups"]), lambda k: make(gf, c["groups"][k] if k is not None else [0, 1]))
    names, fields, lists, ins = [], {}, [], {}
    for j, spans in enumerate(c["layers"]):
        name = "l%d" % j
        f = r.choice(["text", "text", "at"])
        doc.add_layer(name, **{f: T.span(), "r": T.noderef("groups"), **({g: T.span() for g in ("text", "span", "at")} if both else {})})
        ns = filler(doc[name], r, len(spans), lambda k: make(f, spans[k] if k is not None else [0, 0]))
        names.append(name)
        fields[name] = f
        lists.append(ns)
        how = r.choice(["layer", "list", "nodelist", "query"])
        ins[name] = {"layer": doc[name], "list": ns, "nodelist": NodeList(ns, fieldtypes=doc[name].fieldtypes), "query": doc[name][lambda n: True]}[how]
    groups = gs
    if r.random() < .3:
        groups = doc["groups"]
    elif r.random() < .5:                                     # in any order
        order = list(range(len(gs)))
        r.shuffle(order)
        c = dict(c, groups=[c["groups"][k] for k in order])
        groups = gs = [gs[k] for k in order]
    if c["self"]:                                             # the groups are a layer to be grouped as well
        ins["groups"] = groups
        names.append("groups")
        fields["groups"] = gf
        lists.append(gs)
    twice = []
    if lists and r.random() < .25:                            # the same nodes under two names
        j = r.randrange(len(lists))
        ins["again"] = ins[names[j]]
        fields["again"] = fields[names[j]]
        names.append("again")
        lists.append(lists[j])
        twice = [j]
    gnum = {id(n): i for i, n in enumerate(gs, 1)}
    lnum = [{id(n): i for i, n in enumerate(ns, 1)} for ns in lists]
    default = gf == "text" and all(f == "text" for f in fields.values())
    before = snap(doc)
    runs = []
    for res in ("intersect", "cover"):
        for empty in (True, False):
            kw = {} if res == "intersect" and r.random() < .5 else dict(resolution=res)
            if not empty or r.random() < .5:
                kw["include_empty_groups"] = empty
            if not default or r.random() < .5:
                kw.update(group_span_field=gf, layer_span_field=fields)
            got = group_by_span(groups, ins, **kw)
            runs.append(dict(resolution=res, empty=empty,
                             res=[dict(g=gnum.get(id(g), 0), l=[[lnum[j].get(id(n), 0) for n in d[name]] for j, name in enumerate(names)]) for g, d in got]))
    ls = [[sp(x) for x in l] for l in c["layers"]]
    if c["self"]:
        ls.append([sp(x) for x in c["groups"]])
    ls += [ls[j] for j in twice]
    return dict(kind="group", groups=[sp(x) for x in c["groups"]], layers=ls, runs=runs, same=snap(doc) == before)


# -- overlaps -------------------------------------------------------------------------------------
def run_dominant(c):
    r = random.Random(c["seed"])
    segs = [tuple(s) + ((i,) if r.random() < .5 else (i,)) for i, s in enumerate(c["segs"], 1)]
    held = list(segs)
    out = dominant_right(segs)
    same = segs == held and all(a is b for a, b in zip(segs, held))
    doc = Document()
    doc.maintext = "y" * 400
    f = r.choice(["text", "s"])
    l = doc.add_layer("l", **{f: T.span(), "k": T.int32()})
    nodes, num = [], {}
    for i, s in enumerate(c["segs"], 1):
        while r.random() < .2:
            nodes.append(l.add(k=1))                          # no span
        n = l.add(**{f: doc.maintext[s[0]:s[1]]})
        nodes.append(n)
        num[id(n)] = i
    src = r.choice([l, nodes, l.to_list()])
    before = snap(doc)
    got = dominant_right_span(src) if f == "text" else dominant_right_span(src, f)
    return dict(kind="dominant", segs=[sp(s) for s in c["segs"]], out=list(out), nodes=[num.get(id(n), 0) for n in got], same=same and snap(doc) == before)


# -- token sequences ------------------------------------------------------------------------------
def run_seq(c):
    doc = Document()
    raw = "".join(map(chr, c["T"]))
    doc.maintext = raw
    t = doc.maintext
    toks = ["".join(map(chr, x)) for x in c["toks"]]
    kw = {}
    if c["lo"] or c["seed"] % 2:
        kw["start_offset"] = c["lo"]
    if c["hi"] < len(raw) or c["seed"] % 3 == 0:
        kw["stop_offset"] = c["hi"]
    if c["k"] != 1 or c["seed"] % 5 == 0:
        kw["k"] = c["k"]
    held = list(toks)
    spans = sequence_to_textspans(toks, t, **kw)
    same = held == toks and t.text == raw and all(isinstance(s, TextSpan) and s.text is t for s in spans)
    return dict(kind="seq", T=c["T"], lo=c["lo"], hi=c["hi"], toks=c["toks"], k=c["k"], spans=[dict(b=s.start, e=s.stop) for s in spans], same=same)


# -- translation ----------------------------------------------------------------------------------
def run_translate(c):
    r = random.Random(c["seed"])
    doc = Document()
    doc.add_text("clean", "c" * c["slen"])
    doc.add_text("raw", "r" * c["tlen"])
    m = doc.add_layer("mapping", raw=T.span("raw"), clean=T.span("clean"), k=T.int32())
    d = doc.add_layer("data", clean=T.span("clean"), raw=T.span("raw"), other=T.span("raw"), up=T.noderef("data"))
    cl, rw = doc.texts["clean"], doc.texts["raw"]
    filler(m, r, len(c["maps"]), lambda k: dict(clean=cl[0:1], raw=rw[0:1]) if k is None else
           dict(clean=cl[c["maps"][k][0]:c["maps"][k][1]], raw=rw[c["maps"][k][2]:c["maps"][k][2] + c["maps"][k][1] - c["maps"][k][0]]))

    def make(k):
        if k is None:
            return dict(clean=cl[0:1])
        b, e, tb, te = c["nodes"][k]
        x = dict(clean=cl[b:e])
        if tb >= 0:
            x["raw"] = rw[tb:te]
        return x
    nodes = filler(d, r, len(c["nodes"]), make)
    before = snap(doc, {("data", "raw")})
    refused = False
    try:
        span_translate(doc, "mapping", ("raw", "clean"), "data", ("clean", "raw"))
    except Exception:
        refused = True
    after = [dict(b=n["raw"].start, e=n["raw"].stop) if "raw" in n else dict(b=-1, e=-1) for n in nodes]
    right = all(n["raw"].text is rw for n in nodes if "raw" in n)
    return dict(kind="translate", maps=[dict(b=b, e=e, t=t) for b, e, t in c["maps"]], nodes=[dict(b=b, e=e, tb=tb, te=te) for b, e, tb, te in c["nodes"]],
                refused=refused, after=after, same=right and snap(doc, {("data", "raw")}) == before)


def run(c):
    return globals()["run_" + c["mode"]](c)


def gnode(r, n, kids=None):
    d = dict(one=0, two=0, many=[], more=[])
    if kids is not None:
        return d
    for f in ("one", "two"):
        if r.random() < .4:
            d[f] = r.randint(1, n)
    for f in ("many", "more"):
        d[f] = [r.randint(1, n) for _ in range(r.choice([0, 0, 1, 2, 4]))]
    return d


def cases(r, tier, prop, tlc):
    big = tier == "thorough"
    if prop == "C17":
        def graph(nodes, fields, cls):
            n = len(nodes)
            al = r.random() < .6
            return dict(mode="graph", cls=cls, nodes=nodes, fields=fields, start=r.randint(1, n), all=al,
                        keep=[] if al else sorted(r.sample(range(1, n + 1), r.randint(0, n))), own=r.random() < .2, mixed=r.random() < .5, seed=r.getrandbits(40))
        for t in tlc:
            how = r.choice(["many", "one-many", "many-one", "one-two-more"])
            nodes = []
            for kids in t["kids"]:
                d = dict(one=0, two=0, many=[], more=[])
                kids = list(kids)
                if how == "many-one":
                    if kids:
                        d["one"] = kids.pop()
                elif how != "many" and kids:
                    d["one"] = kids.pop(0)
                    if how == "one-two-more" and kids:
                        d["two"] = kids.pop(0)
                d["more" if how == "one-two-more" else "many"] = kids
                nodes.append(d)
            c = graph(nodes, how.split("-"), "graph/model")
            c["start"] = 1
            yield c
        for k in range(6000 if big else 900):
            n = r.choice([1, 2, 3, 5, 8, 20, 40])
            fs = ["one", "two", "many", "more"]
            r.shuffle(fs)
            yield graph([gnode(r, n) for _ in range(n)], fs[:r.randint(1, 4)], "graph/random")
        for k in range(200 if big else 40):                   # trees and dags with some sharing
            n = r.choice([10, 30, 60])
            nodes = [dict(one=r.randint(i + 1, n) if i < n and r.random() < .6 else 0, two=0,
                          many=[r.randint(i + 1, n) for _ in range(r.choice([0, 1, 3]))] if i < n else [], more=[]) for i in range(1, n + 1)]
            c = graph(nodes, r.choice([["one", "many"], ["many", "one"], ["many"]]), "graph/dag")
            c["start"] = 1
            yield c
        n = 1300                                              # deeper than the interpreter recurses
        c = graph([dict(one=i + 1 if i < n else 0, two=max(1, i - 1), many=[], more=[]) for i in range(1, n + 1)], ["one", "two"], "graph/deep")
        c.update(start=1, all=True, keep=[])
        yield c
        c = graph([dict(one=0, two=0, many=list(range(1, 301)) if i == 1 else [1, i], more=[]) for i in range(1, 301)], ["many"], "graph/wide")
        c["start"] = 1
        yield c
    elif prop == "C18":
        for t in tlc if big else r.sample(tlc, min(len(tlc), 2500)):
            a = [[x["b"], x["e"]] for x in t["nodes"]]
            yield dict(mode="group", cls="group/model", groups=[[x["b"], x["e"]] for x in t["groups"]], layers=[a[:1], a[1:]] if t["two"] else [a],
                       len=5, self=False, seed=r.getrandbits(40))
        for k in range(5000 if big else 700):
            w = r.choice([3, 6, 12, 30, 100])

            def spans(n):
                out = []
                for _ in range(n):
                    b = r.randint(0, w)
                    e = min(w, b + r.choice([0, 1, 2, 3, w // 2, w, r.randint(0, w)]))
                    out.append([-1, -1] if r.random() < .1 else [b, e])
                return out
            yield dict(mode="group", cls="group/random", groups=spans(r.choice([0, 1, 3, 8, 20])), layers=[spans(r.choice([0, 1, 4, 10, 30])) for _ in range(r.choice([0, 1, 1, 2, 3]))],
                       len=w, self=r.random() < .2, seed=r.getrandbits(40))
    elif prop == "C19":
        for t in tlc:
            yield dict(mode="dominant", cls="dominant/model", segs=[[x["b"], x["e"]] for x in t["segs"]], seed=r.getrandbits(40))
        for k in range(10000 if big else 1500):
            w = r.choice([4, 8, 20, 60, 300])
            segs = []
            for _ in range(r.choice([1, 2, 4, 6, 10, 25, 60])):
                b = r.randint(0, w)
                segs.append([b, min(w, b + r.choice([0, 1, 2, 3, 3, r.randint(0, 8), r.randint(0, w)]))])
                if r.random() < .15:
                    segs.append(list(r.choice(segs)))
            if r.random() < .3:
                segs.sort()
            yield dict(mode="dominant", cls="dominant/random", segs=segs, seed=r.getrandbits(40))
    elif prop == "C20":
        for t in tlc:
            yield dict(mode="seq", cls="seq/model", T=[96 + x for x in t["T"]], lo=t["lo"], hi=t["hi"], toks=[[96 + x for x in k] for k in t["toks"]],
                       k=t["k"], seed=r.getrandbits(40))
        for k in range(8000 if big else 1200):
            alpha = r.choice([[97, 98], [97, 98, 32], [97, 32, 0x1F600, 0xe5, 0x301], list(range(97, 117)) + [32] * 5])
            n = r.choice([0, 1, 5, 12, 40, 120])
            text = [r.choice(alpha) for _ in range(n)]
            lo = r.choice([0, 0, r.randint(0, n)])
            hi = r.choice([n, n, r.randint(lo, n)])
            toks, p = [], lo
            for _ in range(r.choice([0, 1, 3, 6, 15])):
                w = r.choice([1, 1, 2, 3, 6])
                x = r.random()
                if x < .6 and p < n:
                    p = min(n, p + r.choice([0, 0, 1, 2]))
                    toks.append(text[p:p + w])
                    p = min(n, p + w)
                elif x < .8 and n:
                    q = r.randint(0, n - 1)
                    toks.append(text[q:q + w])
                elif x < .9:
                    toks.append([r.choice(alpha) for _ in range(w)])
                elif x < .95:
                    toks.append([0x7a, 0x7a])
                else:
                    toks.append([])
            if r.random() < .3 and len(toks) > 1:
                a, b = r.sample(range(len(toks)), 2)
                toks[a], toks[b] = toks[b], toks[a]
            if r.random() < .06:                            # far apart
                at, gap = r.choice([lo, hi, r.randint(lo, hi)]), r.choice([60, 260, 700, 1100])
                text[at:at] = [r.choice(alpha[:1] * 3 + [0x2e])] * gap if r.random() < .5 else [0x2e] * gap
                hi += gap
            yield dict(mode="seq", cls="seq/random", T=text, lo=lo, hi=hi, toks=toks, k=r.choice([0, 1, 1, 2, 3, 7]), seed=r.getrandbits(40))
    elif prop == "C21":
        for t in tlc if big else r.sample(tlc, min(len(tlc), 2500)):
            n = t["node"]
            yield dict(mode="translate", cls="translate/model", maps=[[m["b"], m["e"], m["t"]] for m in t["maps"]], slen=6, tlen=12,
                       nodes=[[n["b"], n["e"], -1, -1]] + ([[0, 1, 3, 4]] if r.random() < .2 else []), seed=r.getrandbits(40))
        for k in range(6000 if big else 900):
            maps, p, q = [], 0, 0
            for _ in range(r.choice([0, 1, 2, 5, 12])):
                p += r.choice([0, 0, 0, 1, 3]) if r.random() < .5 else 0
                q += r.choice([0, 1, 2, 7, 30])
                w = r.choice([1, 2, 3, 8])
                maps.append([p, p + w, q])
                p += w
                q += w
            slen, tlen = p + r.choice([0, 1, 4]), q + r.choice([0, 0, 5])
            if r.random() < .2 and len(maps) > 1:             # moved pieces
                ts = [m[2] for m in maps if m[1] - m[0] == 1]
                r.shuffle(ts)
                maps = [[m[0], m[1], ts.pop()] if m[1] - m[0] == 1 else m for m in maps]
            r.shuffle(maps)
            cov = sorted(x for m in maps for x in range(m[0], m[1]))
            nodes = []
            for _ in range(r.choice([0, 1, 3, 10]) if slen else 0):
                if cov and r.random() < .95:
                    a, b = sorted([r.choice(cov), r.choice(cov)])
                    if r.random() < .5:
                        b = a + r.randint(0, 2) if a + 2 in cov and a + 1 in cov else a
                    nodes.append([a, b + 1, -1, -1])
                else:
                    a = r.randint(0, slen - 1)
                    nodes.append([a, r.randint(a + 1, slen), -1, -1])
                if r.random() < .2 and tlen:
                    a = r.randint(0, tlen)
                    nodes[-1][2:] = [a, r.randint(a, tlen)]
            yield dict(mode="translate", cls="translate/random", maps=maps, nodes=nodes, slen=slen, tlen=tlen, seed=r.getrandbits(40))
