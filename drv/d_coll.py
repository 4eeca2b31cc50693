"""Collections, boundary framing and indices: histories of writers and readers, interruptions, searches."""
import bz2, contextlib, hashlib, io, json, lzma, os, random, shutil, tarfile, tempfile, zlib
import mpk
from docria.collection import (MsgpackDocumentWriter, MsgpackDocumentReader, MsgpackDocumentIO, DocumentIO, DocumentReader, TarMsgpackReader,
                               TarMsgpackWriter, _BoundaryReader, _BoundaryWriter, get_codec, register_codec, unregister_codec, build_msgpack_fileindex,
                               build_msgpack_directory_fileindex, DocumentIndex, DocumentFileIndex)
from docria.codec import MsgpackCodec, MsgpackDocument
from docria.model import Document, DataTypes as T, Node
from docobs import atom
from docproj import canon

CASE_TIMEOUT = 60
SCRATCH = None


def lz4d(b):
    import lz4.frame
    return lz4.frame.decompress(b)


def zstdd(b):
    import zstd
    return zstd.decompress(b)


PLAIN = {"none": lambda b: b, "zip": zlib.decompress, "bzip2": bz2.decompress, "zipsq": lambda b: zlib.decompress(zlib.decompress(b)),
         "lzma": lzma.decompress, "lz4": lz4d, "zstd": zstdd}
CODECS = ["none", "zip", "bzip2", "zipsq", "lzma", "lz4", "zstd", "zstd:high", "mine", "mine:fast"]


def flip(b):
    return bytes(x ^ 0x5A for x in bytes(b))[::-1]


PLAIN["mine"] = flip
register_codec("mine", flip, flip)
register_codec("mine:fast", flip, flip, codec_name="mine")


def registry():
    """A codec name is taken once; an unknown one is refused."""
    try:
        register_codec("mine", bytes, bytes)
        return False
    except Exception:
        pass
    try:
        get_codec("no such codec")
        return False
    except Exception:
        pass
    register_codec("passing", bytes, bytes)
    k = Keep()
    with MsgpackDocumentWriter(k, codec=get_codec("passing")) as w:
        w.write(Document())
    unregister_codec("passing")
    try:
        list(MsgpackDocumentReader(io.BytesIO(k.getvalue())))
        return False
    except Exception:
        return get_codec("passing", no_except=True) is None and get_codec("mine") is not None


class Keep(io.BytesIO):
    """A file object in memory whose content survives close."""
    def close(self):
        pass


class Raw(io.RawIOBase):
    """An unbuffered writable sink that records what reached it."""
    def __init__(self):
        super().__init__()
        self.b = bytearray()

    def writable(self):
        return True

    def write(self, data):
        self.b += bytes(data)
        return len(data)

    def close(self):
        pass


def document(i, size, r):
    d = Document()
    d.props["i"] = i
    if size == "empty":
        return d
    d.maintext = "doc %d " % i + "".join(r.choice("ab \u00e5\U0001F600") for _ in range({"small": 5, "mid": 700, "big": 20000, "huge": 300000, "vast": 3000000}[size]))
    l = d.add_layer("t", s=T.textspan(), n=T.noderef("t"))
    x = l.add(s=d.maintext[0:3])
    y = l.add(s=d.maintext[4:], n=x)
    if size in ("big", "huge"):
        d.props["blob"] = r.getrandbits(8 * 20000).to_bytes(20000, "big")
    return d


class Coll:
    """The documents of a case, and what bytes or documents they are."""

    def __init__(self, c, n):
        r = random.Random(c["seed"])
        self.docs, self.enc, self.id = [None], [None], {}
        for i in range(1, n + 1):
            d = document(i, r.choice(c["sizes"]), r)
            self.docs.append(d)
            self.enc.append(MsgpackCodec.encode(d))
            self.id[self.enc[i]] = i

    def of(self, m):
        """The number of a delivered document (0: none, -1: unknown)."""
        if m is None:
            return 0
        if isinstance(m, Document):
            m = MsgpackDocument(m)
        b = m.binary()
        k = self.id.get(b, -1)
        if k > 0 and m.properties().get("i") != k:
            return -1
        return k


def unframe(b):
    if not b:
        return b
    B = 1 << b[0]
    out, p = bytearray(), 1
    while p < len(b):
        e = (p // B + 1) * B
        out += b[p:e]
        p = e + 4
    return bytes(out)


def parse(b, co):
    """The blocks of a collection file, read independently."""
    o = dict(ok=False, codec="", cap=0, adv=False, blocks=[], ends=[], head=0, rest=0)
    try:
        r = mpk.Reader(b)
        o["magic"] = r.take(4) == b"Dmf1"
        o["codec"], o["cap"], o["adv"] = r.want("str"), r.want("int"), r.want("bool")
        o["head"] = r.p
        o["ok"] = o.pop("magic")
        while r.p < len(b):
            raw = PLAIN[o["codec"]](r.want("bin"))
            q, ids = mpk.Reader(raw), []
            while q.p < len(raw):
                ids.append(co.id.get(q.want("bin"), -1))
            o["blocks"].append(ids)
            o["ends"].append(r.p)
    except Exception:
        o["ok"] = False
    o.pop("magic", None)
    return o


def perform(c, co, w):
    """The writer's operations; a refused document is part of the history."""
    refused = True
    for k, op in enumerate(c["ops"]):
        if op == 0:
            w.flush()
            continue
        how = c["how"][k % len(c["how"])]
        if how == "refused":
            bad = Document()
            bad.add_layer("x", r=T.noderef("nosuch"))
            for x in (bad, "text"):
                try:
                    w.write(x)
                    refused = False
                except Exception:
                    pass
        if how == "encoded":
            w.write(MsgpackDocument(co.enc[op]))
        elif how == "encodeddoc":
            m = MsgpackDocument(co.docs[op])
            m.document()
            w.write(m)
        elif how == "looked":                               # an encoded document of which something was read
            m = MsgpackDocument(co.enc[op])
            for look in ((m.properties,), (m.texts,), (m.schema, m.properties), (m.document,), (m.texts, m.document))[(k + op) % 5]:
                look()
            w.write(m)
        else:
            w.write(co.docs[op])
    return refused


def opened(c, path):
    """(writer, function giving the bytes so far, function giving a reader)"""
    kw = dict(num_docs_per_block=c["cap"], codec=get_codec(c["codec"]))
    if c["sink"] == "path":
        return MsgpackDocumentWriter(path, **kw), lambda: open(path, "rb").read(), lambda: MsgpackDocumentReader(path)
    if c["sink"] == "io":
        return DocumentIO.write(path, **kw), lambda: open(path, "rb").read(), lambda: MsgpackDocumentIO.read(path)
    if c["sink"] == "memory":
        k = Keep()
        return MsgpackDocumentWriter(k, **kw), k.getvalue, lambda: MsgpackDocumentIO.readfile(io.BytesIO(k.getvalue()))
    if c["sink"] == "raw":
        k = Raw()
        return DocumentIO.writefile(k, **kw), lambda: bytes(k.b), lambda: MsgpackDocumentReader(io.BytesIO(bytes(k.b)))
    f = open(path, "wb")
    return (MsgpackDocumentWriter(_BoundaryWriter(f, boundary=c["boundary"]), **kw), lambda: unframe(open(path, "rb").read()),
            lambda: MsgpackDocumentReader(_BoundaryReader(open(path, "rb"))))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ids(ops):
    return [x for x in ops if x > 0]


def renumber(c):
    return max(ids(c["ops"]), default=0)


READS = ["iter", "blocks", "docreader", "blockdocs", "mixed", "refs"]


def readall(style, rd, co):
    with rd() as reader:
        if style == "iter":
            return [co.of(m) for m in reader]
        if style == "blocks":
            return [co.of(m) for b in reader.blocks() for m in b]
        if style == "docreader":
            with DocumentReader(reader) as q:
                return [co.of(d) for d in q]
        if style == "blockdocs":
            return [co.of(m) for b in reader.blocks() for p, m in b.documents()]
        if style == "mixed":
            out = []
            while True:
                b = reader.readblock()
                if b is None:
                    return out
                out += [co.of(m) for m in b]
                m = next(reader, None)
                while m is not None:
                    out.append(co.of(m))
                    m = next(reader, None)
        refs = [m.ref for m in reader]
        return [co.of(reader.get(x)) for x in reversed(refs)][::-1]


def run_write(c):                                            # C12
    co = Coll(c, renumber(c))
    with scratch() as d:
        path = os.path.join(d, "x.docria")
        w, data, rd = opened(c, path)
        if c["ctx"] == 2:                                   # the writing program fails: what it wrote is there
            try:
                with w:
                    refused = perform(c, co, w)
                    raise KeyError("stop")
            except KeyError as e:
                refused = refused and e.args == ("stop",)
        elif c["ctx"]:
            with w:
                refused = perform(c, co, w)
        else:
            refused = perform(c, co, w)
            w.close()
        s = parse(data(), co)
        if c["sink"] == "path":                             # an existing file is not written over
            for f in (path, path + ".not"):
                if f != path:
                    with open(f, "wb") as g:
                        g.write(b"something")
                held = open(f, "rb").read()
                try:
                    MsgpackDocumentWriter(f)
                    refused = False
                except Exception:
                    refused = refused and open(f, "rb").read() == held
        refused = refused and registry()
        return dict(kind="write", ops=c["ops"], cap=c["cap"], codec=get_codec(c["codec"]).name, file=s, refused=refused,
                    reads=[[st] + readall(st, rd, co) for st in READS])


def run_tar(c):                                              # C12
    co = Coll(c, renumber(c))
    with scratch() as d:
        path = os.path.join(d, "x.tar")
        kw = {}
        if c["rootdir"]:
            kw["rootdir"] = c["rootdir"]
        if c["docformat"]:
            kw["docformat"] = c["docformat"]
        with TarMsgpackWriter(path, mode="w" + c["mode_"], **kw) as w:
            c2 = dict(c, ops=ids(c["ops"]), how=[h for h in c["how"] if h != "refused"])
            perform(c2, co, w)
        out = []
        with TarMsgpackReader(path, mode="r" + c["mode_"]) as r:
            out.append(["tar"] + [co.of(m) for m in r])
        r = TarMsgpackReader(path, mode="r" + c["mode_"])
        out.append(["tardoc"] + [co.of(x) for x in DocumentReader(r)])
        r.close()
        # the files of the archive: numbered from 0, in the directory wanted
        numbers, right = [], True
        with tarfile.open(path) as t:
            for m in t.getmembers():
                if m.isfile():
                    f = c["docformat"] or "doc%05d.msgpack"
                    k = len(numbers)
                    right = right and m.name == (c["rootdir"] + "/" if c["rootdir"] else "") + f % k
                    numbers.append(co.id.get(t.extractfile(m).read(), -1))
        return dict(kind="tar", ops=c["ops"], cap=1, codec="", file=parse(b"", co), refused=right, reads=out + [["files"] + numbers])


def run_foreign(c):                                          # C12: a file by another writer of the format
    co = Coll(c, max([x for b in c["blocks"] for x in b], default=0))
    comp = {"none": bytes, "zip": zlib.compress, "bzip2": bz2.compress, "zipsq": lambda b: zlib.compress(zlib.compress(b)), "lzma": lzma.compress, "mine": flip}[c["codec"]]
    wide = c["seed"] % 3                                    # other packers use longer forms
    data = b"Dmf1" + b"".join(mpk.pack(x, wide) for x in (c["codec"], c["cap"], False))
    for b in c["blocks"]:
        data += mpk.pack(bytes(comp(b"".join(mpk.pack(bytes(co.enc[x]), wide) for x in b))), wide)
    return dict(kind="foreign", blocks=c["blocks"],
                reads=[[st] + readall(st, lambda: MsgpackDocumentReader(io.BytesIO(data)), co) for st in READS])


def run_cutforeign(c):                                       # C14: the same for any file of the format, also with blocks without documents
    co = Coll(c, max([x for b in c["blocks"] for x in b], default=0))
    comp = {"none": bytes, "zip": zlib.compress, "bzip2": bz2.compress, "zipsq": lambda b: zlib.compress(zlib.compress(b)), "lzma": lzma.compress, "mine": flip}[c["codec"]]
    wide = c["seed"] % 3
    whole = b"Dmf1" + b"".join(mpk.pack(x, wide) for x in (c["codec"], c["cap"], False))
    for b in c["blocks"]:
        whole += mpk.pack(bytes(comp(b"".join(mpk.pack(bytes(co.enc[x]), wide) for x in b))), wide)
    s = parse(whole, co)
    n, r = len(whole), random.Random(c["seed"])
    marks = {0, n} | {x + e for x in [0, 4, s["head"]] + s["ends"] for e in (-1, 0, 1, 2)}
    cuts = []
    for k in range(n + 1) if n <= 300 else sorted(marks | set(r.sample(range(n + 1), 60))):
        if not 0 <= k <= n:
            continue
        try:
            cuts.append(dict(k=k, err=False, ids=readall(["iter", "blocks", "docreader", "blockdocs"][k % 4],
                                                         lambda: MsgpackDocumentReader(io.BytesIO(whole[:k])), co)))
        except Exception:
            cuts.append(dict(k=k, err=True, ids=[]))
    return dict(kind="cutforeign", blocks=c["blocks"], file=s, cuts=cuts)


def run_cut(c):                                              # C14
    co = Coll(c, renumber(c))
    with scratch() as d:
        path = os.path.join(d, "x.docria")
        w, data, rd = opened(c, path)
        perform(c, co, w)
        # the writer stops here: what is in the file
        frozen = parse(data(), co)
        live = []
        for st in ("iter", "blocks"):
            try:
                live.append([st] + readall(st, rd, co))
            except Exception:
                live.append([st, -3])
        w.close()
        whole = data()
        s = parse(whole, co)
        framed = open(path, "rb").read() if c["sink"] == "boundary" else None
        n = len(whole)
        r = random.Random(c["seed"])
        marks = sorted({0, n} | {x + e for x in [0, 4, s["head"]] + s["ends"] for e in (-1, 0, 1, 2)})
        ks = list(range(n + 1)) if n <= 400 else sorted(set(marks + r.sample(range(n + 1), 150)))
        cuts = []
        for k in ks:
            if not 0 <= k <= n:
                continue
            if framed is not None:
                B, q = 1 << c["boundary"], k - 1     # payload byte q is the last one there
                a = 1 if k == 0 else q + 2 if q < B - 1 else B * (1 + (q - B + 1) // (B - 4)) + 4 + (q - B + 1) % (B - 4) + 1
                a += r.randint(0, 4) if a % B == 0 else 0          # up to the whole marker
                part = framed[:a]
            else:
                part = whole[:k]
            st = ["iter", "blocks", "docreader", "blockdocs"][k % 4]
            try:
                got = readall(st, (lambda: MsgpackDocumentReader(io.BytesIO(part))) if framed is None else
                              (lambda: MsgpackDocumentReader(_BoundaryReader(io.BytesIO(part)))), co)
                cuts.append(dict(k=k, err=False, ids=got))
            except Exception:
                cuts.append(dict(k=k, err=True, ids=[]))
        return dict(kind="cut", ops=c["ops"], cap=c["cap"], file=s, cuts=cuts, live=live, frozen=frozen)


def run_read(c):                                             # C13
    co = Coll(c, renumber(c))
    with scratch() as d:
        path = os.path.join(d, "x.docria")
        w, data, rd = opened(c, path)
        perform(c, co, w)
        w.close()
        s = parse(data(), co)
        F = [len(b) for b in s["blocks"]]
        order = [x for b in s["blocks"] for x in b]              # documents in file order
        num = {x: g for g, x in enumerate(order, 1)}
        seen = {}                                                 # number -> references delivered
        def see(m):
            g = num.get(co.of(m), -1) if m is not None else 0
            if g > 0:
                seen.setdefault(g, []).append(m.ref)
            return g
        r0 = rd()
        if c["first"] == "iter":
            for m in r0:
                see(m)
        elif c["first"] == "blocks":
            for b in r0.blocks():
                for m in b:
                    see(m)
        else:
            for b in r0.blocks():
                for p, m in b.documents():
                    if see(m) > 0 and m.ref != (b.position, p):
                        seen[num[co.of(m)]].append((b.position, p))
        if c["first"] != "same":
            r0.close()
            r0 = rd()
        else:
            r0.seek(s["head"]) if c["sink"] != "x" else None
        reader, blocks, ops, res = r0, {}, [], []
        r = random.Random(c["rseed"])
        gen = reader.blocks()
        first = {}
        for b, size in enumerate(F, 1):
            first[b] = sum(F[:b - 1]) + 1
        n = len(order)
        script = c["rops"] if c["rops"] else [None] * c["steps"]
        for want in script:
            kinds = ["next"] * 4 + ["get"] * 3 + ["seek", "readblock"] + (["blockget", "blockdocs"] if blocks else [])
            op = want["op"] if want else r.choice(kinds)
            g = b = 0
            q = dict(ok=True, g=0, b=0, docs=[])
            if op in ("get", "blockget", "seek") and n == 0:
                continue
            if op == "next":
                try:
                    m = next(reader, None)
                    q["g"] = see(m)
                except Exception:
                    q["ok"] = False
            elif op == "get":
                g = want["g"] if want else r.randint(1, n)
                if g > n or g not in seen:
                    if want:
                        continue
                    g = r.choice(sorted(seen))
                try:
                    ref = r.choice(seen[g])
                    q["g"] = see(reader.get(ref if r.random() < .7 else list(ref)))
                except Exception:
                    q["ok"] = False
            elif op == "seek":
                b = want["b"] if want else r.randint(1, len(F))
                if b > len(F) or first[b] not in seen:
                    continue
                try:
                    reader.seek(seen[first[b]][0][0])
                except Exception:
                    q["ok"] = False
            elif op == "readblock":
                try:
                    bl = next(gen, None) if r.random() < .3 else reader.readblock()
                    if bl is None:
                        gen = reader.blocks()
                    else:
                        q["docs"] = [see(m) for m in bl]
                        if q["docs"]:
                            k = [x for x in first if first[x] == q["docs"][0]]
                            if k:
                                blocks[k[0]] = bl
                except Exception:
                    q["ok"] = False
            else:
                b = r.choice(sorted(blocks))
                bl = blocks[b]
                try:
                    if op == "blockdocs":
                        pairs = bl.documents()
                        q["docs"] = [see(m) if m.ref == (bl.position, p) else -1 for p, m in pairs]
                    else:
                        g = first[b] + r.randrange(F[b - 1])
                        bl.seek(seen[g][0][1])
                        q["g"] = see(next(bl))
                except Exception:
                    q["ok"] = False
            ops.append(dict(op=op, g=g, b=b))
            res.append(q)
        reader.close()
        refs = [[g, list(x)] for g, xs in seen.items() for x in sorted({tuple(y) for y in xs})]
        return dict(kind="read", F=F, rops=ops, res=res, refs=refs, all=len(seen) == n)


# -- boundary framing -----------------------------------------------------------------------------
SCALE = {4: 4091, 5: 4092, 7: 4095, 8: 4096, 9: 4097, 13: 8190}


def run_frame(c):                                            # C15
    r = random.Random(c["seed"])
    B = 1 << c["boundary"]
    raw = Raw()
    w = _BoundaryWriter(raw, boundary=c["boundary"])
    data, ops = bytearray(), []
    for op in c["ops"]:
        if r.random() < .1:
            w.flush()
        if op < 0:
            w.split()
        else:
            piece = r.getrandbits(8 * op).to_bytes(op, "big") if op else b""
            w.write(r.choice([bytes, bytearray, memoryview])(piece))
            data += piece
        ops.append(op)
    w.close()
    out = bytes(raw.b)
    marks, payload, p = [], bytearray(), 1
    for k in range(B, len(out), B):
        payload += out[p:k]
        marks.append([k, int.from_bytes(out[k:k + 4], "big", signed=True)])
        p = k + 4
    payload += out[p:]
    data = bytes(data)
    N, o, rops, res = len(data), 0, [], []
    rd = _BoundaryReader(io.BytesIO(out))
    edges = sorted({x for x in [0, 1, 2, N - 1, N] + [k * B + e - 5 * k for k in range(1, len(out) // B + 2) for e in range(-6, 7)] if 0 <= x <= N})
    for _ in range(c["steps"]):
        op = r.choice(["seek", "read", "read", "read", "tell"])
        n = 0
        if op == "seek":
            n = r.choice(edges + [r.randint(0, N)])
            rd.seek(n)
            o = n
            q = dict(len=0, eq=True, tell=rd.tell())
        elif op == "tell":
            q = dict(len=0, eq=True, tell=rd.tell())
        else:
            n = r.choice([0, 1, 2, 3, 4, 5, 17, 4091, 4092, 4093, 4096, 5000, 8192, 100000, -1, -2, max(0, N - o), r.choice(edges)])
            if n < 0:
                got = r.choice([lambda: rd.read(n), rd.read, lambda: rd.read(None), rd.readall])()
            elif r.random() < .1 and data.find(b"\n", o, o + 3000) >= 0:
                n = data.find(b"\n", o) + 1 - o
                got = rd.readline()
            else:
                got = rd.read(n)
            q = dict(len=len(got), eq=bytes(got) == data[o:o + len(got)], tell=rd.tell())
            o += len(got)
        rops.append(dict(op=op, n=n))
        res.append(q)
    ok = []
    for bad in (11, 31):
        try:
            _BoundaryWriter(Raw(), boundary=bad)
            ok.append(False)
        except Exception:
            ok.append(True)
        try:
            _BoundaryReader(io.BytesIO(bytes([bad]) + b"abc"))
            ok.append(False)
        except Exception:
            ok.append(True)
    ok += [rd.readable(), not rd.writable(), rd.seekable(), w.writable(), not w.readable(), not w.seekable()]
    for whence, at in ((1, rd.tell()), (2, N)):              # other ways to seek: refused, or right
        here = rd.tell()
        try:
            ok.append(rd.seek(-min(2, at), whence) == at - min(2, at) == rd.tell())
        except Exception:
            ok.append(rd.tell() == here and rd.read(3) == data[here:here + 3])
    return dict(kind="frame", B=B, ops=ops, n=N, first=out[0] == c["boundary"], len=len(out), marks=marks, same=bytes(payload) == data,
                rops=rops, res=res, refuses=all(ok))


def run_framed(c):                                           # C15: a collection through the framing
    co = Coll(c, renumber(c))
    with scratch() as d:
        outs = []
        for sink in ("boundary", "path"):
            path = os.path.join(d, sink)
            cc = dict(c, sink=sink)
            w, data, rd = opened(cc, path)
            perform(cc, co, w)
            w.close()
            r = rd()
            a = []
            refs = []
            for m in r:
                a.append([co.of(m), list(m.ref)])
                refs.append(m.ref)
            r.close()
            rnd = random.Random(c["seed"])
            rnd.shuffle(refs)
            r = rd()
            a += [[co.of(r.get(x)), list(x)] for x in refs]
            r.close()
            outs.append(a)
            if sink == "boundary":
                raw = open(path, "rb").read()
                B = 1 << c["boundary"]
                # what the markers must say: the positions after the header and after every block
                s = parse(data(), co)
                marks = [[k, int.from_bytes(raw[k:k + 4], "big", signed=True)] for k in range(B, len(raw), B)]
                pieces = [s["head"]] + s["ends"]
        return dict(kind="framed", a=outs[0], b=outs[1], ids=ids(c["ops"]), B=B, pieces=pieces, marks=marks)


# -- index ----------------------------------------------------------------------------------------
VALUES = [0, 1, 2, True, False, "0", "1", "x", "", "\u00e5", 1.0, 2.5, None, b"x", 10**15, "x" * 300]


def vclass(v):
    """Equal values have equal atoms."""
    if isinstance(v, (bool, int, float)):
        return "n%r" % (v + 0.0 if isinstance(v, float) else float(v))
    return canon(v)


def run_index(c):                                            # C16
    r = random.Random(c["seed"])
    with scratch() as d:
        sub = os.path.join(d, "tree")
        os.mkdir(sub)
        files, paths, enc = [], [], {}
        for f, docs in enumerate(c["files"]):
            path = os.path.join(sub, "f%d.docria" % f + r.choice(["", "", ".xz", ".bz2", ".lz4"]))
            paths.append(path)
            w = MsgpackDocumentWriter(path, num_docs_per_block=c["cap"], codec=get_codec(c["codec"]))
            recs = []
            for i, ps in enumerate(docs):
                doc = Document()
                doc.props["_f"], doc.props["_i"] = f, i
                for k, v in ps:
                    doc.props[k] = VALUES[v]
                if r.random() < .3:
                    doc.maintext = "text " * r.choice([1, 5000])
                enc[MsgpackCodec.encode(doc)] = [f + 1, i + 1]
                w.write(doc)
                if r.random() < .1:
                    w.flush()
                recs.append([dict(k=atom(k), v=vclass(v)) for k, v in doc.props.items()])
            w.close()
            files.append(recs)
        for junk in ("x.txt", ".f.docria", "y.docria.gz", "docria"):
            with open(os.path.join(sub, junk), "wb") as g:
                g.write(b"junk")
        saved = os.path.join(d, "idx.pickle")
        home = os.getcwd()
        if c["dir"]:
            base = {"abs": d, "sub": sub, "default": None}[c["base"]]
            kw = {} if base is None else dict(basepath=base)
            if c["base"] == "default":
                os.chdir(d)
            try:
                import sys
                err, sys.stderr = sys.stderr, open(os.devnull, "w")
                try:
                    ix = build_msgpack_directory_fileindex(sub if c["base"] != "default" else "tree", *c["indexed"], num_workers=2, **kw)
                finally:
                    sys.stderr = err
            finally:
                os.chdir(home)
        else:
            ix = build_msgpack_fileindex(paths[0], *c["indexed"])
            if c["save"]:
                m = DocumentIndex(basepath=d)
                m.add(ix)
                ix = m
        objs = [ix]
        if c["dir"] or c["save"]:
            ix.save(saved)
            objs.append(DocumentIndex.load(saved))
        searches = []
        for conds in c["searches"]:
            cs = [(k, VALUES[v]) for k, v in conds]
            for o in objs:
                lazy = r.random() < .5
                os.chdir(r.choice([home, d, "/"]))
                try:
                    got = []
                    g = o.search(dict(cs) if r.random() < .7 else cs, lazy=lazy)
                    for x in g:
                        good = isinstance(x, MsgpackDocument if lazy else Document)
                        b = x.binary() if lazy else MsgpackCodec.encode(x)
                        got.append(enc.get(b, [0, 0]) if good else [0, 0])
                        if r.random() < .1:                      # another search in between
                            list(o.search(dict(cs)))
                finally:
                    os.chdir(home)
                searches.append(dict(conds=[dict(k=atom(k), v=vclass(v)) for k, v in cs], found=got))
        return dict(kind="index", files=files if c["dir"] else files[:1], indexed=[atom(x) for x in c["indexed"]], searches=searches)


def run(c):
    return globals()["run_" + c["mode"]](c)


def cases(r, tier, prop, tlc):
    big = tier == "thorough"

    def opsof(n, again=0):
        k, out, rep = 0, [], again and r.choice([0, 0, again, .8])
        for _ in range(n):
            if r.random() < .2:
                out.append(0)
            elif k and r.random() < rep:                    # a document written before
                out.append(k if r.random() < .6 else r.randint(1, k))
            else:
                k += 1
                out.append(k)
        return out

    def fill(c):
        c.setdefault("cap", r.choice([1, 2, 3, 4, 7, 128]))
        c.update(seed=r.getrandbits(40), codec=r.choice(CODECS), sink=r.choice(["path", "io", "memory", "raw", "boundary"]), boundary=r.choice([12, 12, 13, 20]),
                 how=[r.choice(["plain", "plain", "encoded", "encodeddoc", "looked", "refused"]) for _ in range(5)], ctx=r.choice([0, 1, 2]))
        c.setdefault("sizes", r.choice([["small"], ["small", "empty"], ["small", "mid"], ["mid", "big", "small"], ["small", "small", "small", "big"]]))
        c.setdefault("cls", c["mode"])
        return c
    if prop == "C12":
        hist = {(tuple(t["ops"]), t["cap"]) for t in tlc}
        for ops, cap in sorted(hist):
            yield fill(dict(mode="write", cls="write/model", ops=list(ops), cap=cap, sizes=["small", "empty"]))
        for k in range(2000 if big else 250):
            yield fill(dict(mode="write", ops=opsof(r.choice([0, 1, 3, 8, 20, 60]), .3)))
        for cd in CODECS + ["zstd:ultra"]:
            c = fill(dict(mode="write", cls="write/huge", ops=opsof(5), sizes=["huge", "small"], cap=3))
            c["codec"] = cd
            yield c
        c = fill(dict(mode="write", cls="write/vast", ops=[1, 2, 3, 0, 4], sizes=["vast", "small"], cap=2))
        c["codec"] = "none"
        yield c
        for k in range(300 if big else 60):
            c = fill(dict(mode="tar", ops=opsof(r.choice([0, 1, 5, 20]), .3)))
            if k % 6 == 0:
                c.update(sizes=["huge", "big"], ops=[1, 2, 3], cls="tar/huge", how=["looked", "encoded", "encodeddoc"][k // 6 % 3:] + ["plain"])
            c.update(mode_=r.choice(["|gz", "|bz2", "|xz", "|", ":gz", ":"]), rootdir=r.choice(["", "root", "a", "_r/.s", "."]), docformat=r.choice(["", "d%d.bin", "x%03d", "_%d.msgpack", ".d%d", "in/%d.x"]))
            if all(h == "refused" for h in c["how"]):
                c["how"] = ["plain"]
            yield c
        for k in range(300 if big else 60):
            n, blocks = 0, []
            for _ in range(r.choice([0, 1, 3, 8])):
                m = r.choice([0, 0, 1, 2, 5])
                blocks.append(list(range(n + 1, n + m + 1)))
                n += m
            c = fill(dict(mode="foreign", blocks=blocks))
            if k % 12 == 0:
                c.update(sizes=["huge", "small"], cls="foreign/huge")
            c.update(codec=r.choice(["none", "zip", "bzip2", "zipsq", "lzma", "mine"]))
            yield c
        yield fill(dict(mode="write", cls="write/many", ops=list(range(1, 401)), sizes=["empty", "small"], cap=128))
    elif prop == "C13":
        model = sorted({json.dumps([t["ops"], t["cap"], t["rops"]]) for t in tlc})
        for s in model if big else r.sample(model, min(len(model), 1500)):
            ops, cap, rops = json.loads(s)
            yield fill(dict(mode="read", cls="read/model", ops=ops, cap=cap, rops=rops, first=r.choice(["iter", "blocks", "documents"]), steps=0,
                            rseed=r.getrandbits(40), sizes=["small", "empty"]))
        for k in range(4000 if big else 700):
            yield fill(dict(mode="read", ops=opsof(r.choice([1, 4, 10, 30])), rops=[], steps=r.choice([5, 12, 30]), rseed=r.getrandbits(40),
                            first=r.choice(["iter", "blocks", "documents"])))
        for k in range(40 if big else 12):
            yield fill(dict(mode="read", cls="read/huge", ops=opsof(r.choice([3, 6])), rops=[], steps=12, rseed=r.getrandbits(40),
                            first=r.choice(["iter", "blocks", "documents"]), sizes=["huge", "small"], cap=r.choice([1, 2, 4])))
    elif prop == "C14":
        hist = {(tuple(t["ops"]), t["cap"]) for t in tlc}
        for ops, cap in sorted(hist):
            yield fill(dict(mode="cut", cls="cut/model", ops=list(ops), cap=cap, sizes=["empty"]))
        for k in range(1500 if big else 200):
            yield fill(dict(mode="cut", ops=opsof(r.choice([1, 3, 6, 12]), .3)))
        for k in range(20 if big else 6):
            yield fill(dict(mode="cut", cls="cut/huge", ops=opsof(4), sizes=["huge", "small"], cap=r.choice([1, 2, 4])))
        for k in range(200 if big else 40):
            n, blocks = 0, []
            for _ in range(r.choice([1, 3, 6])):
                m = r.choice([0, 0, 1, 2])
                blocks.append(list(range(n + 1, n + m + 1)))
                n += m
            c = fill(dict(mode="cutforeign", blocks=blocks, sizes=r.choice([["empty"], ["small", "empty"]])))
            c.update(codec=r.choice(["none", "zip", "bzip2", "zipsq", "lzma", "mine"]))
            yield c
    elif prop == "C15":
        for k in range(6 if big else 3):                         # blocks of many megabytes
            yield dict(mode="frame", cls="frame/long", ops=[r.choice([5, 4000000]), -1, 9500000 + r.randint(0, 9), r.choice([-1, 0]), 3000000],
                       boundary=[20, 16, 21][k % 3], seed=r.getrandbits(40), steps=8)
        model = sorted({json.dumps(t["ops"]) for t in tlc})
        for s in model if big else r.sample(model, min(len(model), 900)):
            yield dict(mode="frame", cls="frame/model", ops=[SCALE.get(x, x) for x in json.loads(s)], boundary=12, seed=r.getrandbits(40), steps=12)
        for k in range(3000 if big else 400):
            b = r.choice([12, 12, 12, 13, 14])
            B = 1 << b
            ops = [r.choice([-1, 0, 1, 3, 4, 5, 100, B - 5, B - 4, B - 1, B, B + 1, 2 * B - 4, 3 * B - 8, r.randint(0, 3 * B), r.randint(0, 9 * B)])
                   for _ in range(r.choice([1, 3, 6, 12]))]
            yield dict(mode="frame", cls="frame", ops=ops, boundary=b, seed=r.getrandbits(40), steps=25)
        for k in range(400 if big else 80):
            c = fill(dict(mode="framed", ops=opsof(r.choice([0, 1, 5, 20, 40]), .3)))
            c.update(boundary=r.choice([12, 12, 13]), codec=r.choice(["none", "none", "zip"]), how=["plain", "encoded"])
            yield c
        for k in range(20 if big else 5):
            c = fill(dict(mode="framed", cls="framed/huge", ops=opsof(5), sizes=["huge", "mid"], cap=r.choice([1, 2])))
            c.update(boundary=r.choice([12, 13, 20]), codec="none", how=["plain", "encoded", "looked"])
            yield c
    elif prop == "C16":
        def search():
            return [[k, r.randrange(len(VALUES))] for k in r.sample(["p", "q", "r", "zz"], r.choice([0, 1, 1, 2, 3]))]
        for t in tlc if big else r.sample(tlc, min(len(tlc), 250)):
            docs = [[[x["k"], int(x["v"])] for x in d] for d in t["docs"]]
            yield dict(mode="index", cls="index/model", seed=r.getrandbits(40), files=[docs], dir=False, save=r.random() < .5, cap=r.choice([1, 2]), codec="none",
                       base="abs", indexed=r.choice([["p"], ["q"], ["p", "q"]]),
                       searches=[[["p", a]] for a in (0, 1)] + [[["q", a]] for a in (0, 1)] + [[["p", a], ["q", b]] for a in (0, 1) for b in (0, 1)])
        for k in range(800 if big else 150):
            vs = r.choice([[0, 1, 7], [0, 1, 3, 4, 10], list(range(len(VALUES)))])
            files = [[[[p, r.choice(vs)] for p in ("p", "q", "r") if r.random() < .7] for _ in range(r.choice([0, 1, 5, 20, 60]))]
                     for _ in range(r.choice([1, 1, 2, 4]))]
            d = len(files) > 1 or r.random() < .4
            ss = [[[p, r.choice(vs)] for p in r.sample(["p", "q", "r", "zz"], r.choice([1, 1, 2, 3]))] for _ in range(8)] + [search()]
            yield dict(mode="index", cls="index/dir" if d else "index/file", seed=r.getrandbits(40), files=files, dir=d, save=not d and r.random() < .5,
                       cap=r.choice([1, 3, 8]), codec=r.choice(["none", "zip", "lz4"]), base=r.choice(["abs", "sub", "default"]),
                       indexed=r.choice([["p"], ["p", "q"], ["p", "q", "r"], ["r"]]), searches=ss)
