"""Which models, generators, drivers and judges decide which property."""
CHECKS = {}


def check(*ids):
    def reg(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return reg


def thorough(c):
    return c.tier == "thorough"


@check("C11")
def c11(c):
    n = 4 if thorough(c) else 3
    cs = c.generate("SpansMC", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n" % n,
                    "all texts up to %d characters over {letter, blank} with all slice bounds" % n)
    c.conform("d_spans", "JudgeSpans", "SpanBad", "span operations on the real texts", cs)


def layers(c, label):
    """Document editing: design models, model histories and random histories."""
    cs = []
    if c.prop in ("C01", "C02", "C03"):
        n = 4 if thorough(c) else 3
        c.design("LayerImpl", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n"
                 "CONSTANT Nodes = {%s}\nCONSTANT LIM = 3\n" % ", ".join(str(i) for i in range(1, n + 1)),
                 "slots with gaps refine the node sequence, all edits of %d nodes" % n)
        gen = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANT N = 3\nCONSTANT D = %d\n"
        cs = c.generate("LayersGen", gen % 2, "all histories of 2 commands on a layer of 3 nodes")
        cs += c.generate("LayersGen", gen % 3, "all histories of 3 commands on a layer of 3 nodes")
    c.conform("d_layers", "JudgeLayers", None, label, cs, events=True)


def codec(c, label):
    n = (2, 2) if thorough(c) else (2, 1)
    cs = c.generate("CodecMC", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANT NA = %d\nCONSTANT NB = %d\n" % n,
                    "all documents of two layers with at most %d and %d nodes, one field of any type each" % n)
    c.conform("d_codec", "JudgeCodec", "CodecBad", label, cs)


@check("C06", "C07", "C09", "C10")
def codec_props(c):
    codec(c, "encoding and decoding of model, random, boundary-size and independently written documents")


@check("C12", "C13", "C14")
def coll(c):
    big = thorough(c)
    cfg = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANT NW = %d\nCONSTANT NR = %d\nCONSTANT CAP = 3\n"
    nw, nr = {"C12": (7, 1), "C14": (6, 1)}.get(c.prop, (5, 3)) if big else {"C12": (5, 1), "C14": (5, 1)}.get(c.prop, (4, 3))
    cs = c.generate("CollectionMC", cfg % (nw, nr), "all writer histories of %d operations with block limits 1 to 3, "
                    "all interruptions, all reader histories of %d operations" % (nw, nr))
    c.conform("d_coll", "JudgeColl", "CollBad", "collection files of the real writers, read by the real readers", cs)


@check("C15")
def c15(c):
    cs = c.generate("BoundaryMC", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANT B = 8\nCONSTANT M = 4\n"
                    "CONSTANT NOPS = %d\nCONSTANT SIZES = {0,1,2,3,4,5,7,8,9,13}\n" % (5 if thorough(c) else 4),
                    "all histories of writes and block starts, boundary 8, byte by byte")
    c.conform("d_coll", "JudgeFrame", "FrameBad", "framed streams of the real writer, read by the real reader", cs)


@check("C16")
def c16(c):
    cs = c.generate("IndexMC", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n" % (4 if thorough(c) else 3),
                    "all collections of few documents over two properties with two values, all searches")
    c.conform("d_coll", "JudgeIndex", "IndexBad", "searches of real indices", cs)


@check("C24")
def c24(c):
    n = (2, 2) if thorough(c) else (2, 1)
    cs = c.generate("CodecMC", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANT NA = %d\nCONSTANT NB = %d\n" % n,
                    "all documents of two layers with at most %d and %d nodes, one field of any type each" % n)
    c.conform("d_xml", "JudgeXml", "Bad1", "XML exports of model, random and hostile documents, parsed back", cs)


@check("C01", "C02", "C03", "C04", "C05", "C08", "C23", "C26")
def layer_props(c):
    layers(c, "editing histories of the real documents, validated step by step")
    if c.prop == "C26":
        cs = c.generate("ListsMC", MODEL + "CONSTANT N = %d\n" % (4 if thorough(c) else 3), "merging the field types of three or four origins in any order; Python slices")
        c.conform("d_lists", "JudgeLists", "ListBad", "real lists of nodes of several layers and of none", cs)
    if c.prop == "C08":
        codec(c, "encoding the same content repeatedly, by other histories, in other processes")


MODEL = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"


@check("C17")
def c17(c):
    cs = c.generate("GraphMC", MODEL + "CONSTANT N = 3\nCONSTANT L = %d\n" % (3 if thorough(c) else 2),
                    "queue and stack traversals of all graphs of 3 nodes with ordered child lists")
    c.conform("d_algo", "JudgeAlgo", "AlgoBad", "traversals of real node graphs", cs)


@check("C18")
def c18(c):
    cs = c.generate("GroupMC", MODEL + "CONSTANT P = %d\n" % (3 if thorough(c) else 2), "sweep over all placements of 2 groups and 2 nodes")
    c.conform("d_algo", "JudgeAlgo", "AlgoBad", "groupings of real nodes", cs)


@check("C19")
def c19(c):
    cs = c.generate("DominantMC", MODEL + "CONSTANT N = %d\nCONSTANT P = %d\n" % ((4, 4) if thorough(c) else (3, 4)), "sweep over all lists of few segments")
    c.conform("d_algo", "JudgeAlgo", "AlgoBad", "overlap resolutions of real segments and nodes", cs)


@check("C20")
def c20(c):
    cs = c.generate("SeqMC", MODEL + "CONSTANT N = %d\nCONSTANT M = %d\n" % ((4, 3) if thorough(c) else (3, 2)), "all short texts, ranges, token sequences and look-aheads")
    c.conform("d_algo", "JudgeAlgo", "AlgoBad", "token sequences located in real texts", cs)


@check("C21")
def c21(c):
    cs = c.generate("TranslateMC", MODEL + "CONSTANT P = %d\n" % (6 if thorough(c) else 4), "sweep over all mappings by two intervals and all spans")
    c.conform("d_algo", "JudgeAlgo", "AlgoBad", "spans translated in real documents", cs)


@check("C22")
def c22(c):
    cs = c.generate("QueryMC", MODEL, "all predicates of two levels over two fields, on a node for every pair of values")
    c.conform("d_query", "JudgeQuery", "QueryBad", "queries, updates and edits of real layers, lists, spans and queries", cs)


@check("C25")
def c25(c):
    cs = c.generate("PresentMC", MODEL + "CONSTANT R = %d\nCONSTANT K = %d\n" % ((5, 2) if thorough(c) else (3, 2)), "renderings of all small tables under small option values")
    c.conform("d_present", "JudgePresent", "PresentBad", "text, HTML and repr of real objects under display options, parsed back", cs)


@check("C27")
def c27(c):
    cs = c.generate("RefuseMC", MODEL + "CONSTANT N = %d\nCONSTANT M = %d\n" % ((5, 4) if thorough(c) else (4, 3)),
                    "readers of any parts of every prefix of every encoding of few sections")
    c.conform("d_refuse", "JudgeRefuse", "RefuseBad", "prefixes of real encodings, other data, and writers given something else", cs)
