"""What each property's check does: which recordings and replays are made, which specification judges them,
and which models are explored."""
from . import core

HARNESSES = ["decode", "events", "queue", "arith", "search", "alttree", "history", "ugraph", "dem", "disc", "noise", "front"]
RUN = {}


def prop(name):
    def deco(f):
        RUN[name] = f
        return f
    return deco


def spread(base, n, seed, **kw):
    """n jobs that differ only in their seed."""
    out = []
    for i in range(n):
        j = dict(base)
        j.update(kw)
        j["seed"] = seed * 1000 + i + 100000 * (hash_of(base) % 997)
        out.append(j)
    return out


def guarded(c, base, **kw):
    """A few units with every access to memory watched: one that is not there, or no longer, ends the unit."""
    b = dict(base, guarded=1, **kw)
    for k in ("histories", "graphs", "models", "runs"):
        if k in b:
            b[k] = max(1, b[k] // 8)
    if "emit-every" in b:
        b["emit-every"] = max(1, b["emit-every"] // 2)
    return spread(b, 1, c.seed)


def hash_of(d):
    import zlib
    return zlib.crc32(repr(sorted(d.items())).encode())


# ------------------------------------------------------------------------------------ decode contract

def decode_jobs(c, mixes):
    """mixes: list of (arguments, quick graphs, quick jobs)."""
    jobs = []
    for args, graphs, n in mixes:
        a = dict(args)
        a["graphs"] = graphs if c.quick else graphs * 6
        if not c.quick:
            n = n * 2
        jobs += spread(a, n, c.seed)
    return jobs


SMALL = {"n": 6, "k": 2, "emit-every": 12, "syn-emit": 16}
MEDIUM = {"n": 8, "min-n": 6, "k": 1, "emit-every": 25, "syn-emit": 24}
LARGE = {"n": 11, "min-n": 9, "k": 1, "emit-every": 60, "syn-emit": 40, "syn-max": 600}
DENSE0 = {"n": 8, "min-n": 4, "k": 1, "zero": 100, "maxw": 3, "emit-every": 25, "syn-emit": 24}


def hosted(c, base, jobs=1):
    """The same graphs inside larger ones: nodes with hundreds of neighbours, node indices beyond 8 and 16 bits,
    and together with hundreds, or more than 65536, edges that stand alone and have detection events, and with edges that
    are paths of hundreds, or more than 65536, edges."""
    f = 1 if c.quick else 8
    b = dict(base, **{"emit-every": 12})
    return spread(dict(b, graphs=300 * f, host=1), jobs, c.seed) + spread(dict(b, graphs=12 * f, host=2, **{"syn-max": 16, "emit-every": 3}), 1, c.seed) + spread(dict(b, graphs=150 * f, host=3, **{"syn-max": 48}), jobs, c.seed) + spread(dict(b, graphs=2 * f, host=4, **{"syn-max": 4, "emit-every": 1}), 1, c.seed) + spread(dict(b, graphs=100 * f, host=5, **{"syn-max": 48}), 1, c.seed) + spread(dict(b, graphs=2 * f, host=6, **{"syn-max": 6, "emit-every": 1}), 1, c.seed)


def model_table(c):
    """The reference itself: the shortest-table construction of MatchingGraph equals the minimum over all edge
    subsets, on every small graph."""
    c.model("MatchingGraphCheck", {"N": 3, "W": "{1}"})
    c.model("MatchingGraphCheck", {"N": 2, "W": "{0, 1, 2}", "Shift": 1})
    c.model("MatchingGraphCheck", {"N": 3, "W": "{0, 2}", "Shift": 1, "Bs": "{{0}}"})


def large(c, p, **kw):
    """Answers on large graphs, judged by the certificate that the radii at the end of the run give."""
    b = {"brief": 1, "exact": 1, "k": 3}
    b.update(kw)
    f = 1 if c.quick else 8
    neg = kw.get("neg", 0)
    jobs = spread(dict(b, runs=8000 * f, n=30, **{"min-n": 12, "emit-every": 400 * f, "interesting": 25 * f, "maxw": 3000 if neg else 0}), 2, c.seed)
    jobs += spread(dict(b, runs=1500 * f, n=100, maxw=900, **{"min-n": 60, "emit-every": 200 * f, "interesting": 5 * f}), 1, c.seed)
    jobs += spread(dict(b, runs=20000 * f, n=16, maxw=3, zero=100, **{"min-n": 8, "emit-every": 900 * f, "interesting": 25 * f}), 1, c.seed)
    if not neg and not kw.get("bigk"):
        jobs += spread(dict(b, runs=30 * f, long=190, density=2, **{"emit-every": 3 * f}), 1, c.seed)
        jobs += spread(dict(b, runs=30 * f, long=190, density=12, **{"emit-every": 5 * f}), 1, c.seed)
        # blossoms with hundreds of children, or hundreds deep
        jobs += spread(dict(b, runs=6 * f, ring=260, density=100, per=1, **{"emit-every": 6 if c.quick else 12}), 1, c.seed)
        jobs += spread(dict(b, runs=60 * f, ring=50, density=100, per=1, **{"emit-every": 15 * f}), 1, c.seed)
    c.validate("SparseBlossomTrace", c.record("events", jobs), {"Prop": '"%s"' % p})


@prop("C01")
def c01(c):
    model_table(c)
    rec = c.record("decode", decode_jobs(c, [(dict(SMALL, loops=10, negloops=1), 6000, 2), (MEDIUM, 4000, 2), (LARGE, 900, 2), (DENSE0, 4000, 1), (dict(SMALL, neg=100, loops=15, negloops=1), 4000, 1)]) + hosted(c, dict(SMALL, loops=10)))
    c.validate("DecodeTrace", rec, {"Prop": '"C01"'})
    large(c, "C01")


@prop("C02")
def c02(c):
    model_table(c)
    rec = c.record("decode", decode_jobs(c, [(dict(SMALL, k=3, n=5), 6000, 2), (MEDIUM, 4000, 2), (LARGE, 900, 2), (dict(SMALL, bigk=1), 5000, 1), (dict(DENSE0, k=2), 3000, 1), (dict(SMALL, neg=100, loops=15, negloops=1), 4000, 1)]) + hosted(c, dict(SMALL, bigk=1)))
    c.validate("DecodeTrace", rec, {"Prop": '"C02"'})
    large(c, "C02")


@prop("C03")
def c03(c):
    model_table(c)
    rec = c.record("decode", decode_jobs(c, [(SMALL, 5000, 2), (dict(SMALL, neg=60), 5000, 2), (MEDIUM, 3000, 1), (dict(MEDIUM, neg=60), 3000, 1), (LARGE, 700, 1), (DENSE0, 3000, 1)]) + hosted(c, dict(SMALL, neg=30)))
    c.validate("DecodeTrace", rec, {"Prop": '"C03"'})
    c.expected("DecodeTrace", "decode", {"Prop": '"C03"'}, "negative-self-loop", {"fixed": "negative-self-loop", "graphs": 1, "emit-every": 1, "seed": 1})
    large(c, "C03")
    large(c, "C03", neg=60)


@prop("C04")
def c04(c):
    rec = c.record("decode", decode_jobs(c, [(SMALL, 6000, 2), (dict(SMALL, bigk=2), 3000, 1), (MEDIUM, 3000, 2), (LARGE, 700, 2), (DENSE0, 3000, 1)]) + hosted(c, SMALL))
    c.validate("DecodeTrace", rec, {"Prop": '"C04"'})
    large(c, "C04")


@prop("C05")
def c05(c):
    rec = c.record("decode", decode_jobs(c, [(dict(SMALL, bigk=2), 4000, 3), (dict(SMALL, bigk=2, neg=60, loops=15, negloops=1), 4000, 2), (dict(MEDIUM, bigk=2), 2500, 2), (dict(DENSE0, bigk=2), 3000, 1)]) + hosted(c, dict(SMALL, bigk=2)) + guarded(c, dict(SMALL, graphs=2000, bigk=2, neg=40)) + [{"conv": 600 if c.quick else 6000, "graphs": 0, "seed": c.seed}])
    c.validate("DecodeTrace", rec, {"Prop": '"C05"'})
    large(c, "C05", bigk=2)
    large(c, "C05", bigk=2, neg=60)


@prop("C07")
def c07(c):
    rec = c.record("decode", decode_jobs(c, [(dict(SMALL, oor=1), 6000, 2), (dict(SMALL, neg=60, oor=1), 5000, 2), (dict(SMALL, maxedges=5), 5000, 2), (dict(MEDIUM, bigk=2), 3000, 1), (LARGE, 700, 1)]) + hosted(c, dict(SMALL, oor=1)) + guarded(c, dict(SMALL, graphs=2500, neg=30, oor=1)))
    c.validate("DecodeTrace", rec, {"Prop": '"C07"'})
    large(c, "C07")


@prop("C08")
def c08(c):
    model_table(c)
    rec = c.record("decode", decode_jobs(c, [(dict(SMALL, neg=100, loops=15, negloops=1), 6000, 3), (dict(SMALL, neg=100, bigk=2, loops=15, negloops=1), 4000, 2), (dict(MEDIUM, neg=100), 3000, 2), (dict(LARGE, neg=100), 700, 1)]) + hosted(c, dict(SMALL, neg=100, bigk=2)) + guarded(c, dict(SMALL, graphs=2500, neg=100, loops=15, negloops=1)))
    c.validate("DecodeTrace", rec, {"Prop": '"C08"'})
    large(c, "C08", neg=90)
    large(c, "C08", neg=90, bigk=2)


# ------------------------------------------------------------------------------------ queue and tracker

@prop("C09")
def c09(c):
    c.model("EventQueueMC", {"Depth": 6 if c.quick else 8})
    h = c.generate("EventQueueMC", "EventQueueGen", {"Depth": 5 if c.quick else 6, "Deltas": "{0, 1, 2, 5}"}, "hist")
    jobs = [{"mode": "replay", "hist": h, "emit-every": 50021 if c.quick else 300007}]
    jobs += spread({"mode": "random", "histories": 6000 if c.quick else 60000, "len": 120, "emit-every": 60 if c.quick else 200}, 4, c.seed)
    jobs += spread({"mode": "random", "histories": 600 if c.quick else 6000, "len": 800, "emit-every": 60 if c.quick else 200}, 3, c.seed)
    jobs += spread({"mode": "bulk", "histories": 600 if c.quick else 6000, "emit-every": 15}, 2, c.seed)
    c.validate("EventQueueTrace", c.record("queue", jobs))


@prop("C10")
def c10(c):
    c.model("TrackerMC", {"Depth": 6 if c.quick else 7})
    h = c.generate("TrackerMC", "TrackerGen", {"Depth": 5 if c.quick else 6}, "hist")
    jobs = [{"mode": "trackreplay", "hist": h, "emit-every": 401 if c.quick else 3001}]
    jobs += spread({"mode": "tracker", "histories": 30000 if c.quick else 300000, "len": 60, "emit-every": 100 if c.quick else 500}, 5, c.seed)
    jobs += spread({"mode": "tracker", "histories": 3000 if c.quick else 30000, "len": 500, "emit-every": 100 if c.quick else 500}, 2, c.seed)
    jobs += spread({"mode": "tracker", "histories": 300 if c.quick else 3000, "len": 2000, "objs": 300, "emit-every": 30 if c.quick else 100}, 1, c.seed)
    c.validate("TrackerTrace", c.record("queue", jobs))


@prop("C21")
def c21(c):
    jobs = []
    for k in range(8):
        jobs.append({"lo": 32 * k, "hi": 32 * k + 32, "extra": 150 if c.quick else 3000, "seed": c.seed * 8 + k})
    c.validate("Arith", c.record("arith", jobs))


# ------------------------------------------------------------------------------------ shortest paths

@prop("C14")
def c14(c):
    c.model("ShortestPathCheck", {"W": "{0, 2}" if c.quick else "{0, 1, 3}"})
    f = 1 if c.quick else 10
    jobs = spread({"graphs": 3000 * f, "n": 6, "emit-every": 40 * f}, 3, c.seed)
    jobs += spread({"graphs": 1500 * f, "n": 10, "min-n": 6, "zero": 60, "emit-every": 40 * f}, 2, c.seed)
    jobs += spread({"graphs": 300 * f, "n": 26, "min-n": 12, "queries": 200, "emit-every": 30 * f, "q-emit": 12}, 2, c.seed)
    jobs += spread({"graphs": 6 * f, "long": 190, "queries": 60, "emit-every": 6 * f, "q-emit": 3}, 1, c.seed)
    jobs += spread({"graphs": 150 * f, "n": 10, "host": 1, "emit-every": 15 * f}, 1, c.seed)
    jobs += spread({"graphs": 8 * f, "n": 10, "host": 2, "queries": 20, "emit-every": 2 * f}, 1, c.seed)
    jobs += spread({"graphs": 150 * f, "n": 9, "host": 5, "emit-every": 15 * f}, 1, c.seed)
    jobs += spread({"graphs": 6 * f, "n": 8, "host": 6, "queries": 12, "emit-every": 2 * f}, 1, c.seed)
    jobs += spread({"graphs": 10 * f, "n": 6, "queries": 70000, "emit-every": 2 * f}, 1, c.seed)
    jobs += guarded(c, jobs[3])
    c.validate("ShortestPathTrace", c.record("search", jobs))


# ------------------------------------------------------------------------------------ alternating trees

@prop("C13")
def c13(c):
    c.model("AltTreeMC", {"Nodes": 3, "Roots": 2})
    if not c.quick:
        c.model("AltTreeMC", {"Nodes": 4, "Roots": 2})
    f = 1 if c.quick else 8
    jobs = spread({"histories": 1200 * f, "n": 10, "len": 8}, 4, c.seed)
    jobs += spread({"histories": 600 * f, "n": 16, "len": 20}, 2, c.seed)
    jobs += spread({"histories": 60 * f, "n": 45, "len": 25}, 2, c.seed)
    jobs += spread({"histories": 5 * f, "n": 320, "min-n": 260, "len": 3}, 2, c.seed)
    jobs += guarded(c, jobs[0]) + guarded(c, jobs[6])
    c.validate("AltTreeTrace", c.record("alttree", jobs))


# ------------------------------------------------------------------------------------ the algorithm, event by event

def blossom_model(c):
    """The algorithm of the specification itself: on every small metric and for every order of simultaneous events
    it keeps its invariants, ends, and ends with a pairing of minimum weight."""
    c.model("SparseBlossomMC", {"N": 4, "Dist": "{2, 4}"})
    c.model("SparseBlossomMC", {"N": 4, "Dist": "{2, 4, 1000000000}", "BDist": "{2, 1000000000}"})
    if not c.quick:
        c.model("SparseBlossomMC", {"N": 4, "Dist": "{2, 4, 6}", "BDist": "{2, 4}"}, workers=8)
        c.model("SparseBlossomMC", {"N": 5, "Dist": "{2, 4}"}, workers=8)


def event_jobs(c):
    f = 1 if c.quick else 8
    jobs = spread({"runs": 20000 * f, "n": 8, "emit-every": 200 * f, "interesting": 100 * f}, 2, c.seed)
    jobs += spread({"runs": 10000 * f, "n": 14, "min-n": 7, "emit-every": 200 * f, "interesting": 60 * f}, 2, c.seed)
    jobs += spread({"runs": 6000 * f, "n": 12, "min-n": 6, "zero": 100, "maxw": 3, "emit-every": 150 * f, "interesting": 60 * f}, 1, c.seed)
    jobs += spread({"runs": 1500 * f, "n": 26, "min-n": 14, "emit-every": 100 * f, "interesting": 12 * f}, 1, c.seed)
    jobs += spread({"runs": 200 * f, "n": 60, "min-n": 30, "maxw": 1000, "emit-every": 50 * f, "interesting": 3 * f}, 1, c.seed)
    jobs += spread({"runs": 30 * f, "long": 190, "density": 2, "emit-every": 3 * f}, 1, c.seed)
    jobs += spread({"runs": 30 * f, "long": 190, "density": 10, "emit-every": 10 * f}, 1, c.seed)
    jobs += spread({"runs": 1500 * f, "n": 12, "host": 1, "emit-every": 100 * f, "interesting": 20 * f}, 1, c.seed)
    jobs += spread({"runs": 20 * f, "n": 12, "host": 2, "emit-every": 5 * f}, 1, c.seed)
    return jobs


@prop("C11")
def c11(c):
    blossom_model(c)
    c.validate("SparseBlossomTrace", c.record("events", event_jobs(c) + guarded(c, {"runs": 12000, "n": 10, "emit-every": 60, "interesting": 60})), {"Prop": '"C11"'})


@prop("C12")
def c12(c):
    blossom_model(c)
    c.validate("SparseBlossomTrace", c.record("events", event_jobs(c) + guarded(c, {"runs": 12000, "n": 10, "emit-every": 60, "interesting": 60})), {"Prop": '"C12"'})


# ------------------------------------------------------------------------------------ decoder histories

@prop("C06")
def c06(c):
    f = 1 if c.quick else 8
    c.model("CorrelatedMC", {"W": "{0, 2}", "Calls": 3})
    b = {"histories": 6000 * f, "len": 14, "emit-every": 60 * f}
    jobs = spread(b, 2, c.seed) + spread(dict(b, neg=70), 2, c.seed)
    jobs += spread(dict(b, bigk=2, histories=3000 * f), 1, c.seed) + spread(dict(b, bigk=2, neg=70, histories=3000 * f), 1, c.seed)
    jobs += spread(dict(b, n=22, **{"min-n": 9, "histories": 2000 * f, "len": 30, "emit-every": 40 * f}), 2, c.seed)
    jobs += spread(dict(b, n=8, host=1, **{"histories": 120 * f, "emit-every": 8 * f}), 1, c.seed)
    jobs += spread(dict(b, n=8, host=2, **{"histories": 3 * f, "emit-every": f}), 1, c.seed)
    jobs += spread(dict(b, n=6, host=3, **{"histories": 100 * f, "emit-every": 5 * f}), 1, c.seed) + spread(dict(b, n=6, neg=100, host=3, **{"histories": 100 * f, "emit-every": 5 * f}), 1, c.seed)
    jobs += spread(dict(b, n=6, host=4, **{"histories": f, "len": 6, "emit-every": f}), 1, c.seed)
    jobs += spread(dict(b, n=7, host=5, neg=50, **{"histories": 150 * f, "emit-every": 10 * f}), 1, c.seed)
    # decoders that have answered hundreds of times, or more than 65536 times
    for nn in (0, 100):
        jobs += spread(dict(b, many=70000, n=6, neg=nn, **{"histories": 12 * f, "emit-every": 2 * f}), 1, c.seed)
    jobs += spread(dict(b, many=600, n=8, neg=40, **{"histories": 800 * f, "emit-every": 40 * f}), 1, c.seed)
    jobs += guarded(c, jobs[0]) + guarded(c, jobs[4])
    c.validate("DecoderHistory", c.record("history", jobs))


@prop("C15")
def c15(c):
    f = 1 if c.quick else 8
    c.model("CorrelatedMC")
    if not c.quick:
        c.model("CorrelatedMC", {"W": "{0, 1}", "MaxRules": 3, "Calls": 2}, workers=8)
        c.model("CorrelatedMC", {"W": "{0, 1, 2}", "MaxRules": 3, "Calls": 1}, workers=8)
    b = {"mode": "corr", "histories": 6000 * f, "len": 10, "emit-every": 60 * f, "n": 5, "maxedges": 8}
    jobs = spread(b, 3, c.seed) + spread(dict(b, maxw=4), 2, c.seed) + spread(dict(b, bigk=2), 2, c.seed)
    jobs += spread(dict(b, n=7, k=1, maxedges=10, **{"min-n": 5}), 1, c.seed)
    jobs += spread(dict(b, host=1, **{"histories": 120 * f, "emit-every": 8 * f}), 1, c.seed)
    jobs += spread(dict(b, host=2, **{"histories": 3 * f, "emit-every": f}), 1, c.seed)
    jobs += spread(dict(b, host=3, **{"histories": 150 * f, "emit-every": 5 * f}), 2, c.seed)
    jobs += spread(dict(b, host=4, **{"histories": f, "len": 6, "emit-every": f}), 1, c.seed)
    jobs += spread(dict(b, many=70000, **{"histories": 12 * f, "emit-every": 2 * f}), 1, c.seed)
    jobs += spread(dict(b, many=600, **{"histories": 600 * f, "emit-every": 40 * f}), 1, c.seed)
    # edges of negative weight that are rules' causes, or just there; boundary nodes more often
    jobs += spread(dict(b, neg=60, bnode=40), 1, c.seed) + spread(dict(b, neg=60, bnode=40, maxw=4, bigk=1), 1, c.seed)
    jobs += spread(dict(b, neg=100, host=3, **{"histories": 100 * f, "emit-every": 5 * f}), 1, c.seed)
    jobs += guarded(c, jobs[0]) + guarded(c, jobs[5])
    c.validate("CorrelatedTrace", c.record("history", jobs))


# ------------------------------------------------------------------------------------ the user's graph

@prop("C16")
def c16(c):
    c.model("UserGraphMC", {"ProbFam": "TRUE"})
    c.model("UserGraphMC", {"ProbFam": "FALSE"})
    if not c.quick:
        c.model("UserGraphMC", {"A16": "{2}", "Depth": 3}, workers=8)
        c.model("UserGraphMC", {"N": 3, "Strats": "{1, 4}"}, workers=8)
    f = 1 if c.quick else 10
    jobs = spread({"family": "int", "histories": 8000 * f, "len": 20, "emit-every": 80 * f}, 3, c.seed)
    jobs += spread({"family": "prob", "histories": 8000 * f, "len": 20, "emit-every": 80 * f}, 3, c.seed)
    jobs += spread({"family": "int", "histories": 1500 * f, "n": 8, "len": 60, "emit-every": 60 * f}, 1, c.seed)
    jobs += spread({"family": "prob", "histories": 3000 * f, "n": 3, "len": 12, "emit-every": 60 * f}, 1, c.seed)
    for fam in ("int", "prob"):
        jobs += spread({"family": fam, "histories": 800 * f, "len": 25, "host": 1, "emit-every": 20 * f}, 1, c.seed)
        jobs += spread({"family": fam, "histories": 60 * f, "len": 20, "host": 2, "emit-every": 5 * f}, 1, c.seed)
        jobs += spread({"family": fam, "histories": 300 * f, "len": 25, "bursts": 1, "emit-every": 20 * f}, 1, c.seed)
    jobs += guarded(c, jobs[0]) + guarded(c, jobs[3])
    c.validate("UserGraphTrace", c.record("ugraph", jobs))


@prop("C17")
def c17(c):
    c.model("UserGraphMC", {"ProbFam": "FALSE", "A16": "{2}"})
    f = 1 if c.quick else 10
    jobs = spread({"family": "decode", "histories": 8000 * f, "len": 20, "emit-every": 100 * f}, 6, c.seed)
    jobs += spread({"family": "decode", "histories": 1500 * f, "n": 7, "len": 60, "emit-every": 60 * f}, 2, c.seed)
    jobs += spread({"family": "decode", "histories": 400 * f, "len": 25, "host": 1, "emit-every": 20 * f}, 2, c.seed)
    jobs += spread({"family": "decode", "histories": 16 * f, "len": 20, "host": 2, "emit-every": 4 * f}, 1, c.seed)
    jobs += spread({"family": "decode", "histories": 600 * f, "len": 25, "bursts": 1, "emit-every": 25 * f}, 2, c.seed)
    jobs += guarded(c, jobs[0]) + guarded(c, jobs[6])
    c.validate("UserGraphTrace", c.record("ugraph", jobs))


# ------------------------------------------------------------------------------------ error models, weights, noise

@prop("C18")
def c18(c):
    c.model("ErrorModelMC")
    if not c.quick:
        c.model("ErrorModelMC", {"Len_": 3, "A": "{3, 16}"}, workers=8)
    f = 1 if c.quick else 10
    jobs = spread({"models": 40000 * f, "n": 5, "ins": 10, "emit-every": 80 * f}, 5, c.seed)
    jobs += spread({"models": 20000 * f, "n": 3, "ins": 14, "emit-every": 60 * f}, 2, c.seed)
    jobs += spread({"models": 3000 * f, "n": 12, "ins": 60, "emit-every": 60 * f}, 1, c.seed)
    jobs += spread({"models": 100 * f, "pads": 1, "emit-every": 5 * f}, 2, c.seed)
    jobs += spread({"models": 500 * f, "n": 2, "ins": 400, "emit-every": 50 * f}, 1, c.seed)
    jobs += guarded(c, jobs[0])
    c.validate("DemTrace", c.record("dem", jobs))
    c.validate("DemTrace", c.record("front", spread({"mode": "dem", "histories": 3000 * f, "emit-every": 2}, 3, c.seed)))


@prop("C19")
def c19(c):
    c.model("DiscretiseMC")
    if not c.quick:
        c.model("DiscretiseMC", {"Ms": "{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31}", "Nds": "{2, 3, 4, 8, 16, 33, 64}"}, workers=8)
    f = 1 if c.quick else 10
    jobs = spread({"graphs": 30000 * f, "emit-every": 100 * f}, 6, c.seed)
    jobs += spread({"graphs": 40 * f, "long": 160, "emit-every": 4}, 2, c.seed)
    jobs += guarded(c, jobs[0])
    c.validate("DiscretiseTrace", c.record("disc", jobs))


@prop("C20")
def c20(c):
    f = 1 if c.quick else 10
    c.model("NoiseMC")
    if not c.quick:
        c.model("NoiseMC", {"N": 3, "MaxE": 2, "Ks": 2}, workers=8)
    jobs = spread({"histories": 5000 * f, "len": 12, "n": 6}, 5, c.seed)
    jobs += spread({"histories": 1000 * f, "len": 40, "n": 9}, 1, c.seed)
    jobs += spread({"histories": 400 * f, "freq": 1}, 2, c.seed)
    jobs += spread({"histories": 700 * f, "len": 12, "n": 6, "host": 1}, 1, c.seed)
    jobs += spread({"histories": 100 * f, "len": 12, "n": 6, "host": 2}, 1, c.seed)
    jobs += spread({"histories": 100 * f, "freq": 1, "host": 1}, 1, c.seed)
    jobs += guarded(c, jobs[0])
    c.validate("NoiseTrace", c.record("noise", jobs))
    c.validate("NoiseTrace", c.record("front", spread({"mode": "noise", "histories": 1500 * f}, 2, c.seed)))


# ------------------------------------------------------------------------------------ the Python interface

@prop("C22")
def c22(c):
    c.model("CheckMatrixMC", {"R": 2, "C": 3, "W": "{1, 3}"})
    c.model("CheckMatrixMC", {"R": 2, "C": 2, "W": "{1, 3}", "Reps": 2})
    if not c.quick:
        c.model("CheckMatrixMC", {"R": 3, "C": 3, "W": "{1, 2}"}, workers=8)
    f = 1 if c.quick else 10
    jobs = spread({"mode": "load", "histories": 1500 * f, "len": 4}, 6, c.seed)
    jobs += spread({"mode": "load", "histories": 400 * f, "len": 25}, 2, c.seed)
    jobs += spread({"mode": "load", "histories": 700 * f, "len": 6, "wide": 1}, 2, c.seed)
    c.validate("FrontTrace", c.record("front", jobs))


@prop("C23")
def c23(c):
    c.model("FormsMC")
    f = 1 if c.quick else 10
    jobs = spread({"mode": "decode", "histories": 1200 * f, "len": 8, "n": 6}, 3, c.seed)
    jobs += spread({"mode": "decode", "histories": 500 * f, "len": 12, "n": 9, "k": 1}, 4, c.seed)
    jobs += spread({"mode": "corr", "histories": 800 * f, "len": 8}, 2, c.seed)
    jobs += spread({"mode": "decode", "histories": 900 * f, "len": 8, "n": 6, "wide": 1}, 1, c.seed)
    jobs += spread({"mode": "corr", "histories": 500 * f, "len": 8, "wide": 1}, 1, c.seed)
    jobs += spread({"mode": "decode", "histories": 20 * f, "len": 5, "n": 6, "lots": 1}, 2, c.seed)
    c.validate("FormsTrace", c.record("front", jobs))


@prop("C24")
def c24(c):
    c.model("FormsMC", {"Len_": 8 if c.quick else 16, "Rows": "{1, 2, 4, 8}"})
    f = 1 if c.quick else 10
    jobs = spread({"mode": "cli", "histories": 1200 * f, "n": 5}, 4, c.seed)
    jobs += spread({"mode": "cli", "histories": 500 * f, "n": 9, "k": 1}, 4, c.seed)
    jobs += spread({"mode": "cli", "histories": 1000 * f, "n": 6, "wide": 1}, 2, c.seed)
    jobs += spread({"mode": "cli", "histories": 30 * f, "n": 5, "lots": 1}, 2, c.seed)
    c.validate("CliTrace", c.record("front", jobs))
