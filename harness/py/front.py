"""Records what PyMatching's Python interface does: loading graphs from matrices and graph objects and editing
them (mode load), the forms of decoding (mode decode), the command line (mode cli).
Judged by FrontTrace.tla, FormsTrace.tla and CliTrace.tla."""
import json
import math
import os
import random
import shutil
import sys
import tempfile
import warnings

import networkx as nx
import numpy as np
import rustworkx as rx
import scipy.sparse as sp

import pymatching
from pymatching import Matching
from vp import Args, BIG, Stat, clip, run, wide

STRATS = ["disallow", "independent", "smallest-weight", "keep-original", "replace"]
warnings.simplefilter("ignore")


def wj(w):
    return wide(int(round(w * 65536)))


def qof(w, s=0):
    if abs(w) >= 700:
        return 0 if w > 0 else 1048576
    return int(round(min(1e9, math.ldexp(1 / (1 + math.exp(w)), 20 + s))))


def pof(p, s=0):
    return int(round(min(1e9, math.ldexp(p, 20 + s)))) if 0 <= p <= 1 else -1


def listed(p):
    """Of a list of edges: there an edge without a probability shows -1."""
    return pof(p) if p == -1 or 0 <= p <= 1 else -2


def attempt(f):
    """(status, value, warned): 0 answered, 1 refused as documented (ValueError, TypeError), 2 anything else."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            v, st = f(), 0
        except (ValueError, TypeError):
            v, st = None, 1
        except Exception:
            v, st = None, 2
    return st, v, int(any("exceeds maximum edge weight" in str(w.message) for w in ws))


# ------------------------------------------------------------------------------------------- load

def dump(m):
    """What the graph says about itself."""
    es = []
    for u, v, d in m.edges():
        es.append([int(u), -1 if v is None else int(v), wj(d["weight"]), qof(d["weight"]), listed(d["error_probability"]), sorted(int(x) for x in d["fault_ids"])])
    n = m.num_nodes
    has = []
    names = sorted(set(range(min(n, 12))) | {x for e in es for x in e[:2] if x >= 0} | {n})
    pairs = [(u, v) for u in names for v in names + [-1]]
    if len(names) > 25:  # large graphs: the edges there are, and some that may not be
        rr = random.Random(n)
        pairs = sorted({(a, b) for u, v, *_ in es for a, b in ((u, v), (v, u)) if a >= 0} | set(rr.sample(pairs, 60)))
    if True:
        for u, v in pairs:
            h = m.has_boundary_edge(u) if v == -1 else m.has_edge(u, v)
            st, d, _ = attempt(lambda: m.get_boundary_edge_data(u) if v == -1 else m.get_edge_data(u, v))
            if h or st != 1:
                has.append([u, v, int(h), st] + ([wj(d["weight"]), pof(d["error_probability"]), sorted(int(x) for x in d["fault_ids"])] if st == 0 else [[0, 0], -1, []]))
    g = m.to_networkx()
    nxe = [[min(u, v), max(u, v), wj(d["weight"]), listed(d["error_probability"]), sorted(int(x) for x in d["fault_ids"])] for u, v, d in g.edges(data=True)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = m.to_retworkx() if n % 2 else m.to_rustworkx()
    rxe = [[min(u, v), max(u, v), wj(d["weight"]), listed(d["error_probability"]), sorted(int(x) for x in d["fault_ids"])] for u, v, d in r.weighted_edge_list()]
    words = repr(m).split()
    return {"n": n, "K": m.num_fault_ids, "ne": m.num_edges, "nd": m.num_detectors, "b": sorted(int(x) for x in m.boundary),
            "rep": [int(w) for w in words if w.isdigit()], "e": es, "has": has,
            "nxe": nxe, "nxn": sorted(int(x) for x in g.nodes), "nxb": sorted(int(x) for x, a in g.nodes(data=True) if a["is_boundary"]),
            "rxe": rxe, "rxn": len(r), "rxb": [i for i in r.node_indices() if r[i]["is_boundary"]]}


def as_matrix(R, r, rows, cols, odd=None):
    """A check matrix given by the ones of its columns, in one of the forms a user may have it in."""
    a = np.zeros((rows, len(cols)), dtype=np.int64)
    for j, c in enumerate(cols):
        for i in c:
            a[i, j] = 1
    if odd:
        a[odd[0], odd[1]] = odd[2]
    k = r.randrange(9)
    if k == 0 and rows and cols:
        return a.tolist()
    if k == 1:
        return a.astype(r.choice([np.uint8, np.int8, np.int32, np.float64, np.uint64]))
    if k == 2 and not odd:
        return a.astype(bool)
    if k == 3:
        return sp.csr_matrix(a)
    if k == 4:
        return sp.coo_matrix(a)
    if k == 5 and rows and cols:  # explicitly stored zeros, unsorted row indices
        data, idx, ptr = [], [], [0]
        for j in range(len(cols)):
            es = [(i, int(a[i, j])) for i in range(rows) if a[i, j] or r.random() < 0.3]
            r.shuffle(es)
            data += [v for _, v in es]
            idx += [i for i, _ in es]
            ptr.append(len(idx))
        return sp.csc_matrix((np.array(data, dtype=np.uint8), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=(rows, len(cols)))
    if k == 6:
        return sp.lil_matrix(a)
    if k == 7:
        return np.asfortranarray(a.astype(np.uint8))
    return sp.csc_matrix(a.astype(r.choice([np.uint8, np.int64])))


def weight(r, prob, wmax, neg):
    a16 = r.randint(1, 15)
    if prob:
        return math.log((16.0 - a16) / a16), 0, a16
    w = 0 if r.random() < 0.15 else r.randint(1, wmax)
    if r.random() < neg:
        w = -w
    return float(w), w, a16


def probability(r):
    return -1 if r.random() < 0.15 else r.randint(0, 16)


def unp(p16):
    return -1 if p16 < 0 else p16 / 16.0


WIDE = [0, 1, 2, 63, 64, 65, 127, 128, 254, 255, 256, 257, 290, 511, 512, 590, 32767, 32768, 65534, 65535, 65536, 69999]


class LoadGen:
    """Builds an input and the call that loads it; `rec` describes the input to the specification."""
    def __init__(self, r, prob, wide=False):
        self.r, self.prob, self.wide = r, prob, wide

    def matrix(self):
        r, prob = self.r, self.prob
        R = r.randint(1, 4)
        C = r.randint(0, 6)
        strat = r.choice([2, 2, 0, 1, 3, 4])
        neg = r.choice([0, 0, 0.4])
        wide = r.choice(["rows", "rows", "reps"]) if self.wide and r.random() < 0.1 else ""
        rows = list(range(R))
        if wide == "rows":
            R = r.choice([300, 600, 70000])
            rows = sorted(r.sample([x for x in WIDE if x < R], 4))
        elif wide:
            R, C = r.randint(86, 110), r.randint(0, 12)
            rows = r.sample(range(R), 5)
        cols, count = [], {}
        for _ in range(C):
            k = r.choice([1, 2, 2, 2, 0]) if R > 1 else r.choice([1, 1, 0])
            c = sorted(r.sample(rows, k))
            if strat == 1 and not prob and count.get(tuple(c), 0) >= 2:
                c = []
            count[tuple(c)] = count.get(tuple(c), 0) + 1
            cols.append(c)
        bad = r.random() < 0.2
        kind = r.choice(["three", "odd", "nw", "np", "nf", "strat", "ntw", "ntp"]) if bad else ""
        if kind == "three" and R >= 3 and C:
            cols[r.randrange(C)] = sorted(r.sample(range(R), r.randint(3, min(R, 7))))
        odd = None
        ones = [(i, j) for j in range(C) for i in cols[j]]
        if kind == "odd" and ones:
            i, j = r.choice(ones)
            odd = (i, j, r.choice([2, 3, 7]))
        nodes = r.random() < 0.5
        ws = [weight(r, prob, r.choice([4, 40]), neg) for _ in range(C)]
        if r.random() < 0.2 and not prob:
            ws = [(1.0, 1, 1)] * C
        elif r.random() < 0.2 and C:
            ws = [ws[0]] * C
        ps = [probability(r) for _ in range(C)]
        if r.random() < 0.3 and C:
            ps = [ps[0]] * C
        reps = r.choice([1, 1, 1, 2, 3]) if not wide else 1 if wide == "rows" else 3
        tws = [weight(r, prob, 9, neg) for _ in range(R)]
        if r.random() < 0.3:
            tws = [tws[0]] * R
        tps = [probability(r) for _ in range(R)]
        if r.random() < 0.3:
            tps = [tps[0]] * R
        kw = {}
        # weights
        wv = [w[0] for w in ws]
        same_w = len(set(wv)) <= 1
        nw = C
        if kind == "nw":
            nw = max(0, C + r.choice([-1, 1, 2]))
            wv = (wv + [1.0, 1.0, 2.0])[:nw]
            kw["weights"] = r.choice([np.array(wv), wv])
        elif not (C and same_w and wv[0] == 1.0 and r.random() < 0.6):
            how = r.randrange(4)
            if same_w and C and how == 0:
                kw["weights"] = r.choice([wv[0], np.float64(wv[0])] + ([int(wv[0])] if not prob else []))
            elif how == 1:
                kw["spacelike_weights"] = wv
            else:
                kw["weights"] = r.choice([wv, np.array(wv, dtype=float)])
                if not prob and r.random() < 0.3:
                    kw["weights"] = np.array([int(w) for w in wv], dtype=np.int64)
        # probabilities
        np_ = C
        if kind == "np":
            np_ = max(0, C + r.choice([-1, 1]))
            kw["error_probabilities"] = np.array(([unp(p) for p in ps] + [0.5])[:np_])
        elif all(p == -1 for p in ps):
            pass
        elif len(set(ps)) == 1 and r.random() < 0.7:
            kw["error_probabilities"] = float(unp(ps[0]))
        else:
            kw["error_probabilities"] = r.choice([[unp(p) for p in ps], np.array([unp(p) for p in ps])])
        # repetitions
        ntw = ntp = R
        if reps > 1:
            kw["repetitions"] = reps
            tv = [w[0] for w in tws]
            if kind == "ntw":
                ntw = R + 1
                kw["timelike_weights"] = tv + [1.0]
            elif len(set(tv)) == 1 and r.random() < 0.6:
                if tv[0] != 1.0 or r.random() < 0.5:
                    kw["timelike_weights"] = tv[0]
            else:
                kw["timelike_weights"] = r.choice([tv, np.array(tv)])
            tp = [unp(p) for p in tps]
            name = r.choice(["measurement_error_probabilities", "measurement_error_probabilities", "measurement_error_probability"])
            if kind == "ntp":
                ntp = R + 1
                kw[name] = tp + [0.5]
            elif all(p == -1 for p in tps) and r.random() < 0.7:
                pass
            elif len(set(tps)) == 1:
                kw[name] = float(tp[0])
            else:
                kw[name] = r.choice([tp, np.array(tp)])
        elif r.random() < 0.3:
            kw["repetitions"] = 1
        # faults
        if r.random() < 0.5:
            nf, F = C, [[j] for j in range(C)]
            nfc = C
        else:
            nf = r.choice([1, 2, 3, 9, 70, 70, 300])
            F = [sorted(r.sample(range(nf), min(nf, r.choice([0, 1, 1, 2])))) for _ in range(C)]
            nfc = C
            if kind == "nf":
                nfc = C + 1
                kw["faults_matrix"] = as_matrix(self, r, nf, F + [[]])
            else:
                kw["faults_matrix"] = as_matrix(self, r, nf, F)
            while isinstance(kw["faults_matrix"], sp.csc_matrix) and (kw["faults_matrix"].data == 0).any():
                kw["faults_matrix"].eliminate_zeros()
        s = STRATS[strat]
        if kind == "strat":
            s, strat = r.choice(["", "smallest", "Replace", "independen"]), -1
        if s != "smallest-weight" or r.random() < 0.5:
            kw["merge_strategy"] = s
        virt = r.random() < 0.4
        if virt or r.random() < 0.3:
            kw["use_virtual_boundary_node"] = virt
        H = as_matrix(self, r, R, cols, odd)
        if R > 1000 and isinstance(H, list):
            H = sp.csc_matrix(np.array(H))
        rec = {"via": "matrix", "R": R, "H": cols, "odd": int(odd is not None),
               "a": [{"w": wj(ws[j][0]), "wi": ws[j][1], "a16": ws[j][2], "p16": ps[j], "obs": F[j]} for j in range(C)],
               "nw": nw, "np": np_, "nfc": nfc, "nf": nf, "reps": reps, "strat": strat, "virt": int(virt),
               "ta": [{"w": wj(tws[j][0]), "wi": tws[j][1], "a16": tws[j][2], "p16": tps[j], "obs": []} for j in range(R)] if reps > 1 else [],
               "ntw": ntw, "ntp": ntp}
        if "timelike_weights" not in kw and reps > 1:
            one = {"w": wj(1.0), "wi": 1, "a16": 1}
            for t in rec["ta"]:
                t.update(one)
            if prob:  # 1.0 is not one of the family's weights
                kw["timelike_weights"] = tws[0][0]
                for t in rec["ta"]:
                    t.update({"w": wj(tws[0][0]), "wi": tws[0][1], "a16": tws[0][2]})
        if prob and "weights" not in kw and "spacelike_weights" not in kw and C:
            kw["weights"] = wv
        # the same twice, by its old and its new name
        if r.random() < 0.03 and C and ("weights" in kw) != ("spacelike_weights" in kw):
            kw["weights"] = kw["spacelike_weights"] = kw.get("weights", kw.get("spacelike_weights"))
            rec["nw"] = -1
        elif r.random() < 0.03 and reps > 1 and not bad:
            kw["measurement_error_probabilities"] = kw["measurement_error_probability"] = r.choice([0.25, [0.25] * R])
            rec["ntp"] = -1
        how = r.randrange(4)
        named = r.random() < 0.3
        if how == 0:
            return rec, lambda m: Matching(H, **kw)
        if how == 1 and named:
            return rec, lambda m: Matching.from_check_matrix(check_matrix=H, **kw)
        if how == 1:
            return rec, lambda m: Matching.from_check_matrix(H, **kw)
        if how == 2 and isinstance(H, (np.ndarray, sp.spmatrix)):
            return rec, lambda m: Matching(H=H, **kw)

        def load(m):
            m = m if m is not None else Matching()
            if named:
                m.load_from_check_matrix(H=H, **kw)
            else:
                m.load_from_check_matrix(H, **kw)
            return m
        return rec, load

    def graph(self):
        r, prob = self.r, self.prob
        n = r.randint(1, 6)
        order = list(range(n))
        r.shuffle(order)
        rust = r.random() < 0.35
        name = order[:]
        name.sort()
        if not rust and self.wide and r.random() < 0.1:
            name = r.sample(WIDE, n)
        b = [i for i in range(n) if r.random() < 0.2]
        kind = r.choice(["both", "type"]) if r.random() < 0.1 else ""
        pairs = [(i, j) for i in range(n) for j in range(i, n) if i < j or r.random() < 0.05]
        r.shuffle(pairs)
        pairs = pairs[: r.randint(0, 9)]
        neg = r.choice([0, 0, 0.4])
        edges, attrs = [], []
        bad = False
        for (i, j) in pairs:
            w, wi, a16 = weight(r, prob, r.choice([4, 40]), neg)
            p16 = probability(r)
            at, obs, big = {}, [], 0
            f = r.randrange(6)
            if f == 0:
                if r.random() < 0.5:
                    at["fault_ids"] = -1
            elif f == 1:
                obs = [r.randint(0, 9)]
                at[r.choice(["fault_ids", "qubit_id"])] = r.choice([int, np.int64])(obs[0])
            else:
                obs = sorted(r.sample(range(r.choice([4, 4, 80, 300])), r.randint(0, 2)))
                at[r.choice(["fault_ids", "fault_ids", "qubit_id"])] = r.choice([set, list, tuple, frozenset])(obs)
            if kind == "both" and not bad:
                at["fault_ids"], at["qubit_id"] = {0}, 1
                bad = True
            if kind == "type" and not bad:
                at.pop("qubit_id", None)
                at["fault_ids"] = r.choice([{0.5}, "a", {None}, 1.5])
                bad = True
            if not prob and wi == 1 and r.random() < 0.6:
                pass
            elif not prob and r.random() < 0.05:
                big = 1
                at["weight"] = r.choice([16777216, -16777216.0, 1e12])
            else:
                at["weight"] = w if prob or r.random() < 0.5 else r.choice([int, np.int64, np.float64])(w)
            if p16 != -1:
                at["error_probability"] = unp(p16)
            u, v = (name[i], name[j]) if r.random() < 0.5 else (name[j], name[i])
            edges.append({"u": u, "v": v, "w": wj(w), "wi": wi, "a16": a16, "p16": p16, "obs": obs, "big": big})
            attrs.append((u, v, at))
        kmin = r.choice([0, 0, 3, 12])
        rec = {"via": "graph", "n": n, "b": [name[i] for i in b], "ed": edges, "kmin": kmin, "bad": int(bad)}
        if rust:
            g = rx.PyGraph(multigraph=False)
            for i in range(n):
                g.add_node({"is_boundary": True} if i in b else r.choice([{}, {"is_boundary": False}]))
        else:
            g = nx.Graph()
            for i in order:
                if i in b:
                    g.add_node(name[i], is_boundary=True)
                elif r.random() < 0.3:
                    g.add_node(name[i], is_boundary=False)
                else:
                    g.add_node(name[i])
        for u, v, at in attrs:
            if rust:
                g.add_edge(u, v, at)
            else:
                g.add_edge(u, v, **at)
        kw = {} if kmin == 0 and r.random() < 0.5 else {"min_num_fault_ids": kmin}
        if not kw and r.random() < 0.5:
            return rec, lambda m: Matching(g)
        if not rust and r.random() < 0.5:
            return rec, lambda m: Matching.from_networkx(g, **kw)

        def load(m):
            m = m if m is not None else Matching()
            (m.load_from_networkx if not rust else r.choice([m.load_from_rustworkx, m.load_from_retworkx]))(g, **kw)
            return m
        return rec, load


def mode_load(A):
    seed, every, length = A.i("seed", 1), A.i("emit-every", 1), A.i("len", 6)
    stat = Stat("histories", "loads", "edits", "refused", "emitted")

    def unit(k):
        r = random.Random(seed * 1000003 + k)
        prob = r.random() < 0.4
        gen = LoadGen(r, prob, A.i("wide", 0))
        recs = [{"kind": "begin", "id": k, "family": "prob" if prob else "int"}]
        m = None
        merged = {}

        def load():
            nonlocal m
            rec, call = gen.matrix() if r.random() < 0.6 else gen.graph()
            st, v, warned = attempt(lambda: call(m))
            stat.add("loads")
            stat.add("refused", int(st != 0))
            if st == 0:
                m = v
                merged.clear()
                if rec["via"] == "matrix" and rec["strat"] == 1:
                    for u, v_, _ in m.edges():
                        merged[frozenset((u, v_))] = True
            elif m is None:
                m = Matching()
            recs.append({"kind": "step", "op": "load", "in": rec, "st": st, "warned": warned, "d": dump(m)})
        if r.random() < 0.9:
            load()
        else:
            m = Matching()
        for _ in range(r.randint(0, length)):
            what = r.random()
            if what < 0.1:
                load()
                continue
            stat.add("edits")
            rec = {"kind": "step"}
            if what < 0.8:
                nn = max(2, m.num_nodes)
                u, v = r.randint(0, min(nn, 12)), r.randint(0, min(nn, 12))
                if A.i("wide", 0) and r.random() < 0.2:
                    u = r.choice(WIDE)
                if u == v and r.random() < 0.8:
                    v = (u + 1) % (min(nn, 12) + 1)
                es = [(a, b) for a, b, _ in m.edges() if A.i("wide", 0) or (a <= 8 and (b is None or b <= 8))]
                if es and r.random() < 0.5:
                    u, v = r.choice(es)
                    if v is not None and r.random() < 0.5:
                        u, v = v, u
                elif r.random() < 0.25:
                    v = None
                w, wi, a16 = weight(r, prob, r.choice([4, 40]), 0.2)
                p16 = probability(r)
                strat = r.randrange(5)
                key = frozenset((u, v))
                exists = m.has_boundary_edge(u) if v is None else m.has_edge(u, v)
                if exists and merged.get(key) and strat in (1, 2):
                    strat = 4
                if exists and u == v and strat == 1:
                    strat = 4
                f = r.randrange(5)
                obs, kw = [], {}
                if f == 0:
                    if r.random() < 0.5:
                        kw["fault_ids"] = r.choice([-1, None, set()])
                elif f == 1:
                    obs = [r.randint(0, 9)]
                    kw["fault_ids"] = r.choice([int, np.int64])(obs[0])
                else:
                    obs = sorted(r.sample(range(r.choice([4, 80, 300])), r.randint(0, 2)))
                    kw["fault_ids"] = set(obs)
                if v is not None and "fault_ids" in kw and r.random() < 0.25:
                    kw["qubit_id"] = kw.pop("fault_ids")
                if prob or wi != 1 or r.random() < 0.5:
                    kw["weight"] = w if r.random() < 0.7 or prob else r.choice([int, np.float64])(w)
                if p16 != -1:
                    kw["error_probability"] = unp(p16)
                elif r.random() < 0.3:
                    kw["error_probability"] = None
                if strat != 0 or r.random() < 0.5:
                    kw["merge_strategy"] = STRATS[strat]
                big = bad = 0
                z = r.random()
                if z < 0.04:
                    kw["weight"] = r.choice([16777216.0, -1e9])
                    big = 1
                elif z < 0.08:
                    kw["merge_strategy"] = "unknown"
                    bad = 1
                elif z < 0.12:
                    u, bad = -1 - r.randint(0, 2), 1
                elif z < 0.16 and v is not None:
                    kw.pop("qubit_id", None)
                    kw.setdefault("fault_ids", {0})
                    kw["fault_ids"] = {0} if kw["fault_ids"] is None else kw["fault_ids"]
                    kw["qubit_id"], bad = r.choice([{0}, 1]), 1
                if v is None:
                    st, _, warned = attempt(lambda: m.add_boundary_edge(u, **kw))
                else:
                    st, _, warned = attempt(lambda: m.add_edge(u, v, **kw))
                if st == 0 and not big and exists and strat == 1:
                    merged[key] = True
                elif st == 0 and not big and exists and strat == 4:
                    merged.pop(key, None)
                rec.update({"op": "add", "u": u, "v": -1 if v is None else v, "w": wj(w), "wi": wi, "a16": a16, "p16": p16, "obs": obs,
                            "strat": strat, "big": big, "bad": bad, "st": st, "warned": warned})
            elif what < 0.92:
                b = sorted(r.sample(range(min(16, max(3, m.num_nodes + 1))), r.randint(0, 2)) + ([r.choice(WIDE[12:])] if A.i("wide", 0) and r.random() < 0.2 else []))
                st, _, warned = attempt(lambda: m.set_boundary_nodes(set(b)))
                rec.update({"op": "boundary", "b": b, "st": st, "warned": warned})
            else:
                v = r.choice([0, 2, 5, 12])
                st, _, warned = attempt(lambda: m.ensure_num_fault_ids(v))
                rec.update({"op": "minobs", "v": v, "st": st, "warned": warned})
            rec["d"] = dump(m)
            recs.append(rec)
        stat.add("histories")
        if k % every and A.i("only", -1) < 0:
            return None
        stat.add("emitted")
        return recs
    run(A, "histories", 100, unit, stat)


# ------------------------------------------------------------------------------------------- decode

def small_graph(r, maxn, ncol, neg, wide=False):
    """A graph in the terms of MatchingGraph: label columns stand for observables."""
    n = r.randint(2, maxn)
    nb = r.choice([0, 0, 1, 1, 2])
    b = sorted(r.sample(range(n), min(nb, n - 1))) if r.random() < 0.4 else list(range(n - min(nb, n - 1), n))
    k = r.randint(1, ncol)
    K = r.choice([k, k, 9, 17, 64, 65, 70, 200, 300]) if r.random() < 0.7 else k
    K = max(K, k)
    colobs = sorted(r.sample(range(K), k))
    edges, used = [], set()
    for _ in range(r.randint(n - 1, 2 * n)):
        u, v = r.randrange(n), r.randrange(n)
        if r.random() < 0.2 and u not in b:
            v = -1
        if u == v or (u in b and v in b) or frozenset((u, v)) in used:
            continue
        if (v == -1 or v in b or u in b):
            # one boundary edge per detector: with several of equal weight the labels are not specified
            d = v if u in b else u
            if ("B", d) in used:
                continue
            used.add(("B", d))
        used.add(frozenset((u, v)))
        w = r.randint(0, 9)
        if r.random() < neg:
            w = -w
        edges.append([u, v, w, sorted(r.sample(range(k), r.randint(0, min(2, k))))])
    g = {"n": n, "b": b, "k": k, "K": K, "edges": edges}
    if wide:  # its nodes are some of N, the others have no edges
        g["N"] = r.choice([40, 260, 260, 300, 600])
        g["at"] = sorted(r.sample([x for x in WIDE if x < g["N"]], min(n, len([x for x in WIDE if x < g["N"]]))))
        if len(g["at"]) < n:
            del g["N"], g["at"]
        elif r.random() < 0.5:
            r.shuffle(g["at"])
    return g, colobs


def real(g):
    """The graph with its real nodes."""
    if "at" not in g:
        return g
    at = g["at"] + [-1]
    return {**g, "n": g["N"], "b": [at[x] for x in g["b"]], "edges": [[at[u], at[v], w, c] for u, v, w, c in g["edges"]]}


def build(r, g, colobs):
    """The graph as a Matching object, by one of the ways there are."""
    n, b, K = g["n"], g["b"], g["K"]
    virt = any(e[1] == -1 for e in g["edges"])
    how = r.randrange(3)
    if how == 0 and not virt:
        G = nx.Graph()
        for i in range(n):
            G.add_node(i, is_boundary=i in b)
        for u, v, w, cs in g["edges"]:
            G.add_edge(u, v, weight=w, fault_ids={colobs[c] for c in cs})
        return Matching.from_networkx(G, min_num_fault_ids=K)
    if how == 1 and (not b or (b == [n - 1] and not virt)):
        # a check matrix, if the boundary is the last node (or virtual)
        rows = n - len(b)
        H = np.zeros((rows, len(g["edges"])), dtype=np.uint8)
        F = np.zeros((K, len(g["edges"])), dtype=np.uint8)
        for j, (u, v, w, cs) in enumerate(g["edges"]):
            for x in (u, v):
                if 0 <= x < rows:
                    H[x, j] = 1
            for c in cs:
                F[colobs[c], j] = 1
        if not b or H.sum(axis=0).min(initial=2) == 1:
            return Matching.from_check_matrix(sp.csc_matrix(H), weights=[float(e[2]) for e in g["edges"]], faults_matrix=sp.csc_matrix(F),
                                              use_virtual_boundary_node=not b)
    m = Matching()
    for u, v, w, cs in g["edges"]:
        obs = {colobs[c] for c in cs}
        if v == -1:
            m.add_boundary_edge(u, weight=w, fault_ids=obs)
        else:
            m.add_edge(u, v, weight=w, fault_ids=obs)
    if m.num_nodes < n:
        # a node without edges: it exists only if mentioned
        m.set_boundary_nodes(set(range(n)))
    m.set_boundary_nodes(set(b))
    m.ensure_num_fault_ids(K)
    return m


def wint(w):
    w = float(w)
    return int(w) if w == int(w) and abs(w) < 1e9 else BIG


def arr(r, a):
    """The same numbers in a form a user may hold them in."""
    a = np.asarray(a, dtype=np.uint8)
    k = r.randrange(7)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return a.astype(np.int64)
    if k == 2 and a.ndim == 2:
        big = np.full((a.shape[0] * 2, a.shape[1] * 2 + 1), 1, dtype=np.uint8)
        big[::2, 1::2] = a
        return big[::2, 1::2]
    if k == 3 and a.ndim == 1:
        big = np.full(len(a) * 3, 1, dtype=np.uint8)
        big[::3] = a
        return big[::3]
    if k == 4 and a.size and a.max() <= 1:
        return a.astype(bool)
    if k == 5:
        return a.astype(np.uint64)
    return a


MANY = [65535, 65536, 65537, 66000, 70000]  # shots in one go


def tally(answers, kinds):
    """The distinct answers for each kind of shot, and how often they were given."""
    c = [{} for _ in range(kinds)]
    for j, x in answers:
        t = json.dumps(x)
        c[j][t] = c[j].get(t, 0) + 1
    return [[[json.loads(t), q] for t, q in sorted(d.items())[:8]] for d in c]


def mode_decode(A):
    seed, every, length, lots = A.i("seed", 1), A.i("emit-every", 1), A.i("len", 8), A.i("lots", 0)
    maxn, ncol = A.i("n", 6), A.i("k", 2)
    stat = Stat("histories", "calls", "shots", "refused", "emitted")

    def unit(k):
        r = random.Random(seed * 1000003 + k)
        neg = r.choice([0, 0, 0.3])
        g, colobs = small_graph(r, maxn, ncol, neg, A.i("wide", 0))
        R = real(g)
        st, m, _ = attempt(lambda: build(r, R, colobs))
        if st:
            return [{"kind": "begin", "id": k, "g": g, "colobs": colobs, "nd": -1, "K": -1, "n": -1, "st": st}]
        n, nd = R["n"], R["n"] - len(R["b"])
        recs = [{"kind": "begin", "id": k, "g": g, "colobs": colobs, "nd": m.num_detectors, "K": m.num_fault_ids, "n": m.num_nodes, "st": 0}]

        def bits(size, only=None):
            p = r.choice([0.15, 0.4, 0.6])
            if R is not g:
                on = {x for x in g["at"] if r.random() < p} | ({r.randrange(size)} if r.random() < 0.01 and size else set())
                return [int(i in on) for i in range(size)]
            return [int(r.random() < p and (only is None or i < only)) for i in range(size)]
        many = r.random() < 0.02
        for _ in range(r.randint(1, length)):
            op = r.choice(["decode", "batch", "batch", "batch", "edges", "pairs", "dict"])
            if neg and op in ("pairs", "dict"):
                op = "decode"
            stat.add("calls")
            if op == "batch":
                ns = r.choice([0, 1, 2, 3, 6]) if not many else r.choice([40, 257, 300])
                idx = []
                ps, pp = r.random() < 0.5, r.random() < 0.5
                if ps:
                    lo, hi = (nd + 7) // 8, (n + 7) // 8
                    w = r.choice([lo, hi, hi]) if r.random() < 0.93 else r.choice([max(0, lo - 1), hi + 1])
                    shots = []
                    over = r.random() < 0.06
                    for _ in range(ns):
                        v = bits(8 * w, None if over else n)
                        shots.append([sum(v[8 * j + q] << q for q in range(8)) for j in range(w)])
                else:
                    w = r.choice([nd, n]) if r.random() < 0.93 else r.choice([max(0, nd - 1), n + 1])
                    shots = [bits(w) for _ in range(ns)]
                a = np.array(shots, dtype=np.uint8).reshape(ns, w)
                if lots and ns and r.random() < 0.4:  # very many, of few kinds
                    idx = [r.randrange(ns) for _ in range(r.choice(MANY))]
                    a = a[idx]
                a = arr(r, a)
                flat = r.random() < 0.02
                if flat:
                    a = a.reshape(-1)
                kw = {}
                if ps or r.random() < 0.5:
                    kw["bit_packed_shots"] = ps
                if pp or r.random() < 0.5:
                    kw["bit_packed_predictions"] = pp
                rw = r.random() < 0.7
                if rw:
                    kw["return_weights"] = True
                st, v, _ = attempt(lambda: m.decode_batch(a, **kw))
                stat.add("shots", len(a))
                pred, ws, shape = [], [], [0, 0]
                if st == 0:
                    pr = v[0] if rw else v
                    pred = [[int(x) for x in row] for row in pr]
                    shape = list(pr.shape)
                    ws = [wint(x) for x in v[1]] if rw else []
                mult, lot = [], []
                if idx:
                    mult = [idx.count(j) for j in range(ns)]
                    lot = tally(zip(idx, zip(pred, ws if rw else [0] * len(idx))), ns)
                    shape, pred, ws = (shape if len(pred) == len(idx) and (not rw or len(ws) == len(idx)) else [0, 0]), [], []
                rec = {"op": "batch", "shots": shots, "w": w, "ns": ns, "ps": int(ps), "pp": int(pp), "flat": int(flat), "st": st,
                       "pred": pred, "shape": shape, "ws": ws, "rw": int(rw), "mult": mult, "lot": lot}
            else:
                two = r.random() < 0.3
                if two:
                    rows = r.choice([x for x in range(1, nd + 1) if nd % x == 0] or [1])
                    if r.random() < 0.1:
                        rows += 1
                    cols = nd // rows
                    z = [bits(cols) for _ in range(rows)]
                    if R is not g:
                        v = bits(nd)
                        z = [[v[t * rows + c] if t * rows + c < nd else 0 for t in range(cols)] for c in range(rows)]
                    shape = [rows, cols]
                    za = np.array(z, dtype=np.uint8).reshape(rows, cols)
                else:
                    w = r.choice([nd, n]) if r.random() < 0.92 else r.choice([max(0, nd - 1), n + 1])
                    z = bits(w)
                    shape = [w]
                    za = np.array(z, dtype=np.uint8)
                za = za.tolist() if r.random() < 0.2 and za.size else arr(r, za)
                rec = {"op": op, "z": z, "shape": shape}
                if op == "decode":
                    rw = r.random() < 0.7
                    st, v, _ = attempt(lambda: m.decode(za, return_weight=True) if rw else m.decode(za))
                    pr = [] if st else [int(x) for x in (v[0] if rw else v)]
                    rec.update({"st": st, "pred": pr, "rw": int(rw), "wt": wint(v[1]) if st == 0 and rw else 0})
                elif op == "edges":
                    st, v, _ = attempt(lambda: m.decode_to_edges_array(za))
                    rec.update({"st": st, "l": [] if st else [[int(x) for x in e] for e in v], "ok": int(st != 0 or (v.ndim == 2 and v.shape[1] == 2))})
                elif op == "pairs":
                    st, v, _ = attempt(lambda: m.decode_to_matched_dets_array(za))
                    rec.update({"st": st, "l": [] if st else [[int(x) for x in e] for e in v], "ok": int(st != 0 or (v.ndim == 2 and v.shape[1] == 2))})
                else:
                    st, v, _ = attempt(lambda: m.decode_to_matched_dets_dict(za))
                    rec.update({"st": st, "l": [] if st else sorted([int(x), -1 if y is None else int(y)] for x, y in v.items()), "ok": 1})
            stat.add("refused", int(st != 0))
            recs.append({"kind": "step", **rec})
        stat.add("histories")
        if k % every and A.i("only", -1) < 0:
            return None
        stat.add("emitted")
        return recs
    run(A, "histories", 100, unit, stat)


# ------------------------------------------------------------------------------------------- cli

def encode(fmt, nd, no, shots):
    """Shot data in one of Stim's formats: detectors, then (no > 0) observables."""
    n, out = nd + no, bytearray()
    for ev, ob in shots:
        bits = [0] * n
        for e in ev:
            bits[e] ^= 1
        for o in (ob if no else []):
            bits[nd + o] ^= 1
        ones = [i for i in range(n) if bits[i]]
        if fmt == "01":
            out += "".join(map(str, bits)).encode() + b"\n"
        elif fmt == "b8":
            bits += [0] * (-n % 8)
            out += bytes(sum(bits[8 * j + q] << q for q in range(8)) for j in range(len(bits) // 8))
        elif fmt == "hits":
            out += ",".join(map(str, ones)).encode() + b"\n"
        elif fmt == "dets":
            out += ("shot" + "".join(" D%d" % i if i < nd else " L%d" % (i - nd) for i in ones)).encode() + b"\n"
        elif fmt == "r8":
            prev = 0
            for x in ones + [n]:
                gap = x - prev
                while gap >= 255:
                    out.append(255)
                    gap -= 255
                out.append(gap)
                prev = x + 1
    return bytes(out)


def decode_preds(fmt, no, data):
    rows = []
    if fmt == "01":
        rows = [[i for i, c in enumerate(ln) if c == "1"] for ln in data.decode().split("\n")[:-1]]
        if any(len(ln) != no for ln in data.decode().split("\n")[:-1]):
            return None
    elif fmt == "b8":
        nb = (no + 7) // 8
        if not nb or len(data) % nb:
            return None
        for k in range(0, len(data), nb):
            rows.append([8 * j + q for j in range(nb) for q in range(8) if data[k + j] >> q & 1])
    elif fmt == "hits":
        rows = [[int(x) for x in ln.split(",") if x] for ln in data.decode().split("\n")[:-1]]
    elif fmt == "dets":
        for ln in data.decode().split("\n")[:-1]:
            t = ln.split()
            if t[0] != "shot" or any(x[0] != "L" for x in t[1:]):
                return None
            rows.append([int(x[1:]) for x in t[1:]])
    elif fmt == "r8":
        cur, pos = [], 0
        for c in data:
            pos += c
            if c != 255:
                if pos == no:
                    rows.append(cur)
                    cur, pos = [], 0
                else:
                    cur.append(pos)
                    pos += 1
    return rows


def put(path, data):
    with open(path, "wb") as fh:
        fh.write(data)


def mode_cli(A):
    seed, every, maxn, ncol, lots = A.i("seed", 1), A.i("emit-every", 1), A.i("n", 6), A.i("k", 2), A.i("lots", 0)
    stat = Stat("histories", "runs", "shots", "refused", "emitted")
    tmp = scratch_of(A)

    def unit(k):
        r = random.Random(seed * 1000003 + k)
        g, colobs = small_graph(r, maxn, ncol, 0, A.i("wide", 0))
        g["b"] = []
        seen, es = set(), []
        for e in g["edges"]:
            if frozenset(e[:2]) not in seen:
                seen.add(frozenset(e[:2]))
                es.append([e[0], e[1], max(1, e[2]), e[3]])
        g["edges"] = es
        R = real(g)
        n, K = R["n"], R["K"]
        es, at = R["edges"], g.get("at", range(g["n"]))
        corr = r.random() < 0.25
        lines = ["error(%.17g) %s" % (1 / (1 + math.exp(w)), " ".join(["D%d" % u] + (["D%d" % v] if v >= 0 else []) + ["L%d" % colobs[c] for c in cs]))
                 for u, v, w, cs in es]
        lines += ["detector D%d" % (n - 1), "logical_observable L%d" % (K - 1)]
        if r.random() < 0.3:
            # the second half of the detectors by a shift
            pass
        r.shuffle(lines)
        d = os.path.join(tmp, "u")
        os.makedirs(d, exist_ok=True)
        p = lambda x: os.path.join(d, x)
        put(p("dem"), ("\n".join(lines) + "\n").encode())
        ns = r.choice([0, 1, 2, 4, 7]) if r.random() < 0.98 else r.choice([70, 257, 300])
        shots = []
        for _ in range(ns):
            ev, ob = set(), set()
            if r.random() < 0.6:  # a sampled error: always explainable
                for u, v, w, cs in es:
                    if r.random() < 0.3:
                        ev ^= {u} | ({v} if v >= 0 else set())
                        ob ^= {colobs[c] for c in cs}
            else:
                ev = {i for i in at if r.random() < 0.3}
            if r.random() < 0.3:
                ob ^= {r.randrange(K)}
            shots.append([sorted(ev), sorted(ob)])
        if r.random() < 0.8 or lots:  # mostly explainable shots
            shots = [s for s in shots if explainable(n, es, s[0])]
        pool, idx = shots, []
        if lots and pool:  # very many, of few kinds
            idx = [r.randrange(len(pool)) for _ in range(r.choice(MANY))]
            shots = [pool[j] for j in idx]
        cmd = r.choice(["predict", "count_mistakes"])
        fmt = r.choice(["01", "b8", "hits", "dets", "r8"])
        app = r.random() < 0.5
        args = [cmd, "--dem", p("dem")]
        a = {"cmd": cmd, "app": int(app)}
        if cmd == "predict":
            ofmt = r.choice(["01", "b8", "hits", "dets", "r8"])
            put(p("in"), encode(fmt, n, K if app else 0, shots))
            if fmt != "b8" or r.random() < 0.7:
                args += ["--in_format", fmt]
            if ofmt != "01" or r.random() < 0.5:
                args += ["--out_format", ofmt]
            a["src"] = 1
        else:
            ofmt = ""
            # appended, in a file of their own, or both: then the file counts, and what is appended is passed over
            own = not app or r.random() < 0.3
            a["src"] = 2 if own else 1
            put(p("in"), encode(fmt, n, K if app else 0, [[ev, r.sample(range(K), r.randint(0, K))] for ev, _ in shots] if own else shots))
            if fmt != "01" or r.random() < 0.7:
                args += ["--in_format", fmt]
            if own:
                if not app and r.random() < 0.1:
                    a["src"] = 0  # the observables are given nowhere
                else:
                    f2 = r.choice(["01", "b8", "hits", "dets", "r8"])
                    obs = [[[], ob] for _, ob in shots]
                    if ns and r.random() < 0.05:
                        obs = obs[:-1]
                    elif r.random() < 0.1:
                        obs += obs + [[[], [0]]]  # more than there are shots
                    a["nobs"] = len(obs)
                    put(p("obs"), encode(f2, 0, K, obs))
                    args += ["--obs_in", p("obs"), "--obs_in_format", f2]
        args += ["--in", p("in"), "--out", p("out")]
        if app:
            args.append("--in_includes_appended_observables")
        if corr:
            args.append("--enable_correlations")
        if cmd == "count_mistakes" and r.random() < 0.05:
            args.append("--time")
        if os.path.exists(p("out")):
            os.unlink(p("out"))
        stat.add("runs")
        stat.add("shots", len(shots))
        st, rc, _ = attempt(lambda: pymatching.cli(command_line_args=args))
        if st == 0 and rc != 0:
            st = 1
        pred, cnt = [], [-1, -1]
        if st == 0:
            with open(p("out"), "rb") as fh:
                data = fh.read()
            if cmd == "predict":
                rows = decode_preds(ofmt, K, data)
                if rows is None:
                    st = 3
                else:
                    pred = rows
            else:
                t = data.decode().split()
                cnt = [int(t[0]), int(t[2])] if len(t) == 3 and t[1] == "/" else [-1, -1]
        stat.add("refused", int(st != 0))
        stat.add("histories")
        a.setdefault("nobs", len(shots))
        a["mult"] = []
        if idx:
            a["mult"] = [idx.count(j) for j in range(len(pool))]
            if cmd == "predict" and st == 0:
                if len(pred) != len(idx):
                    pred, a["mult"] = [], [0] * len(pool)
                else:
                    pred = tally(zip(idx, pred), len(pool))
            shots = pool
        if k % every and A.i("only", -1) < 0:
            return None
        stat.add("emitted")
        return [{"kind": "cli", "id": k, "g": g, "colobs": colobs, **a, "fmt": fmt, "corr": int(corr), "shots": shots, "st": st, "pred": pred, "cnt": cnt}]
    try:
        run(A, "histories", 100, unit, stat)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------------------------- dem

def with_dem(r, text, corr, d):
    """A Matching object from the text of an error model, by one of the ways there are."""
    import stim
    from pathlib import Path
    kw = {"enable_correlations": True} if corr else r.choice([{}, {"enable_correlations": False}])
    path = os.path.join(d, "m")
    put(path, text.encode())
    if r.random() < 0.4:
        path = Path(path)
    how = r.randrange(6)
    if how == 0:
        return Matching(stim.DetectorErrorModel(text), **kw)
    if how == 1:
        return Matching(stim.Circuit(text), **kw)
    if how == 2:
        return Matching.from_stim_circuit(stim.Circuit(text), **kw)
    if how == 3:
        return Matching.from_detector_error_model_file(path, **kw)
    if how == 4:
        return Matching.from_stim_circuit_file(path, **kw)
    return Matching.from_detector_error_model(stim.DetectorErrorModel(text), **kw)


def scratch_of(A):
    return tempfile.mkdtemp(prefix="front-", dir=os.path.dirname(os.path.abspath(A.s("out", "/tmp/x"))))


def mode_dem(A):
    """Loads of error models, in the terms of ErrorModel (judged by DemTrace)."""
    seed, every, maxd, maxi = A.i("seed", 1), A.i("emit-every", 1), A.i("n", 5), A.i("ins", 10)
    stat = Stat("histories", "refused", "emitted")
    tmp = scratch_of(A)

    def unit(k):
        r = random.Random(seed * 1000003 + k)
        mode = r.randrange(2)
        nd, no = r.randint(1, maxd), r.randint(0, 3)
        odd = r.random() < 0.15
        sc = r.choice([4, 10, 17, 40, 100, 1000]) if r.random() < 0.25 else 0
        pool = [0, 1, 2, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 511, 512, 65534, 65535, 65536, 70000]
        names = r.sample(pool[:19 if r.random() < 0.1 else 15], nd) if r.random() < 0.2 else list(range(nd))
        onames = r.sample(pool[:15], 3) if r.random() < 0.2 else [0, 1, 2]
        ins, lines = [], []
        for _ in range(r.randint(0, maxi)):
            hi = 31 if mode == 0 or (odd and r.random() < 0.12) else 16
            a = 0 if r.random() < 0.1 else r.randint(1, hi)
            comps, seen = [], set()
            nc = 1 if r.random() < 0.5 else r.randint(2, 4)
            for _ in range(nc):
                cnt = r.choice([1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2])
                if (mode == 0 or odd) and r.random() < 0.06:
                    cnt = r.choice([0, 3])
                if nc == 1 and r.random() < 0.04:
                    cnt = 0
                ds = r.sample(names, min(cnt, nd))
                if frozenset(ds) in seen:
                    continue
                seen.add(frozenset(ds))
                comps.append([ds, sorted(r.sample(onames[:no], r.randint(0, min(2, no))))])
            ins.append([a, comps])
            t = []
            for ds, ob in comps:
                x = ["D%d" % d for d in ds]
                for o in ob:
                    x.insert(r.choice([0, len(x)]), "L%d" % o)
                t.append(" ".join(x))
            lines.append("error(%.17g) %s" % (math.ldexp(a / 32.0, -sc), " ^ ".join(t)))
        D = max([d + 1 for _, cs in ins for ds, _ in cs for d in ds] + [0]) + (r.randint(1, 3) if r.random() < 0.3 else 0)
        O = max([o + 1 for _, cs in ins for _, ob in cs for o in ob] + [0]) + (r.randint(1, 3) if r.random() < 0.3 else 0)
        if D:
            lines.insert(r.randint(0, len(lines)), "detector D%d" % (D - 1))
        if O:
            lines.insert(r.randint(0, len(lines)), "logical_observable L%d" % (O - 1))
        st, m, _ = attempt(lambda: with_dem(r, "\n".join(lines) + "\n", mode, tmp))
        es, refuse = [], 0
        if st == 0:
            for u, v, d in m.edges():
                es.append([int(u), -1 if v is None else int(v), qof(d["weight"], sc), pof(d["error_probability"], sc), sorted(int(x) for x in d["fault_ids"]), []])
            refuse = attempt(lambda: m.decode(np.zeros(m.num_detectors, dtype=np.uint8), enable_correlations=True))[0]
        stat.add("refused", int(st != 0))
        stat.add("histories")
        if k % every and A.i("only", -1) < 0:
            return None
        stat.add("emitted")
        return [{"kind": "model", "id": k, "py": 1, "mode": mode, "s": sc, "pads": 0, "padok": 0, "D": D, "O": O, "st": st, "ins": ins, "edges": es, "refuse": refuse,
                 "n": m.num_nodes if st == 0 else 0, "K": m.num_fault_ids if st == 0 else 0}]
    try:
        run(A, "histories", 100, unit, stat)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def mode_corr(A):
    """Correlated decoding: every form must give one and the same solution (judged by FormsTrace)."""
    seed, every, maxn, length = A.i("seed", 1), A.i("emit-every", 1), A.i("n", 7), A.i("len", 8)
    stat = Stat("histories", "calls", "shots", "refused", "emitted")
    tmp = scratch_of(A)

    def unit(k):
        r = random.Random(seed * 1000003 + k)
        g, colobs = small_graph(r, maxn, 2, 0, A.i("wide", 0))
        g["b"] = []
        seen, es = set(), []
        for e in g["edges"]:
            if frozenset(e[:2]) not in seen:
                seen.add(frozenset(e[:2]))
                es.append([e[0], e[1], 1, e[3]])
        g["edges"] = es
        R = real(g)
        n, K, es, at = R["n"], R["K"], R["edges"], g.get("at", list(range(g["n"])))
        txt = lambda e: " ".join(["D%d" % e[0]] + (["D%d" % e[1]] if e[1] >= 0 else []) + ["L%d" % colobs[c] for c in e[3]])
        lines = ["error(%.17g) %s" % (r.uniform(0.1, 0.3), txt(e)) for e in es]
        for _ in range(r.randint(0, 2 * len(es))):
            q = r.sample(es, min(len(es), r.choice([2, 2, 3])))
            if len(q) > 1:
                lines.append("error(%.17g) %s" % (r.uniform(0.005, 0.03), " ^ ".join(txt(e) for e in q)))
        lines += ["detector D%d" % (n - 1), "logical_observable L%d" % (K - 1)]
        r.shuffle(lines)
        st, m, _ = attempt(lambda: with_dem(r, "\n".join(lines) + "\n", 1, tmp))
        recs = [{"kind": "begin", "id": k, "g": g, "colobs": colobs, "nd": -1, "K": -1, "n": -1, "st": st}]
        if st == 0:
            recs[0].update({"nd": m.num_detectors, "K": m.num_fault_ids, "n": m.num_nodes})
            for _ in range(r.randint(1, length)):
                p = r.choice([0.15, 0.4, 0.6])
                shots = [[int(i in at and r.random() < p) for i in range(n)] for _ in range(r.randint(1, 3))]
                s = r.randrange(len(shots))
                if r.random() < 0.8:
                    shots = [x for x in shots if explainable(n, es, [i for i in range(n) if x[i]])] or [[0] * n]
                    s = r.randrange(len(shots))
                ps, pp = r.random() < 0.5, r.random() < 0.5
                a = np.array(shots, dtype=np.uint8)
                if ps:
                    a = np.packbits(a, axis=1, bitorder="little")
                calls = [lambda: m.decode(shots[s], return_weight=True, enable_correlations=True),
                         lambda: m.decode_batch(a, return_weights=True, bit_packed_shots=ps, bit_packed_predictions=pp, enable_correlations=True),
                         lambda: m.decode_to_edges_array(shots[s], enable_correlations=True)]
                order = [0, 1, 2]
                r.shuffle(order)
                res = [None] * 3
                for c in order:
                    res[c] = attempt(calls[c])
                    stat.add("calls")
                (s0, v0, _), (s1, v1, _), (s2, v2, _) = res
                stat.add("refused", int(s0 != 0))
                rec = {"kind": "step", "op": "corr", "shots": shots, "s": s + 1, "pp": int(pp), "st": [s0, s1, s2],
                       "pred": [] if s0 else [int(x) for x in v0[0]], "wt": [0, 0] if s0 else wj(float(v0[1])),
                       "preds": [] if s1 else [[int(x) for x in row] for row in v1[0]], "wts": [] if s1 else [wj(float(x)) for x in v1[1]],
                       "l": [] if s2 else [[int(x) for x in e] for e in v2]}
                recs.append(rec)
        stat.add("histories")
        if k % every and A.i("only", -1) < 0:
            return None
        stat.add("emitted")
        return recs
    try:
        run(A, "histories", 100, unit, stat)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def mode_noise(A):
    """Noise through the Python interface (judged by NoiseTrace)."""
    seed, every, maxn, length = A.i("seed", 1), A.i("emit-every", 1), A.i("n", 6), A.i("len", 12)
    stat = Stat("histories", "samples", "emitted")

    def unit(k):
        r = random.Random(seed * 1000003 + k)
        m = Matching()
        recs = [{"kind": "begin", "id": k}]
        invalid, extreme = r.random() < 0.4, r.choice([0, 0.5, 0.9])

        def sample():
            stat.add("samples")
            v = m.add_noise()
            if v is None:
                return None
            e, s = v
            ok = e.shape == (m.num_fault_ids,) and s.shape == (m.num_nodes,) and all(x in (0, 1) for x in list(e) + list(s))
            return sum(int(x) << i for i, x in enumerate(s)), sum(int(x) << i for i, x in enumerate(e)), int(not ok)
        for t in range(length):
            what = r.random()
            rec = {"kind": "step"}
            if what < 0.5 or t < 3:
                u, v = r.randrange(maxn), None if r.random() < 0.25 else r.randrange(maxn)
                obs = sorted(r.sample(range(4), r.randint(0, 3)))
                strat = r.choice([1, 3, 4])
                if strat == 1 and u == v:
                    strat = 4
                p16 = r.choice([0, 16]) if r.random() < extreme else r.randint(0, 16)
                if invalid and r.random() < 0.2:
                    p16 = -1
                kw = {"fault_ids": set(obs), "weight": 1, "error_probability": unp(p16), "merge_strategy": STRATS[strat]}
                if v is None:
                    m.add_boundary_edge(u, **kw)
                else:
                    m.add_edge(u, v, **kw)
                rec.update({"op": "add", "u": u, "v": -1 if v is None else v, "w": wj(1), "wi": 1, "a16": 1, "p16": p16, "obs": obs, "strat": strat})
            elif what < 0.6:
                b = sorted(r.sample(range(maxn), r.randint(0, 3)))
                m.set_boundary_nodes(set(b))
                rec.update({"op": "boundary", "b": b})
            else:
                sd, cnt = r.choice([0, 1, 7, r.randrange(2 ** 32)]), r.randint(1, 4)
                runs = []
                for rep in range(2):
                    pymatching.set_seed(sd)
                    runs.append([sample() for _ in range(cnt)])
                    if rep == 0 and r.random() < 0.5:
                        pymatching.randomize()
                nones = [x is None for q in runs for x in q]
                ok = [[x for x in q if x is not None] for q in runs]
                rec.update({"op": "noise", "none": int(any(nones)), "d": [x[0] for x in ok[0]], "o": [x[1] for x in ok[0]],
                            "d2": [x[0] for x in ok[1]], "o2": [x[1] for x in ok[1]],
                            "bad": sum(x[2] for q in ok for x in q) + int(any(nones) and not all(nones))})
            recs.append(rec)
        stat.add("histories")
        if k % every and A.i("only", -1) < 0:
            return None
        stat.add("emitted")
        return recs
    run(A, "histories", 100, unit, stat)


def explainable(n, es, ev):
    comp = list(range(n + 1))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for u, v, *_ in es:
        comp[find(u)] = find(v if v >= 0 else n)
    par = {}
    for e in ev:
        par[find(e)] = par.get(find(e), 0) ^ 1
    return all(not q or c == find(n) for c, q in par.items())


if __name__ == "__main__":
    A = Args()
    {"load": mode_load, "decode": mode_decode, "cli": mode_cli, "dem": mode_dem, "corr": mode_corr, "noise": mode_noise}[A.s("mode", "load")](A)
