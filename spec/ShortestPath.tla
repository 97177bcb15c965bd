---------------------------- MODULE ShortestPath ----------------------------
(***************************************************************************)
(* Shortest-path queries: what an answer must look like, for a sequence of *)
(* queries on one graph.  Distances are defined by relaxation until        *)
(* nothing changes (ShortestPathCheck model-checks them against the        *)
(* definition as a minimum over all simple paths).                         *)
(***************************************************************************)
EXTENDS MatchingGraph

\* Weight of the effective edge between u and v (v may be -1), INF if none.
EffWeight(eff, u, v) ==
    LET C == {j \in DOMAIN eff : {eff[j][1], eff[j][2]} = {u, v}}
    IN IF C = {} THEN INF ELSE MinOf({eff[j][3] : j \in C})

\* The neighbours of each detector: <<neighbour, weight, label>> (boundary edges left out).
Adjacent(g, eff) ==
    TLCEval([v \in 0..(g.n - 1) |->
        {IF eff[j][1] = v THEN <<eff[j][2], eff[j][3], eff[j][4]>> ELSE <<eff[j][1], eff[j][3], eff[j][4]>> :
         j \in {i \in DOMAIN eff : eff[i][2] # -1 /\ (eff[i][1] = v \/ eff[i][2] = v)}}])

\* Distances (through detectors only) to every detector from the given initial distances: relax the edges at
\* the detectors whose distance has just changed, until nothing changes.
RECURSIVE Relax(_, _, _)
Relax(adj, D, changed) ==
    IF changed = {} THEN D
    ELSE LET arcs   == TLCEval(UNION {{<<a[1], D[u] + a[2]>> : a \in {b \in adj[u] : D[u] + b[2] < D[b[1]]}} : u \in changed})
             better == TLCEval({a[1] : a \in arcs})
             D2     == TLCEval([v \in DOMAIN D |-> IF v \in better THEN MinOf({a[2] : a \in {b \in arcs : b[1] = v}}) ELSE D[v]])
         IN Relax(adj, D2, better)

SpreadFrom(adj, D) == Relax(adj, TLCEval(D), {v \in DOMAIN D : D[v] < INF})

DistFrom(g, eff, s) == SpreadFrom(Adjacent(g, eff), [v \in 0..(g.n - 1) |-> IF v = s THEN 0 ELSE INF])
DistToBoundary(g, eff) ==
    SpreadFrom(Adjacent(g, eff), [v \in 0..(g.n - 1) |-> IF IsBoundary(g, v) THEN INF ELSE EffWeight(eff, v, -1)])

RECURSIVE PathWeight(_, _)
PathWeight(eff, p) ==   \* p: a sequence of detectors
    IF Len(p) <= 1 THEN 0
    ELSE LET w == EffWeight(eff, p[1], p[2])
             rest == PathWeight(eff, Tail(p))
         IN IF w = INF \/ rest = INF THEN INF ELSE w + rest

\* A path of detectors from s to t (t = -1: to the boundary) of minimum weight.
IsShortestPath(g, eff, p, s, t) ==
    /\ Len(p) >= 1 /\ p[1] = s
    /\ \A j \in DOMAIN p : p[j] \in 0..(g.n - 1) /\ ~IsBoundary(g, p[j])
    /\ IF t = -1
       THEN /\ PathWeight(eff, p) < INF /\ EffWeight(eff, p[Len(p)], -1) < INF
            /\ PathWeight(eff, p) + EffWeight(eff, p[Len(p)], -1) = DistToBoundary(g, eff)[s]
       ELSE /\ p[Len(p)] = t /\ PathWeight(eff, p) < INF
            /\ PathWeight(eff, p) = DistFrom(g, eff, s)[t]

\* Is there an answer at all?
Answerable(g, eff, s, t) ==
    /\ s < g.n /\ t < g.n
    /\ ~(IsBoundary(g, s) /\ IsBoundary(g, t))
    /\ IF IsBoundary(g, s) THEN DistToBoundary(g, eff)[t] < INF
       ELSE IF IsBoundary(g, t) THEN DistToBoundary(g, eff)[s] < INF
       ELSE DistFrom(g, eff, s)[t] < INF
=============================================================================
