------------------------- MODULE ShortestPathTrace -------------------------
(***************************************************************************)
(* Recorded shortest-path queries against ShortestPath.  A query is        *)
(*   k    0: nodes in order; 1: edges in order; 2: edges in any order      *)
(*   s,t  source and destination (-1: the virtual boundary)                *)
(*   st   0 answered, 1 rejected                                           *)
(*   p    the answer                                                       *)
(*   res  what is left behind in the decoder (all zero), w: weights intact *)
(***************************************************************************)
EXTENDS ShortestPath, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i

NodesOK(g, eff, q) ==
    LET p  == [j \in DOMAIN q.p |-> q.p[j][1]]
    IN IF IsBoundary(g, q.s) THEN IsShortestPath(g, eff, Reverse(p), q.t, -1)
       ELSE IF IsBoundary(g, q.t) THEN IsShortestPath(g, eff, p, q.s, -1)
       ELSE IsShortestPath(g, eff, p, q.s, q.t)

\* Edges in order: each leaves the node the previous one entered.
OrderedEdgesOK(g, eff, q) ==
    /\ Len(q.p) >= 1 /\ q.p[1][1] = q.s
    /\ \A j \in 1..(Len(q.p) - 1) : q.p[j][2] = q.p[j + 1][1]
    /\ LET ns == [j \in DOMAIN q.p |-> q.p[j][1]]
       IN IF q.t = -1 THEN q.p[Len(q.p)][2] = -1 /\ IsShortestPath(g, eff, ns, q.s, -1)
          ELSE IsShortestPath(g, eff, Append(ns, q.p[Len(q.p)][2]), q.s, q.t)

\* Edges in any order: a set of distinct edges with odd degree exactly at the two ends and total weight
\* equal to the distance, connected (so: one path, apart from weightless detours, of which there are none
\* if all degrees are at most two).
AnyOrderOK(g, eff, q) ==
    LET E   == {{q.p[j][1], q.p[j][2]} : j \in DOMAIN q.p}
        deg(v) == Cardinality({e \in E : v \in e})
        V   == UNION E
        ends == {q.s, q.t}
        RECURSIVE Reach(_)
        Reach(R) == LET R2 == R \cup UNION {e \in E : e \cap R # {}} IN IF R2 = R THEN R ELSE Reach(R2)
    IN /\ Cardinality(E) = Len(q.p)
       /\ \A j \in DOMAIN q.p : EffWeight(eff, q.p[j][1], q.p[j][2]) < INF
       /\ \A v \in V : deg(v) = IF v \in ends THEN 1 ELSE 2
       /\ ends \subseteq V
       /\ Reach({q.s}) = V
       /\ SumOf(q.p, LAMBDA e : EffWeight(eff, e[1], e[2])) =
             IF q.t = -1 THEN DistToBoundary(g, eff)[q.s] ELSE DistFrom(g, eff, q.s)[q.t]

QueryOK(g, eff, q) ==
    /\ q.w = 1 /\ \A j \in DOMAIN q.res : q.res[j] = 0
    /\ IF ~Answerable(g, eff, q.s, q.t) THEN q.st = 1
       ELSE /\ q.st = 0
            /\ CASE q.k = 0 -> NodesOK(g, eff, q)
                 [] q.k = 1 -> OrderedEdgesOK(g, eff, q)
                 [] q.k = 2 -> AnyOrderOK(g, eff, q)

RecordOK(r) ==
    IF r.kind = "crash" THEN FALSE
    ELSE \A eff \in {EffEdges(r.g)} : \A j \in DOMAIN r.q : QueryOK(r.g, eff, r.q[j])

Init == i = 1
Next == i <= Len(Trace) /\ (RecordOK(Trace[i]) = TRUE) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
