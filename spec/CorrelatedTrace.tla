-------------------------- MODULE CorrelatedTrace --------------------------
(***************************************************************************)
(* Recorded correlated decodes and reweightings against Correlated.        *)
(***************************************************************************)
EXTENDS Correlated, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* The graph as the decoder sees it, edge by edge: an edge to a boundary node is a boundary edge of its other
\* end (each detector has at most one here), and an edge between two of them has no effect.
Seen(h) ==
    [h EXCEPT !.edges = [j \in DOMAIN h.edges |->
        LET e == h.edges[j]
        IN IF IsBoundary(h, e[1]) /\ IsBoundary(h, e[2]) THEN <<e[1], e[1], 1, <<>>>>
           ELSE IF IsBoundary(h, e[1]) THEN <<e[2], -1, e[3], e[4]>>
           ELSE IF IsBoundary(h, e[2]) THEN <<e[1], -1, e[3], e[4]>> ELSE e]]

VARIABLES i, g, rules, T, subs, W, norm

vars == <<i, g, rules, T, subs, W, norm>>

EdgeIdx(h, p) == {j \in DOMAIN h.edges : {h.edges[j][1], h.edges[j][2]} = {p[1], p[2]}}

\* Is the answer a that of a minimum-weight explanation of s in h?
OptimalIn(h, s, r, extra) ==
    \A U \in {MinTable(h, h.edges)} : \A b \in {BestFor(h, U, s)} :
      IF r.op \in {"cedges", "edges"}
      THEN /\ CrowdListed(h, r.t, r.a.c, FALSE)
           /\ \A x \in DOMAIN r.a.l : Cardinality(EdgeIdx(h, r.a.l[x])) = 1
           /\ \A x, y \in DOMAIN r.a.l : x # y => r.a.l[x] # r.a.l[y]
           /\ LET E(p) == h.edges[CHOOSE j \in EdgeIdx(h, p) : TRUE]
              IN /\ XorOf(r.a.l, LAMBDA p : EdgeMask(h, E(p)) & (Pow2[h.n] - 1)) = s
                 /\ SumOf(r.a.l, LAMBDA p : E(p)[3]) = b
      ELSE /\ r.a.w = norm * (b + extra)
           /\ r.a.x = 0
           /\ r.a.o >= 0 /\ r.a.o < Pow2[h.k]
           /\ U[s + ((r.a.o ^^ CrowdLabels(h, r.t)) * Pow2[h.n])] = b

CallOK(r) ==
    LET oor == OutOfRange(g, r.ev)
        s   == DetPattern(g, r.ev)
        best == BestFor(g, T, s)
    IN IF oor \/ best >= INF THEN r.a.st = 1
       ELSE /\ r.a.st = 0
            /\ IF r.op \in {"cdec", "cdec64", "cedges"}
               THEN \E h \in SecondPasses(g, rules, subs, s, best, r.t) : OptimalIn(h[1], s, r, h[2])
               ELSE OptimalIn(g, s, r, CrowdWeight(g, r.t))

\* The weights the library holds, as records <<u, v, w>> in both directions, for the graph h.
Size(w) == IF w < 0 THEN -w ELSE w
WeightsOf(h) ==
    UNION {IF h.edges[j][1] = h.edges[j][2] THEN {}
           ELSE IF h.edges[j][2] = -1 THEN {<<h.edges[j][1], -1, norm * Size(h.edges[j][3])>>}
           ELSE {<<h.edges[j][1], h.edges[j][2], norm * Size(h.edges[j][3])>>,
                 <<h.edges[j][2], h.edges[j][1], norm * Size(h.edges[j][3])>>} : j \in DOMAIN h.edges}
Holds(ws, h) == ToSet(ws) = WeightsOf(h)

StepOK(r) ==
    /\ IF r.op = "reweight"
       THEN \A h \in {Reweighted(g, rules, ToSet(r.idx))} : Holds(r.wm, h) /\ Holds(r.ws, h)
       ELSE CallOK(r)
    /\ \A j \in DOMAIN r.res : r.res[j] = 0
    /\ IF r.same = 1 THEN TRUE ELSE r.wm2 = W[1] /\ r.ws2 = W[2]

Init == i = 1 /\ g = <<>> /\ rules = <<>> /\ T = <<>> /\ subs = <<>> /\ W = <<>> /\ norm = 0
Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET r == Trace[i]
       IN CASE r.kind = "begin" ->
                 /\ g' = Seen(r.g) /\ rules' = r.rules /\ W' = <<r.wm, r.ws>> /\ norm' = r.norm
                 /\ ToSet(r.wm) = ToSet(r.ws)
                 /\ T' = MinTable(g', g'.edges) /\ subs' = Subsets(g')
            [] r.kind = "step" -> (StepOK(r) = TRUE) /\ UNCHANGED <<g, rules, T, subs, W, norm>>
            [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
