-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* The forms in which shots go into the decoder and answers come out of it *)
(* (vectors, matrices, batches, bit-packed bytes, arrays of edges or       *)
(* pairs, dictionaries), all in terms of MatchingGraph.  The label column  *)
(* c of a graph g stands for the observable colobs[c + 1].  A graph may be *)
(* a part of the real one: its node j is then the real node at[j + 1] of   *)
(* N, and the other nodes have no edges.                                   *)
(***************************************************************************)
EXTENDS MatchingGraph

RealN(g) == IF "at" \in DOMAIN g THEN g.N ELSE g.n
NumDet(g) == RealN(g) - Len(g.b)
CeilDiv8(x) == (x + 7) \div 8

\* What the clauses need of a graph, computed once.
Facts(g, colobs) ==
    LET eff == EffEdges(g)
    IN [g |-> g, colobs |-> colobs, eff |-> eff, T |-> MinTable(g, eff), TI |-> MinTable(g, InteriorEdges(g))]

\* The node of the graph that a real node is; the boundary stays -1, nodes without edges are out of range.
Named(g, x) == IF "at" \notin DOMAIN g \/ x = -1 THEN x
               ELSE LET J == {j \in DOMAIN g.at : g.at[j] = x} IN IF J = {} THEN g.n + x ELSE (CHOOSE j \in J : TRUE) - 1
Nodes(g, evs) == [k \in DOMAIN evs |-> Named(g, evs[k])]
Links(g, l) == [k \in DOMAIN l |-> <<Named(g, l[k][1]), Named(g, l[k][2])>>]

Pattern(f, evs) == DetPattern(f.g, Nodes(f.g, evs))
Feasible(f, evs) == ~OutOfRange(f.g, Nodes(f.g, evs)) /\ BestFor(f.g, f.T, Pattern(f, evs)) < INF
Best(f, evs) == BestFor(f.g, f.T, Pattern(f, evs))

\* Is a set of observables that of an explanation of minimum weight?
ObsMask(f, obs) == SumOf([c \in DOMAIN f.colobs |-> IF f.colobs[c] \in obs THEN Pow2[f.g.n + c - 1] ELSE 0], LAMBDA x : x)
ObsBest(f, evs, obs) ==
    /\ obs \subseteq ToSet(f.colobs)
    /\ f.T[Pattern(f, evs) + ObsMask(f, obs)] = Best(f, evs)

\* Is it the only such set?
ObsUnique(f, evs, obs) ==
    /\ ObsBest(f, evs, obs)
    /\ \A p \in LabelPatterns(f.g) : f.T[Pattern(f, evs) + p] = Best(f, evs) => p = ObsMask(f, obs)

\* --- shots ---------------------------------------------------------------
OnesOf(v) == SetToSeq({j - 1 : j \in {x \in DOMAIN v : v[x] # 0}})
BitsOf(v) == SetToSeq({8 * (j - 1) + q : j \in DOMAIN v, q \in 0..7} \cap
                      {x \in 0..(8 * Len(v) - 1) : (v[(x \div 8) + 1] \div Pow2[x % 8]) % 2 = 1})
\* a matrix: one row per check, one column per round
GridOf(z, rows) == SetToSeq({x \in 0..(rows * Len(z[1]) - 1) : z[(x % rows) + 1][(x \div rows) + 1] # 0})

ShotValid(g, shape) ==
    IF Len(shape) = 1 THEN shape[1] >= NumDet(g) /\ shape[1] <= RealN(g)
    ELSE shape[1] * shape[2] = NumDet(g)
ShotEvents(z, shape) ==
    IF Len(shape) = 1 THEN OnesOf(z)
    ELSE IF shape[2] = 0 THEN <<>> ELSE GridOf(z, shape[1])

BatchValid(g, w, packed) ==
    IF packed THEN w >= CeilDiv8(NumDet(g)) /\ w <= CeilDiv8(RealN(g)) ELSE w >= NumDet(g) /\ w <= RealN(g)

\* --- answers -------------------------------------------------------------
PlainObs(p) == {j - 1 : j \in {x \in DOMAIN p : p[x] # 0}}
PackedObs(p) == ToSet(BitsOf(p))

EdgeIdx(f, p) == {j \in DOMAIN f.eff : {f.eff[j][1], f.eff[j][2]} = {p[1], p[2]}}
EdgesBest(f, evs, rl) ==
    LET l == Links(f.g, rl) IN
    /\ \A x \in DOMAIN l : Cardinality(EdgeIdx(f, l[x])) = 1
    /\ \A x, y \in DOMAIN l : x # y => {l[x][1], l[x][2]} # {l[y][1], l[y][2]}
    /\ LET E(p) == f.eff[CHOOSE j \in EdgeIdx(f, p) : TRUE]
       IN /\ XorOf(l, LAMBDA p : EdgeMask(f.g, E(p)) & (Pow2[f.g.n] - 1)) = Pattern(f, evs)
          /\ SumOf(l, LAMBDA p : E(p)[3]) = Best(f, evs)

PairsBest(f, evs, rl) ==
    LET l == Links(f.g, rl)
        s == Pattern(f, evs)
        M(p) == Pow2[p[1]] + (IF p[2] = -1 THEN 0 ELSE Pow2[p[2]])
        D(p) == IF p[2] = -1 THEN BestFor(f.g, f.T, M(p)) ELSE BestFor(f.g, f.TI, M(p))
    IN /\ \A x \in DOMAIN l : l[x][1] \in 0..(f.g.n - 1) /\ l[x][2] \in -1..(f.g.n - 1) /\ l[x][1] # l[x][2]
       /\ \A d \in 0..(f.g.n - 1) :
             Cardinality({x \in DOMAIN l : l[x][1] = d}) + Cardinality({x \in DOMAIN l : l[x][2] = d}) = (s \div Pow2[d]) % 2
       /\ SumOf(l, LAMBDA p : IF D(p) >= INF THEN INF \div 100 ELSE D(p)) = Best(f, evs)

\* A dictionary gives each event its partner: each pair in both directions, -1 standing for the boundary.
DictBest(f, evs, l) ==
    /\ \A x, y \in DOMAIN l : x # y => l[x][1] # l[y][1]
    /\ \A x \in DOMAIN l : l[x][2] # -1 => \E y \in DOMAIN l : l[y] = <<l[x][2], l[x][1]>>
    /\ PairsBest(f, evs, SelectSeq(l, LAMBDA p : p[2] = -1 \/ p[1] < p[2]))
=============================================================================
