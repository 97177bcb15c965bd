---------------------------- MODULE CheckMatrixMC ----------------------------
(***************************************************************************)
(* Model check of CheckMatrix: the graph that loading stands for decodes   *)
(* the code the matrix describes.  For every small check matrix the        *)
(* minimum weight of an explanation of a syndrome in the loaded graph is   *)
(* the minimum weight of a set of columns (and, with repetitions, of       *)
(* measurement errors) with that syndrome, whether the boundary is a node  *)
(* or virtual; and no columns that are parallel means the observables      *)
(* agree as well.                                                          *)
(***************************************************************************)
EXTENDS CheckMatrix

M == INSTANCE MatchingGraph

CONSTANTS R, C, W, Reps

VARIABLE m

Cols == {<<>>} \cup {<<r>> : r \in 0..(R - 1)} \cup {<<p[1], p[2]>> : p \in {q \in (0..(R - 1)) \X (0..(R - 1)) : q[1] < q[2]}}
Attr(w, o) == [w |-> <<0, w * 65536>>, wi |-> w, a16 |-> 1, p16 |-> -1, obs |-> o]

Init ==
    \E H \in [1..C -> Cols], ws \in [1..C -> W], o \in [1..C -> {<<>>, <<0>>}], tw \in [1..R -> W], reps \in 1..Reps, v \in {0, 1} :
       m = [R |-> R, H |-> H, a |-> [c \in 1..C |-> Attr(ws[c], o[c])], ta |-> [r \in 1..R |-> Attr(tw[r], <<>>)],
            reps |-> reps, nf |-> 1, strat |-> SMALLEST, virt |-> v]
Next == UNCHANGED m
Spec == Init /\ [][Next]_m

AsGraph(Z) ==
    [n |-> Z.n, b |-> SetToSeq(Z.b), k |-> 1, K |-> Z.K,
     edges |-> [j \in DOMAIN Z.E |-> <<Z.E[j].u, Z.E[j].v, Z.E[j].wi, Z.E[j].obs>>]]

\* The faults: each column in each round, each measurement between rounds.
Faults ==
    {<<"c", c, t>> : c \in 1..C, t \in 0..(m.reps - 1)} \cup {<<"m", r, t>> : r \in 1..R, t \in 0..(m.reps - 2)}
Flips(x) == IF x[1] = "c" THEN {m.H[x[2]][j] + R * x[3] : j \in DOMAIN m.H[x[2]]} ELSE {x[2] - 1 + R * x[3], x[2] - 1 + R * (x[3] + 1)}
WOfFault(x) == IF x[1] = "c" THEN m.a[x[2]].wi ELSE m.ta[x[2]].wi
LOfFault(x) == IF x[1] = "c" THEN Len(m.a[x[2]].obs) ELSE 0
Useful == {x \in Faults : Flips(x) # {}}

Total(F, G(_)) == FoldLeft(LAMBDA a, x : a + G(x), 0, SetToSeq(F))
SynOf(F) == {d \in 0..(R * m.reps - 1) : Cardinality({x \in F : d \in Flips(x)}) % 2 = 1}
Solutions == {<<SynOf(F), Total(F, LOfFault) % 2, Total(F, WOfFault)>> : F \in SUBSET Useful}
Parallel == \E x, y \in Useful : x # y /\ Flips(x) = Flips(y)
MaskOf(D) == FoldLeft(LAMBDA a, d : a + M!Pow2[d], 0, SetToSeq(D))
MinW(Q) == IF Q = {} THEN M!INF ELSE M!MinOf({q[3] : q \in Q})

Decodes ==
    \A sol \in {Solutions} : \A x \in {FromMatrix(m, FALSE)} : \A g \in {AsGraph(x.S)} : \A T \in {M!MinTable(g, M!EffEdges(g))} :
      /\ ~x.bad
      /\ g.n - Len(g.b) = R * m.reps
      /\ \A D \in SUBSET (0..(R * m.reps - 1)) :
           /\ M!BestFor(g, T, MaskOf(D)) = MinW({q \in sol : q[1] = D})
           /\ ~Parallel => \A l \in {0, 1} : T[MaskOf(D) + l * M!Pow2[g.n]] = MinW({q \in sol : q[1] = D /\ q[2] = l})
=============================================================================
