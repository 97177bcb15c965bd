--------------------------- MODULE MatchingGraph ---------------------------
(***************************************************************************)
(* What a matching graph *means* to a user of PyMatching, independently of *)
(* how any decoder works.                                                  *)
(*                                                                         *)
(* A user graph is a record                                                *)
(*    n      number of nodes 0..n-1                                        *)
(*    b      the nodes marked as boundary (a sequence)                     *)
(*    k      number of observable labels in use                            *)
(*    edges  a sequence of <<u, v, w, labels>>, v = -1 meaning the virtual *)
(*           boundary                                                      *)
(*                                                                         *)
(* A *flip pattern* is an integer bit mask: bit i (i < n) says detector i  *)
(* is flipped, bit n+c says observable label c is flipped.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, SequencesExt, TLC

INF == 1000000000

Pow2 == [i \in 0..29 |-> 2^i]

XorOf(s, F(_)) == FoldLeft(LAMBDA acc, x : acc ^^ F(x), 0, s)

SumOf(s, F(_)) == FoldLeft(LAMBDA acc, x : acc + F(x), 0, s)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

LabelMask(g, labels) == XorOf(labels, LAMBDA c : Pow2[g.n + c])

IsBoundary(g, v) == v = -1 \/ \E i \in DOMAIN g.b : g.b[i] = v

(***************************************************************************)
(* Effective edges.  An edge between two boundary nodes has no effect.  An *)
(* edge between a detector and a boundary node is a boundary edge of that  *)
(* detector; of several, only the lightest counts (the first of equals).   *)
(***************************************************************************)
BoundaryDet(g, e) ==
    IF IsBoundary(g, e[2]) /\ ~IsBoundary(g, e[1]) THEN e[1]
    ELSE IF IsBoundary(g, e[1]) /\ ~IsBoundary(g, e[2]) THEN e[2]
    ELSE -1

InteriorEdges(g) ==
    SelectSeq(g.edges, LAMBDA e : ~IsBoundary(g, e[1]) /\ ~IsBoundary(g, e[2]))

LightestBoundaryEdge(g, d) ==
    LET C == {i \in DOMAIN g.edges : BoundaryDet(g, g.edges[i]) = d}
        m == MinOf({g.edges[i][3] : i \in C})
    IN g.edges[MinOf({i \in C : g.edges[i][3] = m})]

BoundaryEdges(g) ==
    LET D == {BoundaryDet(g, g.edges[i]) : i \in DOMAIN g.edges} \ {-1}
        ds == SetToSeq(D)
    IN [j \in DOMAIN ds |-> LET e == LightestBoundaryEdge(g, ds[j]) IN <<ds[j], -1, e[3], e[4]>>]

EffEdges(g) == InteriorEdges(g) \o BoundaryEdges(g)

\* The flip pattern of one effective edge.  (A self-loop flips no detector.)
EdgeMask(g, e) ==
    (Pow2[e[1]] ^^ (IF e[2] = -1 THEN 0 ELSE Pow2[e[2]])) ^^ LabelMask(g, e[4])

(***************************************************************************)
(* The minimum total weight of an edge set with a given flip pattern, for  *)
(* all flip patterns at once: fold over the edges, deciding for each       *)
(* whether it is taken.  (MatchingGraphCheck.tla model-checks that this    *)
(* equals the definition by minimisation over all edge subsets.)           *)
(***************************************************************************)
EmptyTable(bits) == TLCEval([x \in 0..(2^bits - 1) |-> IF x = 0 THEN 0 ELSE INF])

AddEdge(T, m, w) ==
    TLCEval([x \in DOMAIN T |->
        LET a == T[x]
            b == T[x ^^ m]
        IN IF b < INF /\ b + w < a THEN b + w ELSE a])

MinTable(g, es) ==
    LET me == TLCEval([j \in DOMAIN es |-> <<EdgeMask(g, es[j]), es[j][3]>>])
    IN FoldLeft(LAMBDA T, e : AddEdge(T, e[1], e[2]), EmptyTable(g.n + g.k), me)

LabelPatterns(g) == {p * Pow2[g.n] : p \in 0..(Pow2[g.k] - 1)}

\* Minimum explanation weight of a detector flip pattern, INF if there is none.
BestFor(g, T, s) == MinOf({T[s + p] : p \in LabelPatterns(g)})

DetPattern(g, evs) ==
    XorOf(evs, LAMBDA d : IF d >= 0 /\ d < g.n /\ ~IsBoundary(g, d) THEN Pow2[d] ELSE 0)

OutOfRange(g, evs) == \E i \in DOMAIN evs : evs[i] >= g.n \/ evs[i] < 0

(***************************************************************************)
(* A crowd: edges that stand alone, in runs <<count, weight, labels,       *)
(* single>>.  In a call the first t of them have detection events; each    *)
(* adds its weight and labels to every answer, and itself to every list of *)
(* pairs or edges (MatchingGraphCheck, AloneAddsUp).                       *)
(***************************************************************************)
Crowded(gr, r, t) == MinOf({gr.crowd[r][1], IF t < 0 THEN 0 ELSE t})
CrowdBefore(gr, r) == SumOf(SubSeq(gr.crowd, 1, r - 1), LAMBDA c : c[1])
CrowdSize(gr) == CrowdBefore(gr, Len(gr.crowd) + 1)
ColMask(labels) == XorOf(labels, LAMBDA c : Pow2[c])
CrowdRun(gr, m) == CHOOSE r \in DOMAIN gr.crowd : CrowdBefore(gr, r) < m /\ m <= CrowdBefore(gr, r) + gr.crowd[r][1]

CrowdWeight(gr, t) ==
    SumOf([r \in DOMAIN gr.crowd |-> r], LAMBDA r : Crowded(gr, r, t - CrowdBefore(gr, r)) * gr.crowd[r][2])
CrowdLabels(gr, t) ==
    XorOf([r \in DOMAIN gr.crowd |-> r],
          LAMBDA r : IF Crowded(gr, r, t - CrowdBefore(gr, r)) % 2 = 1 THEN ColMask(gr.crowd[r][3]) ELSE 0)

\* Intervals <<first, last, labels>> of members: exactly 1..t, each once, with the right labels.
CrowdListed(gr, t, ivs, labelled) ==
    /\ t >= 0 /\ t <= CrowdSize(gr)
    /\ FoldLeft(LAMBDA acc, x : IF x[1] = acc + 1 /\ x[2] >= x[1] THEN x[2] ELSE -1, 0, ivs) = t
    /\ labelled => \A x \in DOMAIN ivs, r \in DOMAIN gr.crowd :
          (ivs[x][1] <= CrowdBefore(gr, r) + gr.crowd[r][1] /\ ivs[x][2] > CrowdBefore(gr, r))
             => ivs[x][3] = ColMask(gr.crowd[r][3])
=============================================================================
