----------------------------- MODULE UserGraphMC -----------------------------
(***************************************************************************)
(* Model check of UserGraph: every history of edits of a small graph.      *)
(* Besides the shape of the state, the laws that the way histories are     *)
(* recorded and replayed rests on: an edit that replaces hides the ones    *)
(* before it, merging in either order comes to the same, the graph is its  *)
(* final list of edges, and what is said about an edge does not depend on  *)
(* the order its two nodes are named in.                                   *)
(***************************************************************************)
EXTENDS UserGraph

CONSTANTS N,        \* nodes 0..N-1
          A16,      \* probabilities, in sixteenths
          Strats,   \* strategies
          Depth,
          ProbFam   \* are weights given by probabilities (or integers)?

VARIABLES S, left, last

\* weights that go with the probabilities (only their order matters to the state machine)
WOf16(a) == <<0, (16 - a) * 65536>>
Attr(a, p16, o) == [w |-> WOf16(a), wi |-> IF ProbFam THEN 0 ELSE 16 - a, a16 |-> a, p16 |-> p16, obs |-> o]
Attrs == {Attr(a, p, o) : a \in A16, p \in {-1, 4}, o \in {<<>>, <<1>>}}
Ends == {<<u, v>> \in (0..(N - 1)) \X (-1..(N - 1)) : TRUE}

Init == S \in {Empty(0, 0), Empty(2, 1)} /\ left = Depth /\ last = [op |-> "none"]
AddStep ==
    \E e \in Ends, a \in Attrs, s \in Strats :
       /\ ~ProbFam /\ s = INDEPENDENT => \A j \in Index(S, e[1], e[2]) : S.E[j].exact   \* as recorded
       /\ S' = Add(S, e[1], e[2], a, s, ProbFam)
       /\ last' = [op |-> "add", e |-> e, a |-> a, s |-> s, refused |-> Refused(S, e[1], e[2], s)]
BoundaryStep == \E b \in SUBSET (0..(N - 1)) : S' = SetBoundary(S, b) /\ last' = [op |-> "boundary", b |-> b]
ObsStep == \E v \in {0, 3} : S' = MinObs(S, v) /\ last' = [op |-> "minobs", v |-> v]
Next == left > 0 /\ left' = left - 1 /\ (AddStep \/ BoundaryStep \/ ObsStep)
Spec == Init /\ [][Next]_<<S, left, last>>
View == <<S, left>>

-----------------------------------------------------------------------------
Shape ==
    /\ \A j \in DOMAIN S.E : S.E[j].u \in 0..(S.n - 1) /\ S.E[j].v \in -1..(S.n - 1)
    /\ S.b \subseteq 0..(S.n - 1)
    /\ \A j \in DOMAIN S.E : ObsCount(S.E[j].obs) <= S.K
    /\ \A j, k \in DOMAIN S.E : j # k => ~Same(S.E[j], S.E[k].u, S.E[k].v)
    /\ \A j \in DOMAIN S.E : S.E[j].p \in -1..One /\ S.E[j].q \in 0..One

\* Nodes and observables are never lost, nor are edges; a refused addition changes nothing.
Grows ==
    [][/\ S'.n >= S.n /\ S'.K >= S.K /\ Len(S'.E) >= Len(S.E)
       /\ \A j \in DOMAIN S.E : S'.E[j].u = S.E[j].u /\ S'.E[j].v = S.E[j].v
       /\ last'.op = "add" /\ last'.refused => S' = S
       /\ last'.op # "boundary" => S'.b = S.b
       /\ last'.op # "add" => S'.E = S.E]_<<S, left, last>>

\* Naming the nodes of an edge the other way round finds and merges the same edge.
Symmetric ==
    \A u, v \in 0..(N - 1) :
       /\ Index(S, u, v) = Index(S, v, u)
       /\ \A a \in Attrs, s \in Strats :
            Index(S, u, v) # {} => Add(S, u, v, a, s, ProbFam) = Add(S, v, u, a, s, ProbFam)

\* Only the last of several replacements of an edge counts, and of several settings of the boundary within the same nodes.
LastCounts ==
    /\ \A j \in DOMAIN S.E, a, c \in Attrs :
         a.obs = c.obs =>
            Add(Add(S, S.E[j].u, S.E[j].v, a, REPLACE, ProbFam), S.E[j].u, S.E[j].v, c, REPLACE, ProbFam)
              = Add(S, S.E[j].u, S.E[j].v, c, REPLACE, ProbFam)
    /\ \A b \in SUBSET (0..(N - 1)) : \A c \in SUBSET b : SetBoundary(SetBoundary(S, c), b) = SetBoundary(S, b)

\* Merging one edge and then another, or the other way round, comes to the same: up to rounding for
\* independent errors, and for the smallest weight whenever the two differ.
Close(a, b) == AbsI(a - b) <= 2
MergeOrder ==
    \A j \in DOMAIN S.E, a, c \in Attrs :
       LET X(s, x) == Add(S, S.E[j].u, S.E[j].v, x, s, ProbFam)
           Y(s, x, y) == Add(X(s, x), S.E[j].u, S.E[j].v, y, s, ProbFam)
       IN /\ ProbFam /\ INDEPENDENT \in Strats =>
               LET p == Y(INDEPENDENT, a, c).E[j] q == Y(INDEPENDENT, c, a).E[j]
               IN Close(p.p, q.p) /\ Close(p.q, q.q) /\ p.obs = q.obs
          /\ a.a16 # c.a16 => Y(SMALLEST, a, c).E[j] = Y(SMALLEST, c, a).E[j]

\* The graph is its list of edges: adding them anew gives it back.
Rebuilt ==
    LET Put(Z, e) == [Z EXCEPT !.E = Append(@, e), !.n = MaxOf({@, e.u + 1, e.v + 1})]
    IN FoldLeft(Put, Empty(S.n, S.K), S.E).E = S.E
       /\ \A j \in DOMAIN S.E : S.E[j].exact =>
             LET e == S.E[j] IN Add(Empty(0, 0), e.u, e.v, [w |-> e.w, wi |-> e.wi, a16 |-> e.q \div (One \div 16),
                                    p16 |-> IF e.p < 0 THEN -1 ELSE e.p \div (One \div 16), obs |-> e.obs], DISALLOW, ProbFam).E
                = <<[e EXCEPT !.q = (@ \div (One \div 16)) * (One \div 16), !.p = IF @ < 0 THEN -1 ELSE (@ \div (One \div 16)) * (One \div 16)]>>
=============================================================================
