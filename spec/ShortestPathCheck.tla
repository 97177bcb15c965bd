------------------------- MODULE ShortestPathCheck -------------------------
(* Model check of ShortestPath: on every small graph the relaxed distances are the minimum over all    *)
(* simple paths, and a path accepted as shortest exists exactly when a query is answerable.             *)
EXTENDS ShortestPath

CONSTANTS N, W

VARIABLE g

Pairs == {<<u, v>> \in (0..(N-1)) \X (-1..(N-1)) : u > v}
PairSeq == SetToSeq(Pairs)

Init == \E ch \in [1..Len(PairSeq) -> W \cup {99}], b \in SUBSET {0} :
          g = [n |-> N, k |-> 0, b |-> SetToSeq(b),
               edges |-> FoldLeft(LAMBDA acc, j : IF ch[j] = 99 THEN acc
                                    ELSE Append(acc, <<PairSeq[j][1], PairSeq[j][2], ch[j], <<>>>>),
                                  <<>>, [j \in 1..Len(PairSeq) |-> j])]
Next == UNCHANGED g
Spec == Init /\ [][Next]_g

SimplePaths == {p \in SeqOf(0..(N-1), N) : p # <<>> /\ (\A x, y \in DOMAIN p : x # y => p[x] # p[y])}

DistancesRight ==
    LET eff == EffEdges(g)
    IN \A s, t \in {v \in 0..(N-1) : ~IsBoundary(g, v)} :
         LET ps == {p \in SimplePaths : p[1] = s /\ p[Len(p)] = t /\ \A j \in DOMAIN p : ~IsBoundary(g, p[j])}
             m  == MinOf({PathWeight(eff, p) : p \in ps} \cup {INF})
         IN /\ DistFrom(g, eff, s)[t] = m
            /\ Answerable(g, eff, s, t) <=> \E p \in ps : IsShortestPath(g, eff, p, s, t)

BoundaryDistancesRight ==
    LET eff == EffEdges(g)
    IN \A s \in {v \in 0..(N-1) : ~IsBoundary(g, v)} :
         LET ps == {p \in SimplePaths : p[1] = s /\ \A j \in DOMAIN p : ~IsBoundary(g, p[j])}
             m  == MinOf({LET a == PathWeight(eff, p) b == EffWeight(eff, p[Len(p)], -1)
                          IN IF a = INF \/ b = INF THEN INF ELSE a + b : p \in ps} \cup {INF})
         IN /\ DistToBoundary(g, eff)[s] = m
            /\ Answerable(g, eff, s, -1) <=> \E p \in ps : IsShortestPath(g, eff, p, s, -1)
=============================================================================
