------------------------ MODULE MatchingGraphCheck ------------------------
(***************************************************************************)
(* Model check of MatchingGraph itself: for every small graph, the table   *)
(* computed edge by edge (MinTable) is the minimum over all edge subsets,  *)
(* and the effective graph means the same as the user's graph in which a   *)
(* boundary node is simply a node whose flips are not looked at.           *)
(***************************************************************************)
EXTENDS MatchingGraph

CONSTANTS N, W, Shift, Bs   \* nodes, weights (reduced by Shift), possible boundary sets

VARIABLE g

Pairs == {<<u, v>> \in (0..(N-1)) \X (-1..(N-1)) : u > v}
PairSeq == SetToSeq(Pairs)

Choice == {<<>>} \cup {<<w - Shift, l>> : w \in W, l \in {<<>>, <<0>>}}

GraphOf(ch, b) ==
    [n |-> N, k |-> 1, b |-> b,
     edges |-> FoldLeft(LAMBDA acc, j : IF ch[j] = <<>> THEN acc
                                          ELSE Append(acc, <<PairSeq[j][1], PairSeq[j][2], ch[j][1], ch[j][2]>>),
                        <<>>, [j \in 1..Len(PairSeq) |-> j])]

Init == \E ch \in [1..Len(PairSeq) -> Choice], b \in Bs : g = GraphOf(ch, SetToSeq(b))
Next == UNCHANGED g
Spec == Init /\ [][Next]_g

-----------------------------------------------------------------------------
\* The definition: minimise over all subsets of the user's edges, looking only at real detectors.
Detectors == {d \in 0..(N-1) : ~IsBoundary(g, d)}
FlipOf(S, d) == Cardinality({j \in S : (g.edges[j][1] = d) # (g.edges[j][2] = d)}) % 2
LabelOf(S)   == Cardinality({j \in S : g.edges[j][4] # <<>>}) % 2
WeightOf(S)  == FoldLeft(LAMBDA a, j : a + g.edges[j][3], 0, SetToSeq(S))
Pattern(S)   == <<{d \in Detectors : FlipOf(S, d) = 1}, LabelOf(S)>>

MaskOf(p) == FoldLeft(LAMBDA a, d : a + Pow2[d], 0, SetToSeq(p[1])) + p[2] * Pow2[N]

NoBoundaryMerge == \A i, j \in DOMAIN g.edges : i # j /\ BoundaryDet(g, g.edges[i]) # -1
                       => BoundaryDet(g, g.edges[i]) # BoundaryDet(g, g.edges[j])
NoDoubleBoundary == \A i \in DOMAIN g.edges : ~(IsBoundary(g, g.edges[i][1]) /\ IsBoundary(g, g.edges[i][2]))

\* With at most one boundary edge per detector the effective graph is exactly the user's graph.
TableIsMinimum ==
    (NoBoundaryMerge /\ NoDoubleBoundary) =>
      LET T  == MinTable(g, EffEdges(g))
          ps == {<<Pattern(S), WeightOf(S)>> : S \in SUBSET DOMAIN g.edges}
      IN \A D \in SUBSET Detectors, l \in {0, 1} :
            LET ws == {x[2] : x \in {y \in ps : y[1] = <<D, l>>}}
            IN T[MaskOf(<<D, l>>)] = IF ws = {} THEN INF ELSE MinOf(ws)

\* Always: every detector has at most one effective boundary edge, and it is one of the lightest.
EffShape ==
    LET es == EffEdges(g)
    IN \A i \in DOMAIN es :
         /\ es[i][1] \in Detectors /\ (es[i][2] = -1 \/ es[i][2] \in Detectors)
         /\ es[i][2] = -1 =>
              /\ \A j \in DOMAIN es : (j # i /\ es[j][2] = -1) => es[j][1] # es[i][1]
              /\ \A j \in DOMAIN g.edges : BoundaryDet(g, g.edges[j]) = es[i][1] => g.edges[j][3] >= es[i][3]

\* A node with a single edge and no detection event might as well not be there.
LeavesDoNotMatter ==
    \A d \in Detectors : Cardinality({j \in DOMAIN g.edges : d \in {g.edges[j][1], g.edges[j][2]}}) = 1 =>
      LET h == [g EXCEPT !.edges = SelectSeq(g.edges, LAMBDA e : d \notin {e[1], e[2]})]
          T == MinTable(g, EffEdges(g))
          U == MinTable(h, EffEdges(h))
      IN \A D \in SUBSET (Detectors \ {d}), l \in {0, 1} : T[MaskOf(<<D, l>>)] = U[MaskOf(<<D, l>>)]

\* An edge that stands alone is used exactly if its nodes have detection events, and adds its weight and labels.
AloneAddsUp ==
    \A j \in DOMAIN g.edges :
      LET e == g.edges[j]
          E == {e[1], e[2]} \cap Detectors
          h == [g EXCEPT !.edges = SelectSeq(g.edges, LAMBDA f : f # e)]
          T == MinTable(g, EffEdges(g))
          U == MinTable(h, EffEdges(h))
      IN (E # {} /\ \A i \in DOMAIN g.edges : i # j => {g.edges[i][1], g.edges[i][2]} \cap E = {}) =>
         \A D \in SUBSET (Detectors \ E), l \in {0, 1} :
            LET m == IF e[4] = <<>> THEN l ELSE 1 - l
                u == U[MaskOf(<<D, l>>)]
            IN /\ T[MaskOf(<<D \cup E, m>>)] = IF u = INF THEN INF ELSE u + e[3]
               /\ T[MaskOf(<<D, l>>)] = u

\* A node without detection event that has exactly two edges: the two might as well be one.
ChainsCollapse ==
    \A d \in Detectors :
      LET J == {j \in DOMAIN g.edges : d \in {g.edges[j][1], g.edges[j][2]}}
          Other(e) == IF e[1] = d THEN e[2] ELSE e[1]
      IN Cardinality(J) = 2 =>
         \A i, j \in J : i < j =>
           LET e == g.edges[i]
               f == g.edges[j]
               a == Other(e)
               b == Other(f)
               bnd(x) == x = -1 \/ IsBoundary(g, x)
               rest == SelectSeq(g.edges, LAMBDA x : d \notin {x[1], x[2]})
               h == [g EXCEPT !.edges = Append(rest, IF a = -1 THEN <<b, a, e[3] + f[3], e[4] \o f[4]>>
                                                     ELSE <<a, b, e[3] + f[3], e[4] \o f[4]>>)]
               T == MinTable(g, EffEdges(g))
               U == MinTable(h, EffEdges(h))
           IN \* the two do not become parallel to another edge, and do not join two boundary nodes
              (/\ ~(bnd(a) /\ bnd(b))
               /\ \A k \in DOMAIN rest :
                    LET x == {rest[k][1], rest[k][2]}
                    IN /\ x # {a, b}
                       /\ bnd(a) => ~(b \in x /\ \E y \in x : bnd(y))
                       /\ bnd(b) => ~(a \in x /\ \E y \in x : bnd(y))) =>
              \A D \in SUBSET (Detectors \ {d}), l \in {0, 1} : T[MaskOf(<<D, l>>)] = U[MaskOf(<<D, l>>)]
=============================================================================
