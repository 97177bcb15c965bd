----------------------------- MODULE Correlated -----------------------------
(***************************************************************************)
(* Correlated (two-pass) decoding.                                         *)
(*                                                                         *)
(* rules is a sequence of <<e, f, w>>: an error on edge e implies weight w *)
(* for edge f (e and f index g.edges).  The first pass picks any           *)
(* minimum-weight explanation S; the second pass decodes the graph in      *)
(* which every edge implied by an edge of S has the smallest of its own    *)
(* weight and its implied weights.                                         *)
(* Members of the crowd come after the edges: Len(g.edges) + m.            *)
(***************************************************************************)
EXTENDS MatchingGraph

OwnWeight(gr, f) == IF f <= Len(gr.edges) THEN gr.edges[f][3] ELSE gr.crowd[CrowdRun(gr, f - Len(gr.edges))][2]

\* Weight of edge f after the edges in S (a set of indices) were found.
ReweightOf(gr, rules, S, f) ==
    MinOf({OwnWeight(gr, f)} \cup {rules[j][3] : j \in {k \in DOMAIN rules : rules[k][2] = f /\ rules[k][1] \in S}})

Reweighted(gr, rules, S) ==
    [gr EXCEPT !.edges = [f \in DOMAIN gr.edges |-> [gr.edges[f] EXCEPT ![3] = ReweightOf(gr, rules, S, f)]]]

\* What the first t members of the crowd add to the weight after the edges in S were found.
CrowdAfter(gr, rules, S, t) ==
    LET L == Len(gr.edges)
        F == {rules[j][2] : j \in {k \in DOMAIN rules : rules[k][2] > L /\ rules[k][2] <= L + t /\ rules[k][1] \in S}}
    IN CrowdWeight(gr, t) + SumOf(SetToSeq(F), LAMBDA f : ReweightOf(gr, rules, S, f) - OwnWeight(gr, f))

\* All edge subsets as <<flip pattern of the detectors, weight, subset>>.
Subsets(gr) ==
    LET dm(e) == (Pow2[e[1]] ^^ (IF e[2] = -1 THEN 0 ELSE Pow2[e[2]]))
    IN FoldLeft(LAMBDA acc, j : acc \o [x \in DOMAIN acc |->
                     <<acc[x][1] ^^ dm(gr.edges[j]), acc[x][2] + gr.edges[j][3], acc[x][3] \cup {j}>>],
                << <<0, 0, {}>> >>, [j \in DOMAIN gr.edges |-> j])

FirstPassSets(subs, s, best) ==
    {subs[x][3] : x \in {y \in DOMAIN subs : subs[y][1] = s /\ subs[y][2] = best}}

\* The reweighted graphs a correlated decode of s (and t members of the crowd) may end up with, and what the
\* crowd then adds to the weight.
SecondPasses(gr, rules, subs, s, best, t) ==
    LET members == {Len(gr.edges) + m : m \in 1..t}
    IN {<<Reweighted(gr, rules, S \cup members), CrowdAfter(gr, rules, S \cup members, t)>> : S \in FirstPassSets(subs, s, best)}
=============================================================================
