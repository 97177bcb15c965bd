------------------------------ MODULE AltTree ------------------------------
(***************************************************************************)
(* Alternating trees, as undirected objects.                               *)
(*                                                                         *)
(* A forest is a record                                                    *)
(*    roots  a set of outer regions, one per tree                          *)
(*    E      a set of edges <<inner, outer, label>>; the label describes   *)
(*           the edge in the direction from the inner to the outer region  *)
(* Every inner region has exactly two edges.  Which of the two leads to    *)
(* the root (the "parent" edge) and which away from it (the "matched"      *)
(* edge) is determined by the root, so re-rooting changes nothing else.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Rev(l) == <<l[2], l[1], l[3]>>

Inners(F) == {e[1] : e \in F.E}
Outers(F) == F.roots \cup {e[2] : e \in F.E}

\* Outer regions at tree distance two, given through which inner region and edges.
Hops(F, o) == UNION {{<<x, y>> : y \in {z \in F.E : z[1] = x[1] /\ z[2] # o}} : x \in {z \in F.E : z[2] = o}}

\* parent pointers of all outer regions: breadth-first from the roots.
\* P[o] = <<>> for a root, <<io edge, parent edge>> otherwise.
RECURSIVE Spread(_, _, _)
Spread(F, P, front) ==
    IF front = {} THEN P
    ELSE LET new == UNION {{h \in Hops(F, o) : h[2][2] \notin DOMAIN P} : o \in front}
             P2  == TLCEval(P @@ [x \in {h[2][2] : h \in new} |->
                                   LET h == CHOOSE z \in new : z[2][2] = x IN <<h[2], h[1]>>])
         IN Spread(F, P2, {h[2][2] : h \in new})
Parents(F) == Spread(F, [r \in F.roots |-> <<>>], F.roots)

RECURSIVE PathUp(_, _)   \* the outer regions from o up to its root
PathUp(P, o) == IF P[o] = <<>> THEN <<o>> ELSE <<o>> \o PathUp(P, P[o][2][2])

IsForest(F) ==
    /\ \A i \in Inners(F) : Cardinality({e \in F.E : e[1] = i}) = 2
    /\ \A e1, e2 \in F.E : (e1[1] = e2[1] /\ e1[2] = e2[2]) => e1 = e2
    /\ Inners(F) \cap Outers(F) = {}
    /\ DOMAIN Parents(F) = Outers(F)
    \* exactly one inner region per non-root outer region: no cycles
    /\ Cardinality(Inners(F)) = Cardinality(Outers(F) \ F.roots)

TreeOf(P, o) == {x \in DOMAIN P : Last(PathUp(P, x)) = Last(PathUp(P, o))}

BecomeRoot(F, o) ==
    LET P == Parents(F) IN [F EXCEPT !.roots = (@ \ {Last(PathUp(P, o))}) \cup {o}]

\* Lowest common ancestor, -1 for different trees.
CommonAncestor(F, a, b) ==
    LET P == Parents(F)
        pa == PathUp(P, a)
        pb == ToSet(PathUp(P, b))
        C  == {j \in DOMAIN pa : pa[j] \in pb}
    IN IF C = {} THEN -1 ELSE pa[CHOOSE j \in C : \A k \in C : j <= k]

AddChild(F, o, i, o2, e, io) ==   \* e: label from o to i; io: label from i to o2
    [F EXCEPT !.E = @ \cup {<<i, o, Rev(e)>>, <<i, o2, io>>}]

\* The outer regions removed by pruning from o up to (not including) anc.
Removed(P, o, anc) ==
    LET p == TLCEval(PathUp(P, o))
        n == CHOOSE j \in DOMAIN p : p[j] = anc
    IN SubSeq(p, 1, n - 1)

\* The region edges along the pruned path: forward from o towards anc, or in the backward form.
PrunedPath(P, o, anc, back) ==
    LET rm == Removed(P, o, anc)
        two(x) == LET io == P[x][1] pe == P[x][2]
                  IN IF back = 1 THEN << <<io[1], io[3]>>, <<pe[2], Rev(pe[3])>> >>
                     ELSE << <<x, Rev(io[3])>>, <<io[1], pe[3]>> >>
    IN FlattenSeq([j \in DOMAIN rm |-> two(rm[j])])

\* The subtrees handed over: <<inner region, label from its former parent to it>>.
Orphans(P, o, anc) ==
    LET rm == ToSet(Removed(P, o, anc))
    IN {<<P[x][1][1], Rev(P[x][2][3])>> : x \in {y \in DOMAIN P : P[y] # <<>> /\ P[y][2][2] \in rm /\ y \notin rm}}

\* Prune, and hang the orphans on anc.
Prune(F, o, anc) ==
    LET P  == Parents(F)
        rm == ToSet(Removed(P, o, anc))
        ri == {P[x][1][1] : x \in rm}
        keep == {e \in F.E : e[1] \notin ri /\ e[2] \notin rm}
        moved == {<<e[1], anc, e[3]>> : e \in {x \in F.E : x[1] \notin ri /\ x[2] \in rm}}
    IN [F EXCEPT !.E = keep \cup moved]
=============================================================================
