--------------------------- MODULE SparseBlossom ---------------------------
(***************************************************************************)
(* The matching algorithm, one level above the flooding of the graph.      *)
(*                                                                         *)
(* Regions are identified by integers: 0, 1, ... are the detection events  *)
(* themselves (by their node), larger numbers are blossoms.                *)
(*                                                                         *)
(* An edge is a pair <<{s, t}, label>> of two detection events (t = -1 for *)
(* the boundary) and the label of a path between them.  It joins whatever  *)
(* regions s and t belong to.                                              *)
(*                                                                         *)
(* State F:                                                                *)
(*   par    [region -> blossom it is part of, -1 at top level]             *)
(*   leaf   [region -> detection events inside]                            *)
(*   rad    [region -> radius]                                             *)
(*   cyc    [blossom -> edges that join its children in a cycle]           *)
(*   match  edges between matched top-level regions                        *)
(*   tree   edges of the alternating trees                                 *)
(*   roots  the roots of the trees                                         *)
(*                                                                         *)
(* Geometry G: d[s][v] distances from detection events, db[v] distances to *)
(* the boundary.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

FAR == 1000000000

Regions(F) == DOMAIN F.par
Tops(F)    == {r \in DOMAIN F.par : F.par[r] = -1}
TopOf(F, s) == CHOOSE r \in DOMAIN F.par : F.par[r] = -1 /\ s \in F.leaf[r]
Ends(F, e) == {TopOf(F, s) : s \in e[1] \ {-1}}
IsBlossom(F, r) == r \in DOMAIN F.cyc

Start(S) ==
    [par |-> [s \in S |-> -1], leaf |-> [s \in S |-> {s}], rad |-> [s \in S |-> 0],
     cyc |-> [x \in {} |-> {}], match |-> {}, tree |-> {}, roots |-> S]

(***************************************************************************)
(* Orientation of the trees: for each region in a tree its root, depth,    *)
(* parent region and the edge to it.  Even depth: outer.  Odd: inner.      *)
(***************************************************************************)
RECURSIVE OrientFrom(_, _)
OrientFrom(arcs, O) ==
    LET new == {a \in arcs : a[1] \in DOMAIN O /\ a[2] \notin DOMAIN O}
    IN IF new = {} THEN O
       ELSE OrientFrom(arcs,
              TLCEval(O @@ [x \in {a[2] : a \in new} |->
                      LET a == CHOOSE b \in new : b[2] = x
                      IN [root |-> O[a[1]].root, depth |-> O[a[1]].depth + 1, from |-> a[1], up |-> a[3]]]))

NoEdge == <<{}, 0>>
Orient(F) ==
    LET ends == TLCEval([e \in F.tree |-> Ends(F, e)])
        arcs == TLCEval(UNION {{<<x, y, e>> : <<x, y>> \in {p \in ends[e] \X ends[e] : p[1] # p[2]}} : e \in F.tree})
    IN OrientFrom(arcs, [r \in F.roots |-> [root |-> r, depth |-> 0, from |-> -1, up |-> NoEdge]])

InTree(O, r) == r \in DOMAIN O
Outer(O, r)  == r \in DOMAIN O /\ O[r].depth % 2 = 0
Inner(O, r)  == r \in DOMAIN O /\ O[r].depth % 2 = 1

\* Rate of growth.
Growth(F, O, r) == IF F.par[r] # -1 THEN 0 ELSE IF Outer(O, r) THEN 1 ELSE IF Inner(O, r) THEN -1 ELSE 0

RECURSIVE PathUp(_, _)
PathUp(O, r) == IF O[r].depth = 0 THEN {} ELSE {O[r].up} \cup PathUp(O, O[r].from)

-----------------------------------------------------------------------------
\* Structural effect of each event.

TreeRegions(O, root) == {r \in DOMAIN O : O[r].root = root}
TreeEdges(O, root)   == {O[r].up : r \in {x \in DOMAIN O : O[x].root = root /\ O[x].depth > 0}}
\* inner regions are tentatively matched to their child
InnerOuter(O, root)  == {O[r].up : r \in {x \in DOMAIN O : O[x].root = root /\ O[x].depth > 0 /\ O[x].depth % 2 = 0}}

\* The tree of outer region r comes apart: everything in it is matched within it, except r.
Dissolve(F, O, r) ==
    LET root == O[r].root
    IN [F EXCEPT !.match = @ \cup SymDiff(InnerOuter(O, root), PathUp(O, r)),
                 !.tree  = @ \ TreeEdges(O, root),
                 !.roots = @ \ {root}]

HitBoundary(F, O, r, e) == [Dissolve(F, O, r) EXCEPT !.match = @ \cup {e}]

HitOtherTree(F, O, r1, r2, e) ==
    [Dissolve(Dissolve(F, O, r1), O, r2) EXCEPT !.match = @ \cup {e}]

MatchOf(F, r) == CHOOSE m \in F.match : r \in Ends(F, m)

HitMatch(F, O, r1, r2, e) ==
    LET m == MatchOf(F, r2)
    IN IF -1 \in m[1] THEN [Dissolve(F, O, r1) EXCEPT !.match = (@ \ {m}) \cup {e}]
       ELSE [F EXCEPT !.tree = @ \cup {e, m}, !.match = @ \ {m}]

\* Two outer regions of one tree meet: the cycle becomes blossom b.
HitSelf(F, O, r1, r2, e, b) ==
    LET P    == SymDiff(PathUp(O, r1), PathUp(O, r2))
        kids == {r1, r2} \cup UNION {Ends(F, x) : x \in P}
        root == O[r1].root
    IN [F EXCEPT !.par   = (b :> -1) @@ [r \in DOMAIN @ |-> IF r \in kids THEN b ELSE @[r]],
                 !.leaf  = (b :> UNION {F.leaf[r] : r \in kids}) @@ @,
                 !.rad   = (b :> 0) @@ @,
                 !.cyc   = (b :> (P \cup {e})) @@ @,
                 !.tree  = @ \ P,
                 !.roots = IF root \in kids THEN (@ \ {root}) \cup {b} ELSE @]

Kids(F, b)     == {r \in DOMAIN F.par : F.par[r] = b}
KidOf(F, b, e) == CHOOSE r \in Kids(F, b) : (F.leaf[r] \cap e[1]) # {}     \* for an edge with one end in b
KidsOn(F, b, e) == {r \in Kids(F, b) : (F.leaf[r] \cap e[1]) # {}}
Without(f, x)  == [y \in DOMAIN f \ {x} |-> f[y]]

\* The edges of the cycle of b from child k, starting with edge e, up to child t.
RECURSIVE Arc(_, _, _, _, _)
Arc(F, b, k, e, t) ==
    LET k2 == CHOOSE x \in KidsOn(F, b, e) : x # k
    IN IF k2 = t THEN <<e>>
       ELSE <<e>> \o Arc(F, b, k2, CHOOSE x \in F.cyc[b] : x # e /\ k2 \in KidsOn(F, b, x), t)

ChildEdge(F, O, b) == CHOOSE e \in F.tree : e # O[b].up /\ b \in Ends(F, e)

\* The children of a shattering blossom at which its tree parent and its tree child are attached.
InParent(F, O, b) == KidOf(F, b, O[b].up)
InChild(F, O, b)  == KidOf(F, b, ChildEdge(F, O, b))

Shatter(F, O, b) ==
    LET kp == InParent(F, O, b)
        kc == InChild(F, O, b)
        at == {e \in F.cyc[b] : kp \in KidsOn(F, b, e)}
        arcs == {Arc(F, b, kp, e, kc) : e \in at}
        odd == CHOOSE a \in arcs : Len(a) % 2 = 1
        evens == {a \in arcs : Len(a) % 2 = 0}
        X == IF kp = kc THEN {} ELSE LET a == CHOOSE x \in evens : TRUE IN {a[j] : j \in DOMAIN a}
        N == {odd[j] : j \in {x \in DOMAIN odd : x % 2 = 0}}
    IN [F EXCEPT !.par  = [r \in DOMAIN @ \ {b} |-> IF F.par[r] = b THEN -1 ELSE @[r]],
                 !.leaf = Without(@, b), !.rad = Without(@, b), !.cyc = Without(@, b),
                 !.tree = @ \cup X, !.match = @ \cup N]

-----------------------------------------------------------------------------
\* Geometry.

SumRad(F, R) == FoldSet(LAMBDA r, a : a + F.rad[r], 0, R)
\* How far the surroundings of s reach (in all, and those that do not contain t).
Reach(F, s)         == SumRad(F, {r \in DOMAIN F.leaf : s \in F.leaf[r]})
ReachWithout(F, s, t) == SumRad(F, {r \in DOMAIN F.leaf : s \in F.leaf[r] /\ t \notin F.leaf[r]})
Covered(F, s, t)    == ReachWithout(F, s, t) + ReachWithout(F, t, s)

Sources(F) == {r \in DOMAIN F.leaf : F.leaf[r] = {r}}

RadiiOK(F) == \A r \in DOMAIN F.rad : F.rad[r] >= 0
\* nothing overlaps beyond touching
NoOverlap(F, G) == \A S \in {TLCEval(Sources(F))} :
                      /\ \A s, t \in S : s < t => Covered(F, s, t) <= G.d[s][t]
                      /\ \A s \in S : Reach(F, s) <= G.db[s]
EdgeTight(F, G, e) ==
    IF -1 \in e[1] THEN LET s == CHOOSE x \in e[1] : x # -1 IN Reach(F, s) = G.db[s]
    ELSE Cardinality(e[1]) = 2 /\ \E s, t \in e[1] : s # t /\ Covered(F, s, t) = G.d[s][t]
AllTight(F, G) ==
    /\ \A e \in F.match \cup F.tree : EdgeTight(F, G, e)
    /\ \A b \in DOMAIN F.cyc : \A e \in F.cyc[b] : EdgeTight(F, G, e)

-----------------------------------------------------------------------------
\* Structure.

BlossomOK(F, b) ==
    LET K == Kids(F, b)
    IN /\ Cardinality(K) % 2 = 1 /\ Cardinality(K) >= 3
       /\ F.leaf[b] = UNION {F.leaf[k] : k \in K}
       /\ Cardinality(F.cyc[b]) = Cardinality(K)
       /\ \A e \in F.cyc[b] : Cardinality(KidsOn(F, b, e)) = 2
       /\ \A k \in K : Cardinality({e \in F.cyc[b] : k \in KidsOn(F, b, e)}) = 2
       \* one cycle, not several
       /\ LET k == CHOOSE x \in K : TRUE
              e == CHOOSE x \in F.cyc[b] : k \in KidsOn(F, b, x)
          IN Len(Arc(F, b, k, e, k)) = Cardinality(K)

StructureOK(F, O) ==
    /\ \A b \in DOMAIN F.cyc : BlossomOK(F, b)
    /\ \A r, q \in Tops(F) : r # q => F.leaf[r] \cap F.leaf[q] = {}
    /\ UNION {F.leaf[r] : r \in Tops(F)} = Sources(F)
    /\ F.roots \subseteq Tops(F) /\ DOMAIN O \subseteq Tops(F)
    \* no cycles, nothing apart from the roots
    /\ Cardinality(F.tree) = Cardinality(DOMAIN O) - Cardinality(F.roots)
    /\ \A r \in DOMAIN O : Inner(O, r) => Cardinality({q \in DOMAIN O : O[q].from = r}) = 1
    \* every other top-level region has exactly one partner
    /\ \A m \in F.match : Cardinality(Ends(F, m)) = (IF -1 \in m[1] THEN 1 ELSE 2)
    /\ \A r \in Tops(F) : Cardinality({m \in F.match : r \in Ends(F, m)}) = (IF InTree(O, r) THEN 0 ELSE 1)
=============================================================================
