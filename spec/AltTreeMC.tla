----------------------------- MODULE AltTreeMC -----------------------------
(***************************************************************************)
(* Model check of AltTree: all forests reachable with up to Nodes double   *)
(* nodes.                                                                  *)
(***************************************************************************)
EXTENDS AltTree

CONSTANTS Nodes, Roots

VARIABLES F, n      \* n: regions used so far

Init == F = [roots |-> 1..Roots, E |-> {}] /\ n = Roots

Add == \E o \in Outers(F) :
         /\ n + 2 <= Roots + 2 * Nodes
         /\ F' = AddChild(F, o, n + 1, n + 2, <<n, 0, 0>>, <<0, n, 0>>)
         /\ n' = n + 2
Reroot == \E o \in Outers(F) : F' = BecomeRoot(F, o) /\ UNCHANGED n
Cut == \E o \in Outers(F) : LET P == Parents(F) IN
         \E a \in ToSet(PathUp(P, o)) : F' = Prune(F, o, a) /\ UNCHANGED n
Next == Add \/ Reroot \/ Cut
Spec == Init /\ [][Next]_<<F, n>>

WellFormed == IsForest(F)

\* Re-rooting: the same regions and edges; off the path nothing changes; on the path the matched edge
\* of each inner region becomes the parent edge and vice versa.
RerootAlternates ==
    \A P \in {Parents(F)} : \A o \in Outers(F) : \A G \in {BecomeRoot(F, o)} : \A Q \in {Parents(G)} :
       LET path == PathUp(P, o)
           on   == ToSet(path)
       IN /\ G.E = F.E /\ Outers(G) = Outers(F) /\ Inners(G) = Inners(F)
          /\ \A x \in Outers(F) \ on : Q[x] = P[x]
          /\ \A j \in 1..(Len(path) - 1) : Q[path[j + 1]] = <<P[path[j]][2], P[path[j]][1]>>
          /\ Q[o] = <<>>

AncestorIsLowest ==
    \A P \in {Parents(F)} : \A a, b \in Outers(F) :
       LET m == CommonAncestor(F, a, b)
           both == ToSet(PathUp(P, a)) \cap ToSet(PathUp(P, b))
       IN IF both = {} THEN m = -1
          ELSE m \in both /\ \A x \in both : x \in ToSet(PathUp(P, m))

PruneKeepsTheRest ==
    \A P \in {Parents(F)} : \A o \in Outers(F) : \A a \in ToSet(PathUp(P, o)) :
       LET G == Prune(F, o, a)
           rm == Removed(P, o, a)
           pp == PrunedPath(P, o, a, 0)
           pb == PrunedPath(P, o, a, 1)
       IN /\ Outers(G) = Outers(F) \ ToSet(rm)
          /\ Len(pp) = 2 * Len(rm) /\ Len(pb) = Len(pp)
          \* forward: the regions from o to just below a, each with an edge to the next
          /\ \A j \in 1..Len(rm) : pp[2*j - 1][1] = rm[j] /\ pp[2*j][1] = P[rm[j]][1][1]
          \* backward: the same edges reversed, seen from the other end
          /\ \A j \in DOMAIN pp : pb[j][2] = Rev(pp[j][2])
          /\ {x[1] : x \in Orphans(P, o, a)} \cap {p[1] : p \in ToSet(pp)} = {}
=============================================================================
