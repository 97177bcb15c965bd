---------------------------- MODULE AltTreeTrace ----------------------------
(***************************************************************************)
(* Recorded histories of alternating-tree operations against AltTree.      *)
(***************************************************************************)
EXTENDS AltTree, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, F

\* A dumped node: <<outer, inner, io, parent outer, pe, children, back pointers>>.
DumpForest(d) ==
    [roots |-> {d[j][1] : j \in {k \in DOMAIN d : d[k][4] = -1}},
     E     |-> UNION {IF d[j][4] = -1 THEN {} ELSE {<<d[j][2], d[j][1], d[j][3]>>, <<d[j][2], d[j][4], d[j][5]>>} : j \in DOMAIN d}]

\* Parent and child pointers mirror each other, with reversed labels.
DumpConsistent(d) ==
    /\ \A j \in DOMAIN d :
         /\ d[j][7] = 1
         /\ (d[j][4] = -1) = (d[j][2] = -1)
         /\ \A x, y \in DOMAIN d[j][6] : x # y => d[j][6][x][1] # d[j][6][y][1]
         /\ \A x \in DOMAIN d[j][6] :
              \E k \in DOMAIN d : d[k][1] = d[j][6][x][1] /\ d[k][4] = d[j][1] /\ d[k][5] = Rev(d[j][6][x][2])
    /\ \A j, k \in DOMAIN d : j # k => d[j][1] # d[k][1]
    /\ \A j \in DOMAIN d : d[j][4] # -1 =>
         \E k \in DOMAIN d : d[k][1] = d[j][4] /\ \E x \in DOMAIN d[k][6] : d[k][6][x][1] = d[j][1]
    \* the recorded "matched" edge of each node is the one that leads away from the root
    /\ \A G \in {DumpForest(d)} : IsForest(G) /\ \A P \in {Parents(G)} : \A j \in DOMAIN d : d[j][4] # -1 =>
            P[d[j][1]] = << <<d[j][2], d[j][1], d[j][3]>>, <<d[j][2], d[j][4], d[j][5]>> >>

NextForest(r) ==
    CASE r.op = "root"  -> BecomeRoot(F, r.a)
      [] r.op = "mrca"  -> F
      [] r.op = "prune" -> Prune(F, r.a, r.b)
      [] r.op = "add"   -> AddChild(F, r.a, r.i, r.o, r.e, r.io)

AnswerOK(r) ==
    CASE r.op = "mrca"  ->
           \A P \in {Parents(F)} :
           LET m == CommonAncestor(F, r.a, r.b)
               below(x) == IF m = -1 THEN ToSet(PathUp(P, x)) ELSE ToSet(Removed(P, x, m))
           IN /\ r.m = m
              \* breadcrumbs remain at most on the two paths strictly below the common ancestor
              /\ ToSet(r.v) \subseteq below(r.a) \cup below(r.b)
      [] r.op = "prune" ->
           \A P \in {Parents(F)} :
              /\ r.path = PrunedPath(P, r.a, r.b, r.back)
              /\ ToSet(r.orph) = Orphans(P, r.a, r.b) /\ Len(r.orph) = Cardinality(Orphans(P, r.a, r.b))
              /\ r.dangling = 0
      [] OTHER -> TRUE

StepOK(r) ==
    /\ AnswerOK(r)
    /\ \A G \in {NextForest(r)} : \A P \in {Parents(G)} :
          /\ DumpConsistent(r.f) /\ DumpForest(r.f) = G
          /\ r.qroot = Last(PathUp(P, r.q))
          /\ ToSet(r.qall) = TreeOf(P, r.q) /\ Len(r.qall) = Cardinality(TreeOf(P, r.q))

Init == i = 1 /\ F = [roots |-> {}, E |-> {}]
Next ==
    /\ i <= Len(Trace)
    /\ LET r == Trace[i]
       IN CASE r.kind = "begin" -> (DumpConsistent(r.f) = TRUE) /\ F' = DumpForest(r.f)
            [] r.kind = "step"  -> (StepOK(r) = TRUE) /\ F' = NextForest(r)
            [] OTHER -> FALSE
    /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, F>>

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
