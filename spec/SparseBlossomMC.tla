-------------------------- MODULE SparseBlossomMC --------------------------
(***************************************************************************)
(* The algorithm run on every small metric, with every order of            *)
(* simultaneous events.  Checked: the structure and the geometry stay in   *)
(* order, every run ends, and it ends with a pairing of minimum weight.    *)
(***************************************************************************)
EXTENDS SparseBlossom, Integers

CONSTANTS N,      \* number of detection events
          Dist,   \* the distances to choose from (even)
          BDist   \* the distances to the boundary to choose from (FAR: none)

S == 0..(N - 1)
VARIABLES F, G, next

vars == <<F, G, next>>

Plus(a, b) == IF a >= FAR \/ b >= FAR THEN FAR ELSE a + b
Pairs == {p \in S \X S : p[1] < p[2]}
Mk(f) == [s \in S |-> [t \in S |-> IF s = t THEN 0 ELSE IF s < t THEN f[<<s, t>>] ELSE f[<<t, s>>]]]
Metric(d) == \A a, b, c \in S : d[a][c] <= Plus(d[a][b], d[b][c])
\* boundary distances are shortest distances too
BMetric(d, db) == \A a, b \in S : db[a] <= Plus(d[a][b], db[b])

Init ==
    /\ F = Start(S)
    /\ \E f \in [Pairs -> Dist] : \E db \in [S -> BDist] :
          /\ Metric(Mk(f)) /\ BMetric(Mk(f), db)
          /\ G = [d |-> Mk(f), db |-> db]
    /\ next = 1000

E(s, t) == <<{s, t}, 0>>

\* Detection events whose surroundings touch, in different regions, one of them outer.
Touch(O) == {p \in S \X S : LET r == TopOf(F, p[1]) q == TopOf(F, p[2])
                            IN /\ r # q /\ Outer(O, r) /\ (Outer(O, q) \/ ~InTree(O, q))
                               /\ Covered(F, p[1], p[2]) = G.d[p[1]][p[2]]}
AtBoundary(O) == {s \in S : Outer(O, TopOf(F, s)) /\ Reach(F, s) = G.db[s]}
Empty(O) == {b \in DOMAIN F.cyc : F.par[b] = -1 /\ Inner(O, b) /\ F.rad[b] = 0}

Collide(O) ==
    \E p \in Touch(O) :
      LET r == TopOf(F, p[1])  q == TopOf(F, p[2])  e == E(p[1], p[2])
      IN IF ~InTree(O, q) THEN F' = HitMatch(F, O, r, q, e) /\ UNCHANGED next
         ELSE IF O[r].root # O[q].root THEN F' = HitOtherTree(F, O, r, q, e) /\ UNCHANGED next
         ELSE F' = HitSelf(F, O, r, q, e, next) /\ next' = next + 1
Bound(O) == \E s \in AtBoundary(O) : F' = HitBoundary(F, O, TopOf(F, s), <<{s, -1}, 0>>) /\ UNCHANGED next
Break(O) == \E b \in Empty(O) : F' = Shatter(F, O, b) /\ UNCHANGED next

\* Time passes until the next thing can happen.
Limits(O) ==
    {F.rad[r] : r \in {x \in Tops(F) : Inner(O, x)}}
    \cup {G.db[s] - Reach(F, s) : s \in {x \in S : Outer(O, TopOf(F, x)) /\ G.db[x] < FAR}}
    \cup {LET g == Growth(F, O, TopOf(F, p[1])) + Growth(F, O, TopOf(F, p[2]))
              sl == G.d[p[1]][p[2]] - Covered(F, p[1], p[2])
          IN IF g = 2 THEN sl \div 2 ELSE sl :
          p \in {x \in S \X S : x[1] < x[2] /\ TopOf(F, x[1]) # TopOf(F, x[2])
                                /\ Growth(F, O, TopOf(F, x[1])) + Growth(F, O, TopOf(F, x[2])) > 0
                                /\ G.d[x[1]][x[2]] < FAR}}

Advance(O) ==
    /\ Touch(O) = {} /\ AtBoundary(O) = {} /\ Empty(O) = {} /\ F.roots # {}
    /\ Limits(O) # {}
    /\ \A dt \in {Min(Limits(O))} :
         /\ dt > 0
         /\ F' = [F EXCEPT !.rad = [r \in DOMAIN @ |-> @[r] + dt * Growth(F, O, r)]]
    /\ UNCHANGED next

Next == (\E O \in {Orient(F)} : Collide(O) \/ Bound(O) \/ Break(O) \/ Advance(O)) /\ UNCHANGED G
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
WellFormed == \A O \in {Orient(F)} : StructureOK(F, O)
Feasible   == RadiiOK(F) /\ NoOverlap(F, G) /\ AllTight(F, G)
\* two growing regions are always an even distance apart: they meet at a whole time
EvenGaps == \A O \in {Orient(F)} : \A s, t \in S :
              (Outer(O, TopOf(F, s)) /\ Outer(O, TopOf(F, t)) /\ TopOf(F, s) # TopOf(F, t) /\ G.d[s][t] < FAR)
                => (G.d[s][t] - Covered(F, s, t)) % 2 = 0

\* The cheapest pairing by brute force.
RECURSIVE Cheapest(_)
Cheapest(R) ==
    IF R = {} THEN 0
    ELSE LET s == CHOOSE x \in R : TRUE
             opts == {Plus(G.db[s], Cheapest(R \ {s}))} \cup {Plus(G.d[s][t], Cheapest(R \ {s, t})) : t \in R \ {s}}
         IN Min(opts)

Done == F.roots = {}
Optimal == Done => SumRad(F, DOMAIN F.rad) = Cheapest(S)
\* When nothing is left to do, everything is matched or cannot be.
Stuck == ~ENABLED Next
Comp(s) == {u \in S : G.d[s][u] < FAR}
Left(s) == {r \in F.roots : F.leaf[r] \cap Comp(s) # {}}
NoFalseEnd == Stuck => \A s \in S : Cardinality(Left(s)) = (IF G.db[s] < FAR \/ Cardinality(Comp(s)) % 2 = 0 THEN 0 ELSE 1)
Ends1 == <>[](Stuck)
Terminates == <>(Done \/ Cheapest(S) >= FAR)
=============================================================================
