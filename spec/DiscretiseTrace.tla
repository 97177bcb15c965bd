-------------------------- MODULE DiscretiseTrace --------------------------
(***************************************************************************)
(* Recorded conversions and decodes of graphs with real weights against    *)
(* Discretise, and the reported weights against MatchingGraph.             *)
(***************************************************************************)
EXTENDS Discretise, IOUtils, Json, TLC, SequencesExt, Bitwise

G == INSTANCE MatchingGraph
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Ends(e) == {e[1], e[2]}

\* Where the stored graph keeps edge j: its entries [u, v, weight].
Entries(L, e) == {x \in DOMAIN L : (L[x][1] = e[1] /\ L[x][2] = e[2]) \/ (e[2] # -1 /\ L[x][1] = e[2] /\ L[x][2] = e[1])}

\* Magnitude of edge e in a stored graph; all its entries must agree and be even.
StoredOK(L, e) ==
    LET X == Entries(L, e)
    IN /\ Cardinality(X) = IF e[2] = -1 THEN 1 ELSE IF e[1] = e[2] THEN Cardinality(X) ELSE 2
       /\ \A x, y \in X : L[x][3] = L[y][3] /\ L[x][3] % 2 = 0
Magnitude(L, e) == LET X == Entries(L, e) IN IF X = {} THEN -1 ELSE L[CHOOSE x \in X : TRUE][3] \div 2

Signed(h, m) == IF m < 0 THEN -h ELSE h

RuleSet(r, H) ==     \* H: half weight of each rule
    UNION { LET e == r.edges[r.rules[x][1]]  t == r.edges[r.rules[x][2]]
            IN {<<u, v, t, x>> : <<u, v>> \in {<<e[1], e[2]>>} \cup (IF e[2] = -1 THEN {} ELSE {<<e[2], e[1]>>})}
            : x \in DOMAIN r.rules }

\* Stored rules: for every rule, an entry under both directions of its edge that names the target edge
\* (both directions) with an acceptable value; and nothing else.
RulesOK(r, L, M, integral) ==
    LET want == RuleSet(r, <<>>)
    IN /\ Len(L) = Cardinality(want)
       /\ \A w \in want :
            \E x \in DOMAIN L :
               /\ L[x][1] = w[1] /\ L[x][2] = w[2]
               /\ {L[x][3], L[x][4]} = Ends(w[3])
               /\ IF w[3][2] = -1 THEN L[x][5] = -2 ELSE <<L[x][5], L[x][6]>> = <<L[x][4], L[x][3]>>
               /\ L[x][7] % 2 = 0
               /\ HalfOK(L[x][7] \div 2, r.rules[w[4]][3], r.s, M, r.nd, integral)

EvMask(evs) == FoldLeft(LAMBDA a, d : a ^^ G!Pow2[d], 0, evs)

CallOK(r, c, H, T) ==
    LET idx(p) == {j \in DOMAIN r.edges : Ends(r.edges[j]) = {p[1], p[2]}}
        E(p)   == CHOOSE j \in idx(p) : TRUE
    IN /\ c.s1 = c.s2
       /\ c.s1 = 0 =>
            /\ \A x \in DOMAIN c.l : Cardinality(idx(c.l[x])) = 1
            \* the edges explain the events
            /\ \A d \in 0..(r.n - 1) :
                 Cardinality({x \in DOMAIN c.l : d \in {c.l[x][1], c.l[x][2]} /\ c.l[x][1] # c.l[x][2]}) % 2
                   = Cardinality({x \in DOMAIN c.ev : c.ev[x] = d}) % 2
            \* the reported weight is their sum
            /\ c.W = FoldLeft(LAMBDA a, p : WAdd(a, WOf(2 * H[E(p)])), WZero, c.l)
       /\ r.small = 1 =>
            LET best == T[EvMask(c.ev)]
            IN IF best >= G!INF THEN c.s1 = 1 ELSE c.s1 = 0 /\ c.W = WDouble(WOf(best))

DiscOK(r) ==
    \A M \in {FoldLeft(LAMBDA a, x : IF AbsI(x[3]) > a THEN AbsI(x[3]) ELSE a, 0, r.edges \o r.rules)} :
    \A integral \in {\A x \in DOMAIN (r.edges \o r.rules) : IsInt((r.edges \o r.rules)[x][3], r.s)} :
      IF TooLarge(M, r.s) THEN r.st = 1
      ELSE /\ r.st = 0
           /\ IF integral THEN r.norm2 = 1
              ELSE WLe(WAbs(WSub(r.scaled, WMul(r.nd - 1, 1024))), WOf(1))
           /\ \A j \in DOMAIN r.edges : StoredOK(r.mg, r.edges[j]) /\ StoredOK(r.sg, r.edges[j])
           /\ \A H \in {[j \in DOMAIN r.edges |-> Signed(Magnitude(r.mg, r.edges[j]), r.edges[j][3])]} :
                /\ \A j \in DOMAIN r.edges :
                     /\ HalfOK(H[j], r.edges[j][3], r.s, M, r.nd, integral)
                     /\ AbsI(H[j]) = Magnitude(r.sg, r.edges[j])
                \* equal weights stay equal
                /\ \A j, k \in DOMAIN r.edges : r.edges[j][3] = r.edges[k][3] => H[j] = H[k]
                /\ r.neg = FoldLeft(LAMBDA a, j : IF H[j] < 0 THEN WAdd(a, WOf(2 * H[j])) ELSE a, WZero,
                                    [j \in DOMAIN r.edges |-> j])
                /\ RulesOK(r, r.mr, M, integral) /\ RulesOK(r, r.sr, M, integral)
                /\ \A g \in {[n |-> r.n, b |-> <<>>, k |-> 0, K |-> 0,
                              edges |-> [j \in DOMAIN r.edges |-> <<r.edges[j][1], r.edges[j][2], H[j], <<>>>>]]} :
                   \A T \in {IF r.small = 1 THEN G!MinTable(g, g.edges) ELSE <<>>} :
                     \A c \in DOMAIN r.calls : CallOK(r, r.calls[c], H, T)

Init == i = 1
Next == i <= Len(Trace) /\ (LET r == Trace[i] IN r.kind = "disc" /\ (DiscOK(r) = TRUE)) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
