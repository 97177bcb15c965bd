------------------------- MODULE SparseBlossomTrace -------------------------
(***************************************************************************)
(* Recorded decodes, event by event, against SparseBlossom.                *)
(*                                                                         *)
(* Prop = "C12": the structure (trees, matches, blossoms) is well formed   *)
(* after every step and changes exactly as the event prescribes.           *)
(* Prop = "C11": the geometry (radii, ownership, collisions, labels) is    *)
(* right at every step.                                                    *)
(* Prop = "C01" ... "C08": the answers of the decoding functions, on        *)
(* graphs far too large for enumeration, against the radii at the end of   *)
(* the run: radii that nowhere overlap bound every explanation from below  *)
(* (weak duality), so an explanation of that weight is optimal.            *)
(***************************************************************************)
EXTENDS SparseBlossom, IOUtils, Json, Bitwise, SequencesExt

CONSTANT Prop
M == INSTANCE ShortestPath

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,    \* next record
          F,    \* state of the algorithm
          t,    \* time
          G     \* geometry of the graph of this run

-----------------------------------------------------------------------------
\* Geometry of a graph: distances and the labels of shortest paths.

Bits(labels) == FoldLeft(LAMBDA a, c : a ^^ M!Pow2[c], 0, labels)
\* the decoder works on doubled absolute weights
Mag(x) == IF x < 0 THEN -x ELSE x
Doubled(eff) == [j \in DOMAIN eff |-> <<eff[j][1], eff[j][2], 2 * Mag(eff[j][3]), Bits(eff[j][4])>>]

\* All labels of shortest paths, by growing a set per node along edges that are tight.
RECURSIVE LabelsFix(_, _, _, _)
LabelsFix(adj, D, P, changed) ==
    IF changed = {} THEN P
    ELSE LET arcs == TLCEval(UNION {{<<u, a[1], a[3]>> : a \in {b \in adj[u] : D[u] + b[2] = D[b[1]]}} : u \in changed})
             into == TLCEval({a[2] : a \in arcs})
             Q == TLCEval([v \in DOMAIN P |-> IF v \in into THEN P[v] \cup UNION {{x ^^ a[3] : x \in P[a[1]]} : a \in {b \in arcs : b[2] = v}}
                                              ELSE P[v]])
         IN LabelsFix(adj, D, Q, {v \in into : Q[v] # P[v]})

Labels(adj, D, P) == LabelsFix(adj, D, TLCEval(P), {v \in DOMAIN P : P[v] # {}})

Far(D) == TLCEval([v \in DOMAIN D |-> IF D[v] >= M!INF THEN FAR ELSE D[v]])

Odd(n) == n % 2 = 1
Degree(es, v) == Cardinality({j \in DOMAIN es : es[j][1] = v \/ es[j][2] = v})   \* (no self-loops here)
\* With negative edges taken for a start, what remains to be explained.
NegEdges(g) == SelectSeq(M!EffEdges(g), LAMBDA e : e[3] < 0)
Remaining(g, ask) == {v \in 0..(g.n - 1) : (v \in ask) # Odd(Degree(NegEdges(g), v))}
NegSum(g) == M!SumOf(NegEdges(g), LAMBDA e : 2 * e[3])

Geometry(r, S) ==
    LET g   == r.g
        V   == 0..(g.n - 1)
        raw == TLCEval(M!EffEdges(g))
        eff == TLCEval(Doubled(raw))
        adj == M!Adjacent(g, eff)
        D   == TLCEval([s \in S |-> M!SpreadFrom(adj, [v \in V |-> IF v = s THEN 0 ELSE M!INF])])
        DB  == TLCEval(M!DistToBoundary(g, eff))
    IN TLCEval([n |-> g.n, K |-> g.K, S |-> S, eff |-> raw, ask |-> ToSet(r.ask), neg |-> NegSum(g), phi |-> r.phi,
        want |-> IF r.phi = <<>> THEN 0 ELSE FoldLeft(LAMBDA a, v : a ^^ r.phi[v + 1], 0, r.ask),
        d  |-> TLCEval([s \in S |-> Far(D[s])]), db |-> Far(DB),
        l  |-> TLCEval([s \in S |-> Labels(adj, D[s], [v \in V |-> IF v = s THEN {0} ELSE {}])]),
        lb |-> Labels(adj, DB, [v \in V |-> {eff[j][4] : j \in {x \in DOMAIN eff : eff[x][1] = v /\ eff[x][2] = -1 /\ eff[x][3] = DB[v]}}])])

-----------------------------------------------------------------------------
\* The recorded state.
\*   regs   <<id, parent, top, growth, radius, tree node, partner, match edge>>
\*   bl     <<blossom, << <<child, edge to the next child>>, ... >> >>
\*   tn     <<index, inner, outer, inner-to-outer edge, parent index, edge to parent, children>>
\*   nodes  <<node, region that arrived, top, source, local radius, label>>

Und(e) == <<{e[1], e[2]}, e[3]>>

RegIds(r) == {r.regs[j][1] : j \in DOMAIN r.regs}
ParOf(r)  == [x \in RegIds(r) |-> LET j == CHOOSE k \in DOMAIN r.regs : r.regs[k][1] = x IN r.regs[j][2]]

RECURSIVE Under(_, _)
Under(par, x) == {x} \cup UNION {Under(par, y) : y \in {z \in DOMAIN par : par[z] = x}}
\* is the parent relation free of cycles and closed?
ParOK(par) == /\ \A x \in DOMAIN par : par[x] # -1 => par[x] \in DOMAIN par /\ par[x] > x
Blossoms(r) == {r.bl[j][1] : j \in DOMAIN r.bl}

AbsState(r, S) ==
    LET par == TLCEval(ParOf(r))
    IN [par   |-> par,
        leaf  |-> TLCEval([x \in DOMAIN par |-> Under(par, x) \cap S]),
        rad   |-> TLCEval([x \in DOMAIN par |-> LET j == CHOOSE k \in DOMAIN r.regs : r.regs[k][1] = x IN r.regs[j][5]]),
        cyc   |-> TLCEval([b \in Blossoms(r) |-> LET j == CHOOSE k \in DOMAIN r.bl : r.bl[k][1] = b
                                         IN {Und(r.bl[j][2][x][2]) : x \in DOMAIN r.bl[j][2]}]),
        match |-> TLCEval({Und(r.regs[j][8]) : j \in {x \in DOMAIN r.regs : r.regs[x][2] = -1 /\ r.regs[x][6] = -1}}),
        tree  |-> TLCEval(UNION {IF r.tn[j][5] = -1 THEN {} ELSE {Und(r.tn[j][4]), Und(r.tn[j][6])} : j \in DOMAIN r.tn}),
        roots |-> TLCEval({r.tn[j][3] : j \in {x \in DOMAIN r.tn : r.tn[x][5] = -1}})]

\* Everything that is stored more than once agrees.
DumpOK(r, A) ==
    LET reg(x) == r.regs[CHOOSE k \in DOMAIN r.regs : r.regs[k][1] = x]
        node(n) == r.tn[CHOOSE k \in DOMAIN r.tn : r.tn[k][1] = n]
    IN
    /\ \A x \in DOMAIN A.par :
         /\ reg(x)[3] \in Tops(A) /\ A.leaf[x] \subseteq A.leaf[reg(x)[3]]
         \* a region outside the trees has a partner that knows of it
         /\ (A.par[x] = -1 /\ reg(x)[6] = -1) =>
              LET p == reg(x)[7]  e == reg(x)[8]
              IN /\ e[1] \in A.leaf[x]
                 /\ \/ p = -1 /\ e[2] = -1
                    \/ /\ p \in Tops(A) /\ p # x /\ e[2] \in A.leaf[p] /\ reg(p)[6] = -1
                       /\ reg(p)[7] = x /\ reg(p)[8] = <<e[2], e[1], e[3]>>
         \* a region in a tree is one half of its tree node
         /\ (A.par[x] = -1 /\ reg(x)[6] # -1) =>
              /\ reg(x)[6] >= 0 /\ x \in {node(reg(x)[6])[2], node(reg(x)[6])[3]}
    \* children of a blossom, in order around the cycle
    /\ \A j \in DOMAIN r.bl :
         LET b == r.bl[j][1]  c == r.bl[j][2]  n == Len(c)
         IN /\ {c[x][1] : x \in 1..n} = Kids(A, b) /\ Cardinality(Kids(A, b)) = n
            /\ \A x \in 1..n : /\ c[x][2][1] \in A.leaf[c[x][1]]
                               /\ c[x][2][2] \in A.leaf[c[IF x = n THEN 1 ELSE x + 1][1]]
    /\ \A b \in DOMAIN A.par : (\E y \in DOMAIN A.par : A.par[y] = b) => b \in Blossoms(r)
    \* tree nodes
    /\ \A j \in DOMAIN r.tn :
         LET n == r.tn[j]
         IN /\ n[3] \in Tops(A) /\ reg(n[3])[6] = n[1]
            /\ (n[2] = -1) = (n[5] = -1)
            /\ n[5] # -1 =>
                 /\ n[2] \in Tops(A) /\ reg(n[2])[6] = n[1] /\ n[2] # n[3]
                 /\ n[4][1] \in A.leaf[n[2]] /\ n[4][2] \in A.leaf[n[3]]
                 /\ n[5] \in {r.tn[k][1] : k \in DOMAIN r.tn}
                 /\ n[6][1] \in A.leaf[n[2]] /\ n[6][2] \in A.leaf[node(n[5])[3]]
                 /\ \E x \in DOMAIN node(n[5])[7] : node(n[5])[7][x] = <<n[1], <<n[6][2], n[6][1], n[6][3]>>>>
            /\ \A x \in DOMAIN n[7] : n[7][x][1] \in {r.tn[k][1] : k \in DOMAIN r.tn} /\ node(n[7][x][1])[5] = n[1]
            /\ \A x, y \in DOMAIN n[7] : x # y => n[7][x][1] # n[7][y][1]

GrowthOK(r, A, O) == \A j \in DOMAIN r.regs : r.regs[j][4] = Growth(A, O, r.regs[j][1])
RolesOK(r, A, O)  == \A j \in DOMAIN r.tn : Outer(O, r.tn[j][3]) /\ (r.tn[j][2] # -1 => Inner(O, r.tn[j][2]))

Shape(A) == <<A.par, A.leaf, A.cyc, A.match, A.tree, A.roots>>

\* What the event does to the structure.
Apply(ev, A) ==
    CASE ev[1] = "boundary" -> HitBoundary(F, Orient(F), ev[2], Und(ev[4]))
      [] ev[1] = "shatter"  -> Shatter(F, Orient(F), ev[2])
      [] ev[1] = "hit" ->
           LET O == Orient(F)  r1 == ev[2]  r2 == ev[3]  e == Und(ev[4])
           IN IF ~InTree(O, r1) THEN HitMatch(F, O, r2, r1, e)
              ELSE IF ~InTree(O, r2) THEN HitMatch(F, O, r1, r2, e)
              ELSE IF O[r1].root # O[r2].root THEN HitOtherTree(F, O, r1, r2, e)
              ELSE HitSelf(F, O, r1, r2, e, CHOOSE b \in DOMAIN A.par \ DOMAIN F.par : TRUE)

\* Is this an event that may be reported in state A?
LegalEvent(ev, A, O) ==
    CASE ev[1] = "boundary" -> /\ ev[2] \in Tops(A) /\ Outer(O, ev[2]) /\ ev[4][2] = -1 /\ ev[4][1] \in A.leaf[ev[2]]
      [] ev[1] = "shatter"  -> /\ ev[2] \in DOMAIN A.cyc /\ ev[2] \in Tops(A) /\ Inner(O, ev[2])
                               /\ ev[4][1] = InParent(A, O, ev[2]) /\ ev[4][2] = InChild(A, O, ev[2])
      [] ev[1] = "hit" ->
           /\ ev[2] \in Tops(A) /\ ev[3] \in Tops(A) /\ ev[2] # ev[3]
           /\ ev[4][1] \in A.leaf[ev[2]] /\ ev[4][2] \in A.leaf[ev[3]]
           /\ ~Inner(O, ev[2]) /\ ~Inner(O, ev[3]) /\ (Outer(O, ev[2]) \/ Outer(O, ev[3]))
      [] OTHER -> FALSE

NewBlossoms(A) == DOMAIN A.par \ DOMAIN F.par

C12OK(r, A) ==
    /\ ParOK(A.par) /\ DumpOK(r, A)
    /\ \A O \in {Orient(A)} :
         /\ StructureOK(A, O) /\ RolesOK(r, A, O) /\ GrowthOK(r, A, O)
         /\ CASE r.op = "start" -> Shape(A) = Shape(Start(G.S))
              [] r.op = "flood" -> Shape(A) = Shape(F) /\ LegalEvent(r.ev, A, O)
              [] r.op = "event" -> Shape(A) = Shape(Apply(r.ev, A))
              [] r.op = "end"   -> Shape(A) = Shape(F)
              [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* Geometry.

EdgeLabelOK(e) ==
    IF -1 \in e[1] THEN LET s == CHOOSE x \in e[1] : x # -1 IN e[2] \in G.lb[s]
    ELSE \E s, u \in e[1] : s # u /\ e[2] \in G.l[s][u]

EventAt(ev, A) ==
    CASE ev[1] = "boundary" -> EdgeTight(A, G, Und(ev[4])) /\ EdgeLabelOK(Und(ev[4]))
      [] ev[1] = "hit"      -> EdgeTight(A, G, Und(ev[4])) /\ EdgeLabelOK(Und(ev[4]))
      [] ev[1] = "shatter"  -> A.rad[ev[2]] = 0
      [] OTHER -> FALSE

\* Who owns which node.
OwnersOK(r, A) ==
    \A Y \in {TLCEval([s \in G.S |-> Reach(A, s)])} : \A T \in {TLCEval([s \in G.S |-> TopOf(A, s)])} :
    LET owned == {r.nodes[j][1] : j \in DOMAIN r.nodes}
        rec(v) == r.nodes[CHOOSE j \in DOMAIN r.nodes : r.nodes[j][1] = v]
    IN /\ \A s \in G.S : \A v \in 0..(G.n - 1) : G.d[s][v] < Y[s] => v \in owned /\ rec(v)[3] = T[s]
       /\ \A s \in G.S : s \in owned /\ rec(s)[4] = s /\ rec(s)[2] = s
       /\ \A j \in DOMAIN r.nodes :
            LET x == r.nodes[j]  v == x[1]  s == x[4]
            IN /\ s \in G.S /\ x[3] = T[s] /\ x[2] \in DOMAIN A.leaf /\ s \in A.leaf[x[2]] /\ A.leaf[x[2]] \subseteq A.leaf[x[3]]
               /\ G.d[s][v] <= Y[s] /\ x[5] = Y[s] - G.d[s][v]
               /\ x[6] \in G.l[s][v]

\* The recorded growth is the rate at which the radius changes.
RecGrowth(r) == [x \in RegIds(r) |-> LET j == CHOOSE k \in DOMAIN r.regs : r.regs[k][1] = x IN r.regs[j][4]]
\* Rates by role.
RatesOK(r, A) ==
    /\ \A x \in DOMAIN A.par : LET j == CHOOSE k \in DOMAIN r.regs : r.regs[k][1] = x IN
         r.regs[j][4] = (IF A.par[x] # -1 \/ r.regs[j][6] = -1 THEN 0
                         ELSE IF \E k \in DOMAIN r.tn : r.tn[k][3] = x THEN 1 ELSE -1)

RadiiStep(r, A) ==
    CASE r.op = "start" -> r.t = 0 /\ \A x \in DOMAIN A.rad : A.rad[x] = 0
      [] r.op \in {"flood", "end"} ->
            /\ r.t >= t /\ DOMAIN A.rad = DOMAIN F.rad
            /\ \A g \in {RecGrowth(r)} : \A x \in DOMAIN A.rad : A.rad[x] = F.rad[x] + g[x] * (r.t - t)
      [] r.op = "event" ->
            /\ r.t = t
            /\ \A x \in DOMAIN A.rad : A.rad[x] = IF x \in DOMAIN F.rad THEN F.rad[x] ELSE 0
      [] OTHER -> FALSE

\* At the end the radii certify that the pairing is optimal (weak duality); somebody is left over only where
\* no pairing exists.
EndOK(A) ==
    LET comp(s) == {u \in G.S : G.d[s][u] < FAR}
        left(s) == {x \in A.roots : A.leaf[x] \cap comp(s) # {}}
    IN \A s \in G.S :
          IF G.db[s] < FAR \/ Cardinality(comp(s)) % 2 = 0 THEN left(s) = {} ELSE Cardinality(left(s)) = 1

C11OK(r, A) ==
    /\ ParOK(A.par)
    /\ RadiiStep(r, A) /\ RatesOK(r, A)
    /\ RadiiOK(A) /\ NoOverlap(A, G) /\ AllTight(A, G)
    /\ \A e \in A.match \cup A.tree : EdgeLabelOK(e)
    /\ OwnersOK(r, A)
    /\ r.op = "flood" => EventAt(r.ev, A)
    /\ r.op = "end" => EndOK(A)

-----------------------------------------------------------------------------
\* Answers on large graphs.

\* The radii prove that no pairing is cheaper than their sum.
Certificate(A) ==
    /\ ParOK(A.par) /\ RadiiOK(A) /\ NoOverlap(A, G)
    /\ \A x \in DOMAIN A.leaf : Odd(Cardinality(A.leaf[x]))
    /\ {x \in DOMAIN A.leaf : A.leaf[x] = {x}} = G.S
Bound == SumRad(F, DOMAIN F.rad)

Feasible ==
    \A s \in G.S : G.db[s] < FAR \/ ~Odd(Cardinality({u \in G.S : G.d[s][u] < FAR}))

EffIndex(p) == {j \in DOMAIN G.eff : (G.eff[j][1] = p[1] /\ G.eff[j][2] = p[2]) \/ (G.eff[j][1] = p[2] /\ G.eff[j][2] = p[1])}

WeightOK(a) == a[1] # 9 => a[1] = 0 /\ a[2] = Bound + G.neg
PhiOK(a)    == (a[1] # 9 /\ G.phi # <<>>) => a[1] = 0 /\ a[3] = G.want
EdgesOK(r) ==
    /\ r.se = 0
    /\ \A x, y \in DOMAIN r.edges : x # y => {r.edges[x][1], r.edges[x][2]} # {r.edges[y][1], r.edges[y][2]}
    /\ \A x \in DOMAIN r.edges : EffIndex(r.edges[x]) # {}
    /\ \A v \in 0..(G.n - 1) : Odd(Degree(r.edges, v)) = (v \in G.ask)
    /\ M!SumOf(r.edges, LAMBDA p : 2 * G.eff[CHOOSE j \in EffIndex(p) : TRUE][3]) = Bound + G.neg
PairsOK(r) ==
    r.sp # 9 =>
      /\ r.sp = 0
      /\ \A x \in DOMAIN r.pairs : r.pairs[x][1] \in G.S /\ r.pairs[x][2] \in G.S \cup {-1} /\ r.pairs[x][1] # r.pairs[x][2]
      /\ \A s \in G.S : Degree(r.pairs, s) = 1
      /\ M!SumOf(r.pairs, LAMBDA p : IF p[2] = -1 THEN G.db[p[1]] ELSE G.d[p[1]][p[2]]) = Bound
      /\ G.K <= 64 => \A x \in DOMAIN r.pairs : EdgeLabelOK(Und(r.pairs[x]))

ResultOK(r) ==
    CASE Prop = "C01" -> Feasible => WeightOK(r.a) /\ WeightOK(r.b)
      [] Prop = "C02" -> Feasible => PhiOK(r.a) /\ PhiOK(r.b)
      [] Prop = "C03" -> Feasible => EdgesOK(r)
      [] Prop = "C04" -> Feasible => PairsOK(r)
      [] Prop = "C05" -> Feasible => WeightOK(r.a) /\ WeightOK(r.b) /\ PhiOK(r.a) /\ PhiOK(r.b)
      [] Prop = "C07" -> \A x \in {r.a[1], r.b[1], r.sp, r.se} : x = 9 \/ x = (IF Feasible THEN 0 ELSE 1)
      [] Prop = "C08" -> Feasible => WeightOK(r.a) /\ WeightOK(r.b) /\ PhiOK(r.a) /\ PhiOK(r.b) /\ EdgesOK(r)

-----------------------------------------------------------------------------
Empty == [n |-> 0]
Init == i = 1 /\ F = Start({}) /\ t = 0 /\ G = Empty
Next ==
    /\ i <= Len(Trace)
    /\ LET r == Trace[i]
       IN CASE r.kind = "begin" -> /\ (ToSet(r.s) = Remaining(r.g, ToSet(r.ask))) = TRUE
                                    /\ G' = Geometry(r, ToSet(r.s)) /\ F' = Start(ToSet(r.s)) /\ t' = 0
            [] r.kind = "step" ->
                 /\ r.op # "crash"
                 /\ IF r.op = "result" THEN (ResultOK(r) = TRUE) /\ UNCHANGED <<F, G, t>> ELSE
                    /\ \A A \in {AbsState(r, G.S)} :
                       /\ (CASE Prop = "C11" -> C11OK(r, A) [] Prop = "C12" -> C12OK(r, A) [] OTHER -> Certificate(A)) = TRUE   \* (one evaluation, no branching over witnesses)
                       /\ F' = A
                    /\ t' = r.t /\ G' = G
            [] OTHER -> FALSE
    /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, F, t, G>>

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
