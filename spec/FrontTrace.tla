----------------------------- MODULE FrontTrace -----------------------------
(***************************************************************************)
(* Histories of the Python interface: loading graphs from matrices and     *)
(* graph objects, editing them, and everything the object then says about  *)
(* itself, against CheckMatrix and UserGraph.                              *)
(***************************************************************************)
EXTENDS CheckMatrix, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, S, prob

Close(a, b, tol) == WLe(WAbs(WSub(a, b)), WOf(tol))

\* A listed edge <<u, v, weight, q, p, obs>> against the state's edge.
EdgeOK(d, e) ==
    /\ ToSet(d[6]) = ToSet(e.obs) /\ Len(d[6]) = Cardinality(ToSet(e.obs))
    /\ AbsI(d[5] - e.p) <= 2
    /\ IF prob THEN AbsI(d[4] - e.q) <= 6
       ELSE IF e.exact THEN d[3] = e.w ELSE Close(d[3], e.w, 4)

Lookup(Z, u, v) == LET I == Index(Z, u, v) IN IF I = {} THEN 0 ELSE CHOOSE j \in I : TRUE

\* The listed edge between u and v has this weight, probability and observables.
Listed(d, u, v, w, p, obs) ==
    \E j \in DOMAIN d.e : /\ {d.e[j][1], d.e[j][2]} = {u, v}
                          /\ d.e[j][3] = w /\ d.e[j][5] = p /\ ToSet(d.e[j][6]) = ToSet(obs)

\* An exported graph: edges <<u, v, weight, p, obs>>, the virtual boundary being the node behind the last.
ExportOK(d, Z, es) ==
    /\ Len(es) = Len(Z.E)
    /\ \A j, k \in DOMAIN es : j # k => {es[j][1], es[j][2]} # {es[k][1], es[k][2]}
    /\ \A j \in DOMAIN es :
         LET x == es[j]
             V(y) == IF y = Z.n THEN -1 ELSE y
         IN Listed(d, V(x[1]), V(x[2]), x[3], x[4], x[5])

DumpOK(d, Z) ==
    LET virt == \E j \in DOMAIN Z.E : Z.E[j].v = -1
        bset == Z.b \cup (IF virt THEN {Z.n} ELSE {})
        ends == UNION {{Z.E[j].u, IF Z.E[j].v = -1 THEN Z.n ELSE Z.E[j].v} : j \in DOMAIN Z.E}
    IN /\ d.n = Z.n /\ d.K = Z.K /\ d.ne = Len(Z.E) /\ d.nd = Z.n - Cardinality(Z.b)
       /\ ToSet(d.b) = Z.b
       /\ d.rep = <<Z.n - Cardinality(Z.b), Cardinality(Z.b), Len(Z.E)>>
       \* the list of edges
       /\ Len(d.e) = Len(Z.E)
       /\ \A j \in DOMAIN d.e : LET k == Lookup(Z, d.e[j][1], d.e[j][2]) IN k # 0 /\ EdgeOK(d.e[j], Z.E[k])
       /\ \A j, k \in DOMAIN d.e : j # k => {d.e[j][1], d.e[j][2]} # {d.e[k][1], d.e[k][2]}
       \* queries for one edge: answered for the edges there are, in both orders, with their attributes
       /\ \A j \in DOMAIN d.has :
            LET h == d.has[j] IN h[3] = 1 /\ h[4] = 0 /\ Lookup(Z, h[1], h[2]) # 0 /\ Listed(d, h[1], h[2], h[5], h[6], h[7])
       /\ \A k \in DOMAIN Z.E :
            \A uv \in {<<Z.E[k].u, Z.E[k].v>>} \cup (IF Z.E[k].v = -1 THEN {} ELSE {<<Z.E[k].v, Z.E[k].u>>}) :
               \E j \in DOMAIN d.has : d.has[j][1] = uv[1] /\ d.has[j][2] = uv[2]
       \* exports
       /\ ExportOK(d, Z, d.nxe) /\ ExportOK(d, Z, d.rxe)
       /\ ends \subseteq ToSet(d.nxn) /\ ToSet(d.nxn) \subseteq (0..(Z.n - 1)) \cup ends
       /\ ToSet(d.nxb) = ToSet(d.nxn) \cap bset
       /\ d.rxn = Z.n + (IF virt THEN 1 ELSE 0)
       /\ ToSet(d.rxb) = bset

-----------------------------------------------------------------------------
MatrixBad(m) ==
    \/ ~WellFormed(m) \/ m.odd = 1
    \/ m.nw # Len(m.H) \/ m.np # Len(m.H) \/ m.nfc # Len(m.H)
    \/ m.strat = -1
    \/ m.reps > 1 /\ (m.ntw # m.R \/ m.ntp # m.R)

\* <<status, state afterwards, warned>>
LoadResult(m) ==
    IF m.via = "matrix"
    THEN IF MatrixBad(m) THEN <<1, S, 0>>
         ELSE LET x == FromMatrix(m, prob) IN IF x.bad THEN <<1, S, 0>> ELSE <<0, x.S, 0>>
    ELSE IF m.bad = 1 THEN <<1, S, -1>>
         ELSE <<0, FromGraph(m, prob).S, IF \E j \in DOMAIN m.ed : m.ed[j].big = 1 THEN 1 ELSE 0>>

EditResult(r) ==
    CASE r.op = "add" ->
           IF r.bad = 1 THEN <<1, S, -1>>
           ELSE IF r.big = 1 THEN <<0, S, 1>>
           ELSE IF Refused(S, r.u, r.v, r.strat) THEN <<1, S, 0>>
           ELSE <<0, Add(S, r.u, r.v, r, r.strat, prob), 0>>
      [] r.op = "boundary" -> <<0, SetBoundary(S, ToSet(r.b)), 0>>
      [] r.op = "minobs"   -> <<0, MinObs(S, r.v), 0>>

StepOK(r) ==
    \A x \in {IF r.op = "load" THEN LoadResult(r.in) ELSE EditResult(r)} :
       /\ r.st = x[1]
       /\ x[3] = -1 \/ r.warned = x[3]
       /\ S' = x[2]
       /\ (DumpOK(r.d, x[2]) = TRUE)

Init == i = 1 /\ S = Empty(0, 0) /\ prob = FALSE
Next ==
    /\ i <= Len(Trace)
    /\ LET r == Trace[i]
       IN CASE r.kind = "begin" -> S' = Empty(0, 0) /\ prob' = (r.family = "prob")
            [] r.kind = "step"  -> StepOK(r) /\ UNCHANGED prob
            [] OTHER -> FALSE
    /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, S, prob>>

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
