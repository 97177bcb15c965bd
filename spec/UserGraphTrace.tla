--------------------------- MODULE UserGraphTrace ---------------------------
(***************************************************************************)
(* Recorded edit histories against UserGraph (what the graph says about    *)
(* itself) and MatchingGraph (what decodes in between answer).             *)
(***************************************************************************)
EXTENDS UserGraph, IOUtils, Json, Bitwise

M == INSTANCE MatchingGraph

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* P: what the history started with besides S.  Nodes are named at[1], at[2], ... where at is not empty; `pads`
\* further nodes from `first` on hang on the node `hub` by an edge of weight 1 and probability 1/2 each.
VARIABLES i, S, prob, P

Close(a, b, tol) == WLe(WAbs(WSub(a, b)), WOf(tol))

\* A dumped edge <<node1, node2, w, q, p, obs>> against the state's edge.
EdgeOK(d, e) ==
    /\ d[6] = e.obs
    /\ AbsI(d[5] - e.p) <= 2
    /\ IF prob THEN AbsI(d[4] - e.q) <= 6
       ELSE IF e.exact THEN d[3] = e.w ELSE Close(d[3], e.w, 4)

Lookup(Z, u, v) == LET I == Index(Z, u, v) IN IF I = {} THEN 0 ELSE CHOOSE j \in I : TRUE

SelfOK(r, Z) ==
    /\ r.n = Z.n /\ r.K = Z.K /\ r.ne = Len(Z.E) + P.pads /\ r.padok = P.pads
    /\ r.nd = Z.n - Cardinality(Z.b)
    /\ ToSet(r.isb) = Z.b /\ ToSet(r.getb) = Z.b /\ r.virt = 1
    /\ r.allp = (IF AllHaveProbabilities(Z) THEN 1 ELSE 0)
    /\ Len(r.e) = Len(Z.E)
    /\ \A j \in DOMAIN r.e : LET k == Lookup(Z, r.e[j][1], r.e[j][2]) IN k # 0 /\ EdgeOK(r.e[j], Z.E[k])
    /\ \A j, k \in DOMAIN r.e : j # k => {r.e[j][1], r.e[j][2]} # {r.e[k][1], r.e[k][2]}
    \* edge queries: present exactly for the edges, with their weight
    /\ \A j \in DOMAIN r.has :
         LET h == r.has[j] k == Lookup(Z, h[1], h[2])
         IN k # 0 /\ h[3] = 1 /\ h[4] = 1 /\ \E x \in DOMAIN r.e : {r.e[x][1], r.e[x][2]} = {h[1], h[2]} /\ r.e[x][3] = h[5]
    /\ \A k \in DOMAIN Z.E :
         \A uv \in {<<Z.E[k].u, Z.E[k].v>>} \cup (IF Z.E[k].v = -1 THEN {} ELSE {<<Z.E[k].v, Z.E[k].u>>}) :
            \E j \in DOMAIN r.has : r.has[j][1] = uv[1] /\ r.has[j][2] = uv[2]
    /\ LET ws == {WAbs(r.e[j][3]) : j \in DOMAIN r.e} \cup {IF P.pads = 0 THEN WZero ELSE WOf(65536)}
       IN r.mx \in ws /\ \A x \in ws : WLe(x, r.mx)

-----------------------------------------------------------------------------
\* Decodes in between: the graph as it is now, in the terms of MatchingGraph (three label columns).
\* Nodes without a name carry leaves at most, so they change no answer (MatchingGraphCheck!LeavesDoNotMatter).
Pos(x) == IF x = -1 \/ P.at = <<>> THEN x ELSE (CHOOSE j \in DOMAIN P.at : P.at[j] = x) - 1
AsGraph(Z) ==
    [n |-> IF P.at = <<>> THEN Z.n ELSE Len(P.at), b |-> SetToSeq({Pos(x) : x \in Z.b}), k |-> 3, K |-> Z.K,
     edges |-> [j \in DOMAIN Z.E |-> <<Pos(Z.E[j].u), Pos(Z.E[j].v), Z.E[j].wi, Z.E[j].obs>>]]

\* Equally light parallel boundary edges with different labels: which one counts is not specified.
Ambiguous(g) ==
    \E j, k \in DOMAIN g.edges :
       /\ j # k /\ M!BoundaryDet(g, g.edges[j]) # -1
       /\ M!BoundaryDet(g, g.edges[j]) = M!BoundaryDet(g, g.edges[k])
       /\ g.edges[j][3] = g.edges[k][3] /\ g.edges[j][4] # g.edges[k][4]

EdgeIdx(eff, p) == IF \E x \in {p[1], p[2]} : x # -1 /\ P.at # <<>> /\ x \notin ToSet(P.at) THEN {}
                   ELSE {j \in DOMAIN eff : {eff[j][1], eff[j][2]} = {Pos(p[1]), Pos(p[2])}}

DecodeOK(r) ==
    \A g \in {AsGraph(S)} : \A eff \in {M!EffEdges(g)} : \A T \in {M!MinTable(g, eff)} :
      LET s == M!DetPattern(g, [x \in DOMAIN r.ev |-> Pos(r.ev[x])])
          best == M!BestFor(g, T, s)
      IN IF (\E x \in DOMAIN r.ev : r.ev[x] >= S.n) \/ best >= M!INF THEN r.st = 1
         ELSE /\ r.st = 0 /\ r.norm = 2
              /\ IF r.how = 2
                 THEN /\ \A x \in DOMAIN r.l : Cardinality(EdgeIdx(eff, r.l[x])) = 1
                      /\ \A x, y \in DOMAIN r.l : x # y => {r.l[x][1], r.l[x][2]} # {r.l[y][1], r.l[y][2]}
                      /\ LET E(p) == eff[CHOOSE j \in EdgeIdx(eff, p) : TRUE]
                         IN /\ M!XorOf(r.l, LAMBDA p : M!EdgeMask(g, E(p)) & (M!Pow2[g.n] - 1)) = s
                            /\ M!SumOf(r.l, LAMBDA p : E(p)[3]) = best
                 ELSE /\ r.w = 2 * best /\ r.x = 0
                      /\ Ambiguous(g) \/ T[s + r.o * M!Pow2[g.n]] = best

\* An edit recorded with r.m > 1 was carried out r.m times, all but the last with other weights or fewer boundary
\* nodes: the edges or boundary set of before are replaced, so the last one counts (UserGraphMC!LastCounts).
NextState(r) ==
    CASE r.op = "add"      -> Add(S, r.u, r.v, r, r.strat, prob)
      [] r.op = "boundary" -> SetBoundary(S, ToSet(r.b))
      [] r.op = "minobs"   -> MinObs(S, r.v)

StepOK(r) ==
    IF r.op = "decode" THEN (DecodeOK(r) = TRUE) /\ S' = S
    ELSE /\ S' = NextState(r)
         /\ r.op = "add" /\ r.m > 1 => r.strat = REPLACE /\ Index(S, r.u, r.v) # {}
         /\ r.op = "add" => r.st = (IF Refused(S, r.u, r.v, r.strat) THEN 1 ELSE 0)
         /\ (SelfOK(r, S') = TRUE)

Init == i = 1 /\ S = Empty(0, 0) /\ prob = FALSE /\ P = [at |-> <<>>, hub |-> -1, first |-> 0, pads |-> 0]
Next ==
    /\ i <= Len(Trace)
    /\ LET r == Trace[i]
       IN CASE r.kind = "begin" -> /\ S' = Empty(IF r.pads = 0 THEN r.n ELSE MaxOf({r.hub, r.first + r.pads - 1}) + 1, r.K)
                                   /\ prob' = (r.family = "prob")
                                   /\ P' = [at |-> r.at, hub |-> r.hub, first |-> r.first, pads |-> r.pads]
            [] r.kind = "step"  -> StepOK(r) /\ UNCHANGED <<prob, P>>
            [] OTHER -> FALSE
    /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, S, prob, P>>

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
