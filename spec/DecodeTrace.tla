---------------------------- MODULE DecodeTrace ----------------------------
(***************************************************************************)
(* The contract of the decoding entry points, checked against recorded     *)
(* behaviour of the real library.  The trace is a sequence of graphs; for  *)
(* each graph a sequence of calls with their answers.  The state machine   *)
(* walks over the trace; a step exists only if the record is one the       *)
(* contract allows, so the longest behaviour ends at the first record that *)
(* is not.                                                                 *)
(***************************************************************************)
EXTENDS MatchingGraph, IOUtils, Json

CONSTANTS Prop      \* which property's clauses are checked, e.g. "C01"

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i

Answered(a) == a[1] = 0
Called(a)   == a[1] # 9

\* Everything about a graph that the clauses need, computed once per record.
GraphFacts(r) ==
    LET eff == EffEdges(r.g)
    IN [ g    |-> r.g,
         norm |-> r.norm,
         eff  |-> eff,
         T    |-> MinTable(r.g, eff),
         TI   |-> IF Prop \in {"C04"} THEN MinTable(r.g, InteriorEdges(r.g)) ELSE <<>>,
         neg  |-> \E j \in DOMAIN r.g.edges : r.g.edges[j][3] < 0 ]

-----------------------------------------------------------------------------
\* An answer without what the crowd adds to it.
Core(f, c, a) == IF Answered(a) /\ f.g.crowd # <<>>
                 THEN <<0, a[2] - f.norm * CrowdWeight(f.g, c.t), a[3] ^^ CrowdLabels(f.g, c.t), a[4]>>
                 ELSE a

\* C01 (and C08): an explainable syndrome is answered, with the minimum weight.
WeightOK(f, s, a) ==
    Called(a) => (Answered(a) /\ a[2] = f.norm * BestFor(f.g, f.T, s))

\* C02: the labels predicted are those of an explanation of minimum weight, and nothing else.
LabelsOK(f, s, a) ==
    Called(a) => /\ Answered(a)
                 /\ a[4] = 0
                 /\ a[3] >= 0 /\ a[3] < Pow2[f.g.k]
                 /\ f.T[s + a[3] * Pow2[f.g.n]] = BestFor(f.g, f.T, s)

\* C03: the edges returned form an explanation of minimum weight.
EdgeIndex(f, p) ==
    {j \in DOMAIN f.eff : {f.eff[j][1], f.eff[j][2]} = {p[1], p[2]}}
\* Self-loops of negative weight belong to every solution; that they are not listed is a finding of its own
\* (C03, known_findings.txt) and not counted again under C08.
UnlistedLoops(f, c) ==
    IF Prop # "C08" THEN 0
    ELSE SumOf(f.eff, LAMBDA e : IF /\ e[1] = e[2] /\ e[3] < 0
                                    /\ ~ \E x \in DOMAIN c.edges : {c.edges[x][1], c.edges[x][2]} = {e[1]}
                                 THEN e[3] ELSE 0)
EdgesOK(f, s, c) ==
    Called(c.d) =>
      /\ Answered(c.d) /\ c.d[4] = 0
      /\ CrowdListed(f.g, c.t, c.ce, FALSE)
      /\ \A x \in DOMAIN c.edges : Cardinality(EdgeIndex(f, c.edges[x])) = 1
      /\ \A x, y \in DOMAIN c.edges :
            x # y => {c.edges[x][1], c.edges[x][2]} # {c.edges[y][1], c.edges[y][2]}
      /\ LET E(p) == f.eff[CHOOSE j \in EdgeIndex(f, p) : TRUE]
         IN /\ XorOf(c.edges, LAMBDA p : EdgeMask(f.g, E(p)) & (Pow2[f.g.n] - 1)) = s
            /\ SumOf(c.edges, LAMBDA p : E(p)[3]) + UnlistedLoops(f, c) = BestFor(f.g, f.T, s)

\* C04: the pairs returned are a perfect pairing of the events, of minimum total distance.
PairsOK(f, s, c) ==
    Called(c.c) =>
      /\ Answered(c.c) /\ c.c[4] = 0
      /\ CrowdListed(f.g, c.t, c.cp, f.g.K <= 64)
      /\ \A x \in DOMAIN c.pairs : /\ c.pairs[x][1] >= 0 /\ c.pairs[x][1] < f.g.n
                                   /\ c.pairs[x][2] >= -1 /\ c.pairs[x][2] < f.g.n
                                   /\ c.pairs[x][1] # c.pairs[x][2]
                                   /\ c.pairs[x][3] >= 0 /\ c.pairs[x][3] < Pow2[f.g.k]
      /\ LET M(p) == Pow2[p[1]] + (IF p[2] = -1 THEN 0 ELSE Pow2[p[2]])
             D(p) == IF p[2] = -1 THEN BestFor(f.g, f.T, M(p)) ELSE BestFor(f.g, f.TI, M(p))
             L(p) == IF p[2] = -1 THEN f.T[M(p) + p[3] * Pow2[f.g.n]]
                                  ELSE f.TI[M(p) + p[3] * Pow2[f.g.n]]
         IN \* every event exactly once
            /\ \A d \in 0..(f.g.n - 1) :
                  Cardinality({x \in DOMAIN c.pairs : c.pairs[x][1] = d})
                    + Cardinality({x \in DOMAIN c.pairs : c.pairs[x][2] = d})
                  = (s \div Pow2[d]) % 2
            /\ SumOf(c.pairs, LAMBDA p : IF D(p) >= INF THEN INF \div 100 ELSE D(p)) = BestFor(f.g, f.T, s)
            /\ f.g.K <= 64 => \A x \in DOMAIN c.pairs : L(c.pairs[x]) = D(c.pairs[x])

\* C07: answered exactly when an explanation exists; otherwise rejected.
StatusOK(f, c, feasible) ==
    \A a \in {c.a, c.b, c.c, c.d} : Called(a) => a[1] = (IF feasible THEN 0 ELSE 1)

CallOK(f, c) ==
    LET oor      == OutOfRange(f.g, c.ev)
        s        == DetPattern(f.g, c.ev)
        feasible == ~oor /\ BestFor(f.g, f.T, s) < INF
        ca == Core(f, c, c.a)
        cb == Core(f, c, c.b)
    IN CASE Prop = "C01" -> feasible => WeightOK(f, s, ca) /\ WeightOK(f, s, cb)
         [] Prop = "C02" -> feasible => LabelsOK(f, s, ca) /\ LabelsOK(f, s, cb)
         [] Prop = "C03" -> feasible => EdgesOK(f, s, c)
         [] Prop = "C04" -> feasible => PairsOK(f, s, c)
         [] Prop = "C05" -> feasible => /\ WeightOK(f, s, ca) /\ WeightOK(f, s, cb)
                                        /\ LabelsOK(f, s, ca) /\ LabelsOK(f, s, cb)
         [] Prop = "C07" -> StatusOK(f, c, feasible)
         [] Prop = "C08" -> feasible => /\ WeightOK(f, s, ca) /\ WeightOK(f, s, cb)
                                        /\ LabelsOK(f, s, ca) /\ LabelsOK(f, s, cb)
                                        /\ EdgesOK(f, s, c)

\* C05: packed and unpacked observables say the same, for every one of the 64 bits; results add up.
B01(b) == IF b THEN 1 ELSE 0
ConvOK(r) ==
    /\ r.sf = (IF r.k <= 64 THEN 0 ELSE 1) /\ r.sb = (IF r.k <= 64 THEN 0 ELSE 1)
    /\ \A M \in {{r.m[x] : x \in DOMAIN r.m}} : \A j \in DOMAIN r.pre :
          r.out[j] = IF r.k <= 64 /\ j <= r.k /\ (j - 1) \in M THEN 1 - r.pre[j] ELSE r.pre[j]
    /\ r.k <= 64 => {r.back[x] : x \in DOMAIN r.back} = {j \in 0..(r.k - 1) : r.out[j + 1] = 1}
    /\ Len(r.sum) = r.k /\ \A j \in 1..r.k : r.sum[j] = (r.x[j] + r.y[j]) % 2
    /\ r.ws = r.wx + r.wy /\ r.same = 1
    /\ r.eq = B01(r.x = r.y /\ r.wx = r.wy) /\ r.ne = 1 - r.eq
    /\ Len(r.zero) = r.k /\ (\A j \in 1..r.k : r.zero[j] = 0) /\ r.wz = 0
    /\ LET S(q) == {q[x] : x \in DOMAIN q}
       IN /\ S(r.mm) = (S(r.mx) \cup S(r.my)) \ (S(r.mx) \cap S(r.my))
          /\ r.meq = B01(r.mx = r.my /\ r.wx = r.wy) /\ r.mne = 1 - r.meq
    /\ r.mw = r.wx + r.wy /\ r.msame = 1

\* What a crash or a hang at a call amounts to: no answer where one was due.
RecordOK(r) ==
    IF r.kind = "crash" THEN FALSE
    ELSE IF r.kind = "conv" THEN ConvOK(r)
    ELSE \A f \in {GraphFacts(r)} :   \* (binds f to the evaluated record)
            \A j \in DOMAIN r.syn : CallOK(f, r.syn[j])

Init == i = 1
Next == i <= Len(Trace) /\ (RecordOK(Trace[i]) = TRUE) /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* Reached the end of the trace?  Otherwise print the first record that no step explains.
Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE
       ELSE /\ PrintT(<<"REJECTED", d>>)
            /\ FALSE
=============================================================================
