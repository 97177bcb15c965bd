------------------------------ MODULE DemTrace ------------------------------
(***************************************************************************)
(* Recorded loads of detector error models against ErrorModel.             *)
(***************************************************************************)
EXTENDS ErrorModel, IOUtils, Json, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

AbsI(a) == IF a < 0 THEN -a ELSE a
KeyOf(u, v) == {u, v} \ {-1}

\* Recorded through the Python interface: implied weights are not shown there, observables are sets.
ViaPython(r) == "py" \in DOMAIN r

ImpliedOK(r, e) ==
    IF r.mode = 0 \/ ViaPython(r) THEN e[6] = <<>>
    ELSE \A k \in {KeyOf(e[1], e[2])} : \A P \in {JointProb(r.ins, r.s, k, k)} :
         /\ Len(e[6]) = Cardinality(Related(r.ins, k))
         /\ \A o \in Related(r.ins, k) :
              \E x \in DOMAIN e[6] :
                 /\ KeyOf(e[6][x][1], e[6][x][2]) = o
                 /\ AbsI(e[6][x][3] - Ratio(JointProb(r.ins, r.s, k, o), P)) <= 600

EdgeOK(r, e) ==
    \A k \in {KeyOf(e[1], e[2])} : \A P \in {EdgeProb(r.ins, r.s, r.mode, k)} :
      /\ AbsI(e[3] - P) <= 20      \* the weight is the log-likelihood ratio of the probability
      /\ AbsI(e[4] - P) <= 20
      /\ IF ViaPython(r) THEN ToSet(e[5]) = ToSet(FirstObs(r.ins, r.mode, k)) ELSE e[5] = FirstObs(r.ins, r.mode, k)
      /\ ImpliedOK(r, e)

ModelOK(r) ==
    LET refused == r.mode > 0 /\ \E j \in DOMAIN r.ins : Unsupported(r.ins[j], r.s)
    IN /\ r.st = (IF refused THEN 1 ELSE 0)
       /\ ~refused =>
            /\ r.n = r.D /\ r.K = r.O
            /\ r.padok = r.pads      \* errors of detectors of their own, around the others: an edge each
            /\ r.mode < 2 => r.refuse = (IF r.mode = 0 THEN 1 ELSE 0)
            /\ Len(r.edges) = Cardinality(Keys(r.ins, r.mode))
            /\ {KeyOf(r.edges[j][1], r.edges[j][2]) : j \in DOMAIN r.edges} = Keys(r.ins, r.mode)
            /\ \A j \in DOMAIN r.edges : EdgeOK(r, r.edges[j])

Init == i = 1
Next == i <= Len(Trace) /\ (LET r == Trace[i] IN r.kind = "model" /\ (ModelOK(r) = TRUE)) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
