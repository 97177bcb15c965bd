------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Runs of the command line (predict, count_mistakes) against Forms: one   *)
(* record per run, with the shots that were in its input file, and what it *)
(* wrote.                                                                  *)
(***************************************************************************)
EXTENDS Forms, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i

RunOK(r, f) ==
    LET Ev(k) == r.shots[k][1]
        Ob(k) == ToSet(r.shots[k][2])
        infeasible == \E k \in DOMAIN r.shots : ~Feasible(f, Ev(k))
        \* shot k was there Times(k) times; if r.mult is given, r.pred[k] are its predictions and how often each was made
        many == r.mult # <<>>
        Times(k) == IF many THEN r.mult[k] ELSE 1
        Many(T) == SumOf(SetToSeq(T), Times)
        N == Many(DOMAIN r.shots)
    IN IF r.cmd = "predict"
       THEN IF infeasible THEN r.st = 1
            ELSE /\ r.st = 0
                 /\ Len(r.pred) = Len(r.shots)
                 /\ \A k \in DOMAIN r.shots :
                      IF many THEN /\ SumOf(r.pred[k], LAMBDA a : a[2]) = r.mult[k]
                                   /\ \A j \in DOMAIN r.pred[k] : ObsBest(f, Ev(k), ToSet(r.pred[k][j][1]))
                      ELSE ObsBest(f, Ev(k), ToSet(r.pred[k]))
       ELSE IF r.src = 0 \/ infeasible \/ r.nobs < N THEN r.st = 1
            ELSE /\ r.st = 0 /\ r.cnt[2] = N
                 \* shots that are mistakes however ties are decided, and shots that may be
                 /\ r.cnt[1] >= Many({k \in DOMAIN r.shots : ~ObsBest(f, Ev(k), Ob(k))})
                 /\ r.cnt[1] <= Many({k \in DOMAIN r.shots : ~ObsUnique(f, Ev(k), Ob(k))})

RecordOK(r) == IF r.kind = "crash" THEN FALSE ELSE \A f \in {Facts(r.g, r.colobs)} : RunOK(r, f)

Init == i = 1
Next == i <= Len(Trace) /\ (RecordOK(Trace[i]) = TRUE) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
