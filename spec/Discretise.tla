----------------------------- MODULE Discretise -----------------------------
(***************************************************************************)
(* From real edge weights to the integers the decoder works with.          *)
(*                                                                         *)
(* A weight is m * 2^s with one s for the whole graph.  With M the largest *)
(* |m| (rules included) and nd the number of distinct weights allowed:     *)
(*  - if all weights are integers, weight w is held as 2w exactly;         *)
(*  - otherwise as 2h with | h*M - m*(nd-1) | <= M/2, i.e. h is w in units *)
(*    of (largest weight)/(nd-1), rounded to nearest.                      *)
(***************************************************************************)
EXTENDS Wide, Sequences, FiniteSets

MAXW == 16777215
P2 == [i \in 0..30 |-> 2^i]
AbsI(a) == IF a < 0 THEN -a ELSE a

IsInt(m, s) == s >= 0 \/ m = 0 \/ (s >= -30 /\ m % P2[-s] = 0)
ValueOf(m, s) == IF s >= 0 THEN m * P2[s] ELSE IF m = 0 THEN 0 ELSE m \div P2[-s]

TooLarge(M, s) == IF s >= 0 THEN M > MAXW \div P2[s]
                  ELSE IF s < -6 THEN FALSE ELSE M > MAXW * P2[-s]

\* Is h an acceptable half weight for m?
HalfOK(h, m, s, M, nd, integral) ==
    IF integral THEN h = ValueOf(m, s)
    ELSE /\ h = 0 \/ ((h < 0) = (m < 0) /\ m # 0)
         /\ AbsI(h) <= nd - 1
         /\ LET d == WAbs(WSub(WMul(AbsI(h), M), WMul(nd - 1, AbsI(m))))
            IN WLe(WDouble(d), WOf(M))
=============================================================================
