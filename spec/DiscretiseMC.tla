---------------------------- MODULE DiscretiseMC ----------------------------
(***************************************************************************)
(* Model check of Discretise: the integers it allows for a graph's         *)
(* weights.  Every weight has one (two where it lies half way); order,     *)
(* sign and equality survive up to rounding; the largest weight comes out  *)
(* as the largest integer; integers come out doubled whatever the scale    *)
(* they are written in; and Wide is exact arithmetic.                      *)
(***************************************************************************)
EXTENDS Discretise, SequencesExt, TLC

CONSTANTS Ms,    \* mantissas
          Nds    \* numbers of distinct weights

VARIABLES a, b, M, nd

Init ==
    /\ M \in Ms /\ nd \in Nds
    /\ a \in {x \in Ms \cup {-y : y \in Ms} : AbsI(x) <= M}
    /\ b \in {x \in Ms \cup {-y : y \in Ms} : AbsI(x) <= M}
Next == UNCHANGED <<a, b, M, nd>>
Spec == Init /\ [][Next]_<<a, b, M, nd>>

Ok(m, s) == {h \in -(nd - 1)..(nd - 1) : HalfOK(h, m, s, M, nd, FALSE)}

Rounds ==
    /\ Cardinality(Ok(a, 0)) \in 1..2
    /\ Cardinality(Ok(a, 0)) = 2 => (AbsI(a) * (nd - 1) * 2) % M = 0
    /\ Ok(M, 0) = {nd - 1} /\ Ok(-M, 0) = {-(nd - 1)}
    /\ Ok(-a, 0) = {-h : h \in Ok(a, 0)}
    /\ Ok(a, -3) = Ok(a, 0)                               \* scale is of no account
    /\ a <= b => \E h \in Ok(a, 0), k \in Ok(b, 0) : h <= k
    /\ (a < b /\ Cardinality(Ok(a, 0)) = 1 /\ Cardinality(Ok(b, 0)) = 1) => \A h \in Ok(a, 0), k \in Ok(b, 0) : h <= k
    /\ (M < nd - 1 /\ a < b) => \A h \in Ok(a, 0), k \in Ok(b, 0) : h < k \* nothing merges when there are integers enough

Integral ==
    /\ \A s \in 0..3 : IsInt(a, s) /\ ValueOf(a, s) = a * 2^s
    /\ \A s \in 1..3 : IsInt(a, -s) <=> (\E k \in -M..M : k * 2^s = a)
    /\ \A s \in 1..3 : IsInt(a, -s) => ValueOf(a, -s) * 2^s = a
    /\ \A s \in -3..3 : TooLarge(M, s) <=> (IF s >= 0 THEN M * 2^s > MAXW ELSE M > MAXW * 2^(-s))
    /\ \A h \in -M..M : HalfOK(h, a, 0, M, nd, TRUE) <=> h = a

\* Wide against plain integers.
W(n) == WOf(n)
Exact ==
    /\ WIsWide(W(a)) /\ WAdd(W(a), W(b)) = W(a + b) /\ WSub(W(a), W(b)) = W(a - b) /\ WNeg(W(a)) = W(-a)
    /\ (WLt(W(a), W(b)) <=> a < b) /\ (WLe(W(a), W(b)) <=> a <= b)
    /\ WAbs(W(a)) = W(AbsI(a)) /\ WDouble(W(a)) = W(a + a)
    /\ WMul(AbsI(a), AbsI(b)) = W(AbsI(a) * AbsI(b))
    \* beyond 32 bits: (a * 2^24) * b by shifting the wide number
    /\ \A k \in {0, 1, 12345, 16777215} :
         WMul(k, AbsI(b) * 4096) = FoldLeft(LAMBDA t, j : WDouble(t), WMul(k, AbsI(b)), [j \in 1..12 |-> j])
=============================================================================
