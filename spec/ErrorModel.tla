----------------------------- MODULE ErrorModel -----------------------------
(***************************************************************************)
(* The graph a detector error model describes.                             *)
(*                                                                         *)
(* A model is a sequence of instructions <<a, comps>>: probability         *)
(* (a/32)/2^s and the components of the error, each                        *)
(* <<detectors, observables>>; the scale s is one for the whole model.     *)
(* Probabilities are kept in units of 2^-(20+s).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

One == 1048576

\* p(1 - q) + q(1 - p), whose second-order term vanishes as the scale grows.
Xor(P, a, s) ==
    IF s = 0 THEN (P * (32 - a) + (One - P) * a) \div 32
    ELSE P + a * 32768 - (IF s > 20 THEN 0 ELSE ((P \div 16) * a) \div 2^s)

Key(c)    == ToSet(c[1])
IsEdge(c) == Len(c[1]) \in {1, 2}
Ks(x)     == {Key(x[2][j]) : j \in {y \in DOMAIN x[2] : IsEdge(x[2][y])}}

\* Which instructions add to the edges: all that can happen; without their components when an error is
\* decomposed, if so asked (mode 2).
Happens(x)     == x[1] > 0
Counts(x, mode) == Happens(x) /\ (mode = 2 => Len(x[2]) = 1)

Keys(M, mode) == UNION {Ks(x) : x \in {M[j] : j \in {y \in DOMAIN M : Counts(M[y], mode)}}}

\* Probability that an odd number of the errors selected by Sel happens.
Odds(M, s, Sel(_)) == FoldLeft(LAMBDA P, x : IF Happens(x) /\ Sel(x) THEN Xor(P, x[1], s) ELSE P, 0, M)

EdgeProb(M, s, mode, k)  == Odds(M, s, LAMBDA x : Counts(x, mode) /\ k \in Ks(x))
JointProb(M, s, k1, k2)  == Odds(M, s, LAMBDA x : k1 \in Ks(x) /\ k2 \in Ks(x))
Related(M, k)            == (UNION {Ks(x) : x \in {M[j] : j \in {y \in DOMAIN M : Happens(M[y]) /\ k \in Ks(M[y])}}}) \ {k}

\* The observables of the first occurrence.
FirstObs(M, mode, k) ==
    LET j == CHOOSE y \in DOMAIN M : /\ Counts(M[y], mode) /\ k \in Ks(M[y])
                                     /\ \A z \in 1..(y - 1) : ~(Counts(M[z], mode) /\ k \in Ks(M[z]))
        c == CHOOSE y \in DOMAIN M[j][2] : Key(M[j][2][y]) = k
    IN M[j][2][c][2]

\* J / P (of one scale) in units of 2^-20, at most one half.
RECURSIVE Ratio(_, _)
Ratio(J, P) ==
    IF J >= P - J THEN One \div 2
    ELSE IF P >= 2097152 THEN Ratio(J \div 16, P \div 16)      \* within 32 bits
    ELSE ((J * 1024) \div P) * 1024 + ((((J * 1024) % P) * 1024) \div P)

\* Instructions that correlated loading refuses.
Unsupported(x, s) ==
    \/ s = 0 /\ x[1] > 16
    \/ Happens(x) /\ \E j \in DOMAIN x[2] : Len(x[2][j][1]) > 2 \/ (Len(x[2][j][1]) = 0 /\ Len(x[2]) > 1)
=============================================================================
