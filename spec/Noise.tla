------------------------------- MODULE Noise -------------------------------
(***************************************************************************)
(* Sampling noise from the user's graph: which patterns of detectors and   *)
(* observables a sample can be.                                            *)
(***************************************************************************)
EXTENDS UserGraph, Bitwise

P2 == [x \in 0..29 |-> 2^x]
XorBits(Z) == FoldLeft(LAMBDA a, x : a ^^ x, 0, Z)

\* What flipping edge e does: detectors (not those of the boundary set) in the low n bits, observables above.
Effect(Z, e) ==
    LET bit(v) == IF v = -1 \/ v \in Z.b THEN 0 ELSE P2[v]
    IN (bit(e.u) ^^ bit(e.v)) ^^ XorBits([j \in DOMAIN e.obs |-> P2[Z.n + e.obs[j]]])

Sure(e)  == e.p = One
Never(e) == e.p = 0

\* All effects of sets of flipped edges that may happen.
Possible(Z) ==
    FoldLeft(LAMBDA R, e : IF Never(e) THEN R
                           ELSE LET m == Effect(Z, e)
                                    T == {x ^^ m : x \in R}
                                IN IF Sure(e) THEN T ELSE R \cup T,
             {0}, Z.E)
=============================================================================
