---------------------------- MODULE ErrorModelMC ----------------------------
(***************************************************************************)
(* Model check of ErrorModel: folding the instructions into an edge one    *)
(* after the other gives the probability that an odd number of them        *)
(* happens, taken from the distribution over all sets of errors; so the    *)
(* order of instructions is of no account but to the observables, and      *)
(* what happens never is left out.                                         *)
(***************************************************************************)
EXTENDS ErrorModel, TLC

CONSTANTS Len_,   \* instructions
          A       \* probabilities, in units of 1/32

VARIABLE m

Comps == { <<<<0>>, <<>>>>, <<<<0, 1>>, <<0>>>>, <<<<1, 0>>, <<>>>>, <<<<>>, <<1>>>>, <<<<0, 1, 2>>, <<>>>> }
Errors == {<<c>> : c \in Comps} \cup {<<c, d>> : c, d \in Comps}
Init == m \in UNION {[1..l -> A \X Errors] : l \in 1..Len_}
Next == UNCHANGED m
Spec == Init /\ [][Next]_m

\* Probability, in units of 2^-20, of exactly the errors F happening; exact for up to four instructions.
RECURSIVE Prod(_, _)
Prod(j, F) == IF j > Len(m) THEN One ELSE (Prod(j + 1, F) * (IF j \in F THEN m[j][1] ELSE 32 - m[j][1])) \div 32
SumOver(T, f(_)) == FoldLeft(LAMBDA a, x : a + f(x), 0, SetToSeq(T))
OddOf(Sel(_)) == SumOver({F \in SUBSET DOMAIN m : Cardinality({j \in F : Sel(m[j])}) % 2 = 1}, LAMBDA F : Prod(1, F))

AllKeys == UNION {Ks(m[j]) : j \in DOMAIN m}

OddNumber ==
    /\ \A k \in AllKeys, mode \in 0..2 : EdgeProb(m, 0, mode, k) = OddOf(LAMBDA x : Counts(x, mode) /\ k \in Ks(x))
    /\ \A k1, k2 \in AllKeys : JointProb(m, 0, k1, k2) = OddOf(LAMBDA x : k1 \in Ks(x) /\ k2 \in Ks(x))

Rev == [j \in DOMAIN m |-> m[Len(m) + 1 - j]]
OrderIsOfNoAccount ==
    /\ \A mode \in 0..2 : Keys(m, mode) = Keys(Rev, mode)
    /\ \A k \in AllKeys, mode \in 0..2 : EdgeProb(m, 0, mode, k) = EdgeProb(Rev, 0, mode, k)
    /\ \A k \in AllKeys : Related(m, k) = Related(Rev, k)
    /\ \A k \in AllKeys : \A k2 \in Related(m, k) :
         k \in Related(m, k2) /\ Ratio(JointProb(m, 0, k, k2), JointProb(m, 0, k, k)) = Ratio(JointProb(Rev, 0, k2, k), JointProb(Rev, 0, k, k))

\* Every edge has the observables of one of its components; instructions that cannot happen do not matter,
\* nor do components that are no edges.
Sound ==
    LET live == SelectSeq(m, Happens)
    IN /\ \A mode \in 0..2 : Keys(live, mode) = Keys(m, mode)
       /\ \A mode \in 0..2 : \A k \in Keys(m, mode) :
            /\ Cardinality(k) \in {1, 2}
            /\ FirstObs(m, mode, k) = FirstObs(live, mode, k)
            /\ EdgeProb(m, 0, mode, k) = EdgeProb(live, 0, mode, k) /\ EdgeProb(m, 0, mode, k) \in 0..One
            /\ \E j \in DOMAIN m : \E c \in DOMAIN m[j][2] : Key(m[j][2][c]) = k /\ m[j][2][c][2] = FirstObs(m, mode, k)
       /\ Keys(m, 2) \subseteq Keys(m, 0) /\ Keys(m, 1) = Keys(m, 0)
=============================================================================
