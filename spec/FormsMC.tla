------------------------------ MODULE FormsMC ------------------------------
(***************************************************************************)
(* Model check of Forms: the ways of writing a shot or an answer agree.    *)
(* A set of events comes back from the plain vector, from the packed bytes *)
(* and from the matrix of rounds; the same correction passes as edges, as  *)
(* pairs and as a dictionary exactly when it is one of minimum weight.     *)
(***************************************************************************)
EXTENDS Forms

CONSTANTS Len_, Rows

VARIABLE X

Init == X \in SUBSET (0..(Len_ - 1))
Next == UNCHANGED X
Spec == Init /\ [][Next]_X

Vec(A, l) == [j \in 1..l |-> IF j - 1 \in A THEN 1 ELSE 0]
Pack(A, l) == [j \in 1..CeilDiv8(l) |-> SumOf([q \in 1..8 |-> IF 8 * (j - 1) + q - 1 \in A THEN Pow2[q - 1] ELSE 0], LAMBDA x : x)]
Grid(A, l, rows) == [r \in 1..rows |-> [c \in 1..(l \div rows) |-> IF (c - 1) * rows + r - 1 \in A THEN 1 ELSE 0]]

Same ==
    /\ ToSet(OnesOf(Vec(X, Len_))) = X /\ PlainObs(Vec(X, Len_)) = X
    /\ ToSet(BitsOf(Pack(X, Len_))) = X /\ PackedObs(Pack(X, Len_)) = X
    /\ \A r \in Rows : Len_ % r = 0 => ToSet(GridOf(Grid(X, Len_, r), r)) = X /\ ToSet(ShotEvents(Grid(X, Len_, r), <<r, Len_ \div r>>)) = X
    /\ Len(OnesOf(Vec(X, Len_))) = Cardinality(X)        \* each event once

\* Answers, on a square of detectors with one boundary edge; nodes there are also parts of a larger graph.
Sq == [n |-> 4, b |-> <<>>, k |-> 1, K |-> 1,
       edges |-> << <<0, 1, 2, <<0>>>>, <<1, 2, 1, <<>>>>, <<2, 3, 2, <<>>>>, <<3, 0, 4, <<>>>>, <<0, -1, 3, <<0>>>> >>]
Big == [n |-> 4, b |-> <<>>, k |-> 1, K |-> 1, edges |-> Sq.edges, at |-> <<300, 2, 7, 65536>>, N |-> 70000]
F  == Facts(Sq, <<0>>)
FB == Facts(Big, <<0>>)
Real(j) == IF j = -1 THEN -1 ELSE Big.at[j + 1]

Ev == SetToSeq(X \cap 0..3)
AllLinks == {<<Sq.edges[j][1], Sq.edges[j][2]>> : j \in DOMAIN Sq.edges}
BestSets == {L \in SUBSET AllLinks : EdgesBest(F, Ev, SetToSeq(L))}

Answers ==
    X \subseteq 0..3 =>
      /\ Feasible(F, Ev) /\ BestSets # {}
      \* the observables of the edges of an answer are observables of an answer
      /\ \A L \in BestSets :
           LET o == XorOf(SetToSeq(L), LAMBDA p : SumOf([c \in 1..1 |-> IF \E j \in DOMAIN Sq.edges : <<Sq.edges[j][1], Sq.edges[j][2]>> = p /\ Sq.edges[j][4] = <<0>> THEN 1 ELSE 0], LAMBDA x : x))
           IN ObsBest(F, Ev, IF o = 1 THEN {0} ELSE {})
      \* unique observables are the only ones accepted
      /\ \A o \in {{}, {0}} : ObsUnique(F, Ev, o) => ~ObsBest(F, Ev, {0} \ o)
      \* an empty answer is right for an empty syndrome only
      /\ (X = {}) = EdgesBest(F, Ev, <<>>) /\ (X = {}) = PairsBest(F, Ev, <<>>) /\ (X = {}) = DictBest(F, Ev, <<>>)
      \* names of nodes do not matter
      /\ \A L \in BestSets : EdgesBest(FB, [j \in DOMAIN Ev |-> Real(Ev[j])], SetToSeq({<<Real(p[1]), Real(p[2])>> : p \in L}))
      /\ Best(FB, [j \in DOMAIN Ev |-> Real(Ev[j])]) = Best(F, Ev)

\* Pairs: the right ones for two events are those of the smallest sum.
PairsAnswers ==
    \A d, e \in 0..3 : d < e /\ X = {d, e} =>
      LET a == PairsBest(F, <<d, e>>, << <<d, e>> >>)
          c == PairsBest(F, <<d, e>>, << <<d, -1>>, <<e, -1>> >>)
      IN /\ a \/ c
         /\ a = DictBest(F, <<d, e>>, << <<d, e>>, <<e, d>> >>) /\ c = DictBest(F, <<d, e>>, << <<d, -1>>, <<e, -1>> >>)
         /\ ~DictBest(F, <<d, e>>, << <<d, e>> >>)
         /\ ~PairsBest(F, <<d, e>>, << <<d, -1>> >>)
=============================================================================
