----------------------------- MODULE UserGraph -----------------------------
(***************************************************************************)
(* The user's graph as a state machine: adding and merging edges, changing *)
(* the boundary set, declaring observables.                                *)
(*                                                                         *)
(* State S: n nodes, K declared observables, b the boundary set, E a       *)
(* sequence of edges in order of creation, each a record                   *)
(*   u, v   its nodes (v = -1: the virtual boundary)                       *)
(*   w      weight times 2^16, as a wide integer (see Wide)                *)
(*   wi     the weight itself where it is an integer                       *)
(*   q      the probability the weight stands for, times 2^20              *)
(*   p      the error probability times 2^20, -1 if none is given          *)
(*   obs    its observables                                                *)
(*   exact  whether w is exact (FALSE after an independent merge)          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Wide

One == 1048576

DISALLOW == 0
INDEPENDENT == 1
SMALLEST == 2
KEEP == 3
REPLACE == 4

Empty(n, K) == [n |-> n, K |-> K, b |-> {}, E |-> <<>>]

Same(e, u, v) == (e.u = u /\ e.v = v) \/ (v # -1 /\ e.u = v /\ e.v = u)
Index(S, u, v) == {j \in DOMAIN S.E : Same(S.E[j], u, v)}

MaxOf(T) == CHOOSE x \in T : \A y \in T : x >= y
ObsCount(obs) == MaxOf({0} \cup {obs[j] + 1 : j \in DOMAIN obs})

\* Independent combination of two probabilities, the second in sixteenths.
Combine(P, a) == (P * (16 - a) + (One - P) * a) \div 16

\* Independent combination of integer weights: the log-likelihood ratio of the combined probability is
\*   sgn(a) sgn(b) min(|a|, |b|) + f(|a + b|) - f(|a - b|),   f(d) = ln(1 + exp(-d))    (times 2^16)
FTable == << 45426, 20530, 8318, 3184, 1190, 440, 162, 60, 22, 8, 3, 1, 0 >>
FOf(d) == IF d > 12 THEN 0 ELSE FTable[d + 1]
AbsI(a) == IF a < 0 THEN -a ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
MergeInt(a, b) ==
    LET m == MinI(AbsI(a), AbsI(b))
        s == IF (a < 0) = (b < 0) THEN m ELSE -m
    IN WAdd(<<s \div 256, (s % 256) * 65536>>, WOf(FOf(AbsI(a + b)) - FOf(AbsI(a - b))))

MergeProb(p, p16) == IF p < 0 \/ p16 < 0 \/ p16 > 16 THEN -1 ELSE Combine(p, p16)

NewEdge(u, v, a) ==
    [u |-> u, v |-> v, w |-> a.w, wi |-> a.wi, q |-> (One \div 16) * a.a16, p |-> IF a.p16 < 0 \/ a.p16 > 16 THEN -1 ELSE (One \div 16) * a.p16,
     obs |-> a.obs, exact |-> TRUE]

\* Is the addition lighter than the edge there is?  (A smaller weight is a larger probability.)
Lighter(a, e, prob) == IF prob THEN (One \div 16) * a.a16 > e.q ELSE WLt(a.w, e.w)

\* Is the addition refused?
Refused(S, u, v, strat) == strat = DISALLOW /\ Index(S, u, v) # {}

\* The state after an addition a (a.w, a.wi, a.a16, a.p16, a.obs) of an edge u-v.
Add(S, u, v, a, strat, prob) ==
    LET n2 == MaxOf({S.n, u + 1, v + 1})
        I  == Index(S, u, v)
    IN IF I = {} THEN [S EXCEPT !.n = n2, !.K = MaxOf({@, ObsCount(a.obs)}), !.E = Append(@, NewEdge(u, v, a))]
       ELSE LET j == CHOOSE x \in I : TRUE
                e == S.E[j]
            IN CASE strat \in {DISALLOW, KEEP} -> S
                 [] strat = SMALLEST /\ ~Lighter(a, e, prob) -> S
                 [] strat = REPLACE \/ (strat = SMALLEST /\ Lighter(a, e, prob)) ->
                      [S EXCEPT !.K = MaxOf({@, ObsCount(a.obs)}),
                                !.E[j] = [NewEdge(e.u, e.v, a) EXCEPT !.u = e.u]]
                 [] strat = INDEPENDENT ->
                      [S EXCEPT !.E[j] = [e EXCEPT !.p = MergeProb(e.p, a.p16),
                                                   !.q = IF prob THEN Combine(e.q, a.a16) ELSE 0,
                                                   !.w = IF prob THEN a.w ELSE MergeInt(e.wi, a.wi),
                                                   !.wi = 0,
                                                   !.exact = ~prob /\ (e.wi = 0 \/ a.wi = 0)]]

SetBoundary(S, b) == [S EXCEPT !.b = b, !.n = MaxOf({@} \cup {x + 1 : x \in b})]
MinObs(S, v) == [S EXCEPT !.K = MaxOf({@, v})]

AllHaveProbabilities(S) == \A j \in DOMAIN S.E : S.E[j].p >= 0
=============================================================================
