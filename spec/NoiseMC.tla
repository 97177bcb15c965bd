------------------------------ MODULE NoiseMC ------------------------------
(***************************************************************************)
(* Sampling as a process: edge after edge is flipped or not, a flip        *)
(* changing the sample there and then; at the end the boundary nodes are   *)
(* blanked.  Checked for all small graphs, boundary sets and probabilities *)
(* never / maybe / always, against the definitions of Noise:               *)
(*                                                                         *)
(*   Sound     every sample the process ends with is possible;             *)
(*   Whole     the possible patterns are those of the sets of edges with   *)
(*             every certain and no impossible edge, in whatever order;    *)
(*   Quiet     boundary nodes are never set, nor is anything but nodes and *)
(*             declared observables;                                       *)
(*   Fair      with probabilities in halves each set of flipped edges is   *)
(*             reached along exactly one path, so its weight is the        *)
(*             product of its edges' probabilities.                        *)
(***************************************************************************)
EXTENDS Noise

CONSTANTS N,    \* nodes
          MaxE, \* edges
          Ks    \* observables

Ends == {<<u, v>> \in (0..(N - 1)) \X ({-1} \cup (0..(N - 1))) : v = -1 \/ u <= v}
Kinds == [e : Ends, p : {0, One \div 2, One}, obs : {<<>>} \cup {<<c>> : c \in 0..(Ks - 1)}]
Edge(x) == [u |-> x.e[1], v |-> x.e[2], w |-> WOf(0), wi |-> 0, q |-> 0, p |-> x.p, obs |-> x.obs, exact |-> TRUE]
Lists == {l \in UNION {[1..m -> Kinds] : m \in 0..MaxE} : \A a, b \in DOMAIN l : a # b => l[a].e # l[b].e}

VARIABLES Z, at, acc, path
vars == <<Z, at, acc, path>>

Raw(e) == LET bit(v) == IF v = -1 THEN 0 ELSE P2[v]
          IN (bit(e.u) ^^ bit(e.v)) ^^ XorBits([j \in DOMAIN e.obs |-> P2[N + e.obs[j]]])
Blank == (2^(N + Ks) - 1) ^^ XorBits(SetToSeq({P2[v] : v \in Z.b}))

Init ==
    /\ \E l \in Lists, b \in SUBSET (0..(N - 1)) : Z = [n |-> N, K |-> Ks, b |-> b, E |-> [j \in DOMAIN l |-> Edge(l[j])]]
    /\ at = 1 /\ acc = 0 /\ path = {}
Flip == at <= Len(Z.E) /\ ~Never(Z.E[at]) /\ acc' = (acc ^^ Raw(Z.E[at])) /\ path' = path \cup {at} /\ at' = at + 1 /\ UNCHANGED Z
Pass == at <= Len(Z.E) /\ ~Sure(Z.E[at]) /\ at' = at + 1 /\ UNCHANGED <<Z, acc, path>>
Finish == at = Len(Z.E) + 1 /\ acc' = (acc & Blank) /\ at' = at + 1 /\ UNCHANGED <<Z, path>>
Next == Flip \/ Pass \/ Finish
Spec == Init /\ [][Next]_vars

Ended == at = Len(Z.E) + 2
Sets == {F \in SUBSET DOMAIN Z.E : \A j \in DOMAIN Z.E : (Sure(Z.E[j]) => j \in F) /\ (Never(Z.E[j]) => j \notin F)}
Of(F) == XorBits([j \in DOMAIN Z.E |-> IF j \in F THEN Effect(Z, Z.E[j]) ELSE 0])

Sound == Ended => acc \in Possible(Z) /\ acc = Of(path) /\ path \in Sets
Whole == at = 1 => /\ Possible(Z) = {Of(F) : F \in Sets}
                   /\ Possible(Z) = Possible([Z EXCEPT !.E = Reverse(Z.E)])
Quiet == Ended => acc < 2^(N + Ks) /\ \A v \in Z.b : (acc & P2[v]) = 0
\* One path for each set: the weights (in halves) of the sets add up to one.
Maybe == {j \in DOMAIN Z.E : ~Sure(Z.E[j]) /\ ~Never(Z.E[j])}
Fair == at = 1 => Cardinality(Sets) = 2^Cardinality(Maybe)
=============================================================================
