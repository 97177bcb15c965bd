---------------------------- MODULE CorrelatedMC ----------------------------
(***************************************************************************)
(* Correlated decoding as a protocol on one decoder: a first pass finds a  *)
(* minimum-weight edge set, then edge by edge (in any order) and rule by   *)
(* rule the weights are lowered, each old weight being put on a stack; the *)
(* second pass decodes with the weights as they then are; the stack is     *)
(* taken down again; and so on for the next call, or a call that is        *)
(* refused.  Checked against Correlated, where the two passes are one      *)
(* definition without order, stack or history:                             *)
(*                                                                         *)
(*   Lowered      the weights of the second pass are those of Reweighted,  *)
(*                whatever the order;                                      *)
(*   NeverRaised  no weight is above the original at any time;             *)
(*   Restored     between calls the weights are the original ones and the  *)
(*                stack is empty;                                          *)
(*   SecondBest   the second pass never weighs more than the first;        *)
(*   NoRuleNoop   without rules both passes are the same decode.           *)
(***************************************************************************)
EXTENDS Correlated

CONSTANTS W,        \* weights
          MaxRules, \* length of the list of rules
          Calls     \* calls one after the other

\* Two detectors, the edge between them and a boundary edge each.
Graphs == {[n |-> 2, b |-> <<>>, k |-> 1, K |-> 1, crowd |-> <<>>,
            edges |-> << <<0, 1, a, <<>>>>, <<0, -1, b, <<0>>>>, <<1, -1, c, <<>>>> >>] : a, b, c \in W}

RuleSet == {<<e, f, w>> \in {1, 2, 3} \X {1, 2, 3} \X W : e # f}
RuleLists == UNION {[1..l -> RuleSet] : l \in 0..MaxRules}

VARIABLES gr, rules, cur, stack, phase, found, todo, s, first, left
vars == <<gr, rules, cur, stack, phase, found, todo, s, first, left>>

Own(h) == [f \in DOMAIN h.edges |-> h.edges[f][3]]
With(h, c) == [h EXCEPT !.edges = [f \in DOMAIN h.edges |-> [h.edges[f] EXCEPT ![3] = c[f]]]]
Best(h, pat) == BestFor(h, MinTable(h, h.edges), pat)

Init ==
    /\ gr \in Graphs /\ rules \in RuleLists
    /\ cur = Own(gr) /\ stack = <<>> /\ phase = "idle" /\ found = {} /\ todo = {} /\ s = 0 /\ first = 0 /\ left = Calls

\* A call: the first pass, with the weights as they are.
Begin ==
    /\ phase = "idle" /\ left > 0
    /\ s' \in 0..3
    /\ LET h == With(gr, cur)
       IN \E b \in {Best(h, s')} : \E S \in FirstPassSets(Subsets(h), s', b) : found' = S /\ todo' = S /\ first' = b
    /\ phase' = "lowering" /\ left' = left - 1
    /\ UNCHANGED <<gr, rules, cur, stack>>

\* A call that is refused.
Refuse == phase = "idle" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<gr, rules, cur, stack, phase, found, todo, s, first>>

\* The rules of one of the edges found, one after the other.
Apply(state, j, e) ==
    IF rules[j][1] # e \/ rules[j][3] >= state[1][rules[j][2]] THEN state
    ELSE <<[state[1] EXCEPT ![rules[j][2]] = rules[j][3]], Append(state[2], <<rules[j][2], state[1][rules[j][2]]>>)>>
Lower(e) ==
    /\ phase = "lowering" /\ e \in todo
    /\ \E st \in {FoldLeft(LAMBDA acc, j : Apply(acc, j, e), <<cur, stack>>, [j \in DOMAIN rules |-> j])} : cur' = st[1] /\ stack' = st[2]
    /\ todo' = todo \ {e}
    /\ UNCHANGED <<gr, rules, phase, found, s, first, left>>

Second == phase = "lowering" /\ todo = {} /\ phase' = "undoing" /\ UNCHANGED <<gr, rules, cur, stack, found, todo, s, first, left>>

\* The last weight put away is the first to be put back.
Undo ==
    /\ phase = "undoing"
    /\ IF stack = <<>>
       THEN phase' = "idle" /\ found' = {} /\ s' = 0 /\ first' = 0 /\ UNCHANGED <<cur, stack>>
       ELSE /\ cur' = [cur EXCEPT ![stack[Len(stack)][1]] = stack[Len(stack)][2]]
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
            /\ UNCHANGED <<phase, found, s, first>>
    /\ UNCHANGED <<gr, rules, todo, left>>

Next == Begin \/ Refuse \/ (\E e \in {1, 2, 3} : Lower(e)) \/ Second \/ Undo
Spec == Init /\ [][Next]_vars

Before == phase = "lowering" /\ todo = {}
Lowered == Before => With(gr, cur) = Reweighted(gr, rules, found)
NeverRaised == \A f \in DOMAIN cur : cur[f] <= gr.edges[f][3]
Restored == phase = "idle" => cur = Own(gr) /\ stack = <<>>
SecondBest == Before => Best(With(gr, cur), s) <= first
NoRuleNoop == rules = <<>> => cur = Own(gr)
=============================================================================
