----------------------------- MODULE CheckMatrix -----------------------------
(***************************************************************************)
(* What loading a graph means, in terms of UserGraph: the sequence of edge *)
(* additions that a check matrix (or a graph object) stands for.           *)
(*                                                                         *)
(* A matrix input m has                                                    *)
(*   R      rows (checks)                                                  *)
(*   H      one sequence of rows per column: where its ones are            *)
(*   a      one record of attributes per column (see UserGraph!Add)        *)
(*   reps   repetitions of the measurement                                 *)
(*   ta     attributes of the edge between consecutive measurements of a   *)
(*          check, per row                                                 *)
(*   nf     number of observables                                          *)
(*   strat  how parallel edges are merged                                  *)
(*   virt   1: a column with one entry is an edge to the virtual boundary, *)
(*          0: to one boundary node behind all the checks                  *)
(***************************************************************************)
EXTENDS UserGraph

BoundaryNode(m) == m.R * m.reps

\* The additions column c stands for, in repetition rep.
ColumnAdds(m, rep, c) ==
    LET col == m.H[c]
    IN IF Len(col) = 2 THEN << [u |-> col[1] + m.R * rep, v |-> col[2] + m.R * rep, a |-> m.a[c]] >>
       ELSE IF Len(col) = 1 THEN << [u |-> col[1] + m.R * rep, v |-> IF m.virt = 1 THEN -1 ELSE BoundaryNode(m), a |-> m.a[c]] >>
       ELSE <<>>

RECURSIVE Concat(_, _, _)
Concat(F(_), lo, hi) == IF lo > hi THEN <<>> ELSE F(lo) \o Concat(F, lo + 1, hi)

SpaceLike(m) == Concat(LAMBDA rep : Concat(LAMBDA c : ColumnAdds(m, rep, c), 1, Len(m.H)), 0, m.reps - 1)
TimeLike(m) ==
    Concat(LAMBDA rep : [r \in 1..m.R |-> [u |-> r - 1 + rep * m.R, v |-> r - 1 + (rep + 1) * m.R, a |-> m.ta[r]]], 0, m.reps - 2)

\* Applying additions one after the other; a refused one refuses the whole.
ApplyAdds(S, adds, strat, prob) ==
    FoldLeft(LAMBDA x, d : IF x.bad \/ Refused(x.S, d.u, d.v, strat) THEN [x EXCEPT !.bad = TRUE]
                           ELSE [x EXCEPT !.S = TLCEval(Add(@, d.u, d.v, d.a, strat, prob))],
             [S |-> S, bad |-> FALSE], adds)

WellFormed(m) == \A c \in DOMAIN m.H : Len(m.H[c]) <= 2

FromMatrix(m, prob) ==
    LET x == ApplyAdds(Empty(m.R * m.reps, m.nf), SpaceLike(m) \o TimeLike(m), m.strat, prob)
        mark == m.virt = 0 /\ \E c \in DOMAIN m.H : Len(m.H[c]) = 1
    IN [x EXCEPT !.S = IF mark THEN SetBoundary(@, {BoundaryNode(m)}) ELSE @]

\* A graph object: n nodes, boundary nodes b, edges ed (a record u, v and the attributes) without parallels.  Edges whose
\* weight is beyond the largest that can be represented are left out.
FromGraph(m, prob) ==
    LET keep == SelectSeq(m.ed, LAMBDA e : e.big = 0)
        adds == [j \in DOMAIN keep |-> [u |-> keep[j].u, v |-> keep[j].v, a |-> keep[j]]]
    IN ApplyAdds(SetBoundary(Empty(m.n, m.kmin), ToSet(m.b)), adds, SMALLEST, prob)
=============================================================================
