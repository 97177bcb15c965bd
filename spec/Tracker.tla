------------------------------ MODULE Tracker ------------------------------
(***************************************************************************)
(* "Look at me" scheduling.  Each object has at most one outstanding wish  *)
(* (its latest request).  Entries popped from the queue are acted upon     *)
(* (kept) or ignored.  The contract: an object is looked at only at the    *)
(* time it currently wishes for, each wish is answered once, and time does *)
(* not pass an unanswered wish.                                            *)
(***************************************************************************)
EXTENDS Wide

VARIABLES wish,   \* object -> time it wishes to be looked at, or None
          clock
None == <<0, -1>>
tvars == <<wish, clock>>

NoOverdue(w, t) == \A o \in DOMAIN w : w[o] = None \/ WLe(t, w[o])

TInit(objs, t) == wish = [o \in objs |-> None] /\ clock = t

Want(o, t) == /\ WLe(clock, t) /\ WLt(WSub(t, clock), WHalf32)
              /\ wish' = [wish EXCEPT ![o] = t] /\ UNCHANGED clock
Cancel(o)  == wish' = [wish EXCEPT ![o] = None] /\ UNCHANGED clock

\* An entry for o comes out of the queue at time t.
Act(o, t) == /\ wish[o] = t
             /\ WLe(clock, t) /\ NoOverdue(wish, t)
             /\ wish' = [wish EXCEPT ![o] = None] /\ clock' = t
Ignore(t) == /\ WLe(clock, t) /\ NoOverdue(wish, t)
             /\ clock' = t /\ UNCHANGED wish
\* The queue is empty: nobody may be left waiting.
Idle == /\ \A o \in DOMAIN wish : wish[o] = None
        /\ UNCHANGED tvars
=============================================================================
