----------------------------- MODULE TrackerMC -----------------------------
(***************************************************************************)
(* The tracking algorithm (at most one live queue entry per object, lazy   *)
(* re-queueing of later wishes) refines the contract of Tracker: every     *)
(* step of the algorithm is a step the contract allows, for all histories  *)
(* of bounded length.  Generation of histories for replay: see Emit.       *)
(***************************************************************************)
EXTENDS Tracker, Sequences, FiniteSets, TLC, Json

CONSTANTS Objs, Deltas, Depth, Emit

VARIABLES q,       \* bag of queue entries as a set of <<serial, object, time>>
          live,    \* object -> time of its live entry, or None
          serial, hist
ivars == <<q, live, serial, hist>>
vars  == <<wish, clock, q, live, serial, hist>>

Init == /\ TInit(Objs, WZero)
        /\ q = {} /\ live = [o \in Objs |-> None] /\ serial = 0 /\ hist = <<>>

Push(o, t) == q' = q \cup {<<serial, o, t>>} /\ serial' = serial + 1

ISet(o, t) ==
    /\ Want(o, t)
    /\ IF live[o] = None \/ WLt(t, live[o])
       THEN live' = [live EXCEPT ![o] = t] /\ Push(o, t)
       ELSE UNCHANGED <<q, live, serial>>

ICancel(o) == Cancel(o) /\ UNCHANGED <<q, live, serial>>

Lowest(e) == e \in q /\ \A f \in q : WLe(e[3], f[3])

IPop(e) ==
    LET o == e[2]  t == e[3]
    IN /\ Lowest(e)
       /\ IF live[o] # t
          THEN Ignore(t) /\ q' = q \ {e} /\ UNCHANGED <<live, serial>>
          ELSE IF wish[o] = None
          THEN Ignore(t) /\ q' = q \ {e} /\ live' = [live EXCEPT ![o] = None] /\ UNCHANGED serial
          ELSE IF wish[o] # t
          THEN /\ Ignore(t)
               /\ q' = (q \ {e}) \cup {<<serial, o, wish[o]>>} /\ serial' = serial + 1
               /\ live' = [live EXCEPT ![o] = wish[o]]
          ELSE Act(o, t) /\ q' = q \ {e} /\ live' = [live EXCEPT ![o] = None] /\ UNCHANGED serial

Next ==
    /\ Len(hist) < Depth
    /\ \/ \E o \in Objs, d \in Deltas : ISet(o, WAdd(clock, WOf(d))) /\ hist' = Append(hist, <<10 + o, d>>)
       \/ \E o \in Objs : ICancel(o) /\ hist' = Append(hist, <<20 + o, 0>>)
       \/ \E e \in q : IPop(e) /\ hist' = Append(hist, <<30, 0>>)

Spec == Init /\ [][Next]_vars

\* The algorithm is never stuck where the contract forbids what it would do: a lowest entry can always be
\* popped (the guards NoOverdue of the contract hold), and nobody waits without an entry in the queue.
CanPop    == \A e \in q : Lowest(e) => NoOverdue(wish, e[3])
Covered   == \A o \in Objs : wish[o] # None => \E e \in q : e[2] = o /\ live[o] = e[3] /\ WLe(e[3], wish[o])
OneLive   == \A o \in Objs : live[o] # None => \E e \in q : e[2] = o /\ e[3] = live[o]
View    == hist
EmitAll == (Emit /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
