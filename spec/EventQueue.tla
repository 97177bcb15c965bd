----------------------------- MODULE EventQueue -----------------------------
(***************************************************************************)
(* The flooding queue: a monotone priority queue over absolute time.       *)
(* Events are identified (id) and carry a time; callers may only insert    *)
(* at or after the current time and less than half a timestamp cycle       *)
(* ahead of it.                                                            *)
(***************************************************************************)
EXTENDS Wide, FiniteSets, Sequences

VARIABLES now,      \* current absolute time (Wide)
          pending   \* set of <<id, time>>

qvars == <<now, pending>>

QInit(start) == now = start /\ pending = {}

\* An insertion is legal at or after the current time and less than half a cycle ahead.
Legal(t) == WLe(now, t) /\ WLt(WSub(t, now), WHalf32)

Enqueue(id, t) ==
    /\ Legal(t)
    /\ \A p \in pending : p[1] # id
    /\ pending' = pending \cup {<<id, t>>}
    /\ UNCHANGED now

\* A validating queue refuses an insertion before the current time; nothing changes.
Refuse(t) ==
    /\ WLt(t, now)
    /\ UNCHANGED qvars

\* Any event of minimum time may come out; the current time becomes its time.
Dequeue(id, t) ==
    /\ <<id, t>> \in pending
    /\ \A p \in pending : WLe(t, p[2])
    /\ pending' = pending \ {<<id, t>>}
    /\ now' = t

DequeueEmpty ==
    /\ pending = {}
    /\ UNCHANGED qvars

Clear == pending' = {} /\ UNCHANGED now
Reset == pending' = {} /\ now' = WZero
\* Decoders rewind the clock of an empty queue.
Rewind(t) == pending = {} /\ now' = t /\ UNCHANGED pending
=============================================================================
