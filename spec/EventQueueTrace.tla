--------------------------- MODULE EventQueueTrace ---------------------------
(***************************************************************************)
(* Recorded histories of the real queue must be behaviours of EventQueue.  *)
(*   begin  start                                                          *)
(*   step   op = "enq" (e, t), "refused" (t), "deq" (e, tv, now, size),    *)
(*          "none" (now, size), "clear", "reset", "rewind" (t)             *)
(* Every step records the clock and size afterwards.                       *)
(***************************************************************************)
EXTENDS EventQueue, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<now, pending, i>>

Init == QInit(WZero) /\ i = 1

Obs(r) == now' = r.now /\ Cardinality(pending') = r.size

\* Lots: many events of one time at once; pending <<lot, time, how many>>.  A run of dequeues of one time takes
\* some of each lot of the least time.
EnqueueLot(l, c, t) ==
    /\ Legal(t)
    /\ \A p \in pending : p[1] # l
    /\ pending' = pending \cup {<<l, t, c>>}
    /\ UNCHANGED now
DequeueLots(ls, t) ==
    LET took(l) == IF \E j \in DOMAIN ls : ls[j][1] = l THEN ls[CHOOSE j \in DOMAIN ls : ls[j][1] = l][2] ELSE 0
    IN /\ ls # <<>>
       /\ \A j \in DOMAIN ls : \E p \in pending : p[1] = ls[j][1] /\ p[2] = t /\ p[3] >= ls[j][2]
       /\ \A p \in pending : WLe(t, p[2])
       /\ pending' = {p \in {<<q[1], q[2], q[3] - took(q[1])>> : q \in pending} : p[3] > 0}
       /\ now' = t
LotSize(P) == LET RECURSIVE Sum(_)
                  Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[3] + Sum(S \ {x})
              IN Sum(P)
ObsLots(r) == now' = r.now /\ LotSize(pending') = r.size

StepOK(r) ==
    CASE r.op = "enqs"    -> EnqueueLot(r.e, r.c, r.t) /\ ObsLots(r)
      [] r.op = "deqs"    -> r.wrong = 0 /\ DequeueLots(r.l, r.t) /\ ObsLots(r)
      [] r.op = "begin"   -> now' = r.now /\ pending' = {}
      [] r.op = "enq"     -> Enqueue(r.e, r.t) /\ Obs(r)
      [] r.op = "refused" -> Refuse(r.t) /\ Obs(r)
      [] r.op = "deq"     -> /\ \E p \in pending : p[1] = r.e
                             /\ LET p == CHOOSE p \in pending : p[1] = r.e
                                IN Dequeue(p[1], p[2]) /\ r.tv = WMod32(p[2])
                             /\ Obs(r)
      [] r.op = "none"    -> DequeueEmpty /\ Obs(r)
      [] r.op = "clear"   -> Clear /\ Obs(r)
      [] r.op = "reset"   -> Reset /\ Obs(r)
      [] r.op = "rewind"  -> Rewind(r.t) /\ Obs(r)
      [] OTHER            -> FALSE       \* crash or hang

Next == i <= Len(Log) /\ StepOK(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Log) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
