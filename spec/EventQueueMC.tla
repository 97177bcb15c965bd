---------------------------- MODULE EventQueueMC ----------------------------
(***************************************************************************)
(* Exhaustive exploration of the queue specification over all histories of *)
(* bounded length, with ghost bookkeeping for conservation and order.  The *)
(* same exploration generates (constraint Emit) every history of length    *)
(* Depth, which the replayer drives through the real queue.                *)
(***************************************************************************)
EXTENDS EventQueue, TLC, Json

CONSTANTS Depth, Deltas, Emit

VARIABLES n,        \* number of insertions so far
          ins, out, gone,   \* ids inserted, handed out, discarded
          lastOut,  \* time of the last event handed out since the clock was last rewound
          hist      \* the operations, for generation

vars == <<now, pending, n, ins, out, gone, lastOut, hist>>

Init == /\ QInit(WZero)
        /\ n = 0 /\ ins = {} /\ out = {} /\ gone = {} /\ lastOut = WZero /\ hist = <<>>

Next ==
    /\ Len(hist) < Depth
    /\ \/ \E d \in Deltas :
            /\ Enqueue(n + 1, WAdd(now, WOf(d)))
            /\ n' = n + 1 /\ ins' = ins \cup {n + 1}
            /\ hist' = Append(hist, <<1, d>>)
            /\ UNCHANGED <<out, gone, lastOut>>
       \/ \E p \in pending :
            /\ Dequeue(p[1], p[2])
            /\ out' = out \cup {p[1]} /\ lastOut' = p[2]
            /\ hist' = Append(hist, <<2, p[2][2]>>)
            /\ UNCHANGED <<n, ins, gone>>
       \/ /\ DequeueEmpty
          /\ hist' = Append(hist, <<2, -1>>)
          /\ UNCHANGED <<n, ins, out, gone, lastOut>>
       \/ /\ Clear /\ gone' = gone \cup {p[1] : p \in pending}
          /\ hist' = Append(hist, <<3, 0>>)
          /\ UNCHANGED <<n, ins, out, lastOut>>
       \/ /\ Reset /\ gone' = gone \cup {p[1] : p \in pending} /\ lastOut' = WZero
          /\ hist' = Append(hist, <<4, 0>>)
          /\ UNCHANGED <<n, ins, out>>

Spec == Init /\ [][Next]_vars

Conservation ==
    LET pend == {p[1] : p \in pending}
    IN /\ ins = out \cup gone \cup pend
       /\ out \cap gone = {} /\ out \cap pend = {} /\ gone \cap pend = {}
       /\ Cardinality(pend) = Cardinality(pending)
Monotone == [][(hist' # hist /\ hist'[Len(hist')][1] # 4) => WLe(now, now')]_vars
NothingOverdue == \A p \in pending : WLe(now, p[2]) /\ WLt(WSub(p[2], now), WHalf32)
InOrder == WLe(lastOut, now)

\* What identifies a history to the replayer: operations only (which of several equal-time events comes
\* out is the implementation's choice).
View == hist
EmitAll == (Emit /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
