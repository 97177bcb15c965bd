---------------------------- MODULE TrackerTrace ----------------------------
EXTENDS Tracker, Sequences, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<wish, clock, i>>

Init == TInit({0}, WZero) /\ i = 1

StepOK(r) ==
    CASE r.op = "begin" -> wish' = [o \in 0..(r.objs - 1) |-> None] /\ clock' = r.now
      [] r.op = "set"   -> Want(r.o, r.t)
      [] r.op = "unset" -> Cancel(r.o)
      [] r.op = "pop"   -> /\ r.tv = WMod32(r.now) /\ r.o \in DOMAIN wish
                           /\ IF r.keep = 1 THEN Act(r.o, r.now) ELSE Ignore(r.now)
      [] r.op = "none"  -> Idle /\ r.now = clock
      [] OTHER          -> FALSE

Next == i <= Len(Log) /\ StepOK(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Log) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
