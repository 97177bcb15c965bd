------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Timestamps on a cycle, and radii as linear functions of time.           *)
(***************************************************************************)
EXTENDS Wide, Sequences, TLC, IOUtils, Json

Bit(x, b) == (x \div 2^b) % 2

\* --- a cycle of C values; comparisons are meaningful for less than half a cycle
Ahead(C, a, b) == (b - a) % C              \* increments from a to b
CLt(C, a, b)   == Ahead(C, a, b) > 0 /\ Ahead(C, a, b) < C \div 2
Apart(C, a, b) == Ahead(C, a, b) # C \div 2

CmpOK(lt, gt, x) ==
    /\ Bit(x, 0) = (IF lt THEN 1 ELSE 0)
    /\ Bit(x, 1) = (IF gt THEN 0 ELSE 1)
    /\ Bit(x, 2) = (IF gt THEN 1 ELSE 0)
    /\ Bit(x, 3) = (IF lt THEN 0 ELSE 1)
    /\ Bit(x, 4) = (IF lt \/ gt THEN 0 ELSE 1)
    /\ Bit(x, 5) = (IF lt \/ gt THEN 1 ELSE 0)
    /\ Bit(x, 6) = Bit(x, 4) /\ Bit(x, 7) = Bit(x, 5)

Cyc8OK(r) ==
    /\ \A b \in 0..255 :
         /\ Apart(256, r.a, b) => CmpOK(CLt(256, r.a, b), CLt(256, b, r.a), r.cmp[b + 1])
         /\ Bit(r.cmp[b + 1], 4) = (IF r.a = b THEN 1 ELSE 0)
         /\ r.add[b + 1] = (r.a + b) % 256
         /\ r.sub[b + 1] = (r.a - b) % 256
    /\ \A j \in 1..1101 :
         LET ref  == j - 401
             refu == ref + 100000
         IN /\ r.wid[j] % 256 = r.a
            /\ (ref - r.a) % 256 # 128 => (r.wid[j] - ref < 128 /\ ref - r.wid[j] < 128)
            /\ r.widu[j] % 256 = r.a
            /\ (refu - r.a) % 256 # 128 => (r.widu[j] - refu < 128 /\ refu - r.widu[j] < 128)
    /\ LET a == r.a
       IN r.inc = <<(a+1) % 256, (a+1) % 256, (a+1) % 256, (a+2) % 256, (a+1) % 256, (a+1) % 256, a,
                    (a+300) % 256, (a-1) % 256>>

Cyc32OK(r) ==
    \A j \in DOMAIN r.rows :
      LET x == r.rows[j]
      IN /\ x.cv = WMod32(x.t)
         /\ x.w = x.t
         /\ CmpOK(WLt(x.t, x.ref), WLt(x.ref, x.t), x.cmp)

\* --- lines:  value(t) = y + g * t
At(y, g, t) == IF g = 1 THEN WAdd(y, t) ELSE IF g = -1 THEN WSub(y, t) ELSE y
KindOf(g) == IF g = 1 THEN 1 ELSE IF g = 0 THEN 2 ELSE 4

VaryingRowOK(x) ==
    LET v(t) == At(x.base, x.g, t)
        d    == WSub(x.t2, x.t)
        \* a line through (t, v) with growth g
        Through(val, g) == IF g = 1 THEN WAdd(val, d) ELSE IF g = -1 THEN WSub(val, d) ELSE val
        bv   == IF x.g = 0 THEN x.base ELSE x.base
    IN /\ x.kind = KindOf(x.g)
       /\ x.y = x.base
       /\ x.at = v(x.t) /\ x.at2 = v(x.t2) /\ x.same = v(x.t)
       \* constructed to have a given value at time t
       /\ x.b_kind = KindOf(x.g) /\ x.b_at = bv /\ x.b_at2 = Through(bv, x.g)
       /\ x.z_at = WZero /\ x.z_at2 = d
       \* changing the growth at time t keeps the value at t
       /\ x.thenk = <<1, 2, 4>>
       /\ x.then[1] = v(x.t) /\ x.then[2] = Through(v(x.t), 1)
       /\ x.then[3] = v(x.t) /\ x.then[4] = v(x.t)
       /\ x.then[5] = v(x.t) /\ x.then[6] = Through(v(x.t), -1)
       \* the zero of a line
       /\ x.xthrow = (IF x.g = 0 THEN 1 ELSE 0)
       /\ x.g # 0 => /\ v(x.xi) = WZero /\ v(x.xs) = WZero
       \* two lines meeting
       /\ x.coll = (IF (x.g = 1 /\ x.g2 >= 0) \/ (x.g2 = 1 /\ x.g >= 0) THEN 1 ELSE 0)
       /\ x.hashit = 1 => WAdd(v(x.hit), At(x.base2, x.g2, x.hit)) = WZero
       /\ (x.hashit = 1 /\ x.g + x.g2 = 1) => WAdd(v(x.hitu), At(x.base2, x.g2, x.hitu)) = WZero
       \* offsets
       /\ x.pl = WAdd(v(x.t), x.off) /\ x.pe = x.pl
       /\ x.mi = WSub(v(x.t), x.off) /\ x.me = x.mi
       /\ x.offk = <<KindOf(x.g), KindOf(x.g), KindOf(x.g), KindOf(x.g)>>
       /\ x.eq = (IF x.base = x.base2 /\ x.g = x.g2 THEN 1 ELSE 2)

RecordOK(r) ==
    CASE r.kind = "cyc8"    -> Cyc8OK(r)
      [] r.kind = "cyc32"   -> Cyc32OK(r)
      [] r.kind = "varying" -> \A j \in DOMAIN r.rows : VaryingRowOK(r.rows[j])
      [] OTHER              -> FALSE

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == i <= Len(Log) /\ RecordOK(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Log) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
