-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Exact integers beyond TLC's 32 bits: <<hi, lo>> stands for              *)
(* hi * 2^24 + lo with 0 <= lo < 2^24 (hi may be negative).                *)
(***************************************************************************)
EXTENDS Integers

WBase == 16777216

WIsWide(a) == a[2] >= 0 /\ a[2] < WBase
WOf(n)     == <<n \div WBase, n % WBase>>
WAdd(a, b) == LET l == a[2] + b[2] IN <<a[1] + b[1] + (l \div WBase), l % WBase>>
WNeg(a)    == IF a[2] = 0 THEN <<-a[1], 0>> ELSE <<-a[1] - 1, WBase - a[2]>>
WSub(a, b) == WAdd(a, WNeg(b))
WLt(a, b)  == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WLe(a, b)  == a = b \/ WLt(a, b)
WZero      == <<0, 0>>
WAbs(a)    == IF WLt(a, WZero) THEN WNeg(a) ELSE a
WDouble(a) == WAdd(a, a)
\* value modulo 2^32, 0 <= result < 2^32
WMod32(a)  == <<a[1] % 256, a[2]>>
WHalf32    == <<128, 0>>       \* 2^31
\* exact product of 0 <= a < 2^24 and 0 <= b < 2^30
WMul(a, b) ==
    LET a1 == a \div 4096  a0 == a % 4096
        b1 == b \div 4096  b0 == b % 4096
        m  == a1 * b0 + a0 * b1
        l  == a0 * b0 + (m % 4096) * 4096
    IN <<a1 * b1 + (m \div 4096) + (l \div WBase), l % WBase>>
WMinOf(S)  == CHOOSE x \in S : \A y \in S : WLe(x, y)
=============================================================================
