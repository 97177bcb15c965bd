----------------------------- MODULE NoiseTrace -----------------------------
(***************************************************************************)
(* Recorded noise against UserGraph: every sample is the effect of one set *)
(* of flipped edges of the graph as it is.                                 *)
(***************************************************************************)
EXTENDS Noise, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S

NoiseOK(r) ==
    /\ r.bad = 0
    \* through the Python interface: no sample at all unless every edge has a probability
    /\ "none" \in DOMAIN r => r.none = (IF AllHaveProbabilities(S) THEN 0 ELSE 1)
    /\ r.d = r.d2 /\ r.o = r.o2
    /\ \A R \in {IF AllHaveProbabilities(S) THEN Possible(S) ELSE {0}} :
         \A j \in DOMAIN r.d : r.d[j] < P2[S.n] /\ (r.d[j] + r.o[j] * P2[S.n]) \in R

\* Frequencies of N samples within more than six standard deviations of a/unit, and of their product for pairs (of
\* edges in one sample, and of one edge in samples 2t, 2t + 1).
FreqOK(r) ==
    LET n == Len(r.a)
        Sq(x) == x * x
    IN r.bad = 0 /\
       IF r.unit = 1024
       THEN \A j \in 1..n : /\ Sq(r.c[j] - (r.N \div 1024) * r.a[j]) <= 40 * ((r.a[j] * (1024 - r.a[j])) \div 32) + 40      \* 32768 samples
                            /\ r.a[j] <= 16 => r.sc[j] <= 40
       ELSE
       /\ \A j \in 1..n : LET aa == r.a[j] * r.a[j] dev == AbsI(16 * r.sc[j] - (r.N * aa) \div 32)
                          IN IF aa \in {0, 256} THEN dev = 0 ELSE Sq(dev) <= 40 * (r.N \div 512) * (aa * (256 - aa)) + 40000
       /\ \A j \in 1..n : Sq(16 * r.c[j] - r.N * r.a[j]) <= 40 * r.N * r.a[j] * (16 - r.a[j])
       /\ \A j, k \in 1..n : j # k =>
            LET ab == r.a[j] * r.a[k]
                dev == AbsI(16 * r.pc[(j - 1) * n + k] - (r.N * ab) \div 16)
            IN IF ab \in {0, 256} THEN dev = 0 ELSE Sq(dev) <= 40 * (r.N \div 256) * (ab * (256 - ab)) + 40000

Init == i = 1 /\ S = Empty(0, 0)
Next ==
    /\ i <= Len(Trace)
    /\ LET r == Trace[i]
       IN CASE r.kind = "begin" -> S' = Empty(0, 0)
            [] r.kind = "freq"  -> (FreqOK(r) = TRUE) /\ UNCHANGED S
            [] r.kind = "step"  ->
                 CASE r.op = "add"      -> S' = Add(S, r.u, r.v, r, r.strat, FALSE)
                   [] r.op = "boundary" -> S' = SetBoundary(S, ToSet(r.b))
                   [] r.op = "noise"    -> (NoiseOK(r) = TRUE) /\ UNCHANGED S
            [] OTHER -> FALSE
    /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, S>>

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
