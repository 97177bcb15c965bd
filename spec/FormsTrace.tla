----------------------------- MODULE FormsTrace -----------------------------
(***************************************************************************)
(* Histories of decode calls through the Python interface, on one object,  *)
(* in every form there is, against Forms.                                  *)
(***************************************************************************)
EXTENDS Forms, Wide, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, f

\* An answer of the form "one number per observable".
AnswerOK(r, evs) ==
    /\ Len(r.pred) = f.g.K /\ \A j \in DOMAIN r.pred : r.pred[j] \in {0, 1}
    /\ ObsBest(f, evs, PlainObs(r.pred))
    /\ r.rw = 1 => r.wt = Best(f, evs)

SingleOK(r) ==
    LET evs == ShotEvents(r.z, r.shape)
    IN IF ~ShotValid(f.g, r.shape) THEN r.st = 1
       ELSE IF ~Feasible(f, evs) THEN r.st = 1
       ELSE /\ r.st = 0
            /\ CASE r.op = "decode" -> AnswerOK(r, evs)
                 [] r.op = "edges"  -> r.ok = 1 /\ EdgesBest(f, evs, r.l)
                 [] r.op = "pairs"  -> r.ok = 1 /\ PairsBest(f, evs, r.l)
                 [] r.op = "dict"   -> r.ok = 1 /\ DictBest(f, evs, r.l)

\* Very many shots of few kinds: shots[k] was there mult[k] times; lot[k] are the answers <<<<row, weight>>, how often>>
\* given to it, in the places it was in.
LotOK(r, Ev(_), width) ==
    /\ r.st = 0 /\ r.shape = <<SumOf(r.mult, LAMBDA x : x), width>>
    /\ \A k \in 1..r.ns :
         /\ SumOf(r.lot[k], LAMBDA a : a[2]) = r.mult[k]
         /\ \A j \in DOMAIN r.lot[k] : \A a \in {r.lot[k][j][1]} :
              /\ Len(a[1]) = width
              /\ r.pp = 0 => \A x \in DOMAIN a[1] : a[1][x] \in {0, 1}
              /\ ObsBest(f, Ev(k), IF r.pp = 1 THEN PackedObs(a[1]) ELSE PlainObs(a[1]))
              /\ r.rw = 1 => a[2] = Best(f, Ev(k))

BatchOK(r) ==
    LET Ev(k) == IF r.ps = 1 THEN BitsOf(r.shots[k]) ELSE OnesOf(r.shots[k])
        width == IF r.pp = 1 THEN CeilDiv8(f.g.K) ELSE f.g.K
    IN IF r.flat = 1 \/ ~BatchValid(f.g, r.w, r.ps = 1) \/ \E k \in 1..r.ns : ~Feasible(f, Ev(k)) THEN r.st = 1
       ELSE IF r.mult # <<>> THEN LotOK(r, Ev, width)
       ELSE /\ r.st = 0
            /\ r.shape = <<r.ns, width>> /\ Len(r.pred) = r.ns
            /\ r.rw = 1 => Len(r.ws) = r.ns
            /\ \A k \in 1..r.ns :
                 /\ Len(r.pred[k]) = width
                 /\ r.pp = 0 => \A j \in DOMAIN r.pred[k] : r.pred[k][j] \in {0, 1}
                 /\ ObsBest(f, Ev(k), IF r.pp = 1 THEN PackedObs(r.pred[k]) ELSE PlainObs(r.pred[k]))
                 /\ r.rw = 1 => r.ws[k] = Best(f, Ev(k))

\* Correlated decoding of a shot as a vector, in a batch and to edges (weights without ties): one solution, an
\* explanation of the shot, shown in every form.
NearW(a, b) == WLe(WAbs(WSub(a, b)), WOf(2))
CorrelatedOK(r) ==
    \A l \in {Links(f.g, r.l)} :
    LET Ev(k) == OnesOf(r.shots[k])
        mine == PlainObs(r.pred)
    IN /\ r.st[1] = (IF Feasible(f, Ev(r.s)) THEN 0 ELSE 1)
       /\ r.st[3] = r.st[1]
       /\ r.st[2] = (IF \A k \in DOMAIN r.shots : Feasible(f, Ev(k)) THEN 0 ELSE 1)
       /\ r.st[1] = 0 =>
            /\ Len(r.pred) = f.g.K /\ \A j \in DOMAIN r.pred : r.pred[j] \in {0, 1}
            /\ mine \subseteq ToSet(f.colobs)
            /\ \A x \in DOMAIN l : Cardinality(EdgeIdx(f, l[x])) = 1
            /\ \A x, y \in DOMAIN l : x # y => {l[x][1], l[x][2]} # {l[y][1], l[y][2]}
            /\ XorOf(l, LAMBDA p : EdgeMask(f.g, f.eff[CHOOSE j \in EdgeIdx(f, p) : TRUE])) = Pattern(f, Ev(r.s)) + ObsMask(f, mine)
       /\ r.st[2] = 0 => Len(r.preds) = Len(r.shots) /\ Len(r.wts) = Len(r.shots)
       /\ (r.st[1] = 0 /\ r.st[2] = 0) =>
            /\ (IF r.pp = 1 THEN PackedObs(r.preds[r.s]) ELSE PlainObs(r.preds[r.s])) = mine
            /\ Len(r.preds[r.s]) = (IF r.pp = 1 THEN CeilDiv8(f.g.K) ELSE f.g.K)
            /\ NearW(r.wts[r.s], r.wt)

Begin(r) == r.st = 0 /\ r.nd = NumDet(r.g) /\ r.K = r.g.K /\ r.n = RealN(r.g)

Init == i = 1 /\ f = <<>>
Next ==
    /\ i <= Len(Trace)
    /\ LET r == Trace[i]
       IN CASE r.kind = "begin" -> Begin(r) /\ f' = Facts(r.g, r.colobs)
            [] r.kind = "step"  -> ((CASE r.op = "batch" -> BatchOK(r) [] r.op = "corr" -> CorrelatedOK(r) [] OTHER -> SingleOK(r)) = TRUE) /\ UNCHANGED f
            [] OTHER -> FALSE
    /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, f>>

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
