--------------------------- MODULE DecoderHistory ---------------------------
(***************************************************************************)
(* A decoder as an object with a history.                                  *)
(*                                                                         *)
(* Abstract state: the graph it was built for (g, with its minimum-weight  *)
(* table T) and the edge weights held by its two internal graphs (W).      *)
(* Every call -- decode, decode to pairs or edges, correlated decode, path *)
(* query, or a rejected input -- answers as a function of the graph alone  *)
(* and leaves the state as it was: no residue, the same weights.           *)
(***************************************************************************)
EXTENDS MatchingGraph, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, g, T, W, norm

vars == <<i, g, T, W, norm>>

Small(gr) == gr.n + gr.k <= 9

\* Calls whose answer the decoding contract fixes.
ContractOK(r) ==
    LET oor == OutOfRange(g, r.ev)
        s   == DetPattern(g, r.ev)
        feasible == ~oor /\ BestFor(g, T, s) < INF
    IN r.op \in {"dec", "dec64", "edges", "cdec", "cdec64", "cedges"} =>
         /\ r.a.st = IF feasible THEN 0 ELSE 1
         /\ (feasible /\ r.op \in {"dec", "dec64"}) =>
               /\ r.a.w = norm * (BestFor(g, T, s) + CrowdWeight(g, r.t))
               /\ r.a.x = 0
               /\ T[s + ((r.a.o ^^ CrowdLabels(g, r.t)) * Pow2[g.n])] = BestFor(g, T, s)
         /\ (feasible /\ r.op \in {"edges", "cedges"}) => CrowdListed(g, r.t, r.a.c, FALSE)

StepOK(r) ==
    /\ r.op # "reweight" => (r.a = r.f /\ r.a.st \in {0, 1} /\ (Small(g) => ContractOK(r)))
    /\ \A j \in DOMAIN r.res : r.res[j] = 0
    /\ IF r.same = 1 THEN TRUE ELSE r.wm2 = W[1] /\ r.ws2 = W[2]

Init == i = 1 /\ g = <<>> /\ T = <<>> /\ W = <<>> /\ norm = 0
Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET r == Trace[i]
       IN CASE r.kind = "begin" ->
                 /\ g' = r.g /\ W' = <<r.wm, r.ws>> /\ norm' = r.norm
                 /\ T' = IF Small(r.g) THEN MinTable(r.g, EffEdges(r.g)) ELSE <<>>
            [] r.kind = "step" -> (StepOK(r) = TRUE) /\ UNCHANGED <<g, T, W, norm>>
            [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars

Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
