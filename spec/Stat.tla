-------------------------------- MODULE Stat --------------------------------
(***************************************************************************)
(* Judging observed frequencies against exact probabilities.  A histogram   *)
(* is a sequence of <<outcome, count>>; P maps outcomes to probabilities.   *)
(* An outcome of probability zero must not occur; every other count must    *)
(* lie within Sigmas standard deviations (plus a little) of its mean.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, NumReal

Sigmas == "6.5"
HCount(H, x) == IF \E i \in 1..Len(H) : H[i][1] = x
                THEN H[CHOOSE i \in 1..Len(H) : H[i][1] = x][2] ELSE 0
Within(c, p, K) ==
  LET mean == NMul(p, K)
      sd   == NSqrt(NMul(mean, NSub(1, p)))
  IN /\ NLe(NAbs(NSub(c, mean)), NAdd(NMul(Sigmas, sd), 4))
     /\ NLt(p, "1e-9") => c = 0
\* P : outcome -> probability, covering every possible outcome
HistOK(H, K, P) ==
  /\ \A i \in 1..Len(H) : H[i][1] \in DOMAIN P
  /\ \A x \in DOMAIN P : Within(HCount(H, x), P[x], K)
\* Probabilities from log weights: W : outcome -> log weight
Softmax(W) ==
  LET S == DOMAIN W
      q == SetSeq(S)
      z == NLogSumExp([i \in 1..Len(q) |-> W[q[i]]])
  IN [x \in S |-> NExp(NSub(W[x], z))]
=============================================================================
