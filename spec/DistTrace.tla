------------------------------ MODULE DistTrace ------------------------------
(***************************************************************************)
(* Traces of single distributions and emissions against Dist and Emission.   *)
(* The state is the model, its hyperparameters and the bag of (weighted)      *)
(* observations; the code's score, predictive probabilities, samples and      *)
(* proposals must all be functions of these.                                 *)
(***************************************************************************)
EXTENDS TraceBase, Emission, Stat

VARIABLES m, h, U,
          att,    \* sometimes_categorical: what each <<clean, clean>> was attributed
          prev    \* last score and predictives, for the chain rule of undecided models
vars == <<i, m, h, U, att, prev>>

ArgPair(s) == LET q == Split(s, "=") IN <<q[1], Join(Tail(q), "=")>>
ParseSpec(s) ==
  LET q == Split(s, "(")
      body == IF Len(q) = 1 THEN "" ELSE Join(SubSeq(Chars(q[2]), 1, Len(Chars(q[2])) - 1), "")
      kv == IF body = "" THEN <<>> ELSE Split(body, ",")
  IN [dist |-> q[1], args |-> [k \in 1..Len(kv) |-> ArgPair(kv[k])]]
\* session dist dist|emission SPEC SEED [extra]
Model(a) ==
  LET p == ParseSpec(a[2]) IN
  IF a[1] = "dist"
  THEN IF p.dist = "bigram3"
       THEN [dist |-> "smallbigram",
             args |-> <<<<"max", a[4]>>, <<"n", IntStr(Code(a[6]) - Code(a[5]) + 1)>>>>]
       ELSE p
  ELSE IF p.dist \in {"bigram", "categorical"}
       THEN [dist |-> p.dist \o "_emission", args |-> IF p.dist = "categorical" THEN <<<<"k", a[4]>>>> ELSE <<>>]
       ELSE IF p.dist = "identity_int" THEN [p EXCEPT !.dist = "identity"]
       ELSE IF p.dist = "sometimes_categorical_neq" THEN [p EXCEPT !.args = <<<<"k", a[4]>>>>]
       ELSE p
Emits == m.dist \in {"identity", "bitflip", "sometimes_bitflip", "gaussian", "sometimes_gaussian", "categorical_emission",
                     "sometimes_categorical", "sometimes_categorical_neq", "simple_string", "bigram_emission"}
A(k) == Line.args[k]
LHyp == Line.st.hyp
\* one observation, from argument k on, and the argument after it
ObsAt1(k) == IF Emits THEN <<A(k), A(k + 1)>> ELSE A(k)
After(k) == IF Emits THEN k + 2 ELSE k + 1

(* ----- sometimes_categorical: a clean-looking value may come from either ----- *)
\* U then holds what each part was given: <<"flip" or "cat", observation, weight>>.
ScSplit(X, key) == LET q == SelectSeq(X, LAMBDA u : u[1][1] = key) IN [k \in 1..Len(q) |-> <<q[k][1][2], q[k][2]>>]
ScScore(mm, hh, X) ==
  NAdd(BernScore(hh[1], hh[2], WSum(ScSplit(X, "flip"), LAMBDA x : x = "1"), WSum(ScSplit(X, "flip"), LAMBDA x : x = "0")),
       CatScore(SubSeq(hh, 3, Len(hh)), NumCats(mm), ScSplit(X, "cat")))
ScFlip(mm, hh, X, b) == NSub(ScScore(mm, hh, Append(X, <<<<"flip", b>>, 1>>)), ScScore(mm, hh, X))
ScCat(mm, hh, X, p) == NSub(ScScore(mm, hh, Append(X, <<<<"cat", p>>, 1>>)), ScScore(mm, hh, X))
ScLogp(mm, hh, X, p) ==
  IF p[1] # p[2] THEN NAdd(ScFlip(mm, hh, X, "1"), ScCat(mm, hh, X, p))
  ELSE NLogSumExp(<<ScFlip(mm, hh, X, "0"), NAdd(ScFlip(mm, hh, X, "1"), ScCat(mm, hh, X, p))>>)
ScAdd(X, p, q, w) ==   \* q: the part of <<p, p>> attributed to the inner emission
  X \o << <<<<"flip", "1">>, NMul(q, w)>>, <<<<"cat", p>>, NMul(q, w)>>, <<<<"flip", "0">>, NMul(NSub(1, q), w)>> >>

IsSC == m.dist = "sometimes_categorical"
Known2(mm) == ClosedForm(mm) \/ mm.dist = "sometimes_categorical"
TheScore(mm, hh, X) == IF mm.dist = "sometimes_categorical" THEN ScScore(mm, hh, X) ELSE WScore(mm, hh, X)
ThePred(mm, hh, X, x) ==
  IF mm.dist = "sometimes_categorical" THEN ScLogp(mm, hh, X, x)
  ELSE NSub(WScore(mm, hh, Append(X, <<x, 1>>)), WScore(mm, hh, X))
TotalW(mm, X) ==
  IF mm.dist = "sometimes_categorical"
  THEN NSumSeq([k \in 1..Len(X) |-> IF X[k][1][1] = "flip" THEN X[k][2] ELSE 0]) ELSE WAll(X)

(* ----- the logged state against the spec's ----- *)
LPs == [k \in 1..Len(Line.lp) |->
          IF Emits THEN <<<<Line.lp[k][1], Line.lp[k][2]>>, Line.lp[k][3]>> ELSE <<Line.lp[k][1], Line.lp[k][2]>>]
Bits == {"0", "1"}
\* A bigram's score is a sum of thousands of terms of size up to 1e7.
Tol(mm) == IF mm.dist \in {"bigram", "string_nat", "smallbigram", "bigram_emission"} THEN "1e-4" ELSE "1e-6"
Consistent ==
  /\ Chk("dist.n", m'.dist = "bigram_emission" \/ NClose(Line.st.n, TotalW(m', U'), "1e-9"))
  /\ Chk("dist.score", Known2(m') => NClose(Line.st.score, TheScore(m', h', U'), Tol(m')))
  /\ Chk("dist.logp", Known2(m') => \A k \in 1..Len(LPs) : NClose(LPs[k][2], ThePred(m', h', U', LPs[k][1]), "1e-6"))
  /\ Chk("dist.finite", ~NIsNaN(Line.st.score) /\ \A k \in 1..Len(LPs) : ~NIsNaN(LPs[k][2]) /\ ~NEq(LPs[k][2], "inf"))
  \* over a finite support that is probed completely, the probabilities sum to one
  /\ Chk("dist.norm",
         LET pr == {LPs[k][1] : k \in 1..Len(LPs)}
             One(S) == S \subseteq pr =>
               LET q == SetSeq(S) IN
               NClose(NSumSeq([j \in 1..Len(q) |-> NExp(LPs[CHOOSE k \in 1..Len(LPs) : LPs[k][1] = q[j]][2])]), 1, "1e-7")
         IN CASE m'.dist = "bernoulli" -> One(Bits)
              [] m'.dist = "categorical" -> One({IntStr(n) : n \in 0..(NFloor(NumCats(m')) - 1)})
              [] m'.dist = "stringcat" -> One(Range(Words(m')))
              [] m'.dist = "sometimes_bitflip" -> \A c \in Bits : One({<<c, d>> : d \in Bits})
              [] m'.dist \in {"categorical_emission", "sometimes_categorical"} ->
                   \A c \in {IntStr(n) : n \in 0..(NFloor(NumCats(m')) - 1)} :
                      One({<<c, IntStr(n)>> : n \in 0..(NFloor(NumCats(m')) - 1)})
              [] OTHER -> TRUE)
  \* A probability is at most one.  (simple_string is known not to be: finding F1.)
  /\ Chk(IF m'.dist = "simple_string" THEN "emit.proper.simple_string" ELSE "emit.proper",
         m'.dist \notin {"normal", "string_normal", "zmn", "gaussian", "sometimes_gaussian"}
         => \A k \in 1..Len(LPs) : NLe(LPs[k][2], "1e-6"))
  \* What was learnt and taken back leaves no trace.
  /\ Chk("emit.undo", (m'.dist = "bigram_emission" /\ U' = <<>>) => NClose(Line.st.score, 0, "1e-6"))
  /\ prev' = [score |-> Line.st.score, lp |-> LPs]

Observe(op) == Line.op = op /\ Advance /\ h' = LHyp /\ m' = m
Quiet(label) == Chk(label, h' = h) /\ U' = U /\ att' = att

Session == /\ Line.op = "session" /\ Advance
           /\ m' = Model(Line.args) /\ h' = LHyp /\ U' = <<>> /\ att' = <<>>
           /\ Chk("dist.init", IsDefaultHyp(m', h'))
           /\ Consistent
           /\ Chk("dist.init", NEq(Line.st.score, 0))
\* Adding an observation adds its predictive probability to the score: the
\* chain rule, also for the models without a closed form.
Chain(x) ==
  \A k \in 1..Len(prev.lp) : prev.lp[k][1] = x => NClose(NSub(Line.st.score, prev.score), prev.lp[k][2], Tol(m))
IncOp ==
  /\ Observe("inc")
  /\ LET x == ObsAt1(1)
         w == IF Len(Line.args) >= After(1) THEN A(After(1)) ELSE "1"
         q == NExp(NAdd(ScFlip(m, h, U, "1"), ScCat(m, h, U, x)))
     IN /\ U' = (IF IsSC
                 THEN IF x[1] = x[2] THEN ScAdd(U, x, q, w)
                      ELSE U \o << <<<<"flip", "1">>, w>>, <<<<"cat", x>>, w>> >>
                 ELSE Append(U, <<x, w>>))
        /\ att' = (IF IsSC /\ x[1] = x[2] THEN Append(att, <<x[1], q>>) ELSE att)
        /\ Chk("dist.frame", h' = h)
        /\ Chk("dist.chain", (NEq(w, 1) /\ ~IsSC) => Chain(x))
  /\ Consistent
\* Taking an observation back removes exactly what it added.
UnincOp ==
  /\ Observe("uninc")
  /\ LET x == ObsAt1(1)
         w == IF Len(Line.args) >= After(1) THEN A(After(1)) ELSE "1"
     IN /\ IF IsSC
           THEN IF x[1] = x[2]
                THEN LET k == CHOOSE j \in 1..Len(att) : att[j][1] = x[1] /\ \A l \in (j + 1)..Len(att) : att[l][1] # x[1]
                     IN att' = RemoveAt(att, k) /\ U' = ScAdd(U, x, att[k][2], NSub(0, w))
                ELSE att' = att /\ U' = U \o << <<<<"flip", "1">>, NSub(0, w)>>, <<<<"cat", x>>, NSub(0, w)>> >>
           ELSE att' = att /\ U' = RemoveAt(U, CHOOSE j \in 1..Len(U) : U[j][1] = x /\ NEq(U[j][2], w))
        /\ Chk("dist.frame", h' = h)
  /\ Consistent
Probes == Observe("probes") /\ Quiet("dist.frame") /\ Consistent
Draw == /\ Observe("draw") /\ Quiet("dist.sampleframe")
        /\ Chk("dist.support", \A k \in 1..Len(Line.draws) :
              IF Emits THEN MayEmit(m, A(1), Line.draws[k]) ELSE InSupport(m, Line.draws[k]))
        /\ Chk("dist.sampleframe", NClose(Line.st.score, prev.score, "1e-9"))
        /\ Consistent
Nearest == Observe("nearest") /\ Quiet("dist.frame") /\ Chk("dist.nearest", IsNearest(m, A(1), Line.got)) /\ Consistent
Propose == /\ Observe("propose") /\ Quiet("dist.frame")
           /\ Chk("emit.propose", IsProposal(m, h, U, Line.args, Line.got)) /\ Consistent
SetHyp == /\ Observe("set") /\ U' = U /\ att' = att
          /\ Consistent
\* Hyperparameters move on their grid, the data stays.
IsSk == m.dist \in {"skellam", "string_skellam"}
HypOp ==
  /\ Observe("hyper") /\ U' = U /\ att' = att
  /\ Chk("hyper.frame", IF IsSk THEN SubSeq(h', 5, 6) = SubSeq(h, 5, 6) ELSE Len(h') = Len(h))
  /\ Chk("hyper.grid",
         IF Emits
         THEN \A s \in SubModels(m, U) : \E g \in HyperGrid(s[1]) : SameHyp(g, SubSeq(h', s[2], s[3]))
         ELSE \E g \in HyperGrid(m) : SameHyp(g, IF IsSk THEN SubSeq(h', 1, 4) ELSE h'))
  /\ Consistent
ThetaOp ==
  /\ Line.op \in {"theta", "inittheta"} /\ Observe(Line.op) /\ U' = U /\ att' = att
  /\ Chk("hyper.frame", IF IsSk THEN SubSeq(h', 1, 4) = SubSeq(h, 1, 4) /\ NLt(0, h'[5]) /\ NLt(0, h'[6]) ELSE h' = h)
  /\ Consistent

(* ----- frequencies ----- *)
H == Line.hist
HB(k) == Line.args[k + 1]
Bigrams == {"bigram", "string_nat", "smallbigram"}
Limit == IF m.dist = "smallbigram" THEN NFloor(Arg(m, "max", "0")) ELSE MaxLen(m)
NChars == CASE m.dist = "bigram" -> "95" [] m.dist = "string_nat" -> "10" [] OTHER -> Arg(m, "n", "0")
\* A string that has reached the maximal length ends there, whatever would follow.
PredP(x) ==
  IF m.dist \in Bigrams /\ Len(Chars(x)) = Limit
  THEN LET T == WTrans(U)
           t == Trans(x)
           t1 == [k \in 1..(Len(t) - 1) |-> <<t[k], 1>>]
       IN NExp(NSub(TransitionScore(h[1], NChars, T \o t1), TransitionScore(h[1], NChars, T)))
  ELSE NExp(ThePred(m, h, U, x))
Lenient(c, p, K) == NLe(NAbs(NSub(c, NMul(p, K))), NAdd(NMul(Sigmas, NSqrt(NMul(NMul(p, K), NSub(1, p)))), 4))
\* Probability density integrated over [a, b] by Simpson's rule.
Integral(F(_), a, b) ==
  LET n == 60
      step == NDiv(NSub(b, a), n)
      at(k) == F(NAdd(a, NMul(k, step)))
  IN NMul(NDiv(step, 3), NSumSeq([k \in 1..(n + 1) |->
        NMul(IF k = 1 \/ k = n + 1 THEN 1 ELSE IF k % 2 = 0 THEN 4 ELSE 2, at(k - 1))]))
HistOp ==
  /\ Line.op = "hist" /\ Advance /\ UNCHANGED <<m, h, U, att, prev>>
  /\ Chk("crash", ~Has(Line, "crash"))
  /\ CASE HB(0) = "sample" ->
          Chk("dist.sample",
              \A k \in 1..Len(H) : InSupport(m, H[k][1]) /\ Lenient(H[k][2], PredP(H[k][1]), Line.k))
          /\ Chk("dist.sample", m.dist \in {"bernoulli", "categorical", "stringcat"} =>
              HistOK(H, Line.k, LET S == IF m.dist = "bernoulli" THEN Bits
                                         ELSE IF m.dist = "categorical" THEN {IntStr(n) : n \in 0..(NFloor(NumCats(m)) - 1)}
                                         ELSE Range(Words(m))
                                IN [x \in S |-> PredP(x)]))
     \* samplebin t1 ... tn: bin k holds what exceeds exactly k thresholds; the
     \* two outermost bins hold the rest of the probability
     [] HB(0) = "samplebin" ->
          Chk("dist.sample",
              LET n == Len(Line.args) - 1
                  P == [k \in 1..(n - 1) |-> Integral(PredP, HB(k), HB(k + 1))]
              IN \A k \in 1..(n - 1) : Lenient(HCount(H, IntStr(k)), P[k], Line.k))
     [] HB(0) = "corruptbin" ->   \* clean, thresholds of dirty - clean
          LET n == Len(Line.args) - 2
              same == IF m.dist = "sometimes_gaussian" THEN NSub(1, Rate(h[1], h[2], WAll(Changed(U)), WAll(Kept(U)))) ELSE "0"
              F(x) == NExp(ThePred(m, h, U, <<HB(1), NAdd(HB(1), x)>>))
              P == [k \in 1..(n - 1) |-> Integral(F, HB(k + 1), HB(k + 2))]
          IN /\ Chk("emit.same", Lenient(HCount(H, "same"), same, Line.k))
             /\ Chk("emit.sample", \A k \in 1..(n - 1) : Lenient(HCount(H, IntStr(k)), P[k], Line.k))
     [] HB(0) = "corrupt" ->
          LET c == HB(1)
              cat == m.dist \in {"categorical_emission", "sometimes_categorical"}
              R == SimpleRates(h, U)
              P(x) == CASE m.dist \in {"sometimes_bitflip"} \/ cat -> NExp(ThePred(m, h, U, <<c, x>>))
                        [] m.dist = "simple_string" -> Garble(R[2], R[3], R[1], Chars(c), Chars(x))
                        [] m.dist = "bigram_emission" -> BigGarble(Chars(c), Chars(x))
                        [] m.dist = "identity" -> IF x = c THEN "1" ELSE "0"
                        [] m.dist = "bitflip" -> IF x = c THEN "0" ELSE "1"
                        [] OTHER -> "0"
              All == {H[k][1] : k \in 1..Len(H)} \cup {c}
                     \cup (IF cat THEN {IntStr(n) : n \in 0..(NFloor(NumCats(m)) - 1)}
                           ELSE IF m.dist \in {"sometimes_bitflip", "bitflip"} THEN Bits ELSE {})
          IN Chk("emit.sample", \A x \in All : MayEmit(m, c, x) \/ HCount(H, x) = 0)
             /\ Chk("emit.sample", \A x \in All : Lenient(HCount(H, x), P(x), Line.k))
     [] HB(0) = "corruptlen" ->
          LET R == SimpleRates(h, U)
              n == Len(Chars(HB(1)))
          IN Chk("emit.sample", \A k \in 0..(n + 3) : Lenient(HCount(H, IntStr(k)), GarbleLen(R[2], R[3], n, k), Line.k))
     [] HB(0) = "hyper" ->
          \* all the hyperparameters of a distribution, or one group of an emission's
          LET sub == IF Emits THEN CHOOSE s \in SubModels(m, U) : s[2] = NFloor(HB(1)) + 1 ELSE <<m, 1, Len(h), U>>
              G == SetSeq(HyperGrid(sub[1]))
              P == Softmax([k \in 1..Len(G) |-> HyperLogp(sub[1], h, sub[4], G[k])])
              Val(s) == LET q == Split(s, " ") IN IF IsSk THEN SubSeq(q, 1, 4) ELSE q
              Idx(q) == IF \E k \in 1..Len(G) : SameHyp(G[k], q) THEN CHOOSE k \in 1..Len(G) : SameHyp(G[k], q) ELSE 0
              HH == [k \in 1..Len(H) |-> <<Idx(Val(H[k][1])), H[k][2]>>]
          IN Chk("hyper.hist", HistOK(HH, Line.k, P))
     [] HB(0) = "inittheta" ->   \* how often the first rate falls below its median, exp(mean)
          Chk("hyper.hist", \A k \in 5..6 :
              Lenient(NSumSeq([j \in 1..Len(H) |-> IF NLt(Split(H[j][1], " ")[k], NExp(h[2 * (k - 5) + 1])) THEN H[j][2] ELSE 0]),
                      "0.5", Line.k))
Crash == Line.op = "crash" /\ CrashFree /\ Advance /\ UNCHANGED <<m, h, U, att, prev>>

NoModel == [dist |-> "none", args |-> <<>>]
Init == i = 0 /\ m = NoModel /\ h = <<>> /\ U = <<>> /\ att = <<>> /\ prev = [score |-> "0", lp |-> <<>>]
Next == /\ i < Len(Log)
        /\ \/ Session \/ IncOp \/ UnincOp \/ Probes \/ Draw \/ Nearest \/ Propose \/ SetHyp \/ HypOp \/ ThetaOp
           \/ HistOp \/ Crash
Spec == Init /\ [][Next]_vars
=============================================================================
