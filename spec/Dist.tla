-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* The observation models: what each distribution and each emission says    *)
(* about a finite multiset of observations, as a closed form of the         *)
(* observations and the hyperparameters alone.                              *)
(*                                                                         *)
(* A model is a record [dist, args]; h is its sequence of hyperparameters   *)
(* (numbers, see NumReal); V is a sequence of observations.  A value is a   *)
(* string: "0"/"1" for booleans, decimal text for numbers, the text itself  *)
(* for strings.  An observation of an emission is a pair <<clean, dirty>>.  *)
(* Observations may be weighted: U is a sequence of <<observation, weight>>.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, NumReal, SequencesExt

Pi == "3.141592653589793238"
SumOver(S, F(_)) == LET q == SetSeq(S) IN NSumSeq([i \in 1..Len(q) |-> F(q[i])])
SumSeq(q, F(_))  == NSumSeq([i \in 1..Len(q) |-> F(q[i])])
CountIf(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
Neg(x) == NSub(0, x)
Arg(m, key, default) ==
  IF \E i \in 1..Len(m.args) : m.args[i][1] = key
  THEN m.args[CHOOSE i \in 1..Len(m.args) : m.args[i][1] = key][2] ELSE default

LBeta(a, b) == NSub(NAdd(NLGamma(a), NLGamma(b)), NLGamma(NAdd(a, b)))

(* --- beta-bernoulli: n1 weighted successes, n0 failures --- *)
BernScore(a, b, n1, n0) == NSub(LBeta(NAdd(n1, a), NAdd(n0, b)), LBeta(a, b))

(* --- symmetric Dirichlet-categorical over k classes; C: sequence of the non-zero counts --- *)
DirScore(alpha, k, C) ==
  LET n == NSumSeq(C)
      a == NMul(alpha, k)
  IN NAdd(NSub(NLGamma(a), NLGamma(NAdd(a, n))),
          SumSeq(C, LAMBDA c : NSub(NLGamma(NAdd(c, alpha)), NLGamma(alpha))))
\* Weights
WObs(U) == {U[i][1] : i \in 1..Len(U)}
WSum(U, P(_)) == LET q == SelectSeq(U, LAMBDA u : P(u[1])) IN NSumSeq([i \in 1..Len(q) |-> q[i][2]])
WAll(U) == NSumSeq([i \in 1..Len(U) |-> U[i][2]])
WCounts(U) == Tally(U)
WMap(U, F(_)) == [i \in 1..Len(U) |-> <<F(U[i][1]), U[i][2]>>]

(* --- normal with normal-inverse-gamma prior: hyperparameters r, v, m, s --- *)
LogZ(r, v, s) ==
  NSumSeq(<<NMul(NMul(NAdd(v, 1), "0.5"), NLn(2)), NMul("0.5", NLn(Pi)), NMul("-0.5", NLn(r)),
            Neg(NMul(NMul("0.5", v), NLn(s))), NLGamma(NMul("0.5", v))>>)
NormalScore(h, U) ==
  LET n  == WAll(U)
      r  == h[1]
      v  == h[2]
      m  == h[3]
      s  == h[4]
      xb == IF U = <<>> THEN "0" ELSE NDiv(SumSeq(U, LAMBDA u : NMul(u[2], u[1])), n)
      ss == SumSeq(U, LAMBDA u : NMul(u[2], NMul(NSub(u[1], xb), NSub(u[1], xb))))  \* about the mean
      rn == NAdd(r, n)
      dm == NSub(xb, m)
      sn == NSumSeq(<<s, ss, NDiv(NMul(NMul(r, n), NMul(dm, dm)), rn)>>)
  IN NSumSeq(<<NMul(NMul("-0.5", n), NLn(NMul(2, Pi))), LogZ(rn, NAdd(v, n), sn), Neg(LogZ(r, v, s))>>)

(* --- zero-mean normal with inverse-gamma prior on the variance --- *)
ZmnScore(a, b, U) ==
  LET n  == WAll(U)
      an == NAdd(a, NDiv(n, 2))
      bn == NAdd(b, NMul("0.5", SumSeq(U, LAMBDA u : NMul(u[2], NMul(u[1], u[1])))))
  IN NSumSeq(<<NMul(a, NLn(b)), Neg(NLGamma(a)), Neg(NMul(NDiv(n, 2), NLn(NMul(2, Pi)))),
               NLGamma(an), Neg(NMul(an, NLn(bn)))>>)

(* --- skellam: difference of two Poissons of rates m1, m2 --- *)
AbsInt(x) == NFloor(NAbs(x))
\* log I_n(x): by its power series, or for large x by the uniform expansion
\* (Abramowitz and Stegun 9.7.7).
LogBessel(n, x) ==
  IF NLe(x, 600)
  THEN LET terms == 40 + NFloor(x) IN
       NLogSumExp([j \in 1..terms |->
          NSub(NMul(2 * (j - 1) + n, NLn(NDiv(x, 2))), NAdd(NLGamma(j), NLGamma(j + n)))])
  ELSE LET r == NSqrt(NAdd(NMul(n, n), NMul(x, x)))
           p == NMul(NDiv(n, r), NDiv(n, r))
           u1 == NDiv(NSub(3, NMul(5, p)), NMul(24, r))
           u2 == NDiv(NAdd(81, NMul(p, NAdd("-462", NMul(385, p)))), NMul(1152, NMul(r, r)))
           asinh == NLn(NAdd(NDiv(n, x), NDiv(r, x)))
       IN NSumSeq(<<r, Neg(NMul(n, asinh)), NMul("-0.5", NLn(NMul(NMul(2, Pi), r))), NLn(NAdd(1, NAdd(u1, u2)))>>)
SkellamLogp(m1, m2, x) ==
  NSumSeq(<<Neg(m1), Neg(m2), NMul(NDiv(x, 2), NLn(NDiv(m1, m2))),
            LogBessel(AbsInt(x), NMul(2, NSqrt(NMul(m1, m2))))>>)
SkellamScore(h, U) ==
  LET q == SetSeq(WObs(U)) IN
  NSumSeq([i \in 1..Len(q) |->
     NMul(WSum(U, LAMBDA x : x = q[i]), SkellamLogp(h[5], h[6], q[i]))])

(* --- bigram over an alphabet of nchars characters, plus the start/stop symbol --- *)
Trans(s) == LET c == Chars(s) IN
  IF Len(c) = 0 THEN << <<"", "">> >>
  ELSE << <<"", c[1]>> >> \o [i \in 1..(Len(c) - 1) |-> <<c[i], c[i + 1]>>] \o << <<c[Len(c)], "">> >>
\* Each row (the character before) is a Dirichlet-categorical over the characters after it.
TransitionScore(alpha, nchars, T) ==   \* T: sequence of <<transition, weight>>
  LET a     == NMul(alpha, NAdd(nchars, 1))
      rows  == Tally([i \in 1..Len(T) |-> <<T[i][1][1], T[i][2]>>])
      cells == Tally(T)
  IN NAdd(SumSeq(rows, LAMBDA n : NSub(NLGamma(a), NLGamma(NAdd(a, n)))),
          SumSeq(cells, LAMBDA c : NSub(NLGamma(NAdd(c, alpha)), NLGamma(alpha))))
WTrans(U) == Flatten([i \in 1..Len(U) |-> LET t == Trans(U[i][1]) IN [j \in 1..Len(t) |-> <<t[j], U[i][2]>>]])
BigramScore(alpha, nchars, U) == TransitionScore(alpha, nchars, WTrans(U))

(* --- emissions --- *)
Diff(p) == NSub(p[2], p[1])
GaussScore(h, U) == ZmnScore(h[1], h[2], WMap(U, Diff))
Changed(U) == SelectSeq(U, LAMBDA u : u[1][1] # u[1][2])
Kept(U)    == SelectSeq(U, LAMBDA u : u[1][1] = u[1][2])
FlipScore(a, b, U) == BernScore(a, b, WAll(Changed(U)), WAll(Kept(U)))

(* simple_string: a greedy walk over clean and dirty text, giving              *)
(* <<sub1, sub0, ins1, ins0, del1, del0>>: how often a substitution, an        *)
(* insertion, a deletion did and did not happen.                               *)
RECURSIVE Walk(_, _)
Walk(c, d) ==
  LET lc == Len(c)
      ld == Len(d)
      Plus(k, w) == [i \in 1..6 |-> k[i] + w[i]]
  IN CASE lc = 0 /\ ld = 0 -> <<0, 0, 0, 1, 0, 0>>
       [] lc = 0 /\ ld > 0 -> <<0, 0, ld, 0, 0, 0>>
       [] lc > 0 /\ ld = 0 -> <<0, 0, 0, lc, lc, 0>>
       [] lc > 0 /\ ld > 0 /\ c[1] = d[1] -> Plus(Walk(Tail(c), Tail(d)), <<0, 1, 0, 1, 0, 1>>)
       [] lc > 0 /\ ld > 0 /\ c[1] # d[1] /\ c[lc] = d[ld] ->
            Plus(Walk(SubSeq(c, 1, lc - 1), SubSeq(d, 1, ld - 1)), <<0, 1, 0, 1, 0, 1>>)
       [] OTHER ->
            IF lc < ld THEN Plus(Walk(c, Tail(d)), <<0, 0, 1, 0, 0, 0>>)
            ELSE IF lc > ld THEN Plus(Walk(Tail(c), d), <<0, 0, 0, 1, 1, 0>>)
            ELSE Plus(Walk(Tail(c), Tail(d)), <<1, 0, 0, 1, 0, 1>>)
SimpleStringScore(h, U) ==
  LET w == [i \in 1..Len(U) |-> Walk(Chars(U[i][1][1]), Chars(U[i][1][2]))]
      Tot(j) == NSumSeq([i \in 1..Len(U) |-> NMul(w[i][j], U[i][2])])
  IN NSumSeq(<<BernScore(h[1], h[2], Tot(1), Tot(2)), BernScore(h[3], h[4], Tot(3), Tot(4)),
               BernScore(h[5], h[6], Tot(5), Tot(6)),
               \* Every substituted or inserted character is drawn uniformly from 95,
               \* which ought to cost log 95.  The code adds it instead (known
               \* finding F1, which an existing test relies on).
               NMul(NAdd(Tot(1), Tot(3)), NLn(95))>>)

\* one distribution over dirty values for each clean value
CatScore(h, k, U) ==
  SumOver({u[1] : u \in WObs(U)}, LAMBDA c :
    DirScore(h[1 + NFloor(c)], k, WCounts(WMap(SelectSeq(U, LAMBDA u : u[1][1] = c), LAMBDA p : p[2]))))

ClosedForm(m) == m.dist \notin {"sometimes_categorical", "bigram_emission"}

NumCats(m) == Arg(m, "k", "0")
Words(m) == LET d == Arg(m, "delim", " ") IN Split(Arg(m, "strings", ""), d)

(* The log probability of the weighted observations U, in any order. *)
WScore(m, h, U) ==
  CASE m.dist = "bernoulli" -> BernScore(h[1], h[2], WSum(U, LAMBDA x : x = "1"), WSum(U, LAMBDA x : x = "0"))
    [] m.dist = "categorical" -> DirScore(h[1], NumCats(m), WCounts(U))
    [] m.dist = "stringcat" -> DirScore(h[1], Len(Words(m)), WCounts(U))
    [] m.dist = "normal" -> NormalScore(h, U)
    [] m.dist = "string_normal" -> NormalScore(h, WMap(U, LAMBDA x : NRead(x)))
    [] m.dist = "zmn" -> ZmnScore(h[1], h[2], U)
    [] m.dist = "skellam" -> SkellamScore(h, U)
    [] m.dist = "string_skellam" -> SkellamScore(h, WMap(U, LAMBDA x : NReadInt(x)))
    [] m.dist = "bigram" -> BigramScore(h[1], 95, U)
    [] m.dist = "string_nat" -> BigramScore(h[1], 10, U)
    [] m.dist = "smallbigram" -> BigramScore(h[1], Arg(m, "n", 0), U)
    [] m.dist = "gaussian" -> GaussScore(h, U)
    [] m.dist = "sometimes_bitflip" -> FlipScore(h[1], h[2], U)
    [] m.dist = "sometimes_gaussian" ->
         NAdd(FlipScore(h[1], h[2], U), GaussScore(<<h[3], h[4]>>, Changed(U)))
    [] m.dist = "simple_string" -> SimpleStringScore(h, U)
    [] m.dist \in {"identity", "bitflip"} -> "0"
    [] m.dist = "categorical_emission" -> CatScore(h, NumCats(m), U)
    [] m.dist = "sometimes_categorical_neq" ->
         NAdd(FlipScore(h[1], h[2], U), CatScore(SubSeq(h, 3, Len(h)), NumCats(m), Changed(U)))
Score(m, h, V) == WScore(m, h, [i \in 1..Len(V) |-> <<V[i], 1>>])

(* The predictive log probability of one more observation: the chain rule. *)
Logp(m, h, V, x) == NSub(Score(m, h, Append(V, x)), Score(m, h, V))

(* Hyperparameters of a model nothing has been learnt about. *)
DefaultHyp(m) ==
  CASE m.dist \in {"bernoulli", "gaussian", "zmn"} -> <<"1", "1">>
    [] m.dist \in {"categorical", "stringcat", "bigram", "string_nat", "smallbigram"} -> <<"1">>
    [] m.dist \in {"normal", "string_normal"} -> <<"1", "1", "0", "1">>
    [] m.dist \in {"skellam", "string_skellam"} -> <<"0", "1", "0", "1">>  \* then two random rates
    [] m.dist = "sometimes_bitflip" -> <<"1", "1">>
    [] m.dist = "sometimes_gaussian" -> <<"1", "1", "1", "1">>
    [] m.dist = "simple_string" -> <<"1", "1", "1", "1", "1", "1">>
    [] m.dist \in {"sometimes_categorical", "sometimes_categorical_neq"} -> [i \in 1..(2 + NFloor(NumCats(m))) |-> "1"]
    [] m.dist = "bigram_emission" -> [i \in 1..192 |-> "1"]
    [] m.dist = "categorical_emission" -> [i \in 1..NFloor(NumCats(m)) |-> "1"]
    [] OTHER -> <<>>
IsDefaultHyp(m, h) ==
  IF m.dist \in {"skellam", "string_skellam"}
  THEN Len(h) = 6 /\ SubSeq(h, 1, 4) = DefaultHyp(m)
  ELSE h = DefaultHyp(m)
=============================================================================
