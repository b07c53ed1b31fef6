------------------------------ MODULE Emission ------------------------------
(***************************************************************************)
(* More about the observation models: their support, the nearest value in    *)
(* it, what an emission may emit and propose, the grid hyperparameters are    *)
(* resampled from.                                                          *)
(***************************************************************************)
EXTENDS Dist

\* m : a model.  Is x a value it can produce?
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Printable(c) == Code(c) >= 32 /\ Code(c) <= 126
IsInt(x) == IsNum(x) /\ NEq(x, NFloor(x))
MaxLen(m) == NFloor(Arg(m, "maxlength", IF m.dist = "string_nat" THEN "20" ELSE "80"))
InSupport(m, x) ==
  CASE m.dist = "bernoulli" -> x \in {"0", "1"}
    [] m.dist = "categorical" -> IsInt(x) /\ NLe(0, x) /\ NLt(x, NumCats(m))
    [] m.dist = "stringcat" -> x \in Range(Words(m))
    [] m.dist \in {"normal", "zmn", "string_normal"} -> IsNum(x)
    [] m.dist \in {"skellam", "string_skellam"} -> IsInt(x)
    [] m.dist = "bigram" -> Len(Chars(x)) <= MaxLen(m) /\ \A c \in Range(Chars(x)) : Printable(c)
    [] m.dist = "string_nat" -> Len(Chars(x)) <= MaxLen(m) /\ Range(Chars(x)) \subseteq Digits
    [] m.dist = "smallbigram" -> /\ NFloor(Arg(m, "max", "0")) > 0 => Len(Chars(x)) <= NFloor(Arg(m, "max", "0"))
                                 /\ \A c \in Range(Chars(x)) : Code(c) >= 97 /\ Code(c) < 97 + NFloor(Arg(m, "n", "0"))
    [] OTHER -> FALSE
\* ... and an emission, from the clean value c?
MayEmit(m, c, x) ==
  CASE m.dist \in {"identity"} -> x = c
    [] m.dist = "bitflip" -> x \in {"0", "1"} /\ x # c
    [] m.dist = "sometimes_bitflip" -> x \in {"0", "1"}
    [] m.dist \in {"gaussian", "sometimes_gaussian"} -> IsNum(x)
    [] m.dist \in {"categorical_emission", "sometimes_categorical", "sometimes_categorical_neq"} ->
         IsInt(x) /\ NLe(0, x) /\ NLt(x, NumCats(m))
    [] m.dist \in {"simple_string", "bigram_emission"} -> \A y \in Range(Chars(x)) : Printable(y)
    [] OTHER -> FALSE

\* Edit distance of two sequences.
RECURSIVE EditSeq(_, _)
Min2(a, b) == IF a < b THEN a ELSE b
EditSeq(a, b) ==
  IF a = <<>> THEN Len(b) ELSE IF b = <<>> THEN Len(a)
  ELSE IF a[1] = b[1] THEN EditSeq(Tail(a), Tail(b))
  ELSE 1 + Min2(EditSeq(Tail(a), Tail(b)), Min2(EditSeq(a, Tail(b)), EditSeq(Tail(a), b)))
Edit(a, b) == EditSeq(Chars(a), Chars(b))
Prefix(x, n) == Join(SubSeq(Chars(x), 1, Min2(n, Len(Chars(x)))), "")
\* y is a value of the support nearest to x.
IsNearest(m, x, y) ==
  /\ InSupport(m, y)
  /\ InSupport(m, x) => y = x
  /\ CASE m.dist = "categorical" -> y = (IF NLt(x, 0) THEN "0" ELSE IF NLt(x, NumCats(m)) THEN x ELSE IntStr(NFloor(NumCats(m)) - 1))
       [] m.dist = "stringcat" -> \A w \in Range(Words(m)) : Edit(y, x) <= Edit(w, x)
       [] m.dist = "string_nat" -> y = Prefix(Join(SelectSeq(Chars(x), LAMBDA c : c \in Digits), ""), MaxLen(m))
       [] m.dist = "bigram" -> y = Prefix(x, MaxLen(m))
       [] OTHER -> y = x

(* ----- what an emission proposes as clean, given dirty values V (in order) ----- *)
Unanimous(V) == \A k \in 1..Len(V) : V[k] = V[1]
ModesOf(V) == LET C(x) == CountIf(V, LAMBDA y : y = x) IN
              {x \in Range(V) : \A y \in Range(V) : C(y) <= C(x)}
\* the value of V whose count is first to reach the maximum
FirstMode(V) ==
  LET top == CHOOSE n \in 1..Len(V) : \E x \in ModesOf(V) : CountIf(V, LAMBDA y : y = x) = n
      Reaches(k) == CountIf(SubSeq(V, 1, k), LAMBDA y : y = V[k]) = top
      k0 == CHOOSE k \in 1..Len(V) : Reaches(k) /\ \A j \in 1..(k - 1) : ~Reaches(j)
  IN V[k0]
At(x, k) == IF k <= Len(Chars(x)) THEN Chars(x)[k] ELSE ""
RECURSIVE VoteOK(_, _, _)
\* y (from position k) is a position-by-position majority of V
VoteOK(V, y, k) ==
  LET w == [j \in 1..Len(V) |-> At(V[j], k)] IN
  IF k > Len(Chars(y)) THEN "" \in ModesOf(w)
  ELSE Chars(y)[k] \in ModesOf(w) /\ VoteOK(V, y, k + 1)
IsProposal(m, h, U, V, y) ==
  CASE m.dist = "identity" -> y = V[1]
    [] m.dist = "bitflip" -> y = (IF V[1] = "1" THEN "0" ELSE "1")
    [] m.dist = "gaussian" -> NClose(y, NDiv(NSumSeq(V), Len(V)), "1e-9")
    [] m.dist \in {"sometimes_bitflip", "sometimes_gaussian", "sometimes_categorical", "sometimes_categorical_neq"} ->
         y \in ModesOf(V)
    [] m.dist = "simple_string" -> VoteOK(V, y, 1)
    [] m.dist = "categorical_emission" ->
         LET Lik(c) == SumSeq(V, LAMBDA x : NSub(CatScore(h, NumCats(m), Append(U, <<<<c, x>>, 1>>)), CatScore(h, NumCats(m), U)))
         IN \A c \in 0..(NFloor(NumCats(m)) - 1) : NLe(Lik(IntStr(c)), NAdd(Lik(y), "1e-9"))
    [] m.dist = "bigram_emission" -> /\ \A c \in Range(Chars(y)) : Printable(c) /\ \E k \in 1..Len(V) : c \in Range(Chars(V[k]))
                                     /\ Unanimous(V) => y = V[1]
    [] OTHER -> FALSE

(* ----- the chance that a garbling of the characters c gives d ----- *)
\* Before every character of c, and at the end, a geometric number of insertions
\* (each costs Ins, stopping costs Stop); then the character is deleted (Del) or
\* put through as y (Put).  Worked out from the end of c, one row per character:
\* element j of a row is the chance of giving the last j - 1 characters of d.
Garbled(c, d, Ins(_), Stop, Del, Put(_, _)) ==
  LET n == Len(d)
      Build(Cell(_, _)) == FoldLeft(LAMBDA row, j : Append(row, Cell(row, j)), <<>>, [j \in 1..(n + 1) |-> j])
      dj(j) == d[n + 2 - j]                       \* the first of the last j - 1 characters
      last == Build(LAMBDA row, j : IF j = 1 THEN Stop ELSE NMul(Ins(dj(j)), row[j - 1]))
      Step(below, ch) ==
        Build(LAMBDA row, j :
          LET here == NMul(Stop, NAdd(NMul(Del, below[j]), IF j = 1 THEN "0" ELSE NMul(Put(ch, dj(j)), below[j - 1])))
          IN IF j = 1 THEN here ELSE NAdd(here, NMul(Ins(dj(j)), row[j - 1])))
  IN FoldLeft(Step, last, [k \in 1..Len(c) |-> c[Len(c) + 1 - k]])[n + 1]
\* simple_string, at given rates
Garble(pi, pd, ps, c, d) ==
  Garbled(c, d, LAMBDA y : NDiv(pi, 95), NSub(1, pi), pd,
          LAMBDA x, y : NMul(NSub(1, pd), NAdd(NDiv(ps, 95), IF x = y THEN NSub(1, ps) ELSE "0")))
\* ... and that what it makes out of n characters has length k.
GarbleLen(pi, pd, n, k) ==
  Garbled([j \in 1..n |-> "x"], [j \in 1..k |-> "y"], LAMBDA y : pi, NSub(1, pi), pd, LAMBDA x, y : NSub(1, pd))
Rate(a, b, n1, n0) == NDiv(NAdd(a, n1), NSumSeq(<<a, b, n1, n0>>))
SimpleRates(h, U) ==   \* <<substitution, insertion, deletion>>
  LET w == [i \in 1..Len(U) |-> Walk(Chars(U[i][1][1]), Chars(U[i][1][2]))]
      Tot(j) == NSumSeq([i \in 1..Len(U) |-> NMul(w[i][j], U[i][2])])
  IN <<Rate(h[1], h[2], Tot(1), Tot(2)), Rate(h[3], h[4], Tot(3), Tot(4)), Rate(h[5], h[6], Tot(5), Tot(6))>>

\* What a bigram emission that has seen nothing makes of c: a match, and no
\* insertion, weigh 96*96 more than anything else.
BigWeight == NDiv(1, NAdd(NMul(96, 96), 96))
BigGarble(c, d) ==
  LET top == NMul(NAdd(NMul(96, 96), 1), BigWeight)
  IN Garbled(c, d, LAMBDA y : BigWeight, top, BigWeight, LAMBDA x, y : IF x = y THEN top ELSE BigWeight)

(* ----- hyperparameter grids ----- *)
Pow10 == <<"1e-4", "1e-3", "1e-2", "1e-1", "1", "1e1", "1e2", "1e3", "1e4">>
Grid10 == [k \in 1..10 |-> NExp(NMul(NLn(10), NAdd("-4", NDiv(8 * (k - 1), 9))))]
Cross2(A, B) == {<<A[i], B[j]>> : i \in 1..Len(A), j \in 1..Len(B)}
HyperGrid(m) ==
  CASE m.dist \in {"bernoulli"} -> Cross2(Grid10, Grid10)
    [] m.dist \in {"categorical", "stringcat", "bigram", "string_nat", "smallbigram"} -> {<<x>> : x \in Range(Pow10)}
    [] m.dist \in {"normal", "string_normal"} ->
         {<<r, v, a, s>> : r \in {"0.1", "1", "10"}, v \in {"0.5", "1", "2", "5"}, a \in {"-1", "0", "1"}, s \in {"0.5", "1", "2"}}
    [] m.dist \in {"zmn", "gaussian"} -> Cross2(Pow10, Pow10)
    [] m.dist \in {"skellam", "string_skellam"} ->
         {<<a, b, c, d>> : a \in {"-10", "0", "10"}, b \in {"0.1", "1", "10"}, c \in {"-10", "0", "10"}, d \in {"0.1", "1", "10"}}
    [] OTHER -> {}
\* log density of a log-normal (mean and deviation of the logarithm)
LogNormal(x, mean, sd) ==
  LET y == NDiv(NSub(NLn(x), mean), sd) IN
  NSumSeq(<<NMul("-0.5", NMul(y, y)), Neg(NLn(NMul(x, sd))), NMul("-0.5", NLn(NMul(2, Pi)))>>)
\* The posterior weight of candidate g for model m.
HyperLogp(m, h, U, g) ==
  IF m.dist \in {"skellam", "string_skellam"}
  THEN NAdd(LogNormal(h[5], g[1], g[2]), LogNormal(h[6], g[3], g[4]))
  ELSE WScore(m, g, U)
SameHyp(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NClose(a[k], b[k], "1e-9")
\* The submodels of an emission, each resampled on its own: <<model, from, to, data>>.
SubModel(d) == [dist |-> d, args |-> <<>>]
SubModels(m, U) ==
  LET flips == WMap(U, LAMBDA p : IF p[1] # p[2] THEN "1" ELSE "0")
      diffs(V) == WMap(V, Diff)
      k == NFloor(NumCats(m))
      cat(V, c) == WMap(SelectSeq(V, LAMBDA u : u[1][1] = IntStr(c)), LAMBDA p : p[2])
      catm == [dist |-> "categorical", args |-> m.args]
  IN CASE m.dist = "sometimes_bitflip" -> {<<SubModel("bernoulli"), 1, 2, flips>>}
       [] m.dist = "sometimes_gaussian" ->
            {<<SubModel("bernoulli"), 1, 2, flips>>, <<SubModel("zmn"), 3, 4, diffs(Changed(U))>>}
       [] m.dist = "gaussian" -> {<<SubModel("zmn"), 1, 2, diffs(U)>>}
       [] m.dist = "categorical_emission" -> {<<catm, c + 1, c + 1, cat(U, c)>> : c \in 0..(k - 1)}
       [] m.dist = "sometimes_categorical_neq" ->
            {<<SubModel("bernoulli"), 1, 2, flips>>} \cup {<<catm, c + 3, c + 3, cat(Changed(U), c)>> : c \in 0..(k - 1)}
       [] m.dist = "simple_string" ->
            LET w == [i \in 1..Len(U) |-> Walk(Chars(U[i][1][1]), Chars(U[i][1][2]))]
                ev(a, b) == [i \in 1..Len(U) |-> <<"1", NMul(w[i][a], U[i][2])>>] \o [i \in 1..Len(U) |-> <<"0", NMul(w[i][b], U[i][2])>>]
            IN {<<SubModel("bernoulli"), 1, 2, ev(1, 2)>>, <<SubModel("bernoulli"), 3, 4, ev(3, 4)>>,
                <<SubModel("bernoulli"), 5, 6, ev(5, 6)>>}
       [] OTHER -> {}
=============================================================================
