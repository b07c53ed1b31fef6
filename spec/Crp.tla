-------------------------------- MODULE Crp --------------------------------
(***************************************************************************)
(* The Chinese restaurant process, as a function from customers to tables.  *)
(* Everything else - how many sit where, which tables exist, the weight of  *)
(* each choice, the probability of the whole seating - is derived.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, NumReal, SequencesExt

Tables(f)   == {f[x] : x \in DOMAIN f}
At(f, t)    == {x \in DOMAIN f : f[x] = t}
Count(f, t) == Cardinality(At(f, t))
Size(f)     == Cardinality(DOMAIN f)
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, t) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN t ELSE f[y]]

\* W is a set of candidates <<table, weight>>: every occupied table with its
\* size, and exactly one table that is not occupied, with weight alpha.
IsWeights(f, alpha, W) ==
  LET old == {w \in W : w[1] \in Tables(f)}
      new == W \ old
  IN /\ {w[1] : w \in old} = Tables(f)
     /\ Cardinality(old) = Cardinality(Tables(f))
     /\ \A w \in old : NClose(w[2], Count(f, w[1]), "1e-9")
     /\ Cardinality(new) = 1
     /\ \A w \in new : NClose(w[2], alpha, "1e-9")

\* The candidates for moving customer x: as if x had left, except that when x
\* sits alone its own table stands for the new one.
IsGibbsWeights(f, alpha, x, W) ==
  IF Count(f, f[x]) = 1
  THEN /\ {w[1] : w \in W} = Tables(f)
       /\ Cardinality(W) = Cardinality(Tables(f))
       /\ \A w \in W : NClose(w[2], IF w[1] = f[x] THEN alpha ELSE Count(f, w[1]), "1e-9")
  ELSE IsWeights(Without(f, x), alpha, W)

LogpTable(f, alpha, t) ==
  NSub(NLn(IF t \in Tables(f) THEN NInt(Count(f, t)) ELSE alpha), NLn(NAdd(Size(f), alpha)))

\* log probability of the seating
CrpScore(f, alpha) ==
  LET T == SetSeq(Tables(f)) IN
  NSumSeq(<<NMul(Len(T), NLn(alpha)), NSumSeq([i \in 1..Len(T) |-> NLGamma(NInt(Count(f, T[i])))]),
            NLGamma(alpha), NSub(0, NLGamma(NAdd(Size(f), alpha)))>>)

\* the grid alpha is resampled from, when there are n customers
AlphaGridOf(n, k) ==
  [i \in 1..k |-> NExp(NAdd(NLn(NDiv(1, n)),
                        NMul(i - 1, NDiv(NSub(NLn(n + 1), NLn(NDiv(1, n))), k - 1))))]
AlphaGrid(n) == AlphaGridOf(n, 20)

\* Partitions, written as sequences of block numbers in order of appearance.
RECURSIVE Growths(_)
Growths(n) == IF n = 1 THEN {<<0>>}
              ELSE UNION {{Append(u, b) : b \in 0..Cardinality(Range(u))} : u \in Growths(n - 1)}
GrowthText(w) == Join([k \in 1..Len(w) |-> IntStr(w[k])], ",")
\* The probability of each partition of n customers.
PartitionLaw(n, alpha) == PairsFcn(LET q == SetSeq(Growths(n)) IN [k \in 1..Len(q) |-> <<GrowthText(q[k]), NExp(CrpScore(q[k], alpha))>>])
\* Two rows meet at depth k of a path when they share no entity before.
MeetLaw(n) == [s \in {IntStr(k) : k \in 0..n} |-> LET k == NFloor(s) IN NExp(NMul(IF k = 0 THEN n ELSE k, NLn("0.5")))]
=============================================================================
