-------------------------------- MODULE Hirm --------------------------------
(***************************************************************************)
(* The state of an infinite relational model (IRM), and of a hierarchical   *)
(* one (HIRM), and the joint probability of that state.                     *)
(*                                                                         *)
(* A state S is a record                                                    *)
(*   sch    relation -> [kind, dist, args, obs, base, doms]                 *)
(*   where  relation -> view   (a view is one IRM; an IRM has just view 0)   *)
(*   seat   view -> domain -> entity -> table                               *)
(*   alpha  view -> domain -> concentration of the domain's CRP              *)
(*   data   relation -> (tuple of entities -> value)                        *)
(*   hyp    relation -> (tuple of tables -> hyperparameters)                *)
(*   hier   is this an HIRM?     halpha  concentration over relations        *)
(* Nothing else is state: the clusters of a relation, what each has learnt,  *)
(* the reverse index, the pairs a noisy relation models, the members of a    *)
(* domain and every score are functions of S.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, NumReal, SequencesExt, Dist, Crp

Rels(S)        == DOMAIN S.where
Views(S)       == {S.where[r] : r \in Rels(S)}
InView(S, v)   == {r \in Rels(S) : S.where[r] = v}
IsNoisy(S, r)  == S.sch[r].kind = "noisy"
RDoms(S, r)    == S.sch[r].doms
Tuples(S, r)   == DOMAIN S.data[r]
NoisyOf(S, b)  == {r \in Rels(S) : IsNoisy(S, r) /\ S.sch[r].base = b}
ViewDoms(S, v) == UNION {Range(RDoms(S, r)) : r \in InView(S, v)}

\* Entities of domain d that some observation in view v mentions.
EntsOf(S, r, d) == {x[k] : x \in Tuples(S, r), k \in {j \in 1..Len(RDoms(S, r)) : RDoms(S, r)[j] = d}}
Ents(S, v, d)   == UNION {EntsOf(S, r, d) : r \in InView(S, v)}

\* The value a noisy tuple refers to is that of the base tuple it starts with.
BaseTuple(S, r, x) == SubSeq(x, 1, Len(RDoms(S, S.sch[r].base)))
BaseVal(S, r, x)   == S.data[S.sch[r].base][BaseTuple(S, r, x)]
Obs(S, r, x) == IF IsNoisy(S, r) THEN <<BaseVal(S, r, x), S.data[r][x]>> ELSE S.data[r][x]

\* The cluster of a tuple: the tables of its entities in the relation's view.
ZIn(S, v, r, x) == [k \in 1..Len(x) |-> S.seat[v][RDoms(S, r)[k]][x[k]]]
Z(S, r, x)      == ZIn(S, S.where[r], r, x)
ZMap(S, r)      == [x \in Tuples(S, r) |-> Z(S, r, x)]
Clusters(S, r)  == Range(ZMap(S, r))
Members(S, r, z) == {x \in Tuples(S, r) : Z(S, r, x) = z}
ObsAt(S, r, X)  == LET q == SetSeq(X) IN [k \in 1..Len(q) |-> Obs(S, r, q[k])]
Hyp(S, r, z)    == IF z \in DOMAIN S.hyp[r] THEN S.hyp[r][z] ELSE DefaultHyp(S.sch[r])

Decided(S, r) == ClosedForm(S.sch[r])
\* A new cluster of a Skellam relation starts from random rates.
FixedPrior(m) == m.dist \notin {"skellam", "string_skellam"}
Known(S, r) == FixedPrior(S.sch[r]) \/ Clusters(S, r) \subseteq DOMAIN S.hyp[r]
ClusterScore(S, r, z) == Score(S.sch[r], Hyp(S, r, z), ObsAt(S, r, Members(S, r, z)))
RelScore(S, r) ==
  LET zm == ZMap(S, r)
      zs == SetSeq(Range(zm))
  IN NSumSeq([k \in 1..Len(zs) |->
       Score(S.sch[r], Hyp(S, r, zs[k]), ObsAt(S, r, {x \in Tuples(S, r) : zm[x] = zs[k]}))])
DomScore(S, v, d) == CrpScore(S.seat[v][d], S.alpha[v][d])
ViewScore(S, v) ==
  NAdd(SumOver(DOMAIN S.seat[v], LAMBDA d : DomScore(S, v, d)), SumOver(InView(S, v), LAMBDA r : RelScore(S, r)))
RelCrp(S) == CrpScore(S.where, S.halpha)
Joint(S) == NAdd(IF S.hier THEN RelCrp(S) ELSE 0, SumOver(Views(S), LAMBDA v : ViewScore(S, v)))
AllDecided(S) == \A r \in Rels(S) : Decided(S, r)

\* A well-formed state: exactly the mentioned entities are seated, every noisy
\* tuple has a base value.
WellFormed(S) ==
  /\ DOMAIN S.seat = Views(S) \cup (IF S.hier THEN {} ELSE {0})
  /\ \A v \in Views(S) : /\ DOMAIN S.seat[v] = ViewDoms(S, v)
                         /\ \A d \in ViewDoms(S, v) : DOMAIN S.seat[v][d] = Ents(S, v, d)
  /\ \A r \in Rels(S) : IsNoisy(S, r) =>
       /\ S.sch[r].base \in Rels(S)
       /\ \A x \in Tuples(S, r) : BaseTuple(S, r, x) \in Tuples(S, S.sch[r].base)

(* ----- hypothetical states ----- *)
MoveEnt(S, v, d, e, t) == [S EXCEPT !.seat[v][d] = With(@, e, t)]
DropEnt(S, v, d, e)    == [S EXCEPT !.seat[v][d] = Without(@, e)]
SetVal(S, r, x, val)   == [S EXCEPT !.data[r] = With(@, x, val)]
DropVal(S, r, x)       == [S EXCEPT !.data[r] = Without(@, x)]
FreshId(T)             == CHOOSE n \in 0..(Cardinality(T) + 1) : n \notin T

(* ----- conditional of one entity's table ----- *)
\* Candidate tables for entity e of domain d in view v.
EntTables(S, v, d, e, new) ==
  LET f == S.seat[v][d] IN
  IF Count(f, f[e]) = 1 THEN Tables(f) ELSE Tables(f) \cup {new}
\* Log weight (up to a constant) of each table: prior times the likelihood of
\* every relation that mentions e.
Touching(S, v, d, e) == {r \in InView(S, v) : e \in EntsOf(S, r, d)}
EntDataLogp(S, v, d, e, t) ==
  SumOver(Touching(S, v, d, e), LAMBDA r : RelScore(MoveEnt(S, v, d, e, t), r))
EntPrior(S, v, d, e, t) ==
  LET f == Without(S.seat[v][d], e) IN
  NLn(IF t \in Tables(f) THEN NInt(Count(f, t)) ELSE S.alpha[v][d])
EntLogp(S, v, d, e, t) == NAdd(EntPrior(S, v, d, e, t), EntDataLogp(S, v, d, e, t))

(* ----- predictive probability of new observations ----- *)
\* O: sequence of <<relation, tuple, value>>, all in view v.
Mentioned(S, O) == UNION {{<<RDoms(S, O[j][1])[k], O[j][2][k]>> : k \in 1..Len(O[j][2])} : j \in 1..Len(O)}
Unseated(S, v, O) == {p \in Mentioned(S, O) : p[2] \notin DOMAIN S.seat[v][p[1]]}
RECURSIVE AddAll(_, _)
AddAll(S, O) == IF O = <<>> THEN S ELSE AddAll(SetVal(S, O[1][1], O[1][2], O[1][3]), Tail(O))
\* Entities not yet known are integrated over the tables they might sit at.
RECURSIVE PredLogp(_, _, _)
PredLogp(S, v, O) ==
  LET U == Unseated(S, v, O) IN
  IF U = {} THEN
    LET rs == {O[j][1] : j \in 1..Len(O)}
        S2 == AddAll(S, O)
    IN SumOver(rs, LAMBDA r : NSub(RelScore(S2, r), RelScore(S, r)))
  ELSE
    LET p == CHOOSE q \in U : TRUE
        f == S.seat[v][p[1]]
        a == S.alpha[v][p[1]]
        T == Tables(f) \cup {FreshId(Tables(f))}
        q == SetSeq(T)
    IN NLogSumExp([k \in 1..Len(q) |->
         NAdd(LogpTable(f, a, q[k]), PredLogp(MoveEnt(S, v, p[1], p[2], q[k]), v, O))])

(* ----- latent values ----- *)
NoisyAt(S, r, bx) == {y \in Tuples(S, r) : BaseTuple(S, r, y) = bx}
RECURSIVE DropAll(_, _, _)
DropAll(S, r, X) == IF X = {} THEN S ELSE LET x == CHOOSE y \in X : TRUE IN DropAll(DropVal(S, r, x), r, X \ {x})
\* What candidate value val for tuple bx of relation b adds to the log
\* probability of the noisy relations over it.
LatentInc(S, b, bx, val) ==
  SumOver(NoisyOf(S, b), LAMBDA r :
    NSub(RelScore(SetVal(S, b, bx, val), r), RelScore(DropAll(S, r, NoisyAt(S, r, bx)), r)))
\* The noisy values at bx, as a sequence.
NoisyVals(S, b, bx) ==
  LET q == SetSeq(UNION {{<<r, y>> : y \in NoisyAt(S, r, bx)} : r \in NoisyOf(S, b)})
  IN [k \in 1..Len(q) |-> S.data[q[k][1]][q[k][2]]]
Modes(V) == LET C(x) == CountIf(V, LAMBDA y : y = x) IN
            {x \in Range(V) : \A y \in Range(V) : C(y) <= C(x)}
\* The values an emission model may propose as clean for noisy values V (as
\* many as there are ways of breaking ties); {} when the spec does not say.
Proposals(m, V) ==
  CASE m.dist = "bitflip" -> {IF x = "1" THEN "0" ELSE "1" : x \in {V[1]}}
    [] m.dist = "gaussian" -> {NDiv(NSumSeq(V), Len(V))}
    [] m.dist \in {"sometimes_bitflip", "sometimes_gaussian", "sometimes_categorical"} -> Modes(V)
    [] OTHER -> {}
Clamp(x, k) == IF NLt(x, 0) THEN "0" ELSE IF NLt(x, k) THEN x ELSE IntStr(NFloor(k) - 1)
NearestTo(m, x) == IF m.dist = "categorical" THEN Clamp(x, NumCats(m)) ELSE x

(* ----- what a state looks like, independent of names ----- *)
TupleText(x) == Join([k \in 1..Len(x) |-> IntStr(x[k])], ",")
Facts(T) ==
  UNION {
    {Join(<<"d", r, TupleText(x), T.data[r][x]>>, ":") : x \in Tuples(T, r)}
    \cup {Join(<<"w", r, q>>, ":") : q \in InView(T, T.where[r])}
    \cup UNION {LET f == T.seat[T.where[r]][d] IN
                {Join(<<"s", r, d, IntStr(p[1]), IntStr(p[2])>>, ":") : p \in {w \in (DOMAIN f) \X (DOMAIN f) : f[w[1]] = f[w[2]]}} :
                d \in DOMAIN T.seat[T.where[r]]}
    : r \in Rels(T)}
=============================================================================
