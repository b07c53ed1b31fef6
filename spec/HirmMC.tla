------------------------------- MODULE HirmMC -------------------------------
(***************************************************************************)
(* The transitions of small models, explored exhaustively by TLC.           *)
(*                                                                         *)
(* Each action constructs its successor states (where HirmTrace only says    *)
(* what a step may change); states that differ in the names of views and     *)
(* tables only are the same.  Invariants: the states stay well formed, what  *)
(* is undone leaves no trace, and the conditionals by which the system        *)
(* moves (Hirm's EntLogp, PredLogp, LatentInc) are those of the joint.        *)
(* Every transition is printed; tools/gen_mc.py turns the transition graph   *)
(* into histories of operations on the real code, with the state expected    *)
(* after each.                                                              *)
(***************************************************************************)
EXTENDS Hirm, TLCExt

CONSTANTS Model,    \* which of the schemas below
          MaxObs,   \* how many observations there may be
          Lemmas    \* also check the lemmas about numbers?

Clean(ds) == [kind |-> "clean", dist |-> "bernoulli", args |-> <<>>, obs |-> TRUE, base |-> "", doms |-> ds]
Hid(ds) == [Clean(ds) EXCEPT !.obs = FALSE]
Over(b, ds) == [kind |-> "noisy", dist |-> "sometimes_bitflip", args |-> <<>>, obs |-> TRUE, base |-> b, doms |-> ds]

Order == <<"A", "B", "C">>
Schemas ==
  [pair    |-> [hier |-> TRUE,  ents |-> 2, sch |-> ("A" :> Clean(<<"D">>)) @@ ("B" :> Clean(<<"D", "D">>))],
   noise   |-> [hier |-> TRUE,  ents |-> 2, sch |-> ("A" :> Hid(<<"D">>)) @@ ("B" :> Over("A", <<"D", "E">>))],
   chain   |-> [hier |-> TRUE,  ents |-> 2, sch |-> ("A" :> Hid(<<"D">>)) @@ ("B" :> Over("A", <<"D">>)) @@ ("C" :> Over("B", <<"D">>))],
   cross   |-> [hier |-> FALSE, ents |-> 3, sch |-> ("A" :> Clean(<<"D", "E">>))],
   self    |-> [hier |-> FALSE, ents |-> 3, sch |-> ("A" :> Clean(<<"D", "D">>)) @@ ("B" :> Over("A", <<"D", "D">>))],
   three   |-> [hier |-> TRUE,  ents |-> 2, sch |-> ("A" :> Clean(<<"D">>)) @@ ("B" :> Clean(<<"D">>)) @@ ("C" :> Clean(<<"D", "E">>))]]
M == Schemas[Model]
Ent == 0..(M.ents - 1)
Vals == {"0", "1"}

VARIABLES S, act
vars == <<S, act>>

(* ----- names that depend on the partitions only ----- *)
Rank(r) == CHOOSE k \in 1..Len(Order) : Order[k] = r
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
Named(f) == [e \in DOMAIN f |-> Least(At(f, f[e]))]
ViewName(T, v) == IF T.hier THEN Least({Rank(r) : r \in InView(T, v)}) ELSE 0
Canonical(T) ==
  LET back == [n \in {ViewName(T, v) : v \in DOMAIN T.seat} |-> CHOOSE v \in DOMAIN T.seat : ViewName(T, v) = n] IN
  [T EXCEPT !.where = [r \in Rels(T) |-> ViewName(T, T.where[r])],
            !.seat  = [n \in DOMAIN back |-> [d \in DOMAIN T.seat[back[n]] |-> Named(T.seat[back[n]][d])]],
            !.alpha = [n \in DOMAIN back |-> T.alpha[back[n]]]]

(* ----- pieces of steps ----- *)
\* All ways to seat the entities U (a sequence of <<domain, entity>>) of view v.
RECURSIVE Seated(_, _, _)
Seated(T, v, U) ==
  IF U = <<>> THEN {T}
  ELSE LET f == T.seat[v][U[1][1]] IN
       UNION {Seated(MoveEnt(T, v, U[1][1], U[1][2], t), v, Tail(U)) : t \in Tables(f) \cup {10 + U[1][2]}}
Unplaced(T, v) == SetSeq(UNION {{<<d, e>> : e \in Ents(T, v, d) \ DOMAIN T.seat[v][d]} : d \in ViewDoms(T, v)})
Arrive(T, v) == Seated(T, v, Unplaced(T, v))
\* Views nobody lives in, domains nobody asks for, entities nobody mentions go.
Tidy(T) ==
  LET vs == IF T.hier THEN Views(T) ELSE {0} IN
  [T EXCEPT !.seat  = [v \in vs |-> [d \in ViewDoms(T, v) |->
                         [e \in Ents(T, v, d) |-> T.seat[v][d][e]]]],
            !.alpha = [v \in vs |-> [d \in ViewDoms(T, v) |-> "1"]]]
OpenView(T, v, ds) ==
  LET s0 == IF v \in DOMAIN T.seat THEN T.seat[v] ELSE <<>> IN
  [T EXCEPT !.seat = With(@, v, s0 @@ [d \in ds |-> <<>>]),
            !.alpha = With(@, v, [d \in DOMAIN s0 \cup ds |-> "1"])]
AllTuples(r) == [1..Len(M.sch[r].doms) -> Ent]
Total(T) == Cardinality(UNION {{<<r, x>> : x \in Tuples(T, r)} : r \in Rels(T)})

Incs(T, r, x, val) == {Canonical(U) : U \in Arrive(SetVal(T, r, x, val), T.where[r])}
Uninc(T, r, x) == Canonical(Tidy(DropVal(T, r, x)))
Moved(T, v, d, e, t) == Canonical(MoveEnt(T, v, d, e, t))
Puts(T, r, v) ==
  {Canonical(Tidy(U)) : U \in Arrive(OpenView([T EXCEPT !.where = With(@, r, v)], v, Range(RDoms(T, r))), v)}
Adds(T, r, v) ==
  {Canonical(OpenView([T EXCEPT !.sch = With(@, r, M.sch[r]), !.data = With(@, r, <<>>), !.hyp = With(@, r, <<>>),
                                !.where = With(@, r, v)], v, Range(M.sch[r].doms)))}
Removes(T, r) ==
  Canonical(Tidy([T EXCEPT !.sch = Without(@, r), !.data = Without(@, r), !.hyp = Without(@, r), !.where = Without(@, r)]))

Holds(T, r, x) == \E n \in NoisyOf(T, r) : NoisyAt(T, n, x) # {}
CanInc(T, r, x) == /\ x \notin Tuples(T, r)
                   /\ (IsNoisy(T, r) => BaseTuple(T, r, x) \in Tuples(T, T.sch[r].base))
CanUninc(T, r, x) == x \in Tuples(T, r) /\ ~Holds(T, r, x)

(* ----- steps ----- *)
Doing(a) == act' = a
Init == /\ S = [sch |-> M.sch, where |-> [r \in DOMAIN M.sch |-> IF M.hier THEN 1 ELSE 0],
                seat |-> ((IF M.hier THEN 1 ELSE 0) :> [d \in UNION {Range(M.sch[r].doms) : r \in DOMAIN M.sch} |-> <<>>]),
                alpha |-> ((IF M.hier THEN 1 ELSE 0) :> [d \in UNION {Range(M.sch[r].doms) : r \in DOMAIN M.sch} |-> "1"]),
                data |-> [r \in DOMAIN M.sch |-> <<>>], hyp |-> [r \in DOMAIN M.sch |-> <<>>],
                hier |-> M.hier, halpha |-> "1"]
        /\ act = <<"init">>
IncStep == \E r \in Rels(S), val \in Vals : \E x \in AllTuples(r) :
             /\ Total(S) < MaxObs /\ CanInc(S, r, x) /\ S' \in Incs(S, r, x, val)
             /\ Doing(<<"inc", r, TupleText(x), val>>)
UnincStep == \E r \in Rels(S) : \E x \in Tuples(S, r) :
               /\ CanUninc(S, r, x) /\ S' = Uninc(S, r, x) /\ Doing(<<"uninc", r, TupleText(x)>>)
UpdateStep == \E r \in Rels(S) : \E x \in Tuples(S, r) :
                /\ ~Holds(S, r, x)
                /\ \E val \in Vals \ {S.data[r][x]} :
                     S' = SetVal(S, r, x, val) /\ Doing(<<"update", r, TupleText(x), val>>)
EntStep == \E v \in Views(S) : \E d \in DOMAIN S.seat[v] : \E e \in DOMAIN S.seat[v][d] :
             \E t \in EntTables(S, v, d, e, 10 + e) \ {S.seat[v][d][e]} :
               /\ S' = Moved(S, v, d, e, t)
               /\ Doing(<<"setitem", Order[Least({Rank(r) : r \in InView(S, v)})], d, IntStr(e)>>)
RelStep == S.hier /\ \E r \in Rels(S) :
             \E v \in (IF Count(S.where, S.where[r]) = 1 THEN Views(S) ELSE Views(S) \cup {10}) \ {S.where[r]} :
               S' \in Puts(S, r, v) /\ Doing(<<"hset", r>>)
AddStep == S.hier /\ \E r \in DOMAIN M.sch \ Rels(S) : \E v \in Views(S) \cup {10} :
             /\ (M.sch[r].kind = "noisy" => M.sch[r].base \in Rels(S))
             /\ S' \in Adds(S, r, v) /\ Doing(<<"addrel", r>>)
RemoveStep == S.hier /\ Cardinality(Rels(S)) > 1 /\ \E r \in Rels(S) :
                /\ NoisyOf(S, r) = {} /\ S' = Removes(S, r) /\ Doing(<<"rmrel", r>>)
\* (what a latent transition may lead to; the real code picks at random)
LatentStep == \E r \in Rels(S) : ~S.sch[r].obs /\ \E x \in Tuples(S, r) :
                /\ Holds(S, r, x)
                /\ \E val \in Vals \ {S.data[r][x]} : S' = SetVal(S, r, x, val)
                /\ Doing(<<"latent1", r, TupleText(x)>>)
Next == IncStep \/ UnincStep \/ UpdateStep \/ EntStep \/ RelStep \/ AddStep \/ RemoveStep \/ LatentStep
Spec == Init /\ [][Next]_vars
View == S

(* ----- showing the transition graph ----- *)
ShowState == PrintT(Join(<<"S", IntStr(TLCFP(S)), Join(SetSeq(Facts(S)), " ")>>, " "))
ShowStep == PrintT(Join(<<"E", IntStr(TLCFP(S)), IntStr(TLCFP(S'))>> \o act', " "))

(* ----- invariants ----- *)
TypeOK == /\ Rels(S) \subseteq DOMAIN M.sch /\ DOMAIN S.data = Rels(S)
          /\ \A r \in Rels(S) : \A x \in Tuples(S, r) : x \in AllTuples(r) /\ S.data[r][x] \in Vals
          /\ S = Canonical(S) /\ S = Tidy(S)
Formed == WellFormed(S)
\* What comes last and goes first leaves no trace, however it was seated.
Undo == \A r \in Rels(S) : \A x \in AllTuples(r) : CanInc(S, r, x) =>
          (\A T \in Incs(S, r, x, "1") : Uninc(T, r, x) = S)
Blocks(T, q) == {Members(T, q, z) : z \in Clusters(T, q)}
\* A relation that visits another view and returns finds everybody else as before.
Visit == \A r \in {q \in Rels(S) : S.hier} : \A v \in Views(S) \ {S.where[r]} : \A T \in Puts(S, r, v) :
           /\ T.data = S.data
           /\ \A q \in Rels(S) \ {r} : Blocks(T, q) = Blocks(S, q)
           /\ \A q, p \in Rels(S) \ {r} : (T.where[q] = T.where[p]) = (S.where[q] = S.where[p])
\* Clusters cover the data, disjointly.
Covered == \A r \in Rels(S) : /\ UNION {Members(S, r, z) : z \in Clusters(S, r)} = Tuples(S, r)
                              /\ \A z \in Clusters(S, r) : Members(S, r, z) # {}

(* ----- lemmas: the conditionals are those of the joint ----- *)
Same(f, g) ==  \* equal up to a common constant
  LET x == CHOOSE y \in DOMAIN f : TRUE IN \A y \in DOMAIN f : NClose(NSub(f[y], f[x]), NSub(g[y], g[x]), "1e-9")
GibbsIsJoint == ~Lemmas \/
  \A v \in Views(S) : \A d \in DOMAIN S.seat[v] : \A e \in DOMAIN S.seat[v][d] :
    LET C == EntTables(S, v, d, e, 10) IN
    Same([t \in C |-> EntLogp(S, v, d, e, t)], [t \in C |-> Joint(MoveEnt(S, v, d, e, t))])
\* The probabilities of all ways an observation might come out sum to one, and
\* each value's is PredLogp.
Ways(r, x, val) == LET q == SetSeq(Arrive(SetVal(S, r, x, val), S.where[r])) IN
                   NLogSumExp([k \in 1..Len(q) |-> NSub(Joint(q[k]), Joint(S))])
PredIsJoint == ~Lemmas \/
  \A r \in Rels(S) : \A x \in AllTuples(r) : CanInc(S, r, x) =>
    LET P == [val \in Vals |-> PredLogp(S, S.where[r], <<<<r, x, val>>>>)] IN
    /\ \A val \in Vals : NClose(P[val], Ways(r, x, val), "1e-9")
    /\ NClose(NLogSumExp(<<P["0"], P["1"]>>), 0, "1e-9")
LatentIsJoint == ~Lemmas \/
  \A b \in Rels(S) : \A x \in Tuples(S, b) : (Holds(S, b, x) /\ ~IsNoisy(S, b)) =>
    \* (of a base that is itself noisy, only the noise above it is weighed)
      Same([val \in Vals |-> LatentInc(S, b, x, val)],
           [val \in Vals |-> NSub(Joint(SetVal(S, b, x, val)), RelScore(SetVal(S, b, x, val), b))])
\* The places a new relation might take have probabilities that sum to one.
RelIsJoint == (Lemmas /\ S.hier) =>
    LET W == SetSeq(Views(S)) IN
    NClose(NLogSumExp(Append([k \in 1..Len(W) |-> LogpTable(S.where, S.halpha, W[k])], LogpTable(S.where, S.halpha, 10))), 0, "1e-9")
=============================================================================
