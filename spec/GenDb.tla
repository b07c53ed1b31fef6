-------------------------------- MODULE GenDb --------------------------------
(***************************************************************************)
(* A generative database over a PClean schema P (see PClean).                 *)
(*   refs   <<class, field, entity>> -> entity of the class of the field      *)
(* are the foreign keys.  An entity of a class stands for a row of that       *)
(* class's table; rows of the record class are those that are observed.       *)
(* Which relations there are, over which domains, and which entities each     *)
(* value of each relation is about, follow from P and refs.                   *)
(*   opt = [final, clean]: only the record class adds noise; attributes of    *)
(*   the record class are observed without noise.                             *)
(***************************************************************************)
EXTENDS PClean, Crp

\* ----- names in the order of their characters -----
RECURSIVE CodesLess(_, _)
CodesLess(a, b) == IF b = <<>> THEN FALSE
                   ELSE IF a = <<>> THEN TRUE
                   ELSE IF Code(a[1]) # Code(b[1]) THEN Code(a[1]) < Code(b[1]) ELSE CodesLess(Tail(a), Tail(b))
SortNames(X) == SortSeq(SetSeq(X), LAMBDA a, b : CodesLess(Chars(a), Chars(b)))

\* ----- the schema -----
Classes(P)    == DOMAIN P.classes
Vars(P, c)    == P.classes[c]
RefFields(P, c) == SortNames({v \in DOMAIN Vars(P, c) : Vars(P, c)[v].isclass})
Attrs(P, c)   == {v \in DOMAIN Vars(P, c) : ~Vars(P, c)[v].isclass}
TypeOf(P, c, v) == Vars(P, c)[v].type
RECURSIVE Ancestors(_, _)
Ancestors(P, c) == {c} \cup UNION {Ancestors(P, TypeOf(P, c, f)) : f \in Range(RefFields(P, c))}
\* The domains of an attribute: those of every class it depends on, then its own.
RECURSIVE DomsOf(_, _)
DomsOf(P, c) == LET q == RefFields(P, c) IN Flatten([k \in 1..Len(q) |-> DomsOf(P, TypeOf(P, c, q[k]))]) \o <<c>>
\* The entities that row e of class c is about, in that order.
Ref(R, c, f, e) == IF <<c, f, e>> \in DOMAIN R THEN R[<<c, f, e>>] ELSE -1
RECURSIVE RowOf(_, _, _, _)
RowOf(P, R, c, e) ==
  LET q == RefFields(P, c)
  IN Flatten([k \in 1..Len(q) |-> RowOf(P, R, TypeOf(P, c, q[k]), Ref(R, c, q[k], e))]) \o <<e>>

\* ----- the two models of an attribute: of its value, and of errors in it -----
Joint == ("bool" :> <<"bernoulli", "sometimes_bitflip">>) @@ ("categorical" :> <<"categorical", "sometimes_categorical">>)
      @@ ("real" :> <<"normal", "sometimes_gaussian">>) @@ ("string" :> <<"bigram", "bigram">>)
      @@ ("stringcat" :> <<"stringcat", "bigram">>) @@ ("typo_int" :> <<"string_skellam", "bigram">>)
      @@ ("typo_nat" :> <<"string_nat", "bigram">>) @@ ("typo_real" :> <<"string_normal", "bigram">>)
Args(v) == LET f == LastWins(v.args) IN LET q == SetSeq(DOMAIN f) IN [k \in 1..Len(q) |-> <<q[k], f[q[k]]>>]
CleanDecl(v, doms, obs) == [kind |-> "clean", dist |-> Joint[v.type][1], args |-> Args(v), obs |-> obs, base |-> "", doms |-> doms]
NoisyDecl(v, doms, obs, base) == [kind |-> "noisy", dist |-> Joint[v.type][2], args |-> Args(v), obs |-> obs, base |-> base, doms |-> doms]

\* ----- relations: name -> [decl, from, path] -----
\* A value whose last entity is e is about: the entities found by following
\* `path` (sequence of <<class, field>>) from e, and Row of the one at its end
\* (of class `from`), the last one coming first.
RECURSIVE PathClasses(_, _, _)
PathClasses(P, c, q) == IF Len(q) <= 1 THEN <<c>> ELSE <<c>> \o PathClasses(P, TypeOf(P, c, q[1]), Tail(q))
AttrRels(P) == UNION {{<<c, v>> : v \in Attrs(P, c)} : c \in Classes(P)}
AttrName(c, v) == c \o ":" \o v
Attributes(P) == PairsFcn(LET q == SetSeq(AttrRels(P)) IN
  [k \in 1..Len(q) |-> LET c == q[k][1] IN
     <<AttrName(c, q[k][2]), [decl |-> CleanDecl(Vars(P, c)[q[k][2]], DomsOf(P, c), FALSE), from |-> c, path |-> <<>>]>>])
RECURSIVE Below(_, _)
\* The domains of a path from class k of K on: those of the last class, then
\* the classes back to K[k].
Below(K, k) == IF k >= Len(K) THEN <<>> ELSE Below(K, k + 1) \o <<K[k]>>
FieldRels(P, opt, F) ==
  LET q == P.fields[F]
      n == Len(q)
      K == PathClasses(P, P.record, q)
      v == Vars(P, K[n])[q[n]]
      attr == AttrName(K[n], q[n])
      Path(j) == [m \in 1..(n - j) |-> <<K[j + m - 1], q[j + m - 1]>>]
      Name(j) == IF j = 1 THEN F ELSE IF j = n THEN attr ELSE K[j] \o "::" \o F
  IN IF n = 1
     THEN <<<<F, [decl |-> IF opt.clean THEN CleanDecl(v, DomsOf(P, P.record), TRUE)
                           ELSE NoisyDecl(v, DomsOf(P, P.record), TRUE, attr), from |-> P.record, path |-> <<>>]>>>>
     ELSE IF opt.final
     THEN <<<<F, [decl |-> NoisyDecl(v, DomsOf(P, K[n]) \o Below(K, 1), TRUE, attr), from |-> K[n], path |-> Path(1)]>>>>
     ELSE [j \in 1..(n - 1) |->
             <<Name(j), [decl |-> NoisyDecl(v, DomsOf(P, K[n]) \o Below(K, j), j = 1, Name(j + 1)), from |-> K[n], path |-> Path(j)]>>]
FieldNames(P) == DOMAIN P.fields
\* An attribute of the record class that is observed as it is has the name of
\* the field only.
Renamed(P, opt) == IF opt.clean THEN {AttrName(P.record, P.fields[F][1]) : F \in {G \in FieldNames(P) : Len(P.fields[G]) = 1}} ELSE {}
Relations(P, opt) ==
  LET A == Attributes(P)
      Q == SetSeq(FieldNames(P))
      N == PairsFcn(Flatten([k \in 1..Len(Q) |-> FieldRels(P, opt, Q[k])]))
  IN N @@ [a \in DOMAIN A \ Renamed(P, opt) |-> A[a]]
\* The class whose rows a relation belongs to.
OwnerOf(M) == IF M.path = <<>> THEN M.from ELSE M.path[1][1]
RECURSIVE Follow(_, _, _)
Follow(R, path, e) == IF path = <<>> THEN <<e>> ELSE <<e>> \o Follow(R, Tail(path), Ref(R, path[1][1], path[1][2], e))
ItemsOf(P, R, M, e) ==
  LET w == Follow(R, M.path, e) IN
  RowOf(P, R, M.from, w[Len(w)]) \o [k \in 1..(Len(w) - 1) |-> w[Len(w) - k]]
\* The references that lead from e to that tuple.
RECURSIVE RowKeys(_, _, _, _)
RowKeys(P, R, c, e) == UNION {{<<c, f, e>>} \cup RowKeys(P, R, TypeOf(P, c, f), Ref(R, c, f, e)) : f \in Range(RefFields(P, c))}
RECURSIVE TupleKeys(_, _, _, _, _)
TupleKeys(P, R, path, from, e) ==
  IF path = <<>> THEN RowKeys(P, R, from, e)
  ELSE {<<path[1][1], path[1][2], e>>} \cup TupleKeys(P, R, Tail(path), from, Ref(R, path[1][1], path[1][2], e))

\* ----- entities -----
TypeOfKey(P, k) == TypeOf(P, k[1], k[2])
\* The entities of class C that something refers to.
Entity(P, R, C) == {R[k] : k \in {j \in DOMAIN R : TypeOfKey(P, j) = C}}
\* The entity CRP of a class seats references at entities.
EntitySeats(P, R, C) == [k \in {j \in DOMAIN R : TypeOfKey(P, j) = C} |-> R[k]]
=============================================================================
