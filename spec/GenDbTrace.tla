----------------------------- MODULE GenDbTrace -----------------------------
(***************************************************************************)
(* Traces of a GenDB against GenDb and, for the relational model under it,   *)
(* Hirm.  The state is S (see HirmTrace) and                                  *)
(*   g = [P, opt, rels, refs, seen]                                           *)
(* where seen: <<field, row>> -> the text that was observed.                  *)
(***************************************************************************)
EXTENDS HirmTrace, GenDb

VARIABLE g
gvars == <<i, S, pend, file, g>>
NoDb == [P |-> <<>>, opt |-> <<>>, rels |-> <<>>, refs |-> <<>>, seen |-> <<>>]

(* ----- the logged state ----- *)
DB == Line.gdb
LRefs == PairsFcn([k \in 1..Len(DB.refs) |-> <<<<DB.refs[k][1], DB.refs[k][2], DB.refs[k][3]>>, DB.refs[k][4]>>])
\* relation -> (last entity -> value)
Keyed(T, r) == LET q == SetSeq(Tuples(T, r)) IN PairsFcn([k \in 1..Len(q) |-> <<q[k][Len(q[k])], T.data[r][q[k]]>>])
Lasts(T, r) == {x[Len(x)] : x \in Tuples(T, r)}
Rows(G) == {k[2] : k \in DOMAIN G.seen}
\* The entities of class c there are: rows of the record class are those observed.
Live(G, c) == IF c = G.P.record THEN Rows(G) ELSE Entity(G.P, G.refs, c)

EntOK(G, e) ==
  LET seats == EntitySeats(G.P, G.refs, e.cls) IN
  /\ Chk("gdb.refs", /\ PairsFcn(e.seats) = seats
                     /\ e.n = Cardinality(DOMAIN seats) /\ Len(e.seats) = e.n
                     /\ PairsFcn(e.tables) = [t \in Tables(seats) |-> Count(seats, t)]
                     /\ NEq(e.alpha, "1"))
DbOK ==
  /\ Chk("gdb.refs", {DB.ents[k].cls : k \in 1..Len(DB.ents)} = Classes(g'.P)
                     /\ \A k \in DOMAIN g'.refs : k[2] \in Range(RefFields(g'.P, k[1])))
  /\ \A k \in 1..Len(DB.ents) : EntOK(g', DB.ents[k])
  /\ Chk("gdb.walk", \A r \in Rels(S') : \A x \in Tuples(S', r) : x = ItemsOf(g'.P, g'.refs, g'.rels[r], x[Len(x)]))
  /\ Chk("gdb.live", /\ \A k \in DOMAIN g'.refs : k[3] \in Live(g', k[1])
                     /\ \A r \in Rels(S') : Lasts(S', r) \subseteq Live(g', OwnerOf(g'.rels[r])))
  /\ Chk("gdb.obs", \A F \in FieldNames(g'.P) :
        /\ Lasts(S', F) = {k[2] : k \in {j \in DOMAIN g'.seen : j[1] = F}}
        /\ \A x \in Tuples(S', F) : SameVal(S'.data[F][x], g'.seen[<<F, x[Len(x)]>>]))
  /\ Chk("gdb.score", NClose(DB.score,
        NAdd(SumSeq(DB.ents, LAMBDA e : CrpScore(EntitySeats(g'.P, g'.refs, e.cls), "1")), L.score), "1e-6"))
  /\ Consistent

(* ----- building ----- *)
DbSession == Session /\ g' = NoDb
Pclean ==
  /\ Line.op = "pclean" /\ Advance /\ file' = file
  /\ LET P == PSchema(A(1))
         opt == [final |-> A(2) = "1", clean |-> A(3) = "1"]
         M == Relations(P, opt)
         D == [r \in DOMAIN M |-> Declared(M[r].decl)]
         lsc == PairsFcn(Line.schema)
     IN /\ S' = Logged(D) /\ pend' = D
        /\ g' = [P |-> P, opt |-> opt, rels |-> M, refs |-> LRefs, seen |-> <<>>]
        /\ Chk("pc.relations", /\ DOMAIN lsc = DOMAIN M
                               /\ \A r \in DOMAIN M : SameDecl(lsc[r], M[r].decl) /\ lsc[r].obs = M[r].decl.obs)
        /\ Chk("pc.relations", Rels(S') = DOMAIN M /\ \A r \in DOMAIN M : Tuples(S', r) = {})
        /\ Chk("gdb.refs", LRefs = <<>>)
  /\ DbOK

(* ----- rows ----- *)
\* What is there before stays: references, values, who sits where.
Keeps(label) ==
  /\ Chk(label, /\ \A k \in DOMAIN g.refs : k \in DOMAIN g'.refs /\ g'.refs[k] = g.refs[k]
                /\ \A r \in Rels(S) : \A x \in Tuples(S, r) : x \in Tuples(S', r) /\ S'.data[r][x] = S.data[r][x])
  /\ Frame(label, {"seat", "data", "hyp", "alpha"})
  /\ Chk(label, \A v \in DOMAIN S.seat : v \in DOMAIN S'.seat /\ S'.alpha[v] = S.alpha[v] /\ SeatsKept(v))
  /\ KeepHyp(label, {})
\* New rows have entities of their own along the paths that are observed in
\* them; two references of one new row never share an entity.
OwnKeys(F, e) == LET M == g'.rels[F] IN TupleKeys(g'.P, g'.refs, M.path, M.from, e)
Unique(new) ==
  LET K == UNION {OwnKeys(p[1], p[2]) : p \in new} \ DOMAIN g.refs IN
  /\ \A k \in K : g'.refs[k] \notin Entity(g.P, g.refs, TypeOfKey(g.P, k))
  /\ \A j, k \in K : (j # k /\ TypeOfKey(g.P, j) = TypeOfKey(g.P, k)) => g'.refs[j] # g'.refs[k]
\* The clean value behind every noisy one, down to the attribute itself.
Based == \A r \in Rels(S') : IsNoisy(S', r) => \A x \in Tuples(S', r) : BaseTuple(S', r, x) \in Tuples(S', S'.sch[r].base)
AddSeen(new) == [g EXCEPT !.refs = LRefs, !.seen = new @@ g.seen]
RowOp ==
  /\ Observe("row")
  /\ LET id == NFloor(A(1))
         n  == (Len(Line.args) - 2) \div 2
         new == PairsFcn([k \in 1..n |-> <<<<A(2 * k + 1), id>>, A(2 * k + 2)>>])
     IN /\ g' = AddSeen(new)
        /\ Chk("row.based", Based)
        /\ Chk("row.unique", A(2) = "1" => Unique(DOMAIN new))
  /\ Keeps("row.keep")
  /\ DbOK
CsvOp ==
  /\ Observe("csv")
  /\ LET f == CsvFrame(A(1), <<>>)
         at == NFloor(A(2))
         C == Range(f.columns) \cap FieldNames(g.P)
         new == [k \in UNION {{<<c, at + j - 1>> : j \in {m \in 1..Len(f.data[c]) : f.data[c][m] # ""}} : c \in C}
                   |-> f.data[k[1]][k[2] - at + 1]]
     IN /\ g' = AddSeen(new)
        /\ Chk("row.based", Based)
        /\ Chk("row.unique", \A e \in {k[2] : k \in DOMAIN new} : Unique({k \in DOMAIN new : k[2] = e}))
  /\ Keeps("row.keep")
  /\ DbOK
SamplesOp ==
  /\ Observe("samples")
  /\ LET n == NFloor(A(1))
         at == NFloor(A(2))
         df == PairsFcn(Line.df.data)
         \* as stored; the text that is returned may round a number
         new == [k \in (FieldNames(g.P) \X (at..(at + n - 1))) |->
                   LET X == {x \in Tuples(S', k[1]) : x[Len(x)] = k[2]}
                   IN IF X = {} THEN "?" ELSE S'.data[k[1]][CHOOSE x \in X : TRUE]]
     IN /\ g' = AddSeen(new)
        /\ Chk("pc.samples", n > 0 => Line.df.columns = SortNames(FieldNames(g.P)))
        /\ Chk("pc.samples", n > 0 => DOMAIN df = FieldNames(g.P) /\ \A F \in FieldNames(g.P) : Len(df[F]) = n)
        /\ Chk("pc.samples", n > 0 => \A k \in DOMAIN new :
              LET a == new[k]
                  b == df[k[1]][k[2] - at + 1]
              IN SameVal(a, b) \/ (IsNum(a) /\ IsNum(b) /\ NClose(a, b, "1e-4")))
        /\ Chk("row.based", Based)
  /\ Keeps("row.keep")
  /\ DbOK

(* ----- transitions of references ----- *)
\* A step may move one reference; with it, what depends on it.
Tr == <<A(1), A(2), Line.item>>
RefMove ==
  /\ Chk("ref.move", \A k \in DOMAIN g.refs \cap DOMAIN g'.refs : k # Tr => g'.refs[k] = g.refs[k])
  /\ Chk("ref.move", Tr \in DOMAIN g'.refs)
  \* rows that are still referred to lose nothing, and rows that are not go
  /\ Chk("ref.move", \A k \in DOMAIN g.refs : k[3] \in Live(g', k[1]) => k \in DOMAIN g'.refs)
  \* the reference goes to an entity there is, or to one new entity
  /\ Chk("ref.move", LET C == TypeOfKey(g.P, Tr) IN Live(g', C) \subseteq Live(g, C) \cup {g'.refs[Tr]})
RefData ==
  Chk("ref.data", \A r \in Rels(S) :
    LET a == Keyed(S, r)
        b == Keyed(S', r)
    IN \A e \in DOMAIN a : e \in Live(g', OwnerOf(g.rels[r])) => (e \in DOMAIN b /\ a[e] = b[e]))
\* Whoever is in data that does not move sits where it sat.
RefSeats ==
  Chk("ref.seats", \A r \in Rels(S) : \A x \in Tuples(S, r) \cap Tuples(S', r) : Z(S, r, x) = Z(S', r, x))
RefOp ==
  /\ Line.op = "transref" /\ Observe("transref") /\ g' = [g EXCEPT !.refs = LRefs]
  /\ IF Has(Line, "gone") THEN Chk("ref.move", g' = g /\ S' = S)
     ELSE RefMove /\ RefData /\ RefSeats
  /\ Frame("ref.frame", {"seat", "data", "hyp"})
  /\ KeepHyp("ref.keep", {})
  /\ DbOK
\* Many steps: rows keep their references (to some entity) and their values.
RefMany ==
  Chk("ref.rows", /\ \A k \in DOMAIN g.refs : k[1] = g.P.record => k \in DOMAIN g'.refs
                  /\ Rels(S') = Rels(S) /\ S'.sch = S.sch)
TransAll == /\ Observe("transall") /\ g' = [g EXCEPT !.refs = LRefs]
            /\ RefMany /\ Frame("ref.frame", {"seat", "data", "hyp"})
            /\ DbOK
GInfer == Observe("ginfer") /\ g' = [g EXCEPT !.refs = LRefs] /\ RefMany /\ DbOK

(* ----- the file the program writes ----- *)
DbNames(d, E) == {d \o ":" \o IntStr(e) : e \in E}
GSave == /\ Observe("gsave") /\ g' = g /\ Chk("gdb.frame", LRefs = g.refs) /\ DbOK
         /\ Chk("pc.saved", LET p == SavedHirm(Line.saved) IN
              /\ p.rels = {<<v, InView(S, v)>> : v \in Views(S)}
              /\ Len(p.heads) = Cardinality(Views(S)) /\ Range(p.heads) = Views(S)
              /\ p.doms = UNION {UNION {{<<v, <<d, t, DbNames(d, At(S.seat[v][d], t))>>>> : t \in Tables(S.seat[v][d])}
                                        : d \in DOMAIN S.seat[v]} : v \in Views(S)})

(* ----- the pclean program, run twice with one seed ----- *)
\* pcli SEED ITERS INNER TRANS SAMPLES OBS HELD|-
NonEmptyCells(text) ==
  LET f == CsvFrame(text, <<>>)
      C == Range(f.columns) \cap FieldNames(g.P)
  IN UNION {{<<c, j - 1>> : j \in {m \in 1..Len(f.data[c]) : f.data[c][m] # ""}} : c \in C}
\* The rows that have a value of relation r of the record class.
RowsWith(cells, r) ==
  IF r \in FieldNames(g.P) THEN {c[2] : c \in {d \in cells : d[1] = r}}
  ELSE {c[2] : c \in {d \in cells : /\ Len(g.P.fields[d[1]]) = 1
                                    /\ AttrName(g.P.record, g.P.fields[d[1]][1]) = r}}
DomText(v, R, doms, cells) ==
  LET ds == UNION {Range(g.rels[r].decl.doms) : r \in R}
      own == {r \in R : OwnerOf(g.rels[r]) = g.P.record}
      N(d) == UNION {p[3] : p \in Parts(doms, v, d)}
  IN /\ \A u \in doms : u[1] = v => u[2][1] \in ds /\ u[2][3] # {}
     /\ \A d \in ds : \A p, q \in Parts(doms, v, d) : p # q => p[2] # q[2] /\ p[3] \cap q[3] = {}
     \* attributes of the record class behind noise may be filled in for any row
     /\ LET min == UNION {RowsWith(cells, r) : r \in own}
            max == IF own \subseteq FieldNames(g.P) THEN min ELSE {c[2] : c \in cells}
        IN own # {} => /\ DbNames(g.P.record, min) \subseteq N(g.P.record)
                       /\ N(g.P.record) \subseteq DbNames(g.P.record, max)
     /\ \A r \in own : RowsWith(cells, r) # {} => \A d \in Range(g.rels[r].decl.doms) : N(d) # {}
SavedOK(text, cells) ==
  LET p == SavedHirm(text) IN
  /\ UNION {w[2] : w \in p.rels} = DOMAIN g.rels
  /\ \A w, u \in p.rels : w # u => w[1] # u[1] /\ w[2] \cap u[2] = {}
  /\ Range(p.heads) = {w[1] : w \in p.rels} /\ Len(p.heads) = Cardinality(p.rels)
  /\ \A w \in p.rels : DomText(w[1], w[2], p.doms, cells)
  /\ \A u \in p.doms : u[1] \in Range(p.heads)
FieldVar(F) ==
  LET K == PathClasses(g.P, g.P.record, g.P.fields[F])
      q == g.P.fields[F]
  IN Vars(g.P, K[Len(q)])[q[Len(q)]]
DiscreteTypes == {"bool", "categorical"}
LegalText(F, x) ==
  CASE FieldVar(F).type = "bool" -> x \in {"0", "1"}
    [] FieldVar(F).type = "categorical" -> IsNum(x) /\ NEq(x, NFloor(x)) /\ NLe(0, x) /\ NLt(x, LastWins(FieldVar(F).args)["k"])
    [] FieldVar(F).type = "real" -> IsNum(x)
    [] OTHER -> TRUE
SampleText(text, n) ==
  LET f == CsvFrame(text, <<>>) IN
  /\ f.ok /\ f.columns = SortNames(FieldNames(g.P))
  /\ \A F \in FieldNames(g.P) : Len(f.data[F]) = n /\ \A j \in 1..n : LegalText(F, f.data[F][j])
PCli ==
  /\ Observe("pcli") /\ g' = g /\ Chk("gdb.frame", LRefs = g.refs /\ S' = S)
  /\ LET R == Line.runs
         n == NFloor(A(5))
         texts == \E F \in FieldNames(g.P) : FieldVar(F).type \notin DiscreteTypes \cup {"real"}
     IN /\ Chk("pcli.ok", \A k \in 1..2 : R[k].how = "ok")
        /\ Chk("pcli.same", R[1] = R[2])
        /\ Chk("pcli.saved", R[1].how = "ok" => SavedOK(R[1].out, NonEmptyCells(A(6))))
        \* a probability when everything is discrete
        /\ Chk("pcli.heldout", (R[1].how = "ok" /\ A(7) # "-") =>
              /\ IsNum(R[1].lp)
              /\ (\A c \in Classes(g.P) : \A a \in Attrs(g.P, c) : TypeOf(g.P, c, a) \in DiscreteTypes)
                   => (IF NonEmptyCells(A(7)) = {} THEN NEq(R[1].lp, 0) ELSE NLt(R[1].lp, 0)))
        /\ Chk("pcli.samples", R[1].how = "ok" =>
              IF n = 0 THEN R[1].samples = "" ELSE texts \/ SampleText(R[1].samples, n))
PCliBad == /\ Observe("pclibad") /\ g' = g /\ Chk("gdb.frame", LRefs = g.refs)
           /\ Chk("pcli.refuse", Line.how = "refused")

(* ----- operations on the relational model alone ----- *)
Under == /\ \/ GibbsOp \/ GibbsMany \/ SetItem \/ ExactOp \/ HGibbs \/ HSet \/ HGibbsAll \/ LatentOp \/ HypOp
            \/ AlphaOp \/ HasOp \/ InferOp \/ LogpOp
         /\ g' = g
         /\ Chk("gdb.frame", LRefs = g.refs)
         /\ DbOK
Aside == (HistOp \/ LawOp \/ Crash) /\ g' = g

GInit == Init /\ g = NoDb
GNext == /\ i < Len(Log)
         /\ \/ DbSession \/ Pclean \/ RowOp \/ CsvOp \/ SamplesOp \/ RefOp \/ TransAll \/ GInfer \/ GSave \/ PCli \/ PCliBad \/ Under \/ Aside
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
