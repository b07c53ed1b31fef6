------------------------------ MODULE HirmTrace ------------------------------
(***************************************************************************)
(* Traces of IRM and HIRM objects against Hirm.  The state of the spec, S,   *)
(* is what the code says it has stored (which view each relation is in,      *)
(* where each entity sits, the observations, the hyperparameters).  Every    *)
(* action says how the operation may change S; Consistent compares whatever  *)
(* else the code maintains with what S implies.                              *)
(***************************************************************************)
EXTENDS TraceBase, Hirm, Stat, Io

VARIABLES S, pend,  \* pend: relation -> declaration, seen but not yet added
          file      \* what the model was loaded from: [obs, fwd, rev] (<<>> when it was not)
vars == <<i, S, pend, file>>

NoState == [sch |-> <<>>, where |-> <<>>, seat |-> <<>>, alpha |-> <<>>, data |-> <<>>, hyp |-> <<>>,
            hier |-> FALSE, halpha |-> "1"]

(* ----- the logged state ----- *)
FcnOf(q, K(_), V(_)) == PairsFcn([k \in 1..Len(q) |-> <<K(q[k]), V(q[k])>>])
L == Line.st
LDomsOf(v) == SelectSeq(L.doms, LAMBDA d : d.irm = v)
LRel(r) == L.rels[CHOOSE k \in 1..Len(L.rels) : L.rels[k].name = r]
\* sch: the declarations of the relations that now exist
Logged(decl) ==
  [sch   |-> [r \in {L.rels[k].name : k \in 1..Len(L.rels)} |-> decl[r]],
   where |-> FcnOf(L.rels, LAMBDA x : x.name, LAMBDA x : x.irm),
   seat  |-> FcnOf(L.irms, LAMBDA v : v.id,
               LAMBDA v : FcnOf(LDomsOf(v.id), LAMBDA d : d.name, LAMBDA d : PairsFcn(d.assign))),
   alpha |-> FcnOf(L.irms, LAMBDA v : v.id,
               LAMBDA v : FcnOf(LDomsOf(v.id), LAMBDA d : d.name, LAMBDA d : d.alpha)),
   data  |-> FcnOf(L.rels, LAMBDA x : x.name, LAMBDA x : PairsFcn(x.data)),
   hyp   |-> FcnOf(L.rels, LAMBDA x : x.name, LAMBDA x : FcnOf(x.cl, LAMBDA c : c.z, LAMBDA c : c.d.hyp)),
   hier  |-> L.kind = "hirm",
   halpha |-> IF L.kind = "hirm" THEN L.alpha ELSE "1"]

(* ----- everything derived, compared with S' ----- *)
Asc(q) == Range(q)
DomOK(N, d) ==
  LET f == N.seat[d.irm][d.name]
      T == d.tables
  IN /\ Chk("dom.tables", /\ {T[k][1] : k \in 1..Len(T)} = Tables(f)
                          /\ Len(T) = Cardinality(Tables(f))
                          /\ \A k \in 1..Len(T) : /\ Range(T[k][2]) = At(f, T[k][1])
                                                  /\ Len(T[k][2]) = Count(f, T[k][1])
                          /\ d.n = Size(f))
     /\ Chk("dom.items", Range(d.items) = DOMAIN f)
     /\ Chk("ent.items", DOMAIN f = Ents(N, d.irm, d.name))
     /\ Chk("dom.rels", Range(d.rels) = {r \in InView(N, d.irm) : d.name \in Range(RDoms(N, r))})
     /\ Chk("score.dom", NClose(d.score, CrpScore(f, d.alpha), "1e-6"))

Rev(N, r) ==
  UNION {{<<RDoms(N, r)[k], x[k], x>> : k \in 1..Len(x)} : x \in Tuples(N, r)}
LRev(x) == UNION {{<<x.rev[k][1], x.rev[k][2], x.rev[k][3][j]>> : j \in 1..Len(x.rev[k][3])} : k \in 1..Len(x.rev)}
RelOK(N, x) ==
  LET r  == x.name
      zm == ZMap(N, r)
      Mem(z) == {y \in Tuples(N, r) : zm[y] = z}
  IN /\ Chk("rel.decl", /\ x.doms = RDoms(N, r) /\ x.objdoms = RDoms(N, r)
                        /\ x.kind = N.sch[r].kind /\ x.obs = N.sch[r].obs)
     /\ Chk("rel.rev", LRev(x) = Rev(N, r) /\ \A k \in 1..Len(x.rev) : x.rev[k][3] # <<>>)
     /\ Chk("rel.clusters", /\ {x.cl[k].z : k \in 1..Len(x.cl)} = Range(zm)
                            /\ Len(x.cl) = Cardinality(Range(zm))
                            /\ \A k \in 1..Len(x.cl) : NEq(x.cl[k].d.n, Cardinality(Mem(x.cl[k].z))))
     /\ Chk("score.cluster", Decided(N, r) =>
          \A k \in 1..Len(x.cl) :
            NClose(x.cl[k].d.score, Score(N.sch[r], x.cl[k].d.hyp, ObsAt(N, r, Mem(x.cl[k].z))), "1e-6"))
     /\ Chk("score.rel", /\ NClose(x.score, SumSeq(x.cl, LAMBDA c : c.d.score), "1e-6"))
     /\ x.kind = "noisy" =>
          /\ Chk("noisy.base", x.base = N.sch[r].base)
          /\ Chk("noisy.pairs", PairsFcn([k \in 1..Len(x.pairs) |-> <<x.pairs[k][1], <<x.pairs[k][2], x.pairs[k][3]>>>>])
                                 = [y \in Tuples(N, r) |-> Obs(N, r, y)])
          /\ Chk("noisy.b2n",
                 /\ {<<x.b2n[k][1], x.b2n[k][2][j]>> : k \in 1..Len(x.b2n), j \in 1..0} = {}
                 /\ UNION {{<<x.b2n[k][1], x.b2n[k][2][j]>> : j \in 1..Len(x.b2n[k][2])} : k \in 1..Len(x.b2n)}
                    = {<<BaseTuple(N, r, y), y>> : y \in Tuples(N, r)})
          /\ Chk("noisy.live", x.baseok)

B2N(N) == {<<N.sch[r].base, r>> : r \in {q \in Rels(N) : IsNoisy(N, q)}}
LB2N == UNION {{<<L.b2n[k][1], L.b2n[k][2][j]>> : j \in 1..Len(L.b2n[k][2])} : k \in 1..Len(L.b2n)}
ModelOK(N) ==
  /\ Chk("part.views", /\ {L.irms[k].id : k \in 1..Len(L.irms)} = Views(N) \cup (IF N.hier THEN {} ELSE {0})
                       /\ \A k \in 1..Len(L.irms) :
                            /\ Range(L.irms[k].rels) = InView(N, L.irms[k].id)
                            /\ Range(L.irms[k].schema) = InView(N, L.irms[k].id))
  /\ Chk("part.doms", \A v \in DOMAIN N.seat : DOMAIN N.seat[v] = ViewDoms(N, v))
  /\ Chk("part.rels", N.hier =>
        /\ PairsFcn(L.where) = N.where
        /\ Range(L.schema) = Rels(N)
        /\ L.ncodes = Cardinality(Rels(N)) /\ L.n = Cardinality(Rels(N))
        /\ Len(L.tables) = Cardinality(Views(N))
        /\ \A k \in 1..Len(L.tables) : Range(L.tables[k][2]) = InView(N, L.tables[k][1]))
  /\ Chk("noisy.b2n", LB2N = B2N(N) /\ \A k \in 1..Len(L.b2n) : Len(L.b2n[k][2]) = Cardinality(Range(L.b2n[k][2])))
  /\ Chk("score.irm", \A k \in 1..Len(L.irms) :
        NClose(L.irms[k].score,
               NAdd(SumSeq(LDomsOf(L.irms[k].id), LAMBDA d : d.score),
                    SumSeq(SelectSeq(L.rels, LAMBDA x : x.irm = L.irms[k].id), LAMBDA x : x.score)), "1e-6"))
  /\ Chk("score.model",
        NClose(L.score, NAdd(IF N.hier THEN RelCrp(N) ELSE 0, SumSeq(L.irms, LAMBDA v : v.score)), "1e-6"))
Consistent ==
  /\ \A k \in 1..Len(L.doms) : DomOK(S', L.doms[k])
  /\ \A k \in 1..Len(L.rels) : RelOK(S', L.rels[k])
  /\ ModelOK(S')

(* ----- rules shared by the actions ----- *)
Observe(op) == /\ Line.op = op /\ Advance /\ UNCHANGED <<pend, file>>
               /\ S' = Logged(pend @@ S.sch)
A(k) == Line.args[k]
Entities(s) == IF s = "-" THEN <<>> ELSE LET q == Split(s, ",") IN [k \in 1..Len(q) |-> NFloor(q[k])]

\* An operation moved nothing but the listed components of S.
Frame(label, may) ==
  Chk(label, /\ "where" \in may \/ (S'.where = S.where /\ S'.sch = S.sch)
             /\ "seat" \in may \/ S'.seat = S.seat
             /\ "alpha" \in may \/ S'.alpha = S.alpha
             /\ "data" \in may \/ S'.data = S.data
             /\ "hyp" \in may \/ S'.hyp = S.hyp
             /\ S'.hier = S.hier
             /\ "halpha" \in may \/ S'.halpha = S.halpha)
\* What a cluster has as hyperparameters survives as long as the cluster does;
\* a new cluster starts from the defaults.
KeepHyp(label, moved) ==
  Chk(label, \A r \in Rels(S') :
     \A z \in DOMAIN S'.hyp[r] :
        LET h == S'.hyp[r][z]
            known == r \in Rels(S) /\ r \notin moved /\ z \in DOMAIN S.hyp[r]
            stays == known /\ \E x \in Tuples(S, r) \cap Tuples(S', r) : Z(S, r, x) = z /\ Z(S', r, x) = z
        IN IF stays THEN h = S.hyp[r][z]
           ELSE IsDefaultHyp(S'.sch[r], h) \/ (known /\ h = S.hyp[r][z]))
\* The seats of view v after the operation: everybody seated before and still
\* mentioned sits where it sat; entities in `fresh` may sit anywhere.
SeatsKept(v) ==
  \A d \in DOMAIN S.seat[v] \cap DOMAIN S'.seat[v] :
    \A e \in DOMAIN S.seat[v][d] \cap DOMAIN S'.seat[v][d] : S'.seat[v][d][e] = S.seat[v][d][e]
OtherViewsKept(vs) ==
  \A v \in (DOMAIN S.seat \cup DOMAIN S'.seat) \ vs :
     v \in DOMAIN S.seat /\ v \in DOMAIN S'.seat /\ S'.seat[v] = S.seat[v] /\ S'.alpha[v] = S.alpha[v]

(* ----- building ----- *)
Session == /\ Line.op = "session" /\ Advance /\ pend' = <<>> /\ file' = <<>>
           /\ S' = [NoState EXCEPT !.hier = (A(1) # "irm")]
\* Traces call an emission by the name of its model.
Declared(sp) ==
  IF sp.kind = "noisy" /\ sp.dist \in {"bigram", "categorical"}
  THEN [sp EXCEPT !.dist = @ \o "_emission"] ELSE sp
Declare == /\ Line.op \in {"schema", "spec"} /\ Advance /\ S' = S /\ file' = file
           /\ pend' = (A(1) :> Declared(Line.spec)) @@ pend
Build == /\ Observe("build")
         /\ Chk("part.build", Rels(S') = DOMAIN pend /\ \A r \in Rels(S') : Tuples(S', r) = {} /\ S'.hyp[r] = <<>>)
         /\ Consistent
AddRel == /\ Observe("addrel")
          /\ Chk("part.add", /\ Rels(S') = Rels(S) \cup {A(1)}
                             /\ \A r \in Rels(S) : S'.where[r] = S.where[r] /\ S'.sch[r] = S.sch[r]
                                                   /\ S'.data[r] = S.data[r]
                             /\ S'.data[A(1)] = <<>>
                             /\ S'.halpha = S.halpha
                             /\ OtherViewsKept({S'.where[A(1)]})
                             /\ S'.where[A(1)] \in DOMAIN S.seat => SeatsKept(S'.where[A(1)]))
          /\ KeepHyp("part.add", {A(1)})
          /\ Consistent
RmRel == /\ Observe("rmrel")
         /\ Chk("part.remove", /\ Rels(S') = Rels(S) \ {A(1)}
                               /\ \A r \in Rels(S') : S'.where[r] = S.where[r] /\ S'.sch[r] = S.sch[r]
                                                      /\ S'.data[r] = S.data[r]
                               /\ S'.halpha = S.halpha
                               /\ OtherViewsKept({S.where[A(1)]})
                               /\ S.where[A(1)] \in DOMAIN S'.seat => SeatsKept(S.where[A(1)]))
         /\ KeepHyp("part.remove", {})
         /\ Consistent
Destroy == Line.op = "destroy" /\ Advance /\ S' = NoState /\ pend' = <<>> /\ file' = file

(* ----- observations ----- *)
\* seat IRM domain entity table: an entity is placed before it is mentioned
SeatOp == /\ Line.op = "seat" /\ Advance /\ UNCHANGED <<pend, file>>
          /\ S' = MoveEnt(S, Line.irm, A(2), NFloor(A(3)), NFloor(A(4)))
IncOp == /\ Observe("inc")
         /\ LET r == A(1)
                x == Entities(A(2))
            IN /\ Chk("ent.inc", S'.data = [S.data EXCEPT ![r] = With(@, x, A(3))])
               /\ Frame("ent.inc", {"data", "seat", "hyp"})
               /\ Chk("ent.inc", OtherViewsKept({S.where[r]}) /\ SeatsKept(S.where[r]))
               /\ KeepHyp("rel.keep", {})
         /\ Consistent
UnincOp == /\ Observe("uninc")
           /\ LET r == A(1)
                  x == Entities(A(2))
              IN /\ Chk("ent.uninc", S'.data = [S.data EXCEPT ![r] = Without(@, x)])
                 /\ Frame("ent.uninc", {"data", "seat", "hyp"})
                 /\ Chk("ent.uninc", OtherViewsKept({S.where[r]}) /\ SeatsKept(S.where[r]))
                 /\ KeepHyp("rel.keep", {})
           /\ Consistent
UpdateOp == /\ Observe("update")
            /\ Chk("rel.update", S'.data = [S.data EXCEPT ![A(1)] = With(@, Entities(A(2)), A(3))])
            /\ Frame("rel.update", {"data"})
            /\ Consistent

(* ----- moving one entity ----- *)
D2 == A(2)
E3 == NFloor(A(3))
OnlyMoved(v, d, e) ==
  /\ OtherViewsKept({v})
  /\ S'.seat[v] = [S.seat[v] EXCEPT ![d] = With(@, e, S'.seat[v][d][e])]
GibbsOp == /\ Observe("gibbs")
           /\ Frame("gibbs.move", {"seat", "hyp"})
           /\ Chk("gibbs.move", OnlyMoved(Line.irm, D2, E3))
           /\ Chk("gibbs.move", LET f == S.seat[Line.irm][D2] IN
                  \* someone alone at a table who is to have a new one keeps the old
                  Count(f, f[E3]) = 1 => S'.seat[Line.irm][D2][E3] \in Tables(f))
           /\ KeepHyp("gibbs.keep", {})
           /\ Consistent
SetItem == /\ Observe("setitem")
           /\ Frame("gibbs.move", {"seat", "hyp"})
           /\ Chk("gibbs.move", IF Line.table < 0 THEN S' = S
                  ELSE S'.seat = MoveEnt(S, Line.irm, D2, E3, Line.table).seat)
           /\ KeepHyp("gibbs.keep", {})
           /\ Consistent
GibbsMany == /\ Line.op \in {"gibbsdom", "gibbsall"} /\ Observe(Line.op)
             /\ Frame("gibbs.move", {"seat", "hyp"})
             /\ Chk("gibbs.move", /\ OtherViewsKept({Line.irm})
                    /\ \A d \in DOMAIN S.seat[Line.irm] :
                         DOMAIN S'.seat[Line.irm][d] = DOMAIN S.seat[Line.irm][d])
             /\ KeepHyp("gibbs.keep", {})
             /\ Consistent
\* The weights an entity move is decided by: prior weights, and for every
\* relation the log likelihood of its data with the entity at each table.  Log
\* likelihoods are compared up to a constant, by differences.
ExactOp ==
  /\ Observe("exact") /\ Frame("gibbs.frame", {})
  /\ Consistent
  /\ LET v == Line.irm
         T == [k \in 1..Len(Line.tables) |-> Line.tables[k][1]]
         Touch == Touching(S, v, D2, E3)
     IN /\ Chk("gibbs.weights", IsGibbsWeights(S.seat[v][D2], S.alpha[v][D2], E3, Range(Line.tables)))
        /\ Chk("gibbs.exact",
              /\ {Line.exact[k][1] : k \in 1..Len(Line.exact)} = Touch
              /\ \A k \in 1..Len(Line.exact) :
                   LET r  == Line.exact[k][1]
                       lp == Line.exact[k][2]
                       kn == {j \in 1..Len(T) : Known(MoveEnt(S, v, D2, E3, T[j]), r)}
                       sc == [j \in kn |-> RelScore(MoveEnt(S, v, D2, E3, T[j]), r)]
                       j0 == CHOOSE j \in kn : TRUE
                   IN Decided(S, r) =>
                        \A j \in kn : NClose(NSub(lp[j], lp[j0]), NSub(sc[j], sc[j0]), "1e-6"))

(* ----- moving one relation between views ----- *)
RelocateOK(r, v) ==
  /\ S'.where = With(S.where, r, v)
  /\ S'.sch = S.sch /\ S'.data = S.data /\ S'.halpha = S.halpha
  /\ IF S.where[r] = v
     THEN S'.seat = S.seat /\ S'.alpha = S.alpha
     ELSE /\ OtherViewsKept({v, S.where[r]})
          /\ v \in DOMAIN S.seat => SeatsKept(v)
          /\ S.where[r] \in DOMAIN S'.seat => SeatsKept(S.where[r])
HGibbs == /\ Observe("hgibbs")
          /\ Chk("part.move", RelocateOK(A(1), S'.where[A(1)]))
          /\ Chk("part.move", Count(S.where, S.where[A(1)]) = 1 => S'.where[A(1)] \in Views(S))
          /\ KeepHyp("part.keep", IF S'.where[A(1)] = S.where[A(1)] THEN {} ELSE {A(1)})
          /\ Consistent
HSet == /\ Observe("hset")
        /\ Chk("part.move", IF Line.table < 0 THEN S' = S ELSE RelocateOK(A(1), Line.table))
        /\ KeepHyp("part.keep", IF Line.table < 0 THEN {} ELSE {A(1)})
        /\ Consistent
HGibbsAll == /\ Observe("hgibbsall")
             /\ Chk("part.move", /\ S'.sch = S.sch /\ S'.data = S.data /\ S'.halpha = S.halpha
                                 /\ DOMAIN S'.where = DOMAIN S.where)
             /\ Consistent

(* ----- latent values ----- *)
\* Only values of the base relation move, and only the asked-for ones.
LatentFrame(b, X) ==
  /\ DOMAIN S'.data = DOMAIN S.data
  /\ \A r \in Rels(S) : DOMAIN S'.data[r] = DOMAIN S.data[r]
  /\ \A r \in Rels(S) \ {b} : S'.data[r] = S.data[r]
  /\ \A x \in Tuples(S, b) \ X : S'.data[b][x] = S.data[b][x]
CandSet(T, b, bx) ==
  UNION {{NearestTo(T.sch[b], p) : p \in Proposals(T.sch[r], NoisyVals(T, b, bx))} : r \in NoisyOf(T, b)}
CandKnown(T, b) == \A r \in NoisyOf(T, b) :
  T.sch[r].dist \in {"gaussian", "sometimes_bitflip", "sometimes_gaussian", "sometimes_categorical"}
LatentOp == /\ Line.op \in {"latents", "latent1"} /\ Observe(Line.op)
            /\ Frame("latent.frame", {"data"})
            /\ Chk("latent.frame", LatentFrame(A(1), IF Line.op = "latent1" THEN {Entities(A(2))} ELSE Tuples(S, A(1))))
            /\ Chk("latent.cand", (Line.op = "latent1" /\ CandKnown(S, A(1))) =>
                   \E c \in CandSet(S, A(1), Entities(A(2))) :
                      LET v == S'.data[A(1)][Entities(A(2))] IN c = v \/ (IsNum(c) /\ IsNum(v) /\ NClose(c, v, "1e-9")))
            /\ Consistent
IncLogp == /\ Observe("inclogp") /\ Frame("latent.frame", {}) /\ Consistent
           /\ LET b == A(1)
                  x == Entities(A(2))
              IN Chk("latent.weights", (\A r \in NoisyOf(S, b) : Decided(S, r)) =>
                   \A k \in 3..Len(Line.args) :
                     NClose(Line.weights[k - 2], LatentInc(S, b, x, Line.args[k]), "1e-6"))

(* ----- hyperparameters ----- *)
HypOp == /\ Observe("hyp")
         /\ Frame("hyper.frame", {"hyp"})
         /\ Chk("hyper.frame", \A r \in Rels(S) : r # A(1) => S'.hyp[r] = S.hyp[r])
         /\ Consistent
GridSize == IF Has(Line, "grid") THEN Line.grid ELSE 20
\* A concentration resampled with n customers; without any it stays.
OnGrid(n, old, a) ==
  IF n = 0 THEN NEq(a, old)
  ELSE LET G == AlphaGridOf(n, GridSize) IN \E k \in 1..GridSize : NClose(G[k], a, "1e-9")
AlphaOp == /\ Line.op \in {"transalpha", "setalpha"} /\ Observe(Line.op)
           /\ Frame("alpha.frame", {"alpha"})
           /\ Chk("alpha.frame", /\ DOMAIN S'.alpha = DOMAIN S.alpha
                  /\ \A v \in DOMAIN S.alpha : \A d \in DOMAIN S.alpha[v] :
                       (v = Line.irm /\ d = D2) \/ S'.alpha[v][d] = S.alpha[v][d])
           /\ Chk("alpha.frame", LET a == S'.alpha[Line.irm][D2] 
                                     n == Size(S.seat[Line.irm][D2]) IN
                  IF Line.op = "setalpha" THEN NEq(a, A(3))
                  ELSE OnGrid(n, S.alpha[Line.irm][D2], a))
           /\ Consistent
AlphasOp == /\ Observe("transalphas")
            /\ Frame("alpha.frame", {"alpha", "halpha"})
            /\ Chk("alpha.frame", /\ DOMAIN S'.alpha = DOMAIN S.alpha
                   /\ \A v \in DOMAIN S.alpha : /\ DOMAIN S'.alpha[v] = DOMAIN S.alpha[v]
                        /\ \A d \in DOMAIN S.alpha[v] : OnGrid(Size(S.seat[v][d]), S.alpha[v][d], S'.alpha[v][d])
                   /\ S.hier => OnGrid(Cardinality(Rels(S)), S.halpha, S'.halpha))
            /\ Consistent

(* ----- queries ----- *)
ObsArg(from) == [k \in 1..((Len(Line.args) - from + 1) \div 3) |->
                   <<A(from + 3 * (k - 1)), Entities(A(from + 3 * (k - 1) + 1)), A(from + 3 * (k - 1) + 2)>>]
\* At most one unknown entity per domain and one observation per relation:
\* then the predictive probability is the marginal of the joint.
Exactly(v, O) ==
  /\ \A p, q \in Unseated(S, v, O) : p[1] = q[1] => p = q
  /\ \A j, k \in 1..Len(O) : j # k => O[j][1] # O[k][1]
  /\ \A j \in 1..Len(O) : Decided(S, O[j][1]) /\ FixedPrior(S.sch[O[j][1]])
ViewObs(O, v) == SelectSeq(O, LAMBDA o : S.where[o[1]] = v)
LogpOp == /\ Observe("logp") /\ Frame("pred.frame", {}) /\ Consistent
          /\ LET O  == ObsArg(1)
                 vs == {S.where[O[k][1]] : k \in 1..Len(O)}
             IN Chk("pred.joint", (\A v \in vs : Exactly(v, ViewObs(O, v))) =>
                  NClose(Line.lp, SumOver(vs, LAMBDA v : PredLogp(S, v, ViewObs(O, v))), "1e-6"))
RLogpOp == /\ Observe("rlogp") /\ Frame("pred.frame", {}) /\ Consistent
           /\ LET O == ObsArg(1)
                  v == S.where[O[1][1]]
                  \* an unknown entity named twice is a documented limitation
              IN Chk("pred.single", (Exactly(v, O) /\
                       \A p \in Unseated(S, v, O) :
                         Cardinality({k \in 1..Len(O[1][2]) : RDoms(S, O[1][1])[k] = p[1] /\ O[1][2][k] = p[2]}) = 1) =>
                    NClose(Line.lp, PredLogp(S, v, O), "1e-6"))
CLogpOp == /\ Observe("clogp") /\ Frame("pred.frame", {}) /\ Consistent
           /\ LET o == ObsArg(1)[1]
                  r == o[1]
                  x == o[2]
                  v == S.where[r]
                  seated == Unseated(S, v, <<o>>) = {}
                  z == IF seated THEN ZIn(S, v, r, x) ELSE <<>>
                  m == S.sch[r]
                  hasbase == IsNoisy(S, r) => BaseTuple(S, r, x) \in Tuples(S, m.base)
                  ob == IF IsNoisy(S, r) THEN <<BaseVal(S, r, x), o[3]>> ELSE o[3]
              IN Chk("pred.cluster", Decided(S, r) =>
                   IF ~hasbase THEN NEq(Line.lp, "-inf")
                   ELSE IF seated /\ z \in Clusters(S, r)
                        THEN NClose(Line.lp, Logp(m, S.hyp[r][z], ObsAt(S, r, Members(S, r, z)), ob), "1e-6")
                        ELSE m.dist \in {"skellam", "string_skellam"}
                             \/ NClose(Line.lp, Logp(m, DefaultHyp(m), <<>>, ob), "1e-6"))
HasOp == /\ Observe("has") /\ Frame("ent.has", {}) /\ Consistent
         /\ Chk("ent.has", Line.got = (E3 \in Ents(S, Line.irm, D2)))

(* ----- generating ----- *)
\* The chain of base tuples below tuple x of r that have no value yet.
RECURSIVE Missing(_, _, _)
Missing(T, r, x) ==
  (IF x \in Tuples(T, r) THEN {} ELSE {<<r, x>>}) \cup
  (IF IsNoisy(T, r) /\ BaseTuple(T, r, x) \notin Tuples(T, T.sch[r].base)
   THEN Missing(T, T.sch[r].base, BaseTuple(T, r, x)) ELSE {})
Grown(new) ==
  /\ \A r \in Rels(S) : /\ DOMAIN S'.data[r] = DOMAIN S.data[r] \cup {p[2] : p \in {q \in new : q[1] = r}}
                        /\ \A x \in DOMAIN S.data[r] : S'.data[r][x] = S.data[r][x]
  /\ \A v \in DOMAIN S.seat : SeatsKept(v)
  /\ OtherViewsKept({S.where[p[1]] : p \in new})
SampleRel == /\ Line.op \in {"rsample", "hsamplerel"} /\ Observe(Line.op)
             /\ Frame("gen.frame", {"data", "seat", "hyp"})
             /\ Chk("gen.rel", Grown(Missing(S, A(1), Entities(A(2)))))
             /\ Chk("gen.value", Line.got = S'.data[A(1)][Entities(A(2))]
                                 \/ S.sch[A(1)].dist \in {"normal", "gaussian", "sometimes_gaussian"})
             /\ KeepHyp("rel.keep", {})
             /\ Consistent
\* Dropping the clusters nothing is in leaves everything else alone.
\* A history found by exploring HirmMC has led to the state it should lead to.
Expect == /\ Observe("expect") /\ Frame("mc.state", {})
          /\ Chk("mc.state", Facts(S) = Range(Line.args))
Cleanup == Observe("cleanup") /\ Frame("gen.frame", {}) /\ Consistent
Leaves(T) == {r \in Rels(T) : NoisyOf(T, r) = {}}
SampleModel ==
  /\ Observe("hsample")
  /\ Frame("gen.frame", {"data", "seat", "hyp"})
  /\ LET n   == NFloor(A(1))
         G   == PairsFcn(Line.got)
         \* entities asked for: new tuples of the leaves, in any order
         new == UNION {{<<r, G[r][k][1]>> : k \in 1..Len(G[r])} : r \in DOMAIN G}
         \* base tuples they need and that had no value before
         all == UNION {Missing(S, p[1], p[2]) : p \in new}
     IN /\ Chk("gen.count", /\ DOMAIN G = (IF n = 0 THEN {} ELSE Leaves(S))
                            /\ \A r \in DOMAIN G : Len(G[r]) = n
                            /\ Cardinality(new) = n * Cardinality(DOMAIN G)
                            /\ \A p \in new : p[2] \notin Tuples(S, p[1]))
        /\ Chk("gen.rel", Grown(all))
        /\ Chk("gen.value", \A r \in DOMAIN G : \A k \in 1..Len(G[r]) :
               LET v == S'.data[r][G[r][k][1]] IN
               G[r][k][2] = v \/ (IsNum(v) /\ IsNum(G[r][k][2]) /\ NClose(v, G[r][k][2], "1e-4")))
  /\ KeepHyp("rel.keep", {})
  /\ Consistent

(* ----- files ----- *)
SameDecl(a, b) == /\ a.kind = b.kind /\ a.dist = b.dist /\ a.base = b.base /\ a.doms = b.doms
                  /\ Range(a.args) = Range(b.args) /\ Len(a.args) = Len(b.args)
SameVal(a, b) == a = b \/ (IsNum(a) /\ IsNum(b) /\ NEq(a, b))
Coding(q) == PairsFcn([k \in 1..Len(q) |-> <<q[k][1], PairsFcn(q[k][2])>>])
Empty(T, r) == T[r] = <<>>
LoadOp ==
  /\ Line.op = "load" /\ Advance
  /\ LET O   == Observations(A(2))
         D   == Schema(A(1), DOMAIN O)
         lsc == PairsFcn(Line.schema)
         lba == PairsFcn(Line.bare)
         lob == PairsFcn(Line.obs)
         fwd == Coding(Line.fwd)
         rev == Coding(Line.rev)
         enc == PairsFcn(Line.encoded)
     IN /\ S' = Logged([r \in DOMAIN D |-> Declared(D[r])])
        /\ pend' = [r \in DOMAIN D |-> Declared(D[r])]
        /\ file' = [obs |-> O, fwd |-> fwd, rev |-> rev, sch |-> D, gen |-> <<>>]
        /\ Chk("io.schema", /\ DOMAIN lsc = DOMAIN D /\ DOMAIN lba = DOMAIN D
                            /\ \A r \in DOMAIN D : SameDecl(lsc[r], D[r]) /\ SameDecl(lba[r], D[r]))
        /\ Chk("io.observed", \A r \in DOMAIN D : lsc[r].obs = D[r].obs /\ ~lba[r].obs)
        /\ Chk("io.obs", lob = O)
        /\ Chk("io.encoding", IsEncoding(D, O, fwd, rev))
        /\ Chk("io.encode", enc = [r \in DOMAIN O |-> [k \in 1..Len(O[r]) |-> <<Encode(D, fwd, r, O[r][k][1]), O[r][k][2]>>]])
        /\ Chk("io.stored", Rels(S') = DOMAIN D /\ \A r \in DOMAIN D : Tuples(S', r) = Stored(D, O, fwd, r))
        /\ Chk("io.values", \A r \in DOMAIN O : \A k \in 1..Len(O[r]) :
                SameVal(S'.data[r][Encode(D, fwd, r, O[r][k][1])], O[r][k][2]))
  /\ KeepHyp("io.fresh", {})
  /\ Consistent
Names(v, d, E) == {file.rev[d][e] : e \in E}
SavedSeats(v) == UNION {{<<d, t, Names(v, d, At(S.seat[v][d], t))>> : t \in Tables(S.seat[v][d])} : d \in DOMAIN S.seat[v]}
SaveLoad ==
  /\ Observe("saveload")
  /\ Chk("io.saved",
        IF S.hier
        THEN LET p == SavedHirm(Line.saved) IN
             /\ p.rels = {<<v, InView(S, v)>> : v \in Views(S)}
             /\ Len(p.heads) = Cardinality(Views(S)) /\ Range(p.heads) = Views(S)
             /\ p.doms = UNION {{<<v, w>> : w \in SavedSeats(v)} : v \in Views(S)}
        ELSE SavedIrm(Line.saved) = SavedSeats(0))
  /\ Chk("io.restored", /\ S'.where = S.where /\ S'.seat = S.seat /\ S'.sch = S.sch
                        /\ \A r \in Rels(S) : Tuples(S', r) = Tuples(S, r)
                        /\ \A r \in Rels(S) : S.sch[r].obs => S'.data[r] = S.data[r])
  \* concentrations and hyperparameters are not saved: they start afresh
  /\ Chk("io.fresh", NEq(S'.halpha, "1") /\ \A v \in DOMAIN S'.alpha : \A d \in DOMAIN S'.alpha[v] : NEq(S'.alpha[v][d], "1"))
  /\ Chk("io.fresh", \A r \in Rels(S') : \A z \in DOMAIN S'.hyp[r] : IsDefaultHyp(S'.sch[r], S'.hyp[r][z]))
  /\ Consistent
\* A generated observation names known entities by their names, others new_<domain>_<code>.
NameOf(r, x) == [k \in 1..Len(x) |->
   LET d == file.sch[r].doms[k] IN IF x[k] \in DOMAIN file.rev[d] THEN file.rev[d][x[k]] ELSE "new_" \o d \o "_" \o IntStr(x[k])]
NamedObs(G) == [r \in DOMAIN G |-> [k \in 1..Len(G[r]) |-> <<NameOf(r, G[r][k][1]), G[r][k][2]>>]]
Row(r, e) == Join(<<e[2], r>> \o e[1], ",")
SampleWrite ==
  /\ Line.op = "samplewrite" /\ Advance /\ S' = Logged(S.sch) /\ pend' = pend
  /\ LET named == NamedObs(PairsFcn(Line.got))
         rows  == Flatten([j \in 1..Cardinality(DOMAIN named) |->
                     LET r == SetSeq(DOMAIN named)[j] IN [k \in 1..Len(named[r]) |-> Row(r, named[r][k])]])
     IN /\ file' = [file EXCEPT !.gen = named]
        /\ Chk("io.write", /\ Len(Lines(Line.text)) = Len(rows)
                           /\ Range(Tally([k \in 1..Len(rows) |-> <<rows[k], "1">>]))
                              = Range(Tally([k \in 1..Len(rows) |-> <<Lines(Line.text)[k], "1">>])))
  /\ Consistent
ReadBack == /\ Observe("readback") /\ Frame("gen.frame", {})
            /\ Chk("io.readback", PairsFcn(Line.back) = file.gen)
HeldQueries(text) ==
  LET O == Observations(text)
      q == SetSeq(UNION {{<<r, k>> : k \in 1..Len(O[r])} : r \in DOMAIN O})
  IN [j \in 1..Len(q) |-> LET e == O[q[j][1]][q[j][2]] IN <<q[j][1], Encode(file.sch, file.fwd, q[j][1], e[1]), e[2]>>]
Heldout ==
  /\ Observe("heldout") /\ Frame("pred.frame", {}) /\ Consistent
  /\ LET O == Observations(A(1))
         All(r) == (IF r \in DOMAIN file.obs THEN file.obs[r] ELSE <<>>) \o (IF r \in DOMAIN O THEN O[r] ELSE <<>>)
         Q == HeldQueries(A(1))
         vs == {S.where[Q[k][1]] : k \in 1..Len(Q)}
     IN /\ Chk("io.merge", PairsFcn(Line.merged) = [r \in DOMAIN file.obs \cup DOMAIN O |-> All(r)])
        /\ Chk("io.heldout", (\A v \in vs : Exactly(v, ViewObs(Q, v))) =>
              NClose(Line.lp, SumOver(vs, LAMBDA v : PredLogp(S, v, ViewObs(Q, v))), "1e-6"))

(* ----- the Python implementation keeps models as dictionaries and as text ----- *)
PyJson == /\ Observe("pyjson") /\ Frame("py.dict", {}) /\ Consistent
\* One generator, one outcome.
PyAgain == Line.op = "pyagain" /\ Chk("py.again", Line.got[1] = Line.got[2]) /\ UNCHANGED <<S, pend, file>> /\ Advance
Numbered(v) == UNION {{<<d, t, {IntStr(e) : e \in At(S.seat[v][d], t)}>> : t \in Tables(S.seat[v][d])} : d \in DOMAIN S.seat[v]}
PySave ==
  /\ Observe("pysave")
  /\ Chk("py.saved",
        IF S.hier
        THEN LET p == SavedHirm(Line.saved) IN
             /\ p.rels = {<<v, InView(S, v)>> : v \in Views(S)}
             /\ Len(p.heads) = Cardinality(Views(S)) /\ Range(p.heads) = Views(S)
             /\ p.doms = UNION {{<<v, w>> : w \in Numbered(v)} : v \in Views(S)}
        ELSE SavedIrm(Line.saved) = Numbered(0))
  /\ Chk("py.restored", S'.where = S.where /\ S'.seat = S.seat /\ S'.sch = S.sch /\ S'.data = S.data)
  /\ Consistent

(* ----- the command line program ----- *)
\* cli SEED ITERS SAMPLES saved|- HELDOUT|-, run twice.
Parts(doms, v, d) == {w[2] : w \in {u \in doms : u[1] = v /\ u[2][1] = d}}
\* The entities that the observations put in domain d of a view with relations R.
Needed(R, d) == UNION {UNION {{file.rev[d][x[k]] : k \in {j \in 1..Len(x) : file.sch[r].doms[j] = d}} :
                              x \in Stored(file.sch, file.obs, file.fwd, r)} : r \in R}
\* doms: {<<view, <<domain, table, names>>>>}
IsSeating(doms, v, R) ==
  /\ \A u \in doms : u[1] = v => u[2][1] \in UNION {Range(file.sch[r].doms) : r \in R}
  /\ \A d \in UNION {Range(file.sch[r].doms) : r \in R} :
       LET P == {u[2] : u \in {u \in doms : u[1] = v /\ u[2][1] = d}} IN
       /\ UNION {p[3] : p \in P} = Needed(R, d)
       /\ \A p, q \in P : p # q => p[2] # q[2] /\ p[3] \cap q[3] = {}
IsOutcome(text) ==
  IF S.hier
  THEN LET p == SavedHirm(text) IN
       /\ UNION {w[2] : w \in p.rels} = DOMAIN file.sch
       /\ \A w, u \in p.rels : w # u => w[1] # u[1] /\ w[2] \cap u[2] = {}
       /\ Range(p.heads) = {w[1] : w \in p.rels} /\ Len(p.heads) = Cardinality(p.rels)
       /\ \A w \in p.rels : IsSeating(p.doms, w[1], w[2])
       /\ \A u \in p.doms : u[1] \in Range(p.heads)
  ELSE IsSeating({<<0, w>> : w \in SavedIrm(text)}, 0, DOMAIN file.sch)
Ours(text) ==
  IF S.hier
  THEN LET p == SavedHirm(text) IN
       /\ p.rels = {<<v, InView(S, v)>> : v \in Views(S)}
       /\ p.doms = UNION {{<<v, w>> : w \in SavedSeats(v)} : v \in Views(S)}
  ELSE SavedIrm(text) = SavedSeats(0)
Cli ==
  /\ Observe("cli") /\ Frame("cli.frame", {})
  /\ LET R == Line.runs
         still == A(2) = "0" /\ A(4) = "saved"
     IN /\ Chk("cli.ok", \A k \in 1..2 : R[k].how = "ok")
        /\ Chk("cli.same", R[1] = R[2])
        /\ Chk("cli.valid", R[1].how = "ok" => IsOutcome(R[1].out))
        /\ Chk("cli.restored", (still /\ R[1].how = "ok") => Ours(R[1].out))
        \* the model of this session is as it was loaded
        /\ Chk("cli.heldout", (R[1].how = "ok" /\ A(5) # "-") =>
              /\ IsNum(R[1].lp)
              /\ LET Q == HeldQueries(A(5))
                     vs == {S.where[Q[k][1]] : k \in 1..Len(Q)}
                 IN (still /\ \A v \in vs : Exactly(v, ViewObs(Q, v))) =>
                      NClose(R[1].lp, SumOver(vs, LAMBDA v : PredLogp(S, v, ViewObs(Q, v))), "2e-5"))
CliBad == /\ Observe("clibad") /\ Frame("cli.frame", {}) /\ Chk("cli.refuse", Line.how = "refused")

(* ----- whole inference sweeps ----- *)
Latent(T) == {r \in Rels(T) : ~T.sch[r].obs /\ NoisyOf(T, r) # {}}
InferOp == /\ Line.op \in {"infer", "step"} /\ Observe(Line.op)
           /\ Chk("infer.data", /\ S'.sch = S.sch /\ Rels(S') = Rels(S)
                                /\ \A r \in Rels(S) : Tuples(S', r) = Tuples(S, r)
                                /\ \A r \in Rels(S) \ Latent(S) : S'.data[r] = S.data[r])
           /\ Chk("infer.data", ~S.hier => S'.where = S.where)
           /\ Consistent

(* ----- frequencies ----- *)
H == Line.hist
HB(k) == Line.args[k + 1]      \* k-th argument of the repeated operation
HI == [k \in 1..Len(H) |-> <<NFloor(H[k][1]), H[k][2]>>]
GibbsP(v, d, e) ==
  LET f   == S.seat[v][d]
      new == LET u == {HI[k][1] : k \in 1..Len(HI)} \ Tables(f) IN IF u = {} THEN -1 ELSE CHOOSE x \in u : TRUE
      C   == EntTables(S, v, d, e, new)
  IN Softmax([t \in C |-> EntLogp(S, v, d, e, t)])
HView(s) == IF Len(Chars(s)) > 0 /\ Chars(s)[1] = "@" THEN S.where[Join(Tail(Chars(s)), "")] ELSE NFloor(s)

\* Ways of seating the entities of U (sequence of <<domain, entity>>) in view v,
\* one after the other, with their log probabilities.
RECURSIVE Seatings(_, _, _)
Seatings(T, v, U) ==
  IF U = <<>> THEN {<<T, "0">>}
  ELSE LET d == U[1][1]
           f == T.seat[v][d]
           a == T.alpha[v][d]
           C == Tables(f) \cup {FreshId(Tables(f))}
       IN UNION {{<<w[1], NAdd(LogpTable(f, a, t), w[2])>> : w \in Seatings(MoveEnt(T, v, d, U[1][2], t), v, Tail(U))} : t \in C}
\* State T with relation r (and its data) put in view v, not yet seated.
PutIn(T, r, v) ==
  LET empty == [d \in Range(RDoms(T, r)) |-> <<>>]
      ones  == [d \in Range(RDoms(T, r)) |-> "1"]
      s0 == IF v \in DOMAIN T.seat THEN T.seat[v] ELSE <<>>
      a0 == IF v \in DOMAIN T.alpha THEN T.alpha[v] ELSE <<>>
  IN [T EXCEPT !.where = With(@, r, v), !.seat = With(@, v, s0 @@ empty), !.alpha = With(@, v, a0 @@ ones),
               !.hyp[r] = <<>>]
\* The outcomes of scoring r in view v: pairs <<log probability, score>>.
ViewOutcomes(r, v) ==
  IF S.where[r] = v THEN {<<"0", RelScore(S, r)>>}
  ELSE LET T == PutIn(S, r, v)
           U == SetSeq(UNION {{<<d, e>> : e \in EntsOf(S, r, d) \ DOMAIN T.seat[v][d]} : d \in Range(RDoms(S, r))})
           W == SetSeq(Seatings(T, v, U))
           full == [k \in 1..Len(W) |-> <<W[k][2], RelScore(W[k][1], r)>>]
           scores == {full[k][2] : k \in 1..Len(full)}
       IN {<<LET q == SelectSeq(full, LAMBDA w : w[2] = s) IN NLogSumExp([j \in 1..Len(q) |-> q[j][1]]), s>> : s \in scores}
\* Probability that r goes to each view: the views are scored with random
\* seatings of the entities they have not met, then one is drawn.
RECURSIVE Mix(_, _, _)
Mix(q, W, P) ==     \* q: views left to score; W: view -> log weight so far
  IF q = <<>> THEN LET p == Softmax(W) IN [v \in DOMAIN p |-> NMul(p[v], NExp(P))]
  ELSE LET opts == SetSeq(q[1][2])
           sub == [k \in 1..Len(opts) |-> Mix(Tail(q), W @@ (q[1][1] :> NAdd(q[1][3], opts[k][2])), NAdd(P, opts[k][1]))]
       IN [v \in DOMAIN sub[1] |-> NSumSeq([k \in 1..Len(sub) |-> sub[k][v]])]
RelMoveP(r) ==
  LET cur == S.where[r]
      new == LET u == {HI[k][1] : k \in 1..Len(HI)} \ Views(S) IN IF u = {} THEN -1 ELSE CHOOSE x \in u : TRUE
      C == IF Count(S.where, cur) = 1 THEN Views(S) ELSE Views(S) \cup {new}
      f == Without(S.where, r)
      prior == [v \in C |-> NLn(IF v \in Tables(f) THEN NInt(Count(f, v)) ELSE S.halpha)]
      q == SetSeq(C)
  IN Mix([k \in 1..Len(q) |-> <<q[k], ViewOutcomes(r, q[k]), prior[q[k]]>>], <<>>, "0")

\* Probability of each latent value (a number in one way of writing it).
Canon(x) == IF IsNum(x) THEN NAdd(x, 0) ELSE x
LatentP(b, bx) ==
  LET V == NoisyVals(S, b, bx)
      C == SetSeq(UNION {{<<r, z>> : z \in Clusters(S, r)} : r \in NoisyOf(S, b)})
      cand == [k \in 1..Len(C) |-> Canon(NearestTo(S.sch[b], CHOOSE p \in Proposals(S.sch[C[k][1]], V) : TRUE))]
      vals == Range(cand)
  IN Softmax([v \in vals |-> NAdd(NLn(CountIf(cand, LAMBDA c : c = v)), LatentInc(S, b, bx, v))])

\* Where does a sampled value come from: probability of value val at tuple x,
\* all of whose entities are already seated.
ValueP(r, x, vals) ==
  LET v == S.where[r]
      m == S.sch[r]
      Ob(val) == IF IsNoisy(S, r) THEN <<BaseVal(S, r, x), val>> ELSE val
      z == ZIn(S, v, r, x)
  IN [val \in vals |-> NExp(Logp(m, Hyp(S, r, z), ObsAt(S, r, Members(S, r, z)), Ob(val)))]
JoinZ(z) == Join([k \in 1..Len(z) |-> IntStr(z[k])], ",")
\* Unary incorporation of a new entity: which table.
IncP(r, x) ==
  LET v == S.where[r]
      d == RDoms(S, r)[1]
      f == S.seat[v][d]
      seen == {LET q == Split(H[k][1], "@") IN NFloor(q[2]) : k \in 1..Len(H)}
      new == LET u == seen \ Tables(f) IN IF u = {} THEN -1 ELSE CHOOSE y \in u : TRUE
  IN [t \in Tables(f) \cup {new} |-> NExp(LogpTable(f, S.alpha[v][d], t))]

HistOp ==
  /\ Line.op = "hist" /\ Advance /\ UNCHANGED <<S, pend, file>>
  /\ Chk("crash", ~Has(Line, "crash"))
  /\ CASE Line.args[1] = "gibbs" -> Chk("gibbs.hist", HistOK(HI, Line.k, GibbsP(HView(HB(1)), HB(2), NFloor(HB(3)))))
       [] Line.args[1] = "hgibbs" -> Chk("part.hist", HistOK(HI, Line.k, RelMoveP(HB(1))))
       [] Line.args[1] = "latent1" -> Chk("latent.hist", HistOK([k \in 1..Len(H) |-> <<Canon(H[k][1]), H[k][2]>>], Line.k, LatentP(HB(1), Entities(HB(2)))))
       [] Line.args[1] = "addrel" ->
            Chk("part.addhist",
                LET u == {HI[k][1] : k \in 1..Len(HI)} \ Views(S)
                    new == IF u = {} THEN -1 ELSE CHOOSE x \in u : TRUE
                IN HistOK(HI, Line.k, [v \in Views(S) \cup {new} |-> NExp(LogpTable(S.where, S.halpha, v))]))
       [] Line.args[1] = "inc" ->
            Chk("ent.hist", HistOK([k \in 1..Len(H) |-> <<NFloor(Split(H[k][1], "@")[2]), H[k][2]>>], Line.k,
                                   IncP(HB(1), Entities(HB(2)))))
       [] Line.args[1] \in {"rsample", "hsamplerel"} ->
            \* over a binary or categorical relation and known entities
            LET r == HB(1)
                x == Entities(HB(2))
                m == S.sch[r]
                vals == IF m.dist \in {"categorical", "sometimes_categorical", "categorical_emission"}
                        THEN {IntStr(n) : n \in 0..(NFloor(NumCats(m)) - 1)} ELSE {"0", "1"}
            IN Chk("gen.hist", HistOK([k \in 1..Len(H) |-> <<Split(H[k][1], "@")[1], H[k][2]>>], Line.k, ValueP(r, x, vals)))
\* Frequencies over models that were each drawn from the prior and then went
\* through kernels: a kernel that draws from the conditional distribution
\* leaves the prior of every partition as it is.
LawP(w) ==
  CASE w[1] = "views" -> PartitionLaw(Len(w) - 1, "1")
    [] w[1] = "ents"  -> PartitionLaw(Len(w) - 3, "1")
    [] w[1] = "refs"  -> PartitionLaw((Len(w) - 1) \div 3, "1")
    [] w[1] = "meet"  -> MeetLaw((Len(w) - 1) \div 2)
\* Two values of a Bernoulli attribute are the same with probability 2/3 when
\* they are in one cluster, and 1/2 when they are not.
PairOK(h) ==
  LET C(x) == HCount(h, x) IN
  /\ \A k \in 1..Len(h) : h[k][1] \in {"ss", "sd", "ds", "dd"}
  /\ Within(C("ss"), NDiv(2, 3), C("ss") + C("sd"))
  /\ Within(C("ds"), "0.5", C("ds") + C("dd"))
LawOp == /\ Line.op = "law" /\ Advance /\ UNCHANGED <<S, pend, file>>
         /\ Chk("law." \o Line.what[1], IF Line.what[1] = "pair" THEN PairOK(Line.hist) ELSE HistOK(Line.hist, Line.k, LawP(Line.what)))
Crash == Line.op = "crash" /\ CrashFree /\ Advance /\ UNCHANGED <<S, pend, file>>

Init == i = 0 /\ S = NoState /\ pend = <<>> /\ file = <<>>
Next == /\ i < Len(Log)
        /\ \/ Session \/ Declare \/ Build \/ AddRel \/ RmRel \/ Destroy \/ SeatOp \/ IncOp \/ UnincOp \/ UpdateOp
           \/ GibbsOp \/ SetItem \/ GibbsMany \/ ExactOp \/ HGibbs \/ HSet \/ HGibbsAll \/ LatentOp \/ IncLogp
           \/ HypOp \/ AlphaOp \/ LogpOp \/ RLogpOp \/ CLogpOp \/ HasOp \/ SampleRel \/ SampleModel \/ Cleanup \/ Expect \/ InferOp
           \/ AlphasOp \/ PyJson \/ PyAgain \/ PySave
           \/ LoadOp \/ SaveLoad \/ SampleWrite \/ ReadBack \/ Heldout \/ Cli \/ CliBad
           \/ HistOp \/ LawOp \/ Crash
Spec == Init /\ [][Next]_vars
=============================================================================
