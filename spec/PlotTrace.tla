------------------------------ MODULE PlotTrace ------------------------------
(***************************************************************************)
(* Traces of the plotting tools of py/ against Plots: what the readers       *)
(* return, and the page and figures that make_plots writes.                  *)
(***************************************************************************)
EXTENDS TraceBase, Plots

vars == <<i>>
A(k) == Line.args[k]
G == Line.got
Step(op) == Line.op = op /\ Advance
Ok == Line.how = "ok"

(* ----- readers: what the C++ programs accept is read as they read it ----- *)
\* Values are given as they are written, in quotes or not.
Q2 == FromCode(34)
Q1 == FromCode(39)
SameValue(got, v) == got \in {v, Q1 \o v \o Q1, Q2 \o v \o Q2}
SchemaOp == /\ Step("pschema")
            /\ IsSchema(A(1)) =>
                 /\ Chk("plot.schema", Ok)
                 /\ Chk("plot.schema", Ok =>
                      LET D == Schema(A(1), {})
                          N == {G[k][1] : k \in 1..Len(G)}
                      IN /\ N = DOMAIN D /\ Len(G) = Cardinality(N)
                         /\ \A k \in 1..Len(G) :
                              LET d == D[G[k][1]]
                                  P == PairsFcn(G[k][4])
                                  Q == PairsFcn(d.args)
                              IN /\ G[k][2] = G[k][1] /\ G[k][3] = d.dist /\ G[k][5] = d.doms
                                 /\ DOMAIN P = DOMAIN Q /\ \A a \in DOMAIN P : SameValue(P[a], Q[a]))
ObsOp == /\ Step("pobs") /\ Chk("plot.obs", Ok)
         /\ Chk("plot.obs", G = ObsRows(A(1)))
\* <<view, relations, tables>> in the order of the file
ClustersOp ==
  /\ Step("pclusters") /\ Chk("plot.clusters", Ok)
  /\ Chk("plot.clusters",
       LET V == ViewsOf(A(1)) IN
       /\ Len(G) = Len(V)
       /\ \A k \in 1..Len(V) :
            /\ G[k][1] = IntStr(V[k].id) /\ G[k][2] = V[k].rels
            /\ LET t == G[k][3] IN
               /\ Len(t) = Len(V[k].tables)
               /\ \A j \in 1..Len(t) : /\ t[j][2] = V[k].tables[j][1] /\ t[j][1] = IntStr(V[k].tables[j][2])
                                       /\ {t[j][3][x] : x \in 1..Len(t[j][3])} = V[k].tables[j][3]
                                       /\ Len(t[j][3]) = Cardinality(V[k].tables[j][3]))

(* ----- make_plots: schema (empty: none), observations, clustering ----- *)
Doms(V) ==
  IF A(1) # "" THEN LET D == Schema(A(1), {}) IN [r \in DOMAIN D |-> D[r].doms]
  ELSE LET d == CHOOSE d \in UNION {ViewDoms(V[k]) : k \in 1..Len(V)} : TRUE
       IN [r \in UNION {ViewRels(V[k]) : k \in 1..Len(V)} |-> <<d, d>>]
\* the entries of the page between the k-th view's heading and the next one's
Heads(P) == SelectSeq([k \in 1..Len(P) |-> k], LAMBDA k : P[k][1] = "irm")
Segment(P, k) == LET H == Heads(P) IN SubSeq(P, H[k] + 1, IF k < Len(H) THEN H[k + 1] - 1 ELSE Len(P))
PlotsOp ==
  /\ Step("plots") /\ Chk("plot.page", Ok)
  /\ Ok =>
     LET V == ViewsOf(A(3))
         O == Observations(A(2))
         D == Doms(V)
         P == Line.page
         H == Heads(P)
         NoUnary(v) == WithArity(O, v, 1) = {}
         Rest(k) == LET s == Segment(P, k) IN IF NoUnary(V[k]) THEN s ELSE Tail(s)
     IN /\ Chk("plot.page",
              /\ Len(H) = Len(V) /\ (H # <<>> => H[1] = 1) /\ (P # <<>> => H # <<>>)
              /\ \A k \in 1..Len(V) :
                   /\ P[H[k]][2] = IntStr(V[k].id)
                   /\ NoUnary(V[k]) \/ (Segment(P, k) # <<>> /\ Segment(P, k)[1][1] = "fig")
                   /\ LET r == Rest(k)
                          B == WithArity(O, V[k], 2)
                      IN /\ Len(r) = 2 * Cardinality(B)
                         /\ \A j \in 1..Len(r) : r[j][1] = (IF j % 2 = 1 THEN "rel" ELSE "fig")
                         /\ {r[j][2] : j \in {x \in 1..Len(r) : x % 2 = 1}} = B)
        /\ Chk("plot.unary", \A k \in 1..Len(V) : NoUnary(V[k]) \/ IsUnaryFig(Segment(P, k)[1][2], V[k], O, D))
        /\ Chk("plot.binary", \A k \in 1..Len(V) : LET r == Rest(k) IN
              \A j \in {x \in 1..Len(r) : x % 2 = 0} : IsBinaryFig(r[j][2], r[j - 1][2], V[k], O, D))

Session == Step("session")
Crash == Line.op = "crash" /\ CrashFree /\ Advance
Init == i = 0
Next == i < Len(Log) /\ (Session \/ SchemaOp \/ ObsOp \/ ClustersOp \/ PlotsOp \/ Crash)
Spec == Init /\ [][Next]_vars
=============================================================================
