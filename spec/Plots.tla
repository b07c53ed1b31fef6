------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* What the plotting tools of py/ show: a page with, for every view of a     *)
(* saved clustering, a figure of the unary relations in it and one of each   *)
(* binary relation.  A figure is a matrix of values whose rows and columns   *)
(* are labelled, entities of one table standing together, with lines between *)
(* tables and (of another style) between domains.                            *)
(***************************************************************************)
EXTENDS Io

(* ----- the clustering, in the order of the file ----- *)
FirstEmpty(L) == CHOOSE k \in 1..(Len(L) + 1) : (k = Len(L) + 1 \/ L[k] = "") /\ \A j \in 1..(k - 1) : L[j] # ""
RECURSIVE Blocks(_, _)
\* rows after the relations: sequence of <<view, sequence of rows>>
Blocks(rows, acc) ==
  IF rows = <<>> THEN acc
  ELSE LET w == rows[1] IN
       Blocks(Tail(rows), IF Len(w) = 1 /\ IsHead(w[1]) THEN Append(acc, <<HeadNo(w[1]), <<>>>>)
                          ELSE [acc EXCEPT ![Len(acc)][2] = Append(@, <<w[1], NFloor(w[2]), {w[k] : k \in 3..Len(w)}>>)])
\* sequence of [id, rels, tables]
ViewsOf(s) ==
  LET L == Lines(s)
      b == FirstEmpty(L)
      q == SelectSeq(SubSeq(L, b + 1, Len(L)), LAMBDA l : l # "")
      B == Blocks([k \in 1..Len(q) |-> Words(q[k])], <<>>)
      Tables(id) == LET j == CHOOSE j \in 1..Len(B) : B[j][1] = id IN B[j][2]
  IN [k \in 1..(b - 1) |-> LET w == Words(L[k]) IN
        [id |-> NFloor(w[1]), rels |-> SubSeq(w, 2, Len(w)), tables |-> Tables(NFloor(w[1]))]]
ViewRels(v) == {v.rels[k] : k \in 1..Len(v.rels)}
ViewDoms(v) == {v.tables[k][1] : k \in 1..Len(v.tables)}
TablesIn(v, d) == LET q == SelectSeq(v.tables, LAMBDA x : x[1] = d) IN [k \in 1..Len(q) |-> q[k][3]]

(* ----- order and lines ----- *)
RECURSIVE Fits(_, _)
\* The labels q list the sets of T, one after the other.
Fits(q, T) ==
  IF T = <<>> THEN q = <<>>
  ELSE LET n == Cardinality(T[1]) IN
       n <= Len(q) /\ {q[k] : k \in 1..n} = T[1] /\ Fits(SubSeq(q, n + 1, Len(q)), Tail(T))
RECURSIVE Sums(_)
\* how many there are up to each of the sets of T
Sums(T) == IF T = <<>> THEN <<>> ELSE LET s == Sums(SubSeq(T, 1, Len(T) - 1)) IN
           Append(s, Cardinality(T[Len(T)]) + IF s = <<>> THEN 0 ELSE s[Len(s)])
Inner(q) == {q[k] : k \in 1..(Len(q) - 1)}
\* the line after n rows lies between two rows
LineAt(x, n) == NEq(x[1], NSub(n, "0.5"))
\* Lines stand exactly between tables; those between domains look different.
RightLines(q, all, thick) ==
  /\ \A n \in all : \E k \in 1..Len(q) : LineAt(q[k], n)
  /\ \A k \in 1..Len(q) : \E n \in all : LineAt(q[k], n)
  /\ LET Style(S) == {q[k][2] : k \in {j \in 1..Len(q) : \E n \in S : LineAt(q[j], n)}}
     IN Style(thick) \cap Style(all \ thick) = {}

(* ----- figures; O: relation -> sequence of <<entities, value>> ----- *)
ShownCell(O, r, x) == LET q == IF r \in DOMAIN O THEN SelectSeq(O[r], LAMBDA y : y[1] = x) ELSE <<>>
                 IN IF q = <<>> THEN "" ELSE q[Len(q)][2]
SameCell(a, b) == IF a = "" \/ b = "" THEN a = b ELSE NEq(a, b)
ArityIn(O, r) == Len(O[r][1][1])
WithArity(O, v, n) == {r \in ViewRels(v) \cap DOMAIN O : ArityIn(O, r) = n}
Orders(D) == LET n == Cardinality(D) IN {p \in [1..n -> D] : {p[k] : k \in 1..n} = D}
\* doms: relation -> domains
IsUnaryFig(f, v, O, doms) ==
  /\ {f.cols[k] : k \in 1..Len(f.cols)} \subseteq ViewRels(v)
  /\ \A j, k \in 1..Len(f.cols) : j # k => f.cols[j] # f.cols[k]
  /\ WithArity(O, v, 1) \subseteq {f.cols[k] : k \in 1..Len(f.cols)}
  /\ Len(f.cells) = Len(f.rows) /\ \A k \in 1..Len(f.rows) : Len(f.cells[k]) = Len(f.cols)
  /\ f.v = <<>>
  /\ \E p \in Orders(ViewDoms(v)) :
       LET T == Flatten([k \in 1..Len(p) |-> TablesIn(v, p[k])])
           ends == [k \in 1..Len(p) |-> Cardinality(UNION {UNION {{<<j, e>> : e \in X} : X \in {TablesIn(v, p[j])[i] : i \in 1..Len(TablesIn(v, p[j]))}} : j \in 1..k})]
           DomAt(k) == p[CHOOSE j \in 1..Len(p) : k <= ends[j] /\ \A i \in 1..(j - 1) : k > ends[i]]
       IN /\ Fits(f.rows, T)
          /\ RightLines(f.h, Inner(Sums(T)), Inner(ends))
          /\ \A k \in 1..Len(f.rows) : \A c \in 1..Len(f.cols) :
               SameCell(f.cells[k][c], LET r == f.cols[c] IN
                  IF r \in WithArity(O, v, 1) /\ doms[r][1] = DomAt(k) THEN ShownCell(O, r, <<f.rows[k]>>) ELSE "")
IsBinaryFig(f, r, v, O, doms) ==
  LET T == TablesIn(v, doms[r][1])
      U == TablesIn(v, doms[r][2])
  IN /\ Fits(f.rows, T) /\ Fits(f.cols, U)
     /\ RightLines(f.h, Inner(Sums(T)), {}) /\ RightLines(f.v, Inner(Sums(U)), {})
     /\ Len(f.cells) = Len(f.rows)
     /\ \A k \in 1..Len(f.rows) : /\ Len(f.cells[k]) = Len(f.cols)
          /\ \A c \in 1..Len(f.cols) : SameCell(f.cells[k][c], ShownCell(O, r, <<f.rows[k], f.cols[c]>>))
=============================================================================
