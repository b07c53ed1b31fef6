------------------------------- MODULE IoTrace -------------------------------
(***************************************************************************)
(* Traces of the readers and writers against Io and PClean, and of the       *)
(* search for the cheapest alignments of two strings.                        *)
(* how: "ok", "refused" (returned false, exited or aborted), "exception" (one  *)
(* that nobody caught, also a refusal) or "signal".  A reader refuses what is not in its language; it never crashes. *)
(***************************************************************************)
EXTENDS TraceBase, PClean

vars == <<i>>
A(k) == Line.args[k]
Step(op) == Line.op = op /\ Advance
G == Line.got
Clean(label) == Chk(label, Line.how \in {"ok", "refused", "exception"})

TokensOp == /\ Step("tokens") /\ Clean("io.tokens")
            /\ LET t == Tokens(A(1)) IN
               Chk("io.tokens", IF t = BadToks THEN Line.how # "ok" \/ ~G.ok
                                ELSE Line.how = "ok" /\ G.ok /\ G.toks = t)
SameDecl(a, b) == /\ a.kind = b.kind /\ a.dist = b.dist /\ a.base = b.base /\ a.doms = b.doms
                  /\ Range(a.args) = Range(b.args) /\ Len(a.args) = Len(b.args) /\ a.obs = b.obs
SchemaOp == /\ Step("schema") /\ Clean("io.refuse")
            /\ Chk("io.refuse", IsSchema(A(1)) = (Line.how = "ok"))
            /\ Chk("io.schema", IsSchema(A(1)) =>
                 LET D == Schema(A(1), {})
                     P == PairsFcn(G)
                 IN DOMAIN P = DOMAIN D /\ \A r \in DOMAIN D : SameDecl(P[r], D[r]))
ArgsFcn(q) == LastWins(q)
PSchemaOp == /\ Step("pschema") /\ Clean("pc.refuse")
             /\ LET P == PSchema(A(1)) IN
                /\ Chk("pc.refuse", P.ok = (Line.how = "ok"))
                /\ Chk("pc.schema", P.ok =>
                     LET C == PairsFcn(G.classes)
                         V(c) == PairsFcn(C[c])
                     IN /\ DOMAIN C = DOMAIN P.classes
                        /\ \A c \in DOMAIN C :
                             /\ DOMAIN V(c) = DOMAIN P.classes[c]
                             /\ \A x \in DOMAIN V(c) : LET a == V(c)[x]
                                                           b == P.classes[c][x]
                                                       IN a.isclass = b.isclass /\ a.type = b.type
                                                          /\ PairsFcn(a.args) = ArgsFcn(b.args)
                        /\ G.record = P.record
                        /\ PairsFcn(G.fields) = P.fields)

(* ----- comma separated values ----- *)
SameFrame(g, f) == g.columns = f.columns /\ PairsFcn(g.data) = f.data
CsvOp == /\ Line.op \in {"csv", "csvfile"} /\ Advance /\ Clean("csv.refuse")
         /\ LET f == CsvFrame(A(1), IF Len(Line.args) > 1 THEN Split(A(2), ",") ELSE <<>>)
                out == Join([k \in 1..(Len(f.rows) + 1) |-> Join(IF k = 1 THEN f.columns ELSE f.rows[k - 1], ",") \o NL], "")
            IN /\ Chk("csv.refuse", f.ok = (Line.how = "ok"))
               /\ Chk("csv.read", f.ok => SameFrame(G.df, f))
               /\ Chk("csv.write", f.ok => G.text = (IF f.columns = <<>> THEN "" ELSE out))
               \* one column: an empty cell cannot be told from an empty line
               /\ Chk("csv.back", (f.ok /\ Len(f.columns) # 1) => SameFrame(G.back, f))

(* ----- the k cheapest alignments of two strings ----- *)
Cost(p) == CASE p[1] = "del" -> A(4) [] p[1] = "ins" -> A(5) [] p[1] = "sub" -> A(6) [] p[1] = "match" -> A(7)
\* The costs of all alignments of the first m and n characters, with multiplicity.
RECURSIVE AllCosts(_, _, _, _)
AllCosts(a, b, m, n) ==
  IF m = 0 /\ n = 0 THEN <<"0">>
  ELSE LET Plus(q, c) == [k \in 1..Len(q) |-> NAdd(q[k], c)] IN
       (IF m > 0 THEN Plus(AllCosts(a, b, m - 1, n), A(4)) ELSE <<>>) \o
       (IF n > 0 THEN Plus(AllCosts(a, b, m, n - 1), A(5)) ELSE <<>>) \o
       (IF m > 0 /\ n > 0 THEN Plus(AllCosts(a, b, m - 1, n - 1), IF a[m] = b[n] THEN A(7) ELSE A(6)) ELSE <<>>)
IsAlignment(x, a, b) ==
  /\ Text([k \in 1..Len(x[4]) |-> x[4][k][2]]) = Text(a)
  /\ Text([k \in 1..Len(x[4]) |-> x[4][k][3]]) = Text(b)
  /\ \A k \in 1..Len(x[4]) : /\ x[4][k][1] = "sub" => x[4][k][2] # x[4][k][3]
                             /\ x[4][k][1] = "match" => x[4][k][2] = x[4][k][3]
  /\ x[2] = Len(a) /\ x[3] = Len(b)
  /\ NClose(x[1], NSumSeq([k \in 1..Len(x[4]) |-> Cost(x[4][k])]), "1e-9")
AlignOp ==
  /\ Step("align") /\ Chk("align.ok", Line.how = "ok")
  /\ LET k == NFloor(A(1))
         a == Chars(A(2))
         b == Chars(A(3))
         C == SortSeq(AllCosts(a, b, Len(a), Len(b)), LAMBDA x, y : NLt(x, y))
         n == IF k < Len(C) THEN k ELSE Len(C)
     IN /\ Chk("align.count", Len(G) = n)
        /\ Chk("align.valid", \A j \in 1..Len(G) : IsAlignment(G[j], a, b))
        /\ Chk("align.distinct", \A j, l \in 1..Len(G) : j # l => G[j][4] # G[l][4])
        /\ Chk("align.cheapest", Len(G) = n => \A j \in 1..n : NClose(G[j][1], C[j], "1e-9"))

Session == Step("session")
Crash == Line.op = "crash" /\ CrashFree /\ Advance
Init == i = 0
Next == i < Len(Log) /\ (Session \/ TokensOp \/ SchemaOp \/ PSchemaOp \/ CsvOp \/ AlignOp \/ Crash)
Spec == Init /\ [][Next]_vars
=============================================================================
