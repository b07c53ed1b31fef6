--------------------------------- MODULE Io ---------------------------------
(***************************************************************************)
(* The text formats: schema files, observation files, saved clusterings.     *)
(* Text is a string of bytes, taken apart with Chars.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, NumReal, SequencesExt

Text(q) == Join(q, "")
SetOfChars(s) == LET q == Chars(s) IN {q[k] : k \in 1..Len(q)}
Digits  == SetOfChars("0123456789")
Letters == SetOfChars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
Blank   == {FromCode(n) : n \in {9, 10, 11, 12, 13, 32}}
Quotes  == {FromCode(34), FromCode(39)}
NL      == FromCode(10)

\* The first position >= k that is not in C.
RECURSIVE Span(_, _, _)
Span(q, k, C) == IF k > Len(q) THEN k ELSE IF q[k] \in C THEN Span(q, k + 1, C) ELSE k
\* The first position >= k where c stands (Len + 1 if none).
RECURSIVE Find(_, _, _)
Find(q, k, c) == IF k > Len(q) THEN k ELSE IF q[k] = c THEN k ELSE Find(q, k + 1, c)
\* The lines of a text: what getline yields (no empty line after a final newline).
Lines(s) == LET p == Split(s, NL) IN
            IF Len(p) > 0 /\ p[Len(p)] = "" THEN SubSeq(p, 1, Len(p) - 1) ELSE p
\* The fields of a line: what getline(.., ',') yields.
Fields(s) == LET p == Split(s, ",") IN
             IF Len(p) > 0 /\ p[Len(p)] = "" THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Words(s) == SelectSeq(Split(s, " "), LAMBDA w : w # "")

(* ----- tokens of the schema languages ----- *)
\* Sequence of <<type, text>>, or BadToks: names, numbers (digits, dots and
\* underscores), quoted strings, single symbols; # starts a comment.
BadToks == <<<<"bad", "">>>>
IdentCh == Letters \cup Digits \cup {"_"}
NumCh   == Digits \cup {".", "_"}
\* How the languages differ: which symbols there are.
HirmSyms  == SetOfChars("~()[]{}<>.,:;=+*-/")
RECURSIVE Lex(_, _, _)
Lex(q, k, acc) ==
  IF k > Len(q) THEN acc
  ELSE LET c == q[k] IN
    CASE c = "#" -> acc
      [] c \in Blank -> Lex(q, k + 1, acc)
      [] c \in HirmSyms -> Lex(q, k + 1, Append(acc, <<"symbol", c>>))
      [] c \in Quotes ->
           LET e == Find(q, k + 1, c) IN
           IF e > Len(q) THEN BadToks ELSE Lex(q, e + 1, Append(acc, <<"string", Text(SubSeq(q, k + 1, e - 1))>>))
      [] c \in Digits -> LET e == Span(q, k, NumCh) IN Lex(q, e, Append(acc, <<"number", Text(SubSeq(q, k, e - 1))>>))
      [] c \in Letters \cup {"_"} ->
           LET e == Span(q, k, IdentCh) IN Lex(q, e, Append(acc, <<"identifier", Text(SubSeq(q, k, e - 1))>>))
      [] OTHER -> BadToks
Tokens(s) == Lex(Chars(s), 1, <<>>)

(* ----- schema files ----- *)
\* relation ~ distribution [name=value, ...] ( [base ;] domain, ... )
Bad == [ok |-> FALSE]
IsT(T, k, type) == k <= Len(T) /\ T[k][1] = type
IsV(T, k, val)  == k <= Len(T) /\ T[k][2] = val
Has2(T, k) == k <= Len(T)
RECURSIVE Params(_, _, _)
\* T[k] is the name of a parameter.  Returns [ok, next, args].
Params(T, k, acc) ==
  IF ~(IsT(T, k, "identifier") /\ IsV(T, k + 1, "=") /\ Has2(T, k + 3)) THEN Bad
  ELSE LET a == Append(acc, <<T[k][2], T[k + 2][2]>>) IN
       IF IsV(T, k + 3, ",") THEN Params(T, k + 4, a)
       ELSE IF IsV(T, k + 3, "]") THEN [ok |-> TRUE, next |-> k + 4, args |-> a] ELSE Bad
RECURSIVE DomList(_, _, _)
DomList(T, k, acc) ==
  IF ~Has2(T, k + 1) THEN Bad
  ELSE IF IsV(T, k + 1, ",") THEN DomList(T, k + 2, Append(acc, T[k][2]))
  ELSE IF IsV(T, k + 1, ")") THEN [ok |-> TRUE, next |-> k + 2, doms |-> Append(acc, T[k][2])] ELSE Bad
\* One line, as tokens; [ok, name, kind, dist, args, base, doms].
SchemaLine(T) ==
  IF ~(IsT(T, 1, "identifier") /\ IsV(T, 2, "~") /\ IsT(T, 3, "identifier")) THEN Bad
  ELSE LET p == IF IsV(T, 4, "[") THEN Params(T, 5, <<>>) ELSE [ok |-> TRUE, next |-> 4, args |-> <<>>] IN
    IF ~p.ok THEN Bad
    ELSE IF ~(IsV(T, p.next, "(") /\ IsT(T, p.next + 1, "identifier")) THEN Bad
    ELSE LET noisy == IsV(T, p.next + 2, ";")
             d == DomList(T, IF noisy THEN p.next + 3 ELSE p.next + 1, <<>>)
         IN IF ~d.ok THEN Bad
            ELSE [ok |-> TRUE, name |-> T[1][2], kind |-> IF noisy THEN "noisy" ELSE "clean", dist |-> T[3][2],
                  args |-> p.args, base |-> IF noisy THEN T[p.next + 1][2] ELSE "", doms |-> d.doms]
\* The last of several declarations of a name stands.
LastWins(q) == [n \in {q[k][1] : k \in 1..Len(q)} |->
                  q[CHOOSE k \in 1..Len(q) : q[k][1] = n /\ \A j \in (k + 1)..Len(q) : q[j][1] # n][2]]
SchemaRows(s) == LET t == SelectSeq([k \in 1..Len(Lines(s)) |-> Tokens(Lines(s)[k])], LAMBDA u : u # <<>>)
                 IN [k \in 1..Len(t) |-> IF t[k] = BadToks THEN Bad ELSE SchemaLine(t[k])]
KnownClean == {"bernoulli", "bigram", "categorical", "normal", "skellam", "stringcat", "string_nat", "string_skellam"}
KnownNoisy == {"bigram", "gaussian", "simple_string", "sometimes_bitflip", "sometimes_categorical", "sometimes_gaussian"}
IsSchema(s) ==
  LET R == SchemaRows(s) IN
  /\ \A k \in 1..Len(R) : R[k].ok
  /\ \A k \in 1..Len(R) : R[k].dist \in (IF R[k].kind = "noisy" THEN KnownNoisy ELSE KnownClean)
  /\ LET m == LastWins([k \in 1..Len(R) |-> <<R[k].name, R[k]>>]) IN
     \A n \in DOMAIN m : m[n].kind = "noisy" =>
        /\ m[n].base \in DOMAIN m
        /\ LET b == m[m[n].base].doms IN Len(b) <= Len(m[n].doms) /\ SubSeq(m[n].doms, 1, Len(b)) = b
\* name -> declaration; `observed` are the relations with observations.
Schema(s, observed) ==
  LET R == SchemaRows(s)
      A(args) == LET f == LastWins(args)
                     q == SetSeq(DOMAIN f) IN [k \in 1..Len(q) |-> <<q[k], f[q[k]]>>]
  IN LastWins([k \in 1..Len(R) |-> <<R[k].name,
       [kind |-> R[k].kind, dist |-> R[k].dist, args |-> A(R[k].args), obs |-> R[k].name \in observed,
        base |-> R[k].base, doms |-> R[k].doms]>>])

(* ----- observation files ----- *)
\* value,relation,entity,...
ObsRows(s) == LET q == Lines(s) IN [k \in 1..Len(q) |-> LET f == Fields(q[k]) IN <<f[2], SubSeq(f, 3, Len(f)), f[1]>>]
\* relation -> sequence of <<entities, value>>, in the order of the file.
ByRel(rows) == [r \in {rows[k][1] : k \in 1..Len(rows)} |->
                  LET q == SelectSeq(rows, LAMBDA x : x[1] = r) IN [k \in 1..Len(q) |-> <<q[k][2], q[k][3]>>]]
Observations(s) == ByRel(ObsRows(s))

\* Entity codes: in each domain a bijection with 0..n-1, over exactly the
\* entities the observations name.
Named(sch, obs, d) ==
  UNION {UNION {{obs[r][k][1][j] : j \in {i \in 1..Len(sch[r].doms) : sch[r].doms[i] = d}} : k \in 1..Len(obs[r])} :
         r \in DOMAIN obs}
IsEncoding(sch, obs, fwd, rev) ==
  LET D == UNION {{sch[r].doms[k] : k \in 1..Len(sch[r].doms)} : r \in DOMAIN sch} IN
  /\ DOMAIN fwd = D /\ DOMAIN rev = D
  /\ \A d \in D : /\ DOMAIN fwd[d] = Named(sch, obs, d)
                  /\ DOMAIN rev[d] = 0..(Cardinality(DOMAIN fwd[d]) - 1)
                  /\ \A e \in DOMAIN fwd[d] : fwd[d][e] \in DOMAIN rev[d] /\ rev[d][fwd[d][e]] = e
Encode(sch, fwd, r, x) == [k \in 1..Len(x) |-> fwd[sch[r].doms[k]][x[k]]]

\* What incorporating the observations must leave stored: per relation, the
\* tuples.  A relation without observations gets the base tuples its noisy
\* relations need, and no others.
RECURSIVE Stored(_, _, _, _)
Stored(sch, obs, fwd, r) ==
  IF r \in DOMAIN obs THEN {Encode(sch, fwd, r, obs[r][k][1]) : k \in 1..Len(obs[r])}
  ELSE UNION {{SubSeq(x, 1, Len(sch[r].doms)) : x \in Stored(sch, obs, fwd, n)} :
              n \in {m \in DOMAIN sch : sch[m].kind = "noisy" /\ sch[m].base = r}}

(* ----- saved clusterings ----- *)
\* domain table entity entity ...
DomRow(w) == <<w[1], NFloor(w[2]), {w[k] : k \in 3..Len(w)}>>
SavedDoms(rows) == {DomRow(Words(rows[k])) : k \in 1..Len(rows)}
\* IRM: {<<domain, table, entities>>}
SavedIrm(s) == SavedDoms(SelectSeq(Lines(s), LAMBDA l : l # ""))
\* HIRM: lines "table relation relation ...", then per table "irm=table" and
\* the lines of that IRM.
IsHead(w) == Len(Chars(w)) > 4 /\ Text(SubSeq(Chars(w), 1, 4)) = "irm="
HeadNo(w) == NFloor(Text(SubSeq(Chars(w), 5, Len(Chars(w)))))
RECURSIVE SavedParts(_, _, _)
\* rows: non-empty lines as words; irm: current one (-1 none).
SavedParts(rows, irm, acc) ==
  IF rows = <<>> THEN acc
  ELSE LET w == rows[1] IN
       IF Len(w) = 1 /\ IsHead(w[1]) THEN SavedParts(Tail(rows), HeadNo(w[1]), [acc EXCEPT !.heads = Append(@, HeadNo(w[1]))])
       ELSE IF irm = -1 THEN SavedParts(Tail(rows), irm, [acc EXCEPT !.rels = @ \cup {<<NFloor(w[1]), {w[k] : k \in 2..Len(w)}>>}])
       ELSE SavedParts(Tail(rows), irm, [acc EXCEPT !.doms = @ \cup {<<irm, DomRow(w)>>}])
SavedHirm(s) ==
  LET q == SelectSeq(Lines(s), LAMBDA l : l # "")
  IN SavedParts([k \in 1..Len(q) |-> Words(q[k])], -1, [rels |-> {}, doms |-> {}, heads |-> <<>>])

(* ----- comma separated values ----- *)
RECURSIVE TrimEnd(_)
TrimEnd(q) == IF q # <<>> /\ q[Len(q)] \in Blank THEN TrimEnd(SubSeq(q, 1, Len(q) - 1)) ELSE q
Cell(s) == Text(TrimEnd(Chars(s)))
Cells(l) == LET p == Split(l, ",") IN [k \in 1..Len(p) |-> Cell(p[k])]
Table(s) == LET q == SelectSeq(Lines(s), LAMBDA l : l # "") IN [k \in 1..Len(q) |-> Cells(q[k])]
\* [ok, columns, data: column -> values]
CsvFrame(s, given) ==
  LET T == Table(s)
      cols == IF given # <<>> THEN given ELSE IF T = <<>> THEN <<>> ELSE T[1]
      rows == IF given # <<>> \/ T = <<>> THEN T ELSE Tail(T)
  IN [ok |-> \A k \in 1..Len(rows) : Len(rows[k]) = Len(cols), columns |-> cols,
      data |-> [c \in Range(cols) |-> [k \in 1..Len(rows) |->
                 LET j == CHOOSE j \in 1..Len(cols) : cols[j] = c IN IF j <= Len(rows[k]) THEN rows[k][j] ELSE ""]],
      rows |-> rows]
=============================================================================
