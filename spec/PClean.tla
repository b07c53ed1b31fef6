-------------------------------- MODULE PClean --------------------------------
(***************************************************************************)
(* PClean schemas: the text format, and the relational schema one stands for. *)
(* A PClean schema is [ok, classes, record, fields]:                          *)
(*   classes  class -> variable -> [isclass, type, args]                      *)
(*   fields   name of a column -> path of variables, starting at the record   *)
(*            class                                                          *)
(***************************************************************************)
EXTENDS Io

(* ----- text ----- *)
IsUpper(s) == Len(Chars(s)) > 0 /\ Code(Chars(s)[1]) >= 65 /\ Code(Chars(s)[1]) <= 90
\* name ~ Class  |  name ~ joint  |  name ~ joint(param=value, ...)
RECURSIVE JointArgs(_, _, _)
JointArgs(T, k, acc) ==
  IF k >= Len(T) THEN [ok |-> TRUE, args |-> acc]
  ELSE IF IsV(T, k + 1, "=") /\ (IsV(T, k + 3, ",") \/ IsV(T, k + 3, ")"))
       THEN JointArgs(T, k + 4, Append(acc, <<T[k][2], T[k + 2][2]>>))
       ELSE [ok |-> FALSE, args |-> <<>>]
VarLine(T) ==
  IF Len(T) < 3 \/ ~IsV(T, 2, "~") THEN Bad
  ELSE IF Len(T) = 3 /\ IsUpper(T[3][2]) THEN [ok |-> TRUE, name |-> T[1][2], isclass |-> TRUE, type |-> T[3][2], args |-> <<>>]
  ELSE LET a == JointArgs(T, 5, <<>>) IN
       IF a.ok THEN [ok |-> TRUE, name |-> T[1][2], isclass |-> FALSE, type |-> T[3][2], args |-> a.args] ELSE Bad
\* var . var . var as Name
FieldLine(T) ==
  IF Len(T) < 3 THEN Bad
  ELSE LET n == Len(T) - 2
           odd == {k \in 1..n : k % 2 = 1}
       IN IF \E k \in 1..n : k % 2 = 0 /\ T[k][2] # "." THEN Bad
          ELSE [ok |-> TRUE, name |-> T[Len(T)][2], path |-> [j \in 1..Cardinality(odd) |-> T[2 * j - 1][2]]]
PEmpty == [ok |-> TRUE, classes |-> <<>>, record |-> "", fields |-> <<>>]
Refuse == [ok |-> FALSE, classes |-> <<>>, record |-> "", fields |-> <<>>]
Put(f, k, v) == (k :> v) @@ f
\* mode: "top", "query", or the name of the class being read (with a colon).
RECURSIVE PRead(_, _, _, _)
PRead(rows, mode, cls, acc) ==
  IF rows = <<>> THEN acc
  ELSE LET line == rows[1]
           T == Tokens(line)
           R == Tail(rows)
  IN IF line = "" THEN PRead(R, "top", "", acc)
     ELSE IF T = BadToks THEN Refuse
     ELSE IF T = <<>> THEN PRead(R, mode, cls, acc)
     ELSE CASE mode = "class" ->
                 LET v == VarLine(T) IN
                 IF ~v.ok THEN Refuse
                 ELSE PRead(R, mode, cls, [acc EXCEPT !.classes[cls] =
                        Put(@, v.name, [isclass |-> v.isclass, type |-> v.type, args |-> v.args])])
            [] mode = "query" ->
                 IF IsV(T, 1, "from")
                 THEN IF Len(T) # 2 \/ acc.record # "" THEN Refuse ELSE PRead(R, mode, cls, [acc EXCEPT !.record = T[2][2]])
                 ELSE LET f == FieldLine(T) IN
                      IF ~f.ok THEN Refuse ELSE PRead(R, mode, cls, [acc EXCEPT !.fields = Put(@, f.name, f.path)])
            [] OTHER ->
                 IF T[1][1] = "identifier" /\ T[1][2] = "class" /\ Len(T) = 2
                 THEN PRead(R, "class", T[2][2], [acc EXCEPT !.classes = Put(@, T[2][2], <<>>)])
                 ELSE IF T[1][1] = "identifier" /\ T[1][2] = "observe" /\ Len(T) = 1 /\ acc.record = ""
                 THEN PRead(R, "query", "", acc)
                 ELSE Refuse
PSchema(s) == PRead(Lines(s), "top", "", PEmpty)
=============================================================================
