------------------------------ MODULE CrpTrace ------------------------------
(* Traces of CRP and Domain objects against Crp.                            *)
EXTENDS TraceBase, Crp, Stat

VARIABLES seat,    \* item -> table
          alpha,
          isDom    \* does this session drive a Domain (TRUE) or a bare CRP?
vars == <<i, seat, alpha, isDom>>

\* ----- the logged state -----
LSeat  == PairsFcn(Line.st.assign)
WSet(w) == {<<w[k][1], w[k][2]>> : k \in 1..Len(w)}
ToInt(s) == NFloor(s)

Consistent ==
  LET f == seat'
      T == Line.st.tables
  IN /\ Chk("crp.tables",
            /\ {T[k][1] : k \in 1..Len(T)} = Tables(f)
            /\ Len(T) = Cardinality(Tables(f))
            /\ \A k \in 1..Len(T) : /\ Range(T[k][2]) = At(f, T[k][1])
                                    /\ Len(T[k][2]) = Count(f, T[k][1]))
     /\ Chk("crp.count", Line.st.n = Size(f))
     /\ Chk("crp.items", isDom' => /\ Range(Line.st.items) = DOMAIN f
                                   /\ Len(Line.st.items) = Size(f))
     /\ Chk("crp.score", NClose(Line.st.score, CrpScore(f, alpha'), "1e-7"))

\* The next state is what the code says; the action below restricts it.
Observe(op) ==
  /\ Line.op = op
  /\ Advance
  /\ seat' = LSeat
  /\ alpha' = Line.st.alpha
Keep == /\ Chk("crp.frame", alpha' = alpha)
        /\ isDom' = isDom
Arg1 == ToInt(Line.args[1])
Arg2 == ToInt(Line.args[2])
Fresh(f, t) == t \notin Tables(f)

Session ==
  /\ Line.op = "session"
  /\ Advance
  /\ isDom' = (Len(Line.args) > 0 /\ Line.args[1] = "domain")
  /\ seat' = LSeat
  /\ alpha' = Line.st.alpha
  /\ Chk("crp.init", seat' = <<>> /\ NEq(alpha', "1"))
Seat == Observe("seat") /\ Keep /\ Chk("crp.seat", seat' = With(seat, Arg1, Arg2)) /\ Consistent
\* A customer joins at a table of the code's choice; joining twice does nothing.
JoinT == /\ Observe("join") /\ Keep
        /\ Chk("crp.seat",
               IF Arg1 \in DOMAIN seat THEN seat' = seat
               ELSE /\ Arg1 \in DOMAIN seat'
                    /\ seat' = With(seat, Arg1, seat'[Arg1]))
        /\ Consistent
Leave == Observe("leave") /\ Keep /\ Chk("crp.seat", seat' = Without(seat, Arg1)) /\ Consistent
Move == Observe("move") /\ Keep /\ Chk("crp.seat", seat' = With(seat, Arg1, Arg2)) /\ Consistent
SetAlpha == /\ Observe("alpha") /\ isDom' = isDom
            /\ Chk("crp.frame", seat' = seat /\ NEq(alpha', Line.args[1])) /\ Consistent
TransAlpha == /\ Observe("transalpha") /\ isDom' = isDom
              /\ Chk("crp.frame", seat' = seat)
              /\ Chk("crp.grid", IF seat = <<>> THEN NEq(alpha', alpha)
                     ELSE \E k \in 1..20 : NClose(AlphaGrid(Size(seat))[k], alpha', "1e-9"))
              /\ Consistent
Query ==
  /\ Observe("query") /\ Keep
  /\ Chk("crp.frame", seat' = seat)
  /\ Consistent
  /\ Chk("crp.weights", IsWeights(seat, alpha, WSet(Line.weights)))
  /\ Chk("crp.gibbs",
         /\ {Line.gibbs[k][1] : k \in 1..Len(Line.gibbs)} = Tables(seat)
         /\ \A k \in 1..Len(Line.gibbs) :
              IsGibbsWeights(seat, alpha, CHOOSE x \in DOMAIN seat : seat[x] = Line.gibbs[k][1],
                             WSet(Line.gibbs[k][2])))
  \* chain rule: predictive = change in the score
  /\ Chk("crp.logp", \A k \in 1..Len(Line.logp) :
         LET t == Line.logp[k][1]
             lp == Line.logp[k][2]
             isCand == \E c \in WSet(Line.weights) : c[1] = t
         IN IF ~isCand THEN NEq(lp, "-inf")
            ELSE /\ NClose(lp, LogpTable(seat, alpha, t), "1e-9")
                 /\ NClose(lp, NSub(CrpScore(With(seat, -1, t), alpha), CrpScore(seat, alpha)), "1e-7"))
  /\ Chk("crp.logp", NClose(Line.newtable, NSub(NLn(alpha), NLn(NAdd(Size(seat), alpha))), "1e-9"))
  /\ Chk("crp.weights", isDom =>
         /\ {Line.items[k][1] : k \in 1..Len(Line.items)} = DOMAIN seat
         /\ \A k \in 1..Len(Line.items) :
              /\ Line.items[k][2] = seat[Line.items[k][1]]
              /\ IsGibbsWeights(seat, alpha, Line.items[k][1], WSet(Line.items[k][3])))

\* ----- frequencies -----
HistI == [k \in 1..Len(Line.hist) |-> <<ToInt(Line.hist[k][1]), Line.hist[k][2]>>]
NewIds == {HistI[k][1] : k \in 1..Len(HistI)} \ Tables(seat)
JoinProbs ==
  LET old == Tables(seat)
      new == IF NewIds = {} THEN {-1} ELSE NewIds
      n   == Size(seat)
  IN [t \in old \cup new |-> NDiv(IF t \in old THEN NInt(Count(seat, t)) ELSE alpha, NAdd(n, alpha))]
SampleHist ==
  /\ Line.op = "hist" /\ Advance /\ UNCHANGED <<seat, alpha, isDom>>
  /\ Chk("crash", ~Has(Line, "crash"))
  /\ CASE Line.args[1] \in {"sample", "joinwhere"} ->
            Chk("crp.sample", Cardinality(NewIds) <= 1 /\ HistOK(HistI, Line.k, JoinProbs))
       [] Line.args[1] = "transalpha" ->
            LET G == AlphaGrid(Size(seat))
                P == Softmax([k \in 1..20 |-> CrpScore(seat, G[k])])
                Idx(x) == IF \E k \in 1..20 : NClose(G[k], x, "1e-9")
                          THEN CHOOSE k \in 1..20 : NClose(G[k], x, "1e-9") ELSE 0
            IN Chk("crp.alphahist",
                   HistOK([k \in 1..Len(Line.hist) |-> <<Idx(Line.hist[k][1]), Line.hist[k][2]>>], Line.k, P))
Crash == Line.op = "crash" /\ CrashFree /\ Advance /\ UNCHANGED <<seat, alpha, isDom>>

Init == i = 0 /\ seat = <<>> /\ alpha = "1" /\ isDom = FALSE
Next == /\ i < Len(Log)
        /\ \/ Session \/ Seat \/ JoinT \/ Leave \/ Move \/ SetAlpha \/ TransAlpha \/ Query
           \/ SampleHist \/ Crash
Spec == Init /\ [][Next]_vars
=============================================================================
