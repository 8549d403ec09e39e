------------------------------ MODULE FutureMC ------------------------------
(* Every program of a few calls on futures of the form FUTURE_PROG (one letter per call, see Calls; * is any of
   a number of them) on every schedule: thread 1 makes the calls and gives up what it holds, whenever; threads 11
   and 12 run what was submitted; a body ends with a value or an error, or (FUTURE_RED) makes a future of its own
   and returns that.  What F01..F12 say is stated over a history (who ran, with what, how often; what was given
   up), not over how Future.tla keeps track.                                                                 *)
EXTENDS Future, IOUtils
MCSlots == 0..20
Prog == IOEnv.FUTURE_PROG
OPS == Len(Prog)
Red == IOEnv.FUTURE_RED = "1"
Pool == IF IOEnv.FUTURE_POOL = "1" THEN {11} ELSE {11, 12}
T == {1} \cup Pool
VARIABLES
  ops,    \* calls made
  ran,    \* node -> what its body was called with, in order of calls
  ret,    \* node -> what its body returned
  own,    \* node made by a body -> whose
  gone,   \* nodes a handle of which was given up (dropped, consumed)
  fin
h == <<ops, ran, ret, own, gone, fin>>
Letter == SubSeq(Prog, ops + 1, ops + 1)
MCInit == Init /\ ops = 0 /\ ran = <<>> /\ ret = <<>> /\ own = <<>> /\ gone = {} /\ fin = FALSE
NextN == Cardinality(Nodes) + 1
NextK == Cardinality(DOMAIN sb) + 1
Live == {s \in Slots : sl[s] # 0}
Mine == {s \in Live : sl[s] \notin DOMAIN own}
Ends == {s \in Slots : pk[s] # 0}
C == ops + 1
Call(t) == ops' = ops + 1 /\ UNCHANGED <<ran, ret, fin>>
Keep == UNCHANGED gone
Lose(S) == gone' = gone \cup {sl[s] : s \in S}
InBody(t) == Top(t)[1] = "body"
MayCall(t) == Top(t)[1] = "none" /\ t = 1 /\ ~fin
Only(x) == Letter = x
Letr(x) == Letter \in {x, "*"}
Calls(t) ==
  LET n == NextN IN
  \/ Letr("a") /\ CallAsync(t, C, n, n, "p", <<>>) /\ Keep
  \/ Letr("i") /\ CallAsync(t, C, n, n, "i", <<>>) /\ Keep
  \/ Letr("t") /\ (\E kind \in {"then", "rec"}, s \in Mine, rv \in {0, 1} :
       CallThen(t, C, kind, n, s, n, "", rv) /\ (IF rv = 1 THEN Lose({s}) ELSE Keep))
  \/ Only("T") /\ (\E kind \in {"then", "rec"}, s \in Mine, x \in {"p", "i"} : CallThen(t, C, kind, n, s, n, x, 0) /\ Keep)
  \/ Letr("x") /\ (\E s \in Mine : CallDrop(t, C, s) /\ Lose({s}))
  \/ Letr("d") /\ (\E s \in Mine : CallDetach(t, C, s) /\ Keep)
  \/ Letr("D") /\ (\E s \in Mine : CallDetachF(t, C, n, s) /\ Lose({s}))
  \/ Only("w") /\ (\E s \in Mine : CallObserve(t, C, "await", s, 0) /\ Lose({s}))
  \/ Only("r") /\ (\E s \in Mine : CallObserve(t, C, "try", s, 0) /\ Keep)
  \/ Only("c") /\ (\E s \in Mine : sl[n + 10] = 0 /\ CallCopy(t, C, s, n + 10, FALSE) /\ Keep)
  \/ Only("j") /\ (\E kind \in {"all", "any"}, r, s \in Mine : r < s /\
       CallJoin(t, C, kind, n, <<r, s>>, <<n + 1, n + 2>>, n, "i", 1) /\ Lose({r, s}))
  \/ Only("o") /\ (\E s \in Mine : CallCo(t, C, n, <<s>>, n) /\ Lose({s}))
  \/ Only("O") /\ (\E r, s \in Mine : r < s /\ CallCo(t, C, n, <<r, s>>, n) /\ Lose({r, s}))
  \/ Only("p") /\ CallPkg(t, C, n, n, n, "i") /\ Keep
  \/ Letr("v") /\ (\E p \in Ends : CallInvoke(t, C, p, 7) /\ Keep)
  \/ Letr("b") /\ (\E p \in Ends : CallBreak(t, C, p, Exc(BROKEN)) /\ Keep)
  \/ Only("q") /\ (\E p \in Ends : CallCanceled(t, C, p) /\ Keep)
\* within a body: one future of its own
Inner(t) == LET n == NextN IN
  /\ InBody(t) /\ nd[Top(t)[2]].kind \in {"task", "then", "rec"}
  /\ CallAsync(t, C, n, n, "p", <<>>) /\ Keep
Frozen == UNCHANGED h
MCNext ==
  /\ \/ ops < OPS /\ MayCall(1) /\ Calls(1) /\ Call(1) /\ UNCHANGED own
     \/ Red /\ ops < OPS /\ (\E t \in Pool : InBody(t) /\ Inner(t) /\ Call(t) /\ own' = (NextN :> Top(t)[2]) @@ own)
     \/ \E t \in T, c \in 1..OPS : IsCall(t, c) /\ Frozen /\
          CASE Top(t)[3] \in {"try", "get"} -> RetGet(t, c, IF Resolved(Top(t)[4]) THEN nd[Top(t)[4]].out ELSE <<"-", 0>>, 0)
            [] Top(t)[3] = "await" -> Resolved(Top(t)[4]) /\ RetAwait(t, c, nd[Top(t)[4]].out)
            [] Top(t)[3] = "canc" -> \E r \in {0, 1} : RetCanceled(t, c, r)
            [] Top(t)[3] = "co" -> nd[Top(t)[4]].bd # "no" /\ CallEnd(t, c)
            [] OTHER -> CallEnd(t, c)
     \/ \E t \in T, n \in Nodes : Sub(t, NextK, nd[n].lab, n) /\ Frozen
     \/ \E t \in T, k \in DOMAIN sb : (SubEnd(t, k) \/ RunEnd(t, k)) /\ Frozen
     \/ \E t \in T, k \in DOMAIN sb : (xk[sb[k].x] # "i" => t \in Pool /\ Frames(t) = <<>>) /\ RunBegin(t, k) /\ Frozen
     \/ \E t \in T, n \in Nodes :
          LET d == nd[n]
              a == CASE d.kind = "then" -> ValuesOf(nd[d.src].out)
                     [] d.kind = "pkg" -> <<7>>
                     [] d.kind = "all" -> Concat([i \in 1..Len(d.arms) |-> ValuesOf(nd[nd[d.arms[i]].src].out)])
                     [] OTHER -> <<>>
              o == IF d.kind \in {"rec", "detf"} THEN nd[d.src].out ELSE P IN
          IF d.kind = "any"
          THEN \E i \in 1..Len(d.arms) : LET b == ValuesOf(nd[nd[d.arms[i]].src].out) \o <<i - 1>> IN
                 /\ BodyBegin(t, n, b, o) /\ ran' = (n :> <<b, o>>) @@ ran /\ n \notin DOMAIN ran /\ UNCHANGED <<ops, ret, own, gone, fin>>
          ELSE /\ Top(t)[1] # "none" /\ BodyBegin(t, n, a, o)
               /\ ran' = [m \in DOMAIN ran \cup {n} |-> IF m = n THEN <<a, o>> \o (IF n \in DOMAIN ran THEN ran[n] ELSE <<>>) ELSE ran[m]]
               /\ UNCHANGED <<ops, ret, own, gone, fin>>
     \/ \E t \in T, n \in Nodes : \E o \in {Val(n), Exc(n)} :
          BodyEnd(t, n, o, 0) /\ ret' = (n :> o) @@ ret /\ UNCHANGED <<ops, ran, own, gone, fin>>
     \/ \E t \in Pool, n \in Nodes, s \in Live : Red /\ sl[s] \in DOMAIN own /\ own[sl[s]] = n /\ BodyEnd(t, n, <<"f", s>>, 0)
          /\ ret' = (n :> <<"f", sl[s]>>) @@ ret /\ gone' = gone \cup {sl[s]} /\ UNCHANGED <<ops, ran, own, fin>>
     \/ \E t \in T, n \in Nodes : CoBegin(t, n) /\ Frozen
     \/ \E t \in T, n \in Nodes : nd[n].coi < Len(nd[n].coin) /\ CoResume(t, n, nd[n].coi + 1, nd[nd[n].coin[nd[n].coi + 1]].out) /\ Frozen
     \/ \E t \in T, n \in Nodes : \E o \in {Val(n), Exc(n)} : nd[n].kind = "co" /\ (nd[n].coi = Len(nd[n].coin) \/ (nd[n].coi > 0 /\ o = Exc(n)))
          /\ CoEnd(t, n, o, 0) /\ ret' = (n :> o) @@ ret /\ UNCHANGED <<ops, ran, own, gone, fin>>
     \/ \E n \in Nodes : Destroy(n) /\ Frozen
     \/ \E n \in Nodes : \E o \in Outcomes(n) : Resolve(n, o) /\ Frozen
     \/ /\ ~fin /\ Frames(1) = <<>> /\ Fin(1) /\ fin' = TRUE /\ UNCHANGED <<ops, ran, ret, own>>
        /\ gone' = gone \cup {sl[s] : s \in Live}
  /\ NoLeak'
MCSpec == MCInit /\ [][MCNext]_<<vars, h>>

(* F01 *) Kept == OutcomesFinal
\* F01, F02, F03, F09: a body runs at most once
Once == \A n \in DOMAIN ran : Len(ran[n]) = 2
\* F01: the outcome is what the body returned, and nobody sees another
Returned == \A n \in DOMAIN ret : Resolved(n) => nd[n].out = IF ret[n][1] = "f" THEN nd[ret[n][2]].out ELSE ret[n]
\* F02: a continuation's argument is its source's value
ArgumentsOf == \A n \in DOMAIN ran :
   /\ nd[n].kind = "then" => nd[nd[n].src].kind = "ready" \/ (nd[n].src \in DOMAIN ret => ran[n][1] = ValuesOf(nd[nd[n].src].out))
   /\ nd[n].kind = "rec" => ran[n][2] = nd[nd[n].src].out
\* F05: an error goes down the chain past every `then`
ErrorsPass == \A n \in Nodes : nd[n].kind = "then" /\ Resolved(n) /\ n \notin DOMAIN ran /\ nd[n].brk = P => IsErr(nd[n].out)
\* F08 / F09
Joins == \A n \in DOMAIN ran : LET d == nd[n]  S == {nd[a].src : a \in Range(d.arms)} IN
   /\ d.kind = "all" => \A s \in S : nd[s].out[1] = "v"
   /\ d.kind = "any" => \E s \in S : nd[s].out[1] = "v"
JoinErrors == \A n \in Nodes : LET d == nd[n]  S == {nd[a].src : a \in Range(d.arms)} IN
   n \notin DOMAIN ran /\ Resolved(n) =>
   /\ d.kind = "all" => \E s \in S : nd[s].out = d.out /\ IsErr(d.out)
   /\ d.kind = "any" => (\A s \in S : IsErr(nd[s].out)) /\ \E s \in S : nd[s].out = d.out
\* everything has come to rest
Rest == /\ \A t \in Pool : Frames(t) = <<>>
        /\ Frames(1) = <<>> \/ Frames(1)[Len(Frames(1))][1] = "fin"
        /\ Settled(FALSE)
\* F02, F04, F06, F07: at rest a future whose handle was not given up has its outcome, except below a promise not yet used
RECURSIVE Waits(_)
Waits(n) == \/ \E p \in Ends : pk[p] = n
            \/ nd[n].src # 0 /\ Waits(nd[n].src)
            \/ nd[n].inn # 0 /\ Waits(nd[n].inn)
            \/ \E a \in Range(nd[n].arms) : Waits(nd[a].src)
HeldResolved == Rest => \A n \in Nodes : (\E s \in Live : sl[s] = n) => Resolved(n) \/ Waits(n)
\* F04: nobody is cancelled who is needed
RECURSIVE Needed(_)
Needed(n) == n \notin gone \/ \E m \in Nodes : nd[m].src = n /\ nd[m].kind \in {"then", "rec"} /\ Needed(m)
NotCancelled == \A n \in Nodes : nd[n].dead /\ nd[n].kind # "arm" => ~Needed(n)
StateInv == OutcomeRight /\ NotBeforeSource /\ SkipOnError /\ AllNeedsAll /\ AnyNeedsOne /\ InOwnRun /\ NotCancelledWhileHeld
\* it always comes to rest, and (F04) nothing is left then
Progress == (Rest /\ fin /\ \A n \in Nodes : nd[n].cl # "live") \/ ENABLED MCNext
=============================================================================
