------------------------------- MODULE Future -------------------------------
(* Abstract state machine of stlab::future, packaged_task, async, then,     *)
(* recover, detach, reduction, when_all, when_any, await, await_for and     *)
(* coroutines.  A node is one future created by the program, identified by  *)
(* the function object it was created with; `arm`s are the internal         *)
(* continuations of a when_all/when_any, `alias`es the futures await_for    *)
(* returns after a time-out.                                                *)
(*                                                                          *)
(* Every step which user code or an executor can see is an action with the  *)
(* thread t that takes it; the resolution of a node (Resolve) is internal.  *)
(* The steps of one thread nest: fr[t] is its stack of open calls, runs of  *)
(* submitted tasks, submissions, and bodies (invocations of user functions).*)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  nd,   \* node -> record
  sl,   \* handle (slot) -> node, 0: none
  pk,   \* promise end (slot) -> node, 0: none
  sb,   \* submission k -> [x: label, n: node, st: sub/run/end/drop/gone]
  fr,   \* thread -> stack of frames
  xk    \* label -> kind of executor
vars == <<nd, sl, pk, sb, fr, xk>>

P == <<"p", 0>>                       \* pending
Val(x) == <<"v", x>>                  \* a value; 0 stands for void
Exc(c) == <<"e", c>>
BROKEN == 9001
Slots == 0..63

Blank == [kind |-> "", src |-> 0, lab |-> 0,
          cl |-> "none",              \* function object: none / live / gone
          out |-> P,                  \* the outcome
          bd |-> "no", bo |-> P,      \* body: no / run / done, and its outcome
          inn |-> 0,                  \* the future the body returned
          sub |-> 0,                  \* its submission
          det |-> FALSE, dead |-> FALSE,
          brk |-> P,                  \* set to the error when the promise is broken or set_exception
          arms |-> <<>>, par |-> 0,   \* of when_all / when_any
          coin |-> <<>>, coi |-> 0,   \* futures a coroutine awaits, number already resumed from
          arg |-> <<>>, rt |-> 0]

Init == /\ nd = <<>> /\ sb = <<>> /\ fr = <<>> /\ xk = (0 :> "i")
        /\ sl = [h \in Slots |-> 0] /\ pk = [h \in Slots |-> 0]

Nodes == DOMAIN nd
Frames(t) == IF t \in DOMAIN fr THEN fr[t] ELSE <<>>
Top(t) == LET f == Frames(t) IN IF f = <<>> THEN <<"none", 0>> ELSE f[Len(f)]
Push(t, x) == fr' = (t :> Append(Frames(t), x)) @@ fr
Pop(t) == fr' = (t :> SubSeq(Frames(t), 1, Len(Frames(t)) - 1)) @@ fr
Range(s) == {s[i] : i \in 1..Len(s)}

Resolved(n) == nd[n].out # P
IsErr(o) == o[1] = "e"
\* the run of n's submission has started
Begun(n) == nd[n].sub # 0 /\ sb[nd[n].sub].st \in {"run", "end"}
\* has the outcome of a when_all / when_any possibly been determined already?
Determined(p) ==
  \E a \in Range(nd[p].arms) :
     Begun(a) /\ (IF nd[p].kind = "all" THEN IsErr(nd[nd[a].src].out) ELSE ~IsErr(nd[nd[a].src].out))

\* The outcomes a pending node may take now.
Outcomes(n) ==
  LET d == nd[n] IN
  IF d.out # P \/ d.dead THEN {}
  ELSE IF d.brk # P THEN {d.brk}
  ELSE IF d.bd = "done" THEN
     IF d.inn = 0 THEN {d.bo} ELSE IF Resolved(d.inn) THEN {nd[d.inn].out} ELSE {}
  ELSE IF d.bd = "run" THEN {}
  ELSE CASE d.kind = "then" -> IF Begun(n) /\ IsErr(nd[d.src].out) THEN {nd[d.src].out} ELSE {}
         [] d.kind = "alias" -> IF Resolved(d.src) THEN {nd[d.src].out} ELSE {}
         [] d.kind = "all" ->
              {nd[nd[a].src].out : a \in {b \in Range(d.arms) : Begun(b) /\ IsErr(nd[nd[b].src].out)}}
         [] d.kind = "any" ->
              IF d.arms # <<>> /\ \A a \in Range(d.arms) : Begun(a) /\ IsErr(nd[nd[a].src].out)
              THEN {nd[nd[a].src].out : a \in Range(d.arms)} ELSE {}
         [] OTHER -> {}

Finished(n) == nd[n].out # P \/ nd[n].bd = "done" \/ Outcomes(n) # {}

\* Is the (pending) node n kept from being cancelled?
RECURSIVE Held(_)
Held(n) ==
  \/ \E h \in Slots : sl[h] = n
  \/ nd[n].det
  \/ nd[n].kind \in {"detf", "co"}
  \/ \E m \in Nodes :
       LET d == nd[m] IN
       \/ d.src = n /\ d.kind \in {"then", "rec", "alias"} /\ d.out = P /\ ~d.dead /\ Held(m)
       \/ d.src = n /\ d.kind = "detf" /\ d.bd = "no"
       \/ d.src = n /\ d.kind = "arm" /\ ~Begun(m) /\
            LET p == nd[d.par] IN p.out = P /\ ~p.dead /\ p.bd = "no" /\ ~Determined(d.par) /\ Held(d.par)
       \/ d.inn = n /\ d.out = P /\ Held(m)
       \/ d.kind = "co" /\ d.bd # "done" /\ \E i \in (d.coi + 1)..Len(d.coin) : d.coin[i] = n

Quiet == \A t \in DOMAIN fr : fr[t] = <<>>
\* When no call is in progress, function objects exist only where they may still be needed:
\* what ran was released, what nobody holds was cancelled.
NoLeak == Quiet => \A n \in Nodes : nd[n].cl = "live" => ~Finished(n) /\ Held(n)

Upd(n, r) == nd' = [nd EXCEPT ![n] = r]
Lab(n, s, x) == IF x = "" THEN nd[s].lab ELSE n
AddX(n, x) == xk' = IF x = "" THEN xk ELSE (n :> x) @@ xk

-----------------------------------------------------------------------------
(* Internal step *)
Resolve(n, o) ==
  /\ o \in Outcomes(n)
  /\ nd' = [nd EXCEPT ![n].out = o, ![n].det = FALSE]
  /\ UNCHANGED <<sl, pk, sb, fr, xk>>

(* Executors *)
\* who may be submitted under label x
Submittable(x) ==
  {n \in Nodes :
     LET d == nd[n] IN
     /\ d.lab = x /\ d.sub = 0
     /\ \/ d.kind = "task" \/ (d.kind = "all" /\ d.arms = <<>>)
        \/ d.kind \in {"then", "rec", "arm"} /\ Resolved(d.src)}

Sub(t, k, x, n) ==
  /\ k \notin DOMAIN sb
  /\ n \in Submittable(x)
  /\ sb' = (k :> [x |-> x, n |-> n, st |-> "sub", t |-> t]) @@ sb
  /\ nd' = [nd EXCEPT ![n].sub = k]
  /\ Push(t, <<"sub", k>>)
  /\ UNCHANGED <<sl, pk, xk>>

SubEnd(t, k) ==
  /\ Top(t) = <<"sub", k>>
  /\ xk[sb[k].x] = "i" => sb[k].st = "end"      \* the immediate executor runs it before returning
  /\ xk[sb[k].x] = "d" => sb[k].st = "gone"
  /\ Pop(t)
  /\ UNCHANGED <<nd, sl, pk, sb, xk>>

RunBegin(t, k) ==
  /\ k \in DOMAIN sb /\ sb[k].st = "sub"        \* exactly once
  /\ xk[sb[k].x] = "i" => Top(t) = <<"sub", k>>
  /\ xk[sb[k].x] # "d"
  /\ sb' = [sb EXCEPT ![k].st = "run"]
  /\ Push(t, <<"run", k>>)
  /\ UNCHANGED <<nd, sl, pk, xk>>

RunEnd(t, k) ==
  /\ Top(t) = <<"run", k>>
  /\ LET n == sb[k].n  d == nd[n] IN
       /\ d.kind \in {"task", "then", "rec", "all"} =>
            \* the function ran, or was passed over, or had been cancelled
            (d.bd = "done" \/ d.out # P \/ d.dead \/ ~Held(n)) = TRUE
       /\ d.inn = 0 => Outcomes(n) = {}         \* and its future is ready by now
  /\ sb' = [sb EXCEPT ![k].st = "end"]
  /\ Pop(t)
  /\ UNCHANGED <<nd, sl, pk, xk>>

DropBegin(t, k) ==                              \* an executor destroys a task it has not run
  /\ k \in DOMAIN sb /\ sb[k].st = "sub"
  /\ sb' = [sb EXCEPT ![k].st = "drop"]
  /\ LET n == sb[k].n IN
       nd' = IF nd[n].bd = "no" /\ ~nd[n].dead /\ nd[n].kind # "arm"
             THEN [nd EXCEPT ![n].brk = Exc(BROKEN)] ELSE nd
  /\ Push(t, <<"drop", k>>)
  /\ UNCHANGED <<sl, pk, xk>>

DropEnd(t, k) ==
  /\ Top(t) = <<"drop", k>>
  /\ LET n == sb[k].n IN (Outcomes(n) = {} \/ ~Held(n)) = TRUE
  /\ sb' = [sb EXCEPT ![k].st = "gone"]
  /\ Pop(t)
  /\ UNCHANGED <<nd, sl, pk, xk>>

(* User functions *)
\* the values a function receives
ValuesOf(s) == IF s[2] = 0 THEN <<>> ELSE <<s[2]>>
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* args: what the function was called with; o: the outcome of the future passed to recover / detach
BodyBegin(t, n, args, o) ==
  LET d == nd[n]  top == Top(t) IN
  /\ n \in Nodes /\ d.bd = "no" /\ d.cl = "live" /\ d.brk = P /\ ~d.dead /\ d.out = P
  /\ CASE d.kind = "task" -> top = <<"run", d.sub>> /\ args = d.arg
       [] d.kind = "then" -> top = <<"run", d.sub>> /\ nd[d.src].out[1] = "v" /\ args = ValuesOf(nd[d.src].out)
       [] d.kind = "rec"  -> top = <<"run", d.sub>> /\ Resolved(d.src) /\ o = nd[d.src].out
       [] d.kind = "detf" -> Resolved(d.src) /\ o = nd[d.src].out
       [] d.kind = "pkg"  -> top[1] = "call" /\ top[3] = "inv" /\ top[4] = n /\ args = top[5]
       [] d.kind = "all"  ->
            /\ top[1] = "run" /\ (sb[top[2]].n = n \/ nd[sb[top[2]].n].par = n)
            /\ \A a \in Range(d.arms) : Begun(a) /\ nd[nd[a].src].out[1] = "v"
            /\ args = Concat([i \in 1..Len(d.arms) |-> ValuesOf(nd[nd[d.arms[i]].src].out)])
       [] d.kind = "any"  ->
            /\ top[1] = "run" /\ nd[sb[top[2]].n].par = n
            /\ \E i \in 1..Len(d.arms) :
                 /\ Begun(d.arms[i]) /\ nd[nd[d.arms[i]].src].out[1] = "v"
                 /\ args = ValuesOf(nd[nd[d.arms[i]].src].out) \o <<i - 1>>
       [] OTHER -> FALSE
  /\ nd' = [nd EXCEPT ![n].bd = "run"]
  /\ Push(t, <<"body", n>>)
  /\ UNCHANGED <<sl, pk, sb, xk>>

BodyEnd(t, n, o, w) ==
  /\ Top(t) = <<"body", n>>
  /\ IF o[1] = "f"
     THEN /\ sl[o[2]] # 0
          /\ nd' = [nd EXCEPT ![n].bd = "done", ![n].inn = sl[o[2]], ![n].rt = w]
          /\ sl' = [sl EXCEPT ![o[2]] = 0]
     ELSE /\ nd' = [nd EXCEPT ![n].bd = "done", ![n].bo = o, ![n].rt = w]
          /\ UNCHANGED sl
  /\ Pop(t)
  /\ UNCHANGED <<pk, sb, xk>>

\* Coroutines: the body starts within the call which creates it and is resumed anywhere.
CoBegin(t, n) ==
  /\ nd[n].kind = "co" /\ nd[n].bd = "no"
  /\ Top(t)[1] = "call" /\ Top(t)[3] = "co"
  /\ Upd(n, [nd[n] EXCEPT !.bd = "run"])
  /\ UNCHANGED <<sl, pk, sb, fr, xk>>
CoResume(t, n, i, o) ==
  /\ nd[n].kind = "co" /\ nd[n].bd = "run" /\ i = nd[n].coi + 1
  /\ Resolved(nd[n].coin[i]) /\ nd[nd[n].coin[i]].out = o
  /\ Upd(n, [nd[n] EXCEPT !.coi = i])
  /\ UNCHANGED <<sl, pk, sb, fr, xk>>
CoEnd(t, n, o, w) ==
  /\ nd[n].kind = "co" /\ nd[n].bd = "run"
  /\ Upd(n, [nd[n] EXCEPT !.bd = "done", !.bo = o, !.rt = w])
  /\ UNCHANGED <<sl, pk, sb, fr, xk>>

\* A function object is destroyed: after its work, or because nobody needs it.
Destroy(n) ==
  /\ n \in Nodes /\ nd[n].cl = "live" /\ nd[n].bd # "run"
  /\ (Finished(n) \/ ~Held(n)) = TRUE
  /\ nd' = [nd EXCEPT ![n].cl = "gone", ![n].dead = ~Finished(n)]
  /\ UNCHANGED <<sl, pk, sb, fr, xk>>

-----------------------------------------------------------------------------
(* Calls.  A frame is <<"call", c, op, ...>>. *)
Frame(t, c, op, a, b) == Push(t, <<"call", c, op, a, b>>)

CallAsync(t, c, n, d, x, arg) ==
  /\ n \notin Nodes /\ sl[d] = 0
  /\ nd' = (n :> [Blank EXCEPT !.kind = "task", !.lab = n, !.cl = "live", !.arg = arg]) @@ nd
  /\ sl' = [sl EXCEPT ![d] = n]
  /\ AddX(n, x) /\ Frame(t, c, "async", n, 0)
  /\ UNCHANGED <<pk, sb>>
CallPkg(t, c, n, d, p, x) ==
  /\ n \notin Nodes /\ sl[d] = 0 /\ pk[p] = 0
  /\ nd' = (n :> [Blank EXCEPT !.kind = "pkg", !.lab = n, !.cl = "live"]) @@ nd
  /\ sl' = [sl EXCEPT ![d] = n] /\ pk' = [pk EXCEPT ![p] = n]
  /\ AddX(n, x) /\ Frame(t, c, "pkg", n, 0)
  /\ UNCHANGED sb
\* kind is "then" or "rec"
CallThen(t, c, kind, n, h, d, x, rv) ==
  LET s == sl[h] IN
  /\ n \notin Nodes /\ s # 0
  /\ nd' = (n :> [Blank EXCEPT !.kind = kind, !.src = s, !.lab = Lab(n, s, x), !.cl = "live"]) @@ nd
  /\ sl' = [(IF rv = 1 THEN [sl EXCEPT ![h] = 0] ELSE sl) EXCEPT ![d] = n]
  /\ ((IF rv = 1 THEN h ELSE 0) = d \/ sl[d] = 0) = TRUE
  /\ AddX(n, x) /\ Frame(t, c, kind, n, 0)
  /\ UNCHANGED <<pk, sb>>
\* kind is "all" or "any"
CallJoin(t, c, kind, n, hs, arms, d, x, rv) ==
  LET ss == [i \in 1..Len(hs) |-> sl[hs[i]]] IN
  /\ n \notin Nodes /\ \A i \in 1..Len(ss) : ss[i] # 0
  /\ nd' = [a \in Range(arms) |->
              LET i == CHOOSE j \in 1..Len(arms) : arms[j] = a IN
              [Blank EXCEPT !.kind = "arm", !.src = ss[i], !.lab = n, !.par = n]]
           @@ (n :> [Blank EXCEPT !.kind = kind, !.lab = n, !.cl = "live", !.arms = arms,
                       !.brk = IF kind = "any" /\ arms = <<>> THEN Exc(BROKEN) ELSE P]) @@ nd
  /\ sl' = [[h \in Slots |-> IF rv = 1 /\ h \in Range(hs) THEN 0 ELSE sl[h]] EXCEPT ![d] = n]
  /\ AddX(n, x) /\ Frame(t, c, kind, n, 0)
  /\ UNCHANGED <<pk, sb>>
CallCo(t, c, n, hs, d) ==
  /\ n \notin Nodes
  /\ nd' = (n :> [Blank EXCEPT !.kind = "co", !.coin = [i \in 1..Len(hs) |-> sl[hs[i]]]]) @@ nd
  /\ sl' = [[h \in Slots |-> IF h \in Range(hs) THEN 0 ELSE sl[h]] EXCEPT ![d] = n]
  /\ Frame(t, c, "co", n, 0)
  /\ UNCHANGED <<pk, sb, xk>>
\* make_ready_future and make_exceptional_future
CallReady(t, c, n, d, x, o) ==
  /\ n \notin Nodes /\ sl[d] = 0
  /\ nd' = (n :> [Blank EXCEPT !.kind = "ready", !.lab = n, !.out = o]) @@ nd
  /\ sl' = [sl EXCEPT ![d] = n]
  /\ AddX(n, x) /\ Frame(t, c, "ready", n, 0)
  /\ UNCHANGED <<pk, sb>>

CallDetach(t, c, h) ==
  /\ sl[h] # 0
  /\ nd' = [nd EXCEPT ![sl[h]].det = (nd[sl[h]].out = P)]
  /\ Frame(t, c, "det", sl[h], 0)
  /\ UNCHANGED <<sl, pk, sb, xk>>
CallDetachF(t, c, n, h) ==
  /\ n \notin Nodes /\ sl[h] # 0
  /\ nd' = (n :> [Blank EXCEPT !.kind = "detf", !.src = sl[h], !.cl = "live"]) @@ nd
  /\ sl' = [sl EXCEPT ![h] = 0]
  /\ Frame(t, c, "detf", n, 0)
  /\ UNCHANGED <<pk, sb, xk>>
CallDrop(t, c, h) ==
  /\ sl' = [sl EXCEPT ![h] = 0]
  /\ Frame(t, c, "drop", 0, 0)
  /\ UNCHANGED <<nd, pk, sb, xk>>
CallCopy(t, c, h, d, mv) ==
  /\ sl[h] # 0
  /\ sl' = [(IF mv THEN [sl EXCEPT ![h] = 0] ELSE sl) EXCEPT ![d] = sl[h]]
  /\ Frame(t, c, "cpy", 0, 0)
  /\ UNCHANGED <<nd, pk, sb, xk>>

\* the promise end of package
CallInvoke(t, c, p, v) ==
  /\ pk' = [pk EXCEPT ![p] = 0]
  /\ Push(t, <<"call", c, "inv", pk[p], <<v>>>>)
  /\ UNCHANGED <<nd, sl, sb, xk>>
Break(n, o) == IF n # 0 /\ nd[n].bd = "no" /\ ~nd[n].dead THEN [nd EXCEPT ![n].brk = o] ELSE nd
CallBreak(t, c, p, o) ==              \* destroyed, or set_exception
  /\ nd' = Break(pk[p], o)
  /\ pk' = [pk EXCEPT ![p] = 0]
  /\ Frame(t, c, "brk", pk[p], 0)
  /\ UNCHANGED <<sl, sb, xk>>
CallMovePromise(t, c, p, q) ==        \* q = std::move(p): what q was is lost
  /\ nd' = Break(pk[q], Exc(BROKEN))
  /\ pk' = [pk EXCEPT ![p] = 0, ![q] = pk[p]]
  /\ Frame(t, c, "brk", pk[q], 0)
  /\ UNCHANGED <<sl, sb, xk>>
\* observers remember whether the node was pending when they began
CallObserve(t, c, op, h, x) ==
  /\ sl[h] # 0
  /\ Push(t, <<"call", c, op, sl[h], nd[sl[h]].out = P, h, x>>)
  /\ UNCHANGED <<nd, sl, pk, sb, xk>>
CallCanceled(t, c, p) ==
  /\ Push(t, <<"call", c, "canc", pk[p], IF pk[p] = 0 THEN TRUE ELSE nd[pk[p]].dead>>)
  /\ UNCHANGED <<nd, sl, pk, sb, xk>>

IsCall(t, c) == Top(t)[1] = "call" /\ Top(t)[2] = c
\* returning from calls without a result
CallEnd(t, c) ==
  /\ IsCall(t, c)
  /\ TRUE = LET f == Top(t)  n == f[4] IN
       CASE f[3] = "async" -> nd[n].sub # 0          \* it was handed to its executor
         [] f[3] \in {"all", "any"} -> (nd[n].kind = "any" /\ nd[n].arms = <<>> => Resolved(n))
                                       /\ (nd[n].kind = "all" /\ nd[n].arms = <<>> => nd[n].sub # 0)
         [] f[3] = "inv" -> n = 0 \/ nd[n].dead \/ ~Held(n) \/ (nd[n].bd = "done" /\ (nd[n].inn # 0 \/ Outcomes(n) = {}))
         [] f[3] = "brk" -> n = 0 \/ ~Held(n) \/ Outcomes(n) = {}
         [] f[3] \in {"then", "rec", "pkg", "co", "ready", "det", "detf", "drop", "cpy"} -> TRUE
         [] OTHER -> FALSE
  /\ Pop(t)
  /\ UNCHANGED <<nd, sl, pk, sb, xk>>
RetReady(t, c, r) ==
  /\ IsCall(t, c) /\ Top(t)[3] = "rdy"
  /\ IF r = 1 THEN Resolved(Top(t)[4]) ELSE Top(t)[5]
  /\ Pop(t)
  /\ UNCHANGED <<nd, sl, pk, sb, xk>>
\* get_try / get_ready (if ready) / exception; taking the value from the handle gives it up
RetGet(t, c, o, rv) ==
  /\ IsCall(t, c) /\ Top(t)[3] \in {"try", "get"}
  /\ IF o[1] = "-" THEN Top(t)[5] /\ UNCHANGED sl
     ELSE /\ nd[Top(t)[4]].out = o
          /\ sl' = IF rv = 1 THEN [sl EXCEPT ![Top(t)[6]] = 0] ELSE sl
  /\ Pop(t)
  /\ UNCHANGED <<nd, pk, sb, xk>>
RetAwait(t, c, o) ==
  /\ IsCall(t, c) /\ Top(t)[3] = "await"
  /\ nd[Top(t)[4]].out = o
  /\ sl' = [sl EXCEPT ![Top(t)[6]] = 0]
  /\ Pop(t)
  /\ UNCHANGED <<nd, pk, sb, xk>>
\* await_for: n names the alias; us the time-out; w0, w the times of call and return
\* sharp: time only passes when nothing else can happen
RetAwaitFor(t, c, r, n, us, w0, w, sharp) ==
  /\ IsCall(t, c) /\ Top(t)[3] = "awf"
  /\ LET s == Top(t)[4]  h == Top(t)[6]
         alias(o) == /\ nd' = (n :> [Blank EXCEPT !.kind = "alias", !.src = s, !.out = o]) @@ nd
                     /\ sl' = [sl EXCEPT ![h] = n] IN
       IF r = 0
       THEN /\ Top(t)[5] /\ w - w0 >= us
            /\ alias(P)
       ELSE /\ Resolved(s)
            /\ sharp /\ us >= 500 /\ nd[s].bd = "done" /\ nd[s].inn = 0 /\ nd[s].rt + 100 < w0 + us => w < w0 + us
            /\ IF w - w0 >= us THEN alias(nd[s].out) ELSE UNCHANGED <<nd, sl>>
  /\ Pop(t)
  /\ UNCHANGED <<pk, sb, xk>>
RetCanceled(t, c, r) ==
  /\ IsCall(t, c) /\ Top(t)[3] = "canc"
  /\ TRUE = LET n == Top(t)[4] IN
       IF r = 1 THEN n = 0 \/ nd[n].dead \/ ~Held(n) ELSE n # 0 /\ ~Top(t)[5]
  /\ Pop(t)
  /\ UNCHANGED <<nd, sl, pk, sb, xk>>

-----------------------------------------------------------------------------
(* Quiescence: every thread is idle or waits, nothing can happen by itself. *)
\* pumped: the harness' manual executor has threads that run it
Settled(pumped) ==
  /\ \A k \in DOMAIN sb : sb[k].st \in {"end", "gone", "run"} \/ (sb[k].st = "sub" /\ xk[sb[k].x] = "m" /\ ~pumped)
  /\ \A n \in Nodes :
       /\ Outcomes(n) = {}
       /\ nd[n].kind \in {"then", "rec"} /\ Resolved(nd[n].src) /\ ~nd[n].dead => nd[n].sub # 0
       /\ nd[n].kind = "detf" /\ Resolved(nd[n].src) => nd[n].bd = "done"
       /\ nd[n].kind = "arm" /\ Resolved(nd[n].src) /\ Held(nd[n].par) /\ nd[nd[n].par].out = P => nd[n].sub # 0
       /\ nd[n].kind = "co" /\ nd[n].bd = "run" => nd[n].coi < Len(nd[n].coin) /\ ~Resolved(nd[n].coin[nd[n].coi + 1])
       /\ nd[n].kind = "all" /\ nd[n].out = P /\ nd[n].bd = "no" /\ Held(n) =>
             \E a \in Range(nd[n].arms) : ~Begun(a)
       /\ nd[n].kind = "any" /\ nd[n].out = P /\ nd[n].bd = "no" /\ Held(n) => 
             ~\E a \in Range(nd[n].arms) : Begun(a) /\ ~IsErr(nd[nd[a].src].out)
  /\ \A t \in DOMAIN fr : fr[t] # <<>> =>
       LET f == fr[t][Len(fr[t])] IN f[1] = "fin" \/ (f[1] = "call" /\ f[3] = "await" /\ ~Resolved(f[4]))

\* The program ends: every handle and promise goes.
Fin(t) ==
  /\ sl' = [h \in Slots |-> 0] /\ pk' = [h \in Slots |-> 0]
  /\ nd' = [n \in Nodes |-> IF (\E p \in Slots : pk[p] = n) /\ nd[n].bd = "no" /\ ~nd[n].dead
                             THEN [nd[n] EXCEPT !.brk = Exc(BROKEN)] ELSE nd[n]]
  /\ Push(t, <<"fin", 0>>)
  /\ UNCHANGED <<sb, xk>>

-----------------------------------------------------------------------------
(* Properties of the state, checked on the model and on every trace state. *)
\* the outcome of a node is the one its function produced (or its cause prescribes)
OutcomeRight ==
  \A n \in Nodes : LET d == nd[n] IN
    d.out # P =>
      \/ d.kind = "ready" \/ d.out = d.brk
      \/ d.bd = "done" /\ d.inn = 0 /\ d.out = d.bo
      \/ d.bd = "done" /\ d.inn # 0 /\ d.out = nd[d.inn].out
      \/ d.bd = "no" /\ d.kind \in {"then", "alias"} /\ d.out = nd[d.src].out
      \/ d.bd = "no" /\ d.kind \in {"all", "any"} /\ \E a \in Range(d.arms) : d.out = nd[nd[a].src].out
NotBeforeSource == \A n \in Nodes : nd[n].src # 0 /\ nd[n].bd # "no" => Resolved(nd[n].src)
SkipOnError ==
  \A n \in Nodes : nd[n].kind = "then" /\ Resolved(nd[n].src) /\ IsErr(nd[nd[n].src].out) => nd[n].bd = "no"
AllNeedsAll ==
  \A n \in Nodes : nd[n].kind = "all" /\ nd[n].bd # "no" =>
      \A a \in Range(nd[n].arms) : nd[nd[a].src].out[1] = "v"
AnyNeedsOne ==
  \A n \in Nodes : nd[n].kind = "any" /\ nd[n].bd # "no" =>
      \E a \in Range(nd[n].arms) : nd[nd[a].src].out[1] = "v"
InOwnRun ==     \* bodies execute only within a run of a submission under their label
  \A t \in DOMAIN fr : \A i \in 1..Len(fr[t]) :
     fr[t][i][1] = "body" /\ nd[fr[t][i][2]].kind \in {"task", "then", "rec", "all", "any"} =>
        i > 1 /\ fr[t][i-1][1] = "run" /\ sb[fr[t][i-1][2]].x = nd[fr[t][i][2]].lab
NotCancelledWhileHeld == \A n \in Nodes : nd[n].dead => ~Held(n)
\* as an action property: outcomes are final
OutcomesFinal == [][\A n \in Nodes : nd[n].out # P => nd'[n].out = nd[n].out]_vars
=============================================================================
