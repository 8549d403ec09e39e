-------------------------------- MODULE Pool --------------------------------
(* The portable thread pool (low, default and high executor), tasks that    *)
(* wait inside the pool, and pre_exit, at the level a program can observe.  *)
(* Push and Take are internal: a submission enters the queue of some worker *)
(* at a moment between its call and its return, and a worker takes a task   *)
(* at some moment before it starts it.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  nq,     \* number of worker queues
  ord,    \* is the order in which tasks are taken modelled?
  limit,  \* bound on tasks taken or running at the same time
  ts,     \* task -> [st, pr, by, th]: st in calling / pushed / taken / run / end
  pq,     \* sequence of queued tasks <<k, priority, queue>> in the order of their pushes
  fr,     \* thread -> stack of frames <<"sub",k>>, <<"run",k>>, <<"await",k>>, <<"iw",v>>, <<"pre",0>>, <<"h",h>>, <<"at",h>>
  hd,     \* registered pre-exit handlers, a stack
  hp,     \* handlers whose registration is in progress
  hn,     \* handler popped but not begun: <<>> or <<h>>
  fl,     \* flags that are set
  must    \* tasks pre_exit has to wait for
vars == <<nq, ord, limit, ts, pq, fr, hd, hp, hn, fl, must>>

Init == /\ nq = 1 /\ ord = TRUE /\ limit = 1 /\ ts = <<>> /\ pq = <<>> /\ fr = <<>>
        /\ hd = <<>> /\ hp = {} /\ hn = <<>> /\ fl = {} /\ must = {}

Frames(t) == IF t \in DOMAIN fr THEN fr[t] ELSE <<>>
Top(t) == LET f == Frames(t) IN IF f = <<>> THEN <<"none", 0>> ELSE f[Len(f)]
Push(t, x) == fr' = (t :> Append(Frames(t), x)) @@ fr
Pop(t) == fr' = (t :> SubSeq(Frames(t), 1, Len(Frames(t)) - 1)) @@ fr
Keep == UNCHANGED <<nq, ord, limit>>
PriorityOf(x) == CASE x = "l" -> 0 [] x = "p" -> 1 [] x = "h" -> 2

\* hardware threads reported: one is left to the main thread
Start(cores, waits, o) ==
  /\ ord' = o
  /\ nq' = IF cores <= 2 THEN 1 ELSE cores - 1
  /\ limit' = IF waits THEN (IF cores <= 2 THEN 9 ELSE 4 * cores + 1) ELSE nq'
  /\ UNCHANGED <<ts, pq, fr, hd, hp, hn, fl, must>>

SubBegin(t, k, x) ==
  /\ k \notin DOMAIN ts
  /\ ts' = (k :> [st |-> IF ord THEN "calling" ELSE "taken", pr |-> PriorityOf(x), by |-> t]) @@ ts
  /\ Push(t, <<"sub", k>>)
  /\ Keep /\ UNCHANGED <<pq, hd, hp, hn, fl, must>>
Enqueue(k, i) ==
  /\ ts[k].st = "calling" /\ i \in 1..nq
  /\ ts' = [ts EXCEPT ![k].st = "pushed"]
  /\ pq' = Append(pq, <<k, ts[k].pr, i>>)
  /\ Keep /\ UNCHANGED <<fr, hd, hp, hn, fl, must>>
SubEnd(t, k) ==
  /\ Top(t) = <<"sub", k>> /\ ts[k].st # "calling"
  /\ Pop(t)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, hn, fl, must>>

\* the entry a worker takes from a queue: highest priority, first come first served within one
IsBest(j) ==
  \A i \in 1..Len(pq) : i # j /\ pq[i][3] = pq[j][3] =>
     pq[i][2] < pq[j][2] \/ (pq[i][2] = pq[j][2] /\ i > j)
Active == {k \in DOMAIN ts : ts[k].st \in {"taken", "run"}}
Take(j) ==
  /\ j \in 1..Len(pq) /\ IsBest(j)
  /\ Cardinality(Active) < limit
  /\ ts' = [ts EXCEPT ![pq[j][1]].st = "taken"]
  /\ pq' = SubSeq(pq, 1, j - 1) \o SubSeq(pq, j + 1, Len(pq))
  /\ Keep /\ UNCHANGED <<fr, hd, hp, hn, fl, must>>
\* only a pool thread runs tasks: one which is doing nothing else
RunBegin(t, k) ==
  /\ k \in DOMAIN ts /\ ts[k].st = "taken" /\ t # 0 /\ Frames(t) = <<>>
  /\ ts' = [ts EXCEPT ![k].st = "run"]
  /\ Push(t, <<"run", k>>)
  /\ Keep /\ UNCHANGED <<pq, hd, hp, hn, fl, must>>
RunEnd(t, k) ==
  /\ Top(t) = <<"run", k>>
  /\ ts' = [ts EXCEPT ![k].st = "end"]
  /\ Pop(t)
  /\ Keep /\ UNCHANGED <<pq, hd, hp, hn, fl, must>>
\* a task is destroyed after it ran, not before
Destroy(k) == k \in DOMAIN ts /\ ts[k].st = "end" /\ UNCHANGED vars

AwaitBegin(t, k) ==
  /\ k \in DOMAIN ts /\ Push(t, <<"await", k>>)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, hn, fl, must>>
AwaitEnd(t, k) ==
  /\ Top(t) = <<"await", k>> /\ ts[k].st = "end" /\ Pop(t)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, hn, fl, must>>
WaitBegin(t, v) ==
  /\ Push(t, <<"iw", v>>)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, hn, fl, must>>
WaitEnd(t, v) ==
  /\ Top(t) = <<"iw", v>> /\ v \in fl /\ Pop(t)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, hn, fl, must>>
SetFlag(v) ==
  /\ fl' = fl \cup {v}
  /\ Keep /\ UNCHANGED <<ts, pq, fr, hd, hp, hn, must>>

\* pre_exit
AtBegin(t, h) ==
  /\ hp' = hp \cup {h} /\ Push(t, <<"at", h>>)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hn, fl, must>>
Register(h) ==
  /\ h \in hp /\ hp' = hp \ {h} /\ hd' = Append(hd, h)
  /\ Keep /\ UNCHANGED <<ts, pq, fr, hn, fl, must>>
AtEnd(t, h) ==
  /\ Top(t) = <<"at", h>> /\ h \notin hp /\ Pop(t)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, hn, fl, must>>
InPreExit == \E t \in DOMAIN fr : \E i \in 1..Len(fr[t]) : fr[t][i][1] = "pre"
PreBegin(t) ==
  /\ must' = {k \in DOMAIN ts : ~\E s \in DOMAIN fr : \E i \in 1..Len(fr[s]) : fr[s][i] = <<"sub", k>>} /\ Push(t, <<"pre", 0>>)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, hn, fl>>
PopHandler ==      \* between handlers: the latest registered is next
  /\ \E t \in DOMAIN fr : Top(t)[1] = "pre"
  /\ hn = <<>> /\ hd # <<>>
  /\ hn' = <<hd[Len(hd)]>> /\ hd' = SubSeq(hd, 1, Len(hd) - 1)
  /\ Keep /\ UNCHANGED <<ts, pq, fr, hp, fl, must>>
HandlerBegin(t, h) ==
  /\ Top(t)[1] = "pre" /\ hn = <<h>> /\ hn' = <<>> /\ Push(t, <<"h", h>>)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, fl, must>>
HandlerEnd(t, h) ==
  /\ Top(t) = <<"h", h>> /\ Pop(t)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, hn, fl, must>>
PreEnd(t, threads) ==
  /\ Top(t)[1] = "pre" /\ hd = <<>> /\ hn = <<>>
  /\ threads = 0                                   \* no pool thread is left
  /\ \A k \in must : ts[k].st = "end"
  /\ Pop(t)
  /\ Keep /\ UNCHANGED <<ts, pq, hd, hp, hn, fl, must>>

\* quiescence: nothing is left behind
Settled ==
  /\ \A k \in DOMAIN ts : ts[k].st = "end"
  /\ \A t \in DOMAIN fr : fr[t] = <<>>

Internal ==
  \/ \E k \in DOMAIN ts : ts[k].st = "calling" /\ \E i \in 1..nq : Enqueue(k, i)
  \/ \E j \in 1..Len(pq) : Take(j)
  \/ \E h \in hp : Register(h)
  \/ PopHandler

\* invariants
OnceQueued == \A i, j \in 1..Len(pq) : i # j => pq[i][1] # pq[j][1]
QueuedIsPushed == {pq[i][1] : i \in 1..Len(pq)} = {k \in DOMAIN ts : ts[k].st = "pushed"}
OneRunPerThread ==
  \A t \in DOMAIN fr : Cardinality({i \in 1..Len(fr[t]) : fr[t][i][1] = "run"}) <= 1
RunsAreFrames ==
  \A k \in DOMAIN ts : ts[k].st = "run" <=>
     \E t \in DOMAIN fr : \E i \in 1..Len(fr[t]) : fr[t][i] = <<"run", k>>
StateOK == OnceQueued /\ QueuedIsPushed /\ OneRunPerThread /\ RunsAreFrames
=============================================================================
