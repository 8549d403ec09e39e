------------------------------- MODULE Serial -------------------------------
(* Serial queues over any executor.  A queue hands underlying tasks to its  *)
(* executor (`us`); a run of such a task (`ub`..`ue`) runs one queued task  *)
(* (single mode) or everything queued when it started (all mode).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  mode,   \* queue -> "single" / "all"
  pend,   \* queue -> tasks queued and not yet picked by an underlying run
  loc,    \* queue -> tasks picked by the underlying run in progress
  flag,   \* queue -> is an underlying task outstanding (owed, submitted or running)?
  owed,   \* queue -> thread which must submit the underlying task now, -1: nobody
  snap,   \* queue -> underlying run in progress has picked its tasks
  us,     \* underlying task -> [q, st]   st in sub / run / end
  ts,     \* task -> [q, st]   st in calling / queued / run / end
  fr      \* thread -> stack of frames <<"sub",k>>, <<"us",u>>, <<"ur",u>>, <<"run",k>>
vars == <<mode, pend, loc, flag, owed, snap, us, ts, fr>>
QS == 0..3

Init == /\ mode = [q \in QS |-> "single"] /\ pend = [q \in QS |-> <<>>] /\ loc = [q \in QS |-> <<>>]
        /\ flag = [q \in QS |-> FALSE] /\ owed = [q \in QS |-> -1] /\ snap = [q \in QS |-> FALSE]
        /\ us = <<>> /\ ts = <<>> /\ fr = <<>>
Frames(t) == IF t \in DOMAIN fr THEN fr[t] ELSE <<>>
Top(t) == LET f == Frames(t) IN IF f = <<>> THEN <<"none", 0>> ELSE f[Len(f)]
Push(t, x) == fr' = (t :> Append(Frames(t), x)) @@ fr
Pop(t) == fr' = (t :> SubSeq(Frames(t), 1, Len(Frames(t)) - 1)) @@ fr

Modes(m) == mode' = [q \in QS |-> IF q < Len(m) /\ m[q + 1] = 1 THEN "all" ELSE "single"]
            /\ UNCHANGED <<pend, loc, flag, owed, snap, us, ts, fr>>

SubBegin(t, k, q) ==
  /\ k \notin DOMAIN ts
  /\ ts' = (k :> [q |-> q, st |-> "calling", t |-> t]) @@ ts
  /\ Push(t, <<"sub", k>>)
  /\ UNCHANGED <<mode, pend, loc, flag, owed, snap, us>>
\* internal: the task enters the queue; whoever finds it idle has to start it
Enqueue(k) ==
  LET q == ts[k].q IN
  /\ ts[k].st = "calling"
  /\ ts' = [ts EXCEPT ![k].st = "queued"]
  /\ pend' = [pend EXCEPT ![q] = Append(@, k)]
  /\ IF flag[q] THEN UNCHANGED <<flag, owed>>
     ELSE /\ flag' = [flag EXCEPT ![q] = TRUE] /\ owed' = [owed EXCEPT ![q] = ts[k].t]
  /\ UNCHANGED <<mode, loc, snap, us, fr>>
SubEnd(t, k) ==
  /\ Top(t) = <<"sub", k>> /\ ts[k].st # "calling"
  /\ ~(owed[ts[k].q] = t /\ ts[k].st = "queued" /\ pend[ts[k].q] # <<>> /\ pend[ts[k].q][1] = k)  \* it was started
  /\ Pop(t)
  /\ UNCHANGED <<mode, pend, loc, flag, owed, snap, us, ts>>

\* the queue hands an underlying task to its executor
UnderSubmit(t, u, q) ==
  /\ u \notin DOMAIN us
  /\ owed[q] = t
  /\ us' = (u :> [q |-> q, st |-> "sub"]) @@ us
  /\ owed' = [owed EXCEPT ![q] = -1]
  /\ Push(t, <<"us", u>>)
  /\ UNCHANGED <<mode, pend, loc, flag, snap, ts>>
UnderSubmitted(t, u) ==
  /\ Top(t) = <<"us", u>> /\ Pop(t)
  /\ UNCHANGED <<mode, pend, loc, flag, owed, snap, us, ts>>
UnderBegin(t, u) ==
  /\ u \in DOMAIN us /\ us[u].st = "sub"
  /\ us' = [us EXCEPT ![u].st = "run"]
  /\ snap' = [snap EXCEPT ![us[u].q] = FALSE]
  /\ Push(t, <<"ur", u>>)
  /\ UNCHANGED <<mode, pend, loc, flag, owed, ts>>
\* internal: a run picks its tasks
Pick(q) ==
  /\ \E u \in DOMAIN us : us[u].q = q /\ us[u].st = "run"
  /\ ~snap[q] /\ pend[q] # <<>>
  /\ snap' = [snap EXCEPT ![q] = TRUE]
  /\ IF mode[q] = "all" THEN loc' = [loc EXCEPT ![q] = pend[q]] /\ pend' = [pend EXCEPT ![q] = <<>>]
     ELSE loc' = [loc EXCEPT ![q] = <<pend[q][1]>>] /\ pend' = [pend EXCEPT ![q] = Tail(@)]
  /\ UNCHANGED <<mode, flag, owed, us, ts, fr>>
RunBegin(t, k) ==
  /\ k \in DOMAIN ts
  /\ LET q == ts[k].q IN
       /\ loc[q] # <<>> /\ loc[q][1] = k /\ ts[k].st = "queued"
       /\ Top(t)[1] = "ur" /\ us[Top(t)[2]].q = q /\ us[Top(t)[2]].st = "run"
       /\ \A j \in DOMAIN ts : ts[j].q = q => ts[j].st # "run"        \* one at a time
  /\ ts' = [ts EXCEPT ![k].st = "run"]
  /\ Push(t, <<"run", k>>)
  /\ UNCHANGED <<mode, pend, loc, flag, owed, snap, us>>
RunEnd(t, k) ==
  /\ Top(t) = <<"run", k>>
  /\ ts' = [ts EXCEPT ![k].st = "end"]
  /\ loc' = [loc EXCEPT ![ts[k].q] = Tail(@)]
  /\ Pop(t)
  /\ UNCHANGED <<mode, pend, flag, owed, snap, us>>
\* internal: having run what it picked, the run looks whether more has come
Decide(q) ==
  /\ \E u \in DOMAIN us : us[u].q = q /\ us[u].st = "run" /\
       us' = [us EXCEPT ![u].st = "tail"] /\
       (IF pend[q] = <<>> THEN flag' = [flag EXCEPT ![q] = FALSE] /\ UNCHANGED owed
        ELSE \E t \in DOMAIN fr : Top(t) = <<"ur", u>> /\ owed' = [owed EXCEPT ![q] = t] /\ UNCHANGED flag)
  /\ snap[q] /\ loc[q] = <<>>
  /\ UNCHANGED <<mode, pend, loc, snap, ts, fr>>
UnderEnd(t, u) ==
  /\ Top(t) = <<"ur", u>> /\ us[u].st = "tail"
  /\ owed[us[u].q] # t
  /\ us' = [us EXCEPT ![u].st = "end"]
  /\ Pop(t)
  /\ UNCHANGED <<mode, pend, loc, flag, owed, snap, ts>>

Settled ==
  /\ \A k \in DOMAIN ts : ts[k].st = "end"
  /\ \A u \in DOMAIN us : us[u].st = "end"
  /\ \A q \in QS : ~flag[q] /\ owed[q] = -1
  /\ \A t \in DOMAIN fr : fr[t] = <<>>

Internal ==
  \/ \E k \in DOMAIN ts : Enqueue(k)
  \/ \E q \in QS : Pick(q) \/ Decide(q)

OneAtATime == \A q \in QS : Cardinality({k \in DOMAIN ts : ts[k].q = q /\ ts[k].st = "run"}) <= 1
OneUnderlying ==
  \A q \in QS : Cardinality({u \in DOMAIN us : us[u].q = q /\ us[u].st \in {"sub", "run"}}) <= 1
NonEmptyIsStarted ==
  \A q \in QS : pend[q] # <<>> => flag[q]
IdleHasNone ==
  \A q \in QS : ~flag[q] => pend[q] = <<>> /\ loc[q] = <<>> /\ \A u \in DOMAIN us : us[u].q = q => us[u].st \in {"tail", "end"}
StateOK == OneAtATime /\ OneUnderlying /\ NonEmptyIsStarted /\ IdleHasNone
=============================================================================
