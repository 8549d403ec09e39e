-------------------------------- MODULE Timer --------------------------------
(* The system timer and delayed executors.  Time is the virtual time of the  *)
(* scheduler, in microseconds; it advances when nothing else can happen, and *)
(* by one whenever a clock is read.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Slack     \* allowance for clock readings
VARIABLES
  ts,    \* task -> [st, lo, hi, d, at]: due in lo..hi, through delayed executor d (-1: timer), pushed at position
  us,    \* hand-over to a target executor -> [d, k, st]
  fr,    \* thread -> stack of frames
  dl     \* delayed executor -> delay
vars == <<ts, us, fr, dl>>
Init == ts = <<>> /\ us = <<>> /\ fr = <<>> /\ dl = <<>>
Frames(t) == IF t \in DOMAIN fr THEN fr[t] ELSE <<>>
Top(t) == LET f == Frames(t) IN IF f = <<>> THEN <<"none", 0>> ELSE f[Len(f)]
Push(t, x) == fr' = (t :> Append(Frames(t), x)) @@ fr
Pop(t) == fr' = (t :> SubSeq(Frames(t), 1, Len(Frames(t)) - 1)) @@ fr

Delays(d) == dl' = d /\ UNCHANGED <<ts, us, fr>>
\* d: index of the delayed executor, or -1 with the delay given
SubBegin(t, k, d, delay, w) ==
  /\ k \notin DOMAIN ts
  /\ ts' = (k :> [st |-> "calling", lo |-> w + delay, hi |-> -1, d |-> d, zero |-> (d >= 0 /\ delay = 0), delay |-> delay]) @@ ts
  /\ Push(t, <<"sub", k>>)
  /\ UNCHANGED <<us, dl>>
SubEnd(t, k, w) ==
  /\ Top(t) = <<"sub", k>>
  /\ ts[k].zero => ts[k].st # "calling"                 \* handed over before the call returns
  /\ ts' = [ts EXCEPT ![k].st = IF @ = "calling" THEN "pending" ELSE @, ![k].hi = w + ts[k].delay]
  /\ Pop(t)
  /\ UNCHANGED <<us, dl>>

\* may k be started (or handed over) at time w?
Waiting(k) == ts[k].st \in {"calling", "pending"}
Due(k, w) ==
  /\ w >= ts[k].lo
  \* whoever is certainly due earlier and was certainly pending goes first
  /\ ~ts[k].zero =>
       \A j \in DOMAIN ts : j # k /\ ts[j].st = "pending" /\ ~ts[j].zero => ~(ts[j].hi < ts[k].lo)
  /\ ts[k].hi >= 0 => w <= ts[k].hi + Slack             \* and is not late

HandOver(t, u, d, w) ==
  /\ u \notin DOMAIN us
  /\ \E k \in DOMAIN ts :
       /\ ts[k].d = d /\ Waiting(k) /\ Due(k, w)
       /\ ts[k].zero => Top(t) = <<"sub", k>>
       /\ ts' = [ts EXCEPT ![k].st = "over"]
       /\ us' = (u :> [d |-> d, k |-> k, st |-> "sub"]) @@ us
  /\ Push(t, <<"us", u>>)
  /\ UNCHANGED dl
HandedOver(t, u) == Top(t) = <<"us", u>> /\ Pop(t) /\ UNCHANGED <<ts, us, dl>>
UnderBegin(t, u) ==
  /\ u \in DOMAIN us /\ us[u].st = "sub"
  /\ us' = [us EXCEPT ![u].st = "run"] /\ Push(t, <<"ur", u>>) /\ UNCHANGED <<ts, dl>>
UnderEnd(t, u) ==
  /\ Top(t) = <<"ur", u>> /\ ts[us[u].k].st = "end"
  /\ us' = [us EXCEPT ![u].st = "end"] /\ Pop(t) /\ UNCHANGED <<ts, dl>>
RunBegin(t, k, w) ==
  /\ k \in DOMAIN ts
  /\ IF ts[k].d < 0 THEN Waiting(k) /\ Due(k, w)
     ELSE ts[k].st = "over" /\ Top(t)[1] = "ur" /\ us[Top(t)[2]].k = k
  /\ ts' = [ts EXCEPT ![k].st = "run"] /\ Push(t, <<"run", k>>) /\ UNCHANGED <<us, dl>>
RunEnd(t, k) ==
  /\ Top(t) = <<"run", k>>
  /\ ts' = [ts EXCEPT ![k].st = "end"] /\ Pop(t) /\ UNCHANGED <<us, dl>>
Settled ==
  /\ \A k \in DOMAIN ts : ts[k].st = "end"
  /\ \A u \in DOMAIN us : us[u].st = "end"
  /\ \A t \in DOMAIN fr : fr[t] = <<>>
OnceEach == \A u, v \in DOMAIN us : u # v => us[u].k # us[v].k
StateOK == OnceEach
=============================================================================
