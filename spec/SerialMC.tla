------------------------------ MODULE SerialMC ------------------------------
(* Every behaviour of Serial.tla for a few tasks: submitters 1..S hand in tasks 1..K (task k to queue k mod
   queues), which may submit another one when they run; threads 11.. run what the executor was given.
   What E05 and E06 say is stated over a history of what was seen, independently of how Serial.tla works.   *)
EXTENDS Serial, IOUtils
K == atoi(IOEnv.SERIAL_TASKS)
Q == atoi(IOEnv.SERIAL_QUEUES)
Runners == {11, 12}
Submitters == {1, 2}
VARIABLES
  called,   \* call -> set of calls that had returned when it began
  ended,    \* calls that have returned
  began,    \* tasks in the order they began
  done      \* tasks that have ended
h == <<called, ended, began, done>>
MCInit == /\ mode \in [QS -> {"single", "all"}] /\ \A q \in QS : q >= Q => mode[q] = "single"
          /\ pend = [q \in QS |-> <<>>] /\ loc = [q \in QS |-> <<>>]
          /\ flag = [q \in QS |-> FALSE] /\ owed = [q \in QS |-> -1] /\ snap = [q \in QS |-> FALSE]
          /\ us = <<>> /\ ts = <<>> /\ fr = <<>>
          /\ called = <<>> /\ ended = {} /\ began = <<>> /\ done = {}
QueueOf(k) == k % Q
Nested(k) == 10 + k       \* task 1 submits 11 when it runs
Idle(t) == Frames(t) = <<>>
MayCall(t, k) ==
  \/ t \in Submitters /\ Idle(t) /\ k \in 1..K
  \/ k = Nested(1) /\ Top(t) = <<"run", 1>>
NextU == Cardinality(DOMAIN us) + 1
T == Runners \cup Submitters
MCNext ==
  \/ \E t \in T : \E k \in (1..K) \cup {11} :
       /\ k \notin DOMAIN ts /\ MayCall(t, k) /\ SubBegin(t, k, QueueOf(k % 10))
       /\ called' = (k :> ended) @@ called /\ UNCHANGED <<ended, began, done>>
  \/ \E t \in T : \E k \in DOMAIN ts : SubEnd(t, k) /\ ended' = ended \cup {k} /\ UNCHANGED <<called, began, done>>
  \/ \E t \in T, q \in 0..Q - 1 : UnderSubmit(t, NextU, q) /\ UNCHANGED h
  \/ \E t \in T, u \in DOMAIN us : (UnderSubmitted(t, u) \/ (UnderEnd(t, u) /\ TRUE)) /\ UNCHANGED h
  \* an executor runs it on a thread of its own, or (immediate) within the submission
  \/ \E t \in Runners, u \in DOMAIN us : Idle(t) /\ UnderBegin(t, u) /\ UNCHANGED h
  \/ \E t \in T, k \in DOMAIN ts : RunBegin(t, k) /\ began' = Append(began, k) /\ UNCHANGED <<called, ended, done>>
  \/ \E t \in T, k \in DOMAIN ts : (k = 1 => Nested(1) \in DOMAIN ts) /\ RunEnd(t, k) /\ done' = done \cup {k} /\ UNCHANGED <<called, ended, began>>
  \/ Internal /\ UNCHANGED h
MCSpec == MCInit /\ [][MCNext]_<<vars, h>>

Pos(k) == CHOOSE i \in 1..Len(began) : began[i] = k
Began == {began[i] : i \in 1..Len(began)}
All == (1..K) \cup {11}
\* E05
Once == Cardinality(Began) = Len(began)
Alone == \A j, k \in Began : QueueOf(j % 10) = QueueOf(k % 10) /\ j # k => j \in done \/ k \in done
InOrder ==  \* a submission that ended before another of the queue began goes first
  \A j, k \in Began : QueueOf(j % 10) = QueueOf(k % 10) /\ j \in called[k] => Pos(j) < Pos(k)
NoneOvertaken ==
  \A k \in Began : \A j \in called[k] : QueueOf(j % 10) = QueueOf(k % 10) => j \in Began
\* E06
Runs(q) == Cardinality({u \in DOMAIN us : us[u].q = q})
OnePerTask == \A q \in 0..Q - 1 :
  LET n == Cardinality({k \in DOMAIN ts : ts[k].q = q}) IN Runs(q) <= n
AllDone == done = All /\ Settled
SingleIsExact == AllDone => \A q \in 0..Q - 1 : mode[q] = "single" => Runs(q) = Cardinality({k \in DOMAIN ts : ts[k].q = q})
\* nothing gets stuck
Progress == AllDone \/ ENABLED MCNext
=============================================================================
