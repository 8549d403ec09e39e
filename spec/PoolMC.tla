------------------------------- MODULE PoolMC -------------------------------
(* Every behaviour of Pool.tla for a few tasks. The main thread 0 and thread 9 submit tasks 1..K; task 1
   submits task 11, and waits for it if WAIT is set; handlers are registered and pre_exit is called if EXIT
   is set. What E01-E04 say is stated over a history of what was seen.                                       *)
EXTENDS Pool, IOUtils
K == atoi(IOEnv.POOL_TASKS)
Cores == atoi(IOEnv.POOL_CORES)
WAIT == IOEnv.POOL_MODE = "wait"
EXIT == IOEnv.POOL_MODE = "exit"
Workers == 1..(IF WAIT THEN 3 ELSE nq)
Submitters == IF EXIT THEN {0} ELSE {0, 9}
VARIABLES
  seq,     \* pushes, in order: <<task, priority, queue>>
  took,    \* takes, in order: [k, left: what stayed in that queue]
  ran,     \* tasks in the order they began
  hran,    \* handlers in the order they began
  hreg,    \* handlers in the order of their registration, with how many had begun then
  exited   \* tasks submitted before pre_exit began, once it has returned
h == <<seq, took, ran, hran, hreg, exited>>
MCInit ==
  /\ ord = TRUE /\ nq = (IF Cores <= 2 THEN 1 ELSE Cores - 1)
  /\ limit = (IF WAIT THEN 9 ELSE nq)
  /\ ts = <<>> /\ pq = <<>> /\ fr = <<>> /\ hd = <<>> /\ hp = {} /\ hn = <<>> /\ fl = {} /\ must = {}
  /\ seq = <<>> /\ took = <<>> /\ ran = <<>> /\ hran = <<>> /\ hreg = <<>> /\ exited = {}
Idle(t) == Frames(t) = <<>>
Nested == 11
Done == \E i \in 1..1 : exited # {}
PreSeen == must # {} \/ exited # {}
Step1 == UNCHANGED h
MCNext ==
  \/ \E t \in Submitters, k \in 1..K : Idle(t) /\ ~PreSeen /\ k \notin DOMAIN ts /\ (k > 1 => (EXIT => k - 1 \in DOMAIN ts))
        /\ (\E x \in (IF EXIT \/ WAIT THEN {"p"} ELSE {"l", "p", "h"}) : SubBegin(t, k, x)) /\ Step1
  \/ \E t \in Workers : Top(t) = <<"run", 1>> /\ SubBegin(t, Nested, "p") /\ Step1
  \/ \E k \in DOMAIN ts, i \in 1..nq : Enqueue(k, i) /\ seq' = Append(seq, <<k, ts[k].pr, i>>) /\ UNCHANGED <<took, ran, hran, hreg, exited>>
  \/ \E t \in {0, 9} \cup Workers, k \in DOMAIN ts : SubEnd(t, k) /\ Step1
  \/ \E j \in 1..Len(pq) : Take(j) /\ took' = Append(took, [k |-> pq[j][1], left |-> {pq[i][1] : i \in {i \in 1..Len(pq) : i # j /\ pq[i][3] = pq[j][3]}}])
        /\ UNCHANGED <<seq, ran, hran, hreg, exited>>
  \/ \E t \in Workers, k \in DOMAIN ts : RunBegin(t, k) /\ ran' = Append(ran, k) /\ UNCHANGED <<seq, took, hran, hreg, exited>>
  \/ \E t \in Workers : WAIT /\ Top(t) = <<"run", 1>> /\ Nested \in DOMAIN ts /\ ts[Nested].st # "calling" /\ ~(\E i \in 1..Len(seq) : seq[i][1] = 99)
        /\ AwaitBegin(t, Nested) /\ seq' = Append(seq, <<99, 0, 0>>) /\ UNCHANGED <<took, ran, hran, hreg, exited>>
  \/ \E t \in Workers : AwaitEnd(t, Nested) /\ Step1
  \/ \E t \in Workers, k \in DOMAIN ts : RunEnd(t, k)
        /\ (k = 1 => Nested \in DOMAIN ts /\ ts[Nested].st # "calling" /\ (WAIT => ts[Nested].st = "end")) /\ Step1
  \/ /\ EXIT
     /\ \/ \E x \in 1..2 : Idle(0) /\ ~PreSeen /\ x \notin hp /\ ~(\E i \in 1..Len(hreg) : hreg[i][1] = x) /\ (x = 2 => \E i \in 1..Len(hreg) : hreg[i][1] = 1)
             /\ AtBegin(0, x) /\ Step1
        \/ Top(0) = <<"h", 2>> /\ 3 \notin hp /\ ~(\E i \in 1..Len(hreg) : hreg[i][1] = 3) /\ AtBegin(0, 3) /\ Step1
        \/ \E x \in hp : Register(x) /\ hreg' = Append(hreg, <<x, Len(hran)>>) /\ UNCHANGED <<seq, took, ran, hran, exited>>
        \/ \E x \in 1..3 : AtEnd(0, x) /\ Step1
        \/ Idle(0) /\ ~PreSeen /\ Len(hreg) = 2 /\ hp = {} /\ (\A k \in 1..K : k \in DOMAIN ts) /\ PreBegin(0) /\ Step1
        \/ PopHandler /\ Step1
        \/ \E x \in 1..3 : HandlerBegin(0, x) /\ hran' = Append(hran, x) /\ UNCHANGED <<seq, took, ran, hreg, exited>>
        \/ \E x \in 1..3 : (x = 2 => \E i \in 1..Len(hreg) : hreg[i][1] = 3) /\ HandlerEnd(0, x) /\ Step1
        \/ PreEnd(0, 0) /\ exited' = must /\ UNCHANGED <<seq, took, ran, hran, hreg>>
MCSpec == MCInit /\ [][MCNext]_<<vars, h>>

At(k) == CHOOSE i \in 1..Len(seq) : seq[i][1] = k
Ran == {ran[i] : i \in 1..Len(ran)}
All == (1..K) \cup {Nested}
\* E01
Once == Cardinality(Ran) = Len(ran)
\* E02
Priority == \A i \in 1..Len(took) : \A j \in took[i].left :
   LET a == seq[At(took[i].k)] b == seq[At(j)] IN b[2] < a[2] \/ (b[2] = a[2] /\ At(took[i].k) < At(j))
\* E04: what was registered later and before, goes first
Lifo == \A i, j \in 1..Len(hran) : i < j =>
   LET R(x) == CHOOSE k \in 1..Len(hreg) : hreg[k][1] = x IN
   R(hran[i]) > R(hran[j]) \/ hreg[R(hran[j])][2] >= i
HandlersOnce == Cardinality({hran[i] : i \in 1..Len(hran)}) = Len(hran)
Drained == \A k \in exited : ts[k].st = "end"
AllDone == Settled /\ DOMAIN ts = All /\ (EXIT => exited # {} /\ Len(hran) = 3 /\ hran = <<2, 3, 1>>)
Progress == AllDone \/ ENABLED MCNext
=============================================================================
