------------------------------ MODULE TimerMC ------------------------------
(* Every behaviour of Timer.tla for a few tasks: threads 1 and 2 submit tasks 1..K with any of some delays to
   the timer or through a delayed executor; the timer thread 3 starts them or hands them over, thread 4 runs
   what was handed over. Time does not pass over a task that is due.                                        *)
EXTENDS Timer, IOUtils
K == atoi(IOEnv.TIMER_TASKS)
Horizon == atoi(IOEnv.TIMER_HORIZON)
MCSlack == 1
DelaySet == {d \in {0, 2, 3} : d < Horizon}
VARIABLES now, hist     \* hist: task -> [called, returned, delay, ran: time it was run or handed over, -1]
h == <<now, hist>>
MCInit == Init /\ now = 0 /\ hist = <<>>
Idle(t) == Frames(t) = <<>>
NextU == Cardinality(DOMAIN us) + 1
Same == UNCHANGED hist
Keep == UNCHANGED h
First(k) == hist' = [hist EXCEPT ![k].ran = now] /\ UNCHANGED now
MCNext ==
  \/ \E t \in {1, 2}, k \in 1..K, d \in {-1, 0} : \E y \in DelaySet :
       /\ t = 2 - (k % 2) /\ Idle(t) /\ (k > 1 => k - 1 \in DOMAIN ts) /\ SubBegin(t, k, d, y, now)
       /\ hist' = (k :> [called |-> now, returned |-> -1, delay |-> y, ran |-> -1]) @@ hist /\ UNCHANGED now
  \/ \E t \in {1, 2}, k \in DOMAIN ts : SubEnd(t, k, now) /\ hist' = [hist EXCEPT ![k].returned = now] /\ UNCHANGED now
  \/ \E t \in {1, 2, 3} : /\ (t = 3 => Idle(3))
       /\ HandOver(t, NextU, 0, now) /\ First(us'[NextU].k)
  \/ \E t \in {1, 2, 3}, u \in DOMAIN us : HandedOver(t, u) /\ Keep
  \/ \E u \in DOMAIN us : Idle(4) /\ UnderBegin(4, u) /\ Keep
  \/ \E u \in DOMAIN us : UnderEnd(4, u) /\ Keep
  \/ \E k \in DOMAIN ts : Idle(3) /\ ts[k].d < 0 /\ RunBegin(3, k, now) /\ First(k)
  \/ \E k \in DOMAIN ts : ts[k].d >= 0 /\ RunBegin(4, k, now) /\ Keep
  \/ \E t \in {3, 4}, k \in DOMAIN ts : RunEnd(t, k) /\ Keep
  \/ /\ now < Horizon /\ (\A k \in DOMAIN ts : Waiting(k) /\ ts[k].hi >= 0 => now + 1 <= ts[k].hi + Slack)
     /\ now' = now + 1 /\ UNCHANGED <<vars, hist>>
MCSpec == MCInit /\ [][MCNext]_<<vars, h>>
NotEarly == \A k \in DOMAIN hist : hist[k].ran >= 0 => hist[k].ran >= hist[k].called + hist[k].delay
NotLate == \A k \in DOMAIN hist : hist[k].ran >= 0 /\ hist[k].returned >= 0 /\ hist[k].returned <= hist[k].ran
               => hist[k].ran <= hist[k].returned + hist[k].delay + Slack
DueOrder == \* both pending, one certainly due first: it was not passed over
  \A j, k \in DOMAIN hist :
     hist[k].ran >= 0 /\ ~ts[k].zero /\ ~ts[j].zero /\ hist[j].returned >= 0 /\ hist[j].returned + hist[j].delay < hist[k].called + hist[k].delay
       /\ hist[j].ran < 0 => hist[j].returned > hist[k].ran - 1
AllDone == Settled /\ DOMAIN ts = 1..K
Progress == now = Horizon \/ AllDone \/ ENABLED MCNext
Ends == now = Horizon => \A k \in DOMAIN ts : ts[k].hi >= 0 /\ ts[k].hi + Slack < now => ~Waiting(k)
=============================================================================
