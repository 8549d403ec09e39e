----------------------------- MODULE TimerTrace -----------------------------
EXTENDS Timer, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr].ev
E == T[l]
tvars == <<ts, us, fr, dl, tr, l>>
TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
Is(x) == l <= Len(T) /\ E.e = x
IsX(x) == Is("sub") /\ E.xk = x

Consume ==
  \/ Is("start") /\ Delays(E.delays)
  \/ IsX("t") /\ SubBegin(E.t, E.k, -1, E.us, E.w)
  \/ IsX("d") /\ SubBegin(E.t, E.k, E.xi, dl[E.xi + 1], E.w)
  \/ Is("sube") /\ SubEnd(E.t, E.k, E.w)
  \/ Is("us") /\ HandOver(E.t, E.u, E.q - 100, E.w)
  \/ Is("use") /\ HandedOver(E.t, E.u)
  \/ Is("ub") /\ UnderBegin(E.t, E.u)
  \/ Is("ue") /\ UnderEnd(E.t, E.u)
  \/ Is("rb") /\ RunBegin(E.t, E.k, E.w)
  \/ Is("re") /\ RunEnd(E.t, E.k)
  \/ Is("td") /\ ts[E.k].st = "end" /\ UNCHANGED vars
  \/ Is("q") /\ Settled = TRUE /\ UNCHANGED vars
  \/ Is("end") /\ Settled = TRUE /\ UNCHANGED vars

TraceNext == Consume /\ l' = l + 1 /\ tr' = tr

ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..Len(Traces) |-> 0])
Book ==
  /\ tr \notin TLCGet(1)
  /\ StateOK
  /\ IF TLCGet(2)[tr] < l THEN TLCSet(2, [TLCGet(2) EXCEPT ![tr] = l]) ELSE TRUE
  /\ IF l > Len(T) THEN TLCSet(1, TLCGet(1) \cup {tr}) ELSE TRUE
Report ==
  \A i \in 1..Len(Traces) :
     i \in TLCGet(1) \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(2)[i]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
