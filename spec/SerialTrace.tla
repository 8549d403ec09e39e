---------------------------- MODULE SerialTrace ----------------------------
EXTENDS Serial, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr].ev
E == T[l]
tvars == <<mode, pend, loc, flag, owed, snap, us, ts, fr, tr, l>>
TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
Is(x) == l <= Len(T) /\ E.e = x

Consume ==
  \/ Is("start") /\ Modes(E.modes)
  \/ Is("sub") /\ SubBegin(E.t, E.k, E.xi)
  \/ Is("sube") /\ SubEnd(E.t, E.k)
  \/ Is("us") /\ UnderSubmit(E.t, E.u, E.q)
  \/ Is("use") /\ UnderSubmitted(E.t, E.u)
  \/ Is("ub") /\ UnderBegin(E.t, E.u)
  \/ Is("ue") /\ UnderEnd(E.t, E.u)
  \/ Is("rb") /\ RunBegin(E.t, E.k)
  \/ Is("re") /\ RunEnd(E.t, E.k)
  \/ Is("td") /\ ts[E.k].st = "end" /\ UNCHANGED vars
  \/ Is("q") /\ Settled = TRUE /\ UNCHANGED vars
  \/ Is("end") /\ Settled = TRUE /\ UNCHANGED vars

TraceNext ==
  \/ Consume /\ l' = l + 1 /\ tr' = tr
  \/ l <= Len(T) /\ Internal /\ UNCHANGED <<tr, l>>

ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..Len(Traces) |-> 0])
Book ==
  /\ tr \notin TLCGet(1)
  /\ StateOK
  /\ IF TLCGet(2)[tr] < l THEN TLCSet(2, [TLCGet(2) EXCEPT ![tr] = l]) ELSE TRUE
  /\ IF l > Len(T) THEN TLCSet(1, TLCGet(1) \cup {tr}) ELSE TRUE
Report ==
  \A i \in 1..Len(Traces) :
     i \in TLCGet(1) \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(2)[i]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
