---------------------------- MODULE ChannelTrace ----------------------------
EXTENDS Channel, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr].ev
E == T[l]
tvars == <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, rs, ss, dead, tr, l>>
TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
Is(x) == l <= Len(T) /\ E.e = x

Consume ==
  \/ Is("start") /\ Network(E.nodes)
  \/ Is("mk") /\ Make(E.n, E.w)
  \/ Is("mke") /\ UNCHANGED vars
  \/ Is("sb") /\ Send(E.s, E.h, E.i, E.v)
  \/ Is("se") /\ SendEnd(E.h, E.i)
  \/ Is("cs") /\ SenderCopy(E.s, E.d)
  \/ Is("ms") /\ SenderMove(E.s, E.d)
  \/ Is("slb") /\ SenderClose(E.s)
  \/ Is("sle") /\ UNCHANGED vars
  \/ Is("rdb") /\ SlotReady(E.r)
  \/ Is("rde") /\ UNCHANGED vars
  \/ Is("drb") /\ SlotDrop(E.r)
  \/ Is("dre") /\ UNCHANGED vars
  \/ Is("cr") /\ SlotCopy(E.r, E.d)
  \/ Is("mr") /\ SlotMove(E.r, E.d)
  \/ Is("att") /\ Misuse(E.r, E.c)
  \/ Is("fb") /\ FreeBuffer(E.s, E.c, E.q)
  \/ Is("cb") /\ CallBegin(E.n, E.a, E.x)
  \/ Is("ce") /\ CallEnd(E.n, E.v)
  \/ Is("ab") /\ AwaitBegin(E.n, E.a, E.x)
  \/ Is("ae") /\ AwaitEnd(E.n, E.v, E.s, E.w)
  \/ Is("yb") /\ YieldBegin(E.n, E.x, E.w)
  \/ Is("ye") /\ YieldEnd(E.n, E.v, E.s, E.w)
  \/ Is("kb") /\ CloseBegin(E.n, E.x)
  \/ Is("ke") /\ CloseEnd(E.n, E.s, E.w)
  \/ Is("eb") /\ ErrorBegin(E.n, E.v, E.x)
  \/ Is("ee") /\ ErrorEnd(E.n, E.s, E.w)
  \/ Is("pd") /\ Destroy(E.n)
  \/ Is("q") /\ Settled /\ (Nothing /\ ~Keeps => E.lv = 0) /\ UNCHANGED vars
  \/ Is("stop") /\ Stop({E.kp[i] : i \in 1..Len(E.kp)})
  \/ Is("end") /\ E.lv = 0 /\ E.lp = 0 /\ UNCHANGED vars

TraceNext ==
  \/ Consume /\ l' = l + 1 /\ tr' = tr
  \/ l <= Len(T) /\ Internal /\ UNCHANGED <<tr, l>>

ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..Len(Traces) |-> 0])
Book ==
  /\ tr \notin TLCGet(1)
  /\ TypeOK
  /\ IF TLCGet(2)[tr] < l THEN TLCSet(2, [TLCGet(2) EXCEPT ![tr] = l]) ELSE TRUE
  /\ IF l > Len(T) THEN TLCSet(1, TLCGet(1) \cup {tr}) ELSE TRUE
Report ==
  \A i \in 1..Len(Traces) :
     i \in TLCGet(1) \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(2)[i]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
