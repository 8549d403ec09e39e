----------------------------- MODULE ChannelMC -----------------------------
(* Every behaviour of Channel.tla for small networks (CH_NET): a user makes the nodes, sends CH_SENDS values into the
   heads (CH_ERR of them errors; several sends may be under way at once), makes the ends ready in any order (CH_DROP:
   or drops some), closes the senders, and at last lets everything go.  What C01..C07 say is stated over a history
   of what was sent, what each process was given and what it made of that.                                      *)
EXTENDS Channel, IOUtils, SequencesExt
K == atoi(IOEnv.CH_SENDS)
Errs == atoi(IOEnv.CH_ERR)
Drops == IOEnv.CH_DROP = "1"
Node(n, k, in, bs) == [n |-> n, k |-> k, in |-> in, bs |-> bs, ex |-> 1, v |-> IF k = "sink" THEN 1 ELSE 0, to |-> 0, dl |-> 0, ref |-> 0, c |-> 0]
B == atoi(IOEnv.CH_BUFFER)
One(k) == <<Node(1, "head", <<>>, 0), Node(2, k, <<1>>, B), Node(3, "sink", <<2>>, B)>>
Two(k) == <<Node(1, "head", <<>>, 0), Node(2, "head", <<>>, 0), Node(3, k, <<1, 2>>, B), Node(4, "sink", <<3>>, 0)>>
Fork == <<Node(1, "head", <<>>, 0), Node(2, "fn", <<1>>, B), Node(3, "sink", <<2>>, B), Node(4, "sink", <<2>>, B)>>
Net == LET x == IOEnv.CH_NET IN
       IF x \in {"fn", "ay", "ayc", "aye"} THEN One(x) ELSE IF x = "fork" THEN Fork ELSE Two(x)
N == Len(Net)
Heads0 == {i \in 1..N : Net[i].k = "head"}
Procs == 1..N \ Heads0
First0 == Cardinality(Heads0) + 1        \* the process that reads the heads
VARIABLES
  ph,      \* what the user has done: 0 nothing, 1..N made so many, N + 1 at work, N + 2 has let everything go
  call,    \* send -> [h, v, after: the sends that had returned when it began]
  back,    \* sends that have returned
  got,     \* node -> messages in order
  made0,   \* node -> values it has emitted
  closes   \* node -> times it was told of the end
h == <<ph, call, back, got, made0, closes>>
MCInit == /\ Init /\ ph = 0 /\ call = <<>> /\ back = {} /\ got = [n \in 1..N |-> <<>>]
          /\ made0 = [n \in 1..N |-> <<>>] /\ closes = [n \in 1..N |-> 0]
Work == ph = N + 1
NErr == Cardinality({i \in DOMAIN call : call[i].v < 0})
Got(n, a) == got' = [got EXCEPT ![n] = Append(@, a)] /\ UNCHANGED <<ph, call, back, made0, closes>>
Out(n, v) == made0' = [made0 EXCEPT ![n] = IF v = 0 THEN @ ELSE Append(@, v)] /\ UNCHANGED <<ph, call, back, got, closes>>
Same == UNCHANGED h
Val(n) == 100 * n + Len(made0[n])          \* values are told apart
User ==
  \/ ph = 0 /\ Network(Net) /\ ph' = 1 /\ UNCHANGED <<call, back, got, made0, closes>>
  \/ ph \in 1..N /\ Make(ph, 0) /\ ph' = ph + 1 /\ UNCHANGED <<call, back, got, made0, closes>>
  \/ Work /\ Same /\ (\E r \in DOMAIN rs : rs[r].st = "live" /\ SlotReady(r))
  \/ Work /\ Same /\ Drops /\ (\E r \in DOMAIN rs : rs[r].st = "live" /\ rs[r].n \in Procs /\ SlotDrop(r))
  \/ Work /\ Cardinality(DOMAIN call) < K /\ (\E s \in Heads0 :
       LET i == Cardinality(DOMAIN call) + 1 IN
       /\ ss[s].st = "open"
       /\ \E v \in {i} \cup (IF NErr < Errs THEN {-i} ELSE {}) :
          /\ Send(s, s, i, v)
          /\ call' = Append(call, [h |-> s, v |-> v, after |-> back])
          /\ UNCHANGED <<ph, back, got, made0, closes>>)
  \/ \E i \in DOMAIN call : i \notin back /\ SendEnd(call[i].h, i) /\ back' = back \cup {i} /\ UNCHANGED <<ph, call, got, made0, closes>>
  \/ Work /\ Same /\ (\E s \in Heads0 : ss[s].st = "open" /\ SenderClose(s))
AllSent == DOMAIN call = back
Code ==
  \/ \E n \in made \ Heads0 : \E I \in TakesFrom(n) : \E a \in Messages(n, I) : CallBegin(n, a, 1) /\ Got(n, a)
  \/ \E n \in made \ Heads0 : LET v == IF NoOut(n) THEN 0 ELSE Val(n) IN CallEnd(n, v) /\ Out(n, v)
  \/ \E n \in made \ Heads0 : NErr < Errs /\ ~NoOut(n) /\ CallEnd(n, -Val(n)) /\ Out(n, -Val(n))
  \/ \E n \in made \ Heads0 : \E I \in TakesFrom(n) : \E a \in Messages(n, I) : AwaitBegin(n, a, 1) /\ Got(n, a)
  \/ \E n \in made \ Heads0 : \E s \in {0, 1} : AwaitEnd(n, 0, s, 0) /\ Same
  \/ \E n \in made \ Heads0 : YieldBegin(n, 1, 0) /\ Same
  \/ \E n \in made \ Heads0 : YieldEnd(n, Val(n), 0, 0) /\ Out(n, Val(n))
  \/ \E n \in made \ Heads0 : CloseBegin(n, 1) /\ closes' = (IF n \in closed' THEN [closes EXCEPT ![n] = @ + 1] ELSE closes) /\ UNCHANGED <<ph, call, back, got, made0>>
  \/ \E n \in made \ Heads0 : \E s \in {0, 1} : CloseEnd(n, s, 0) /\ Same
  \/ \E n \in made \ Heads0, v \in {-i : i \in 1..K} : ErrorBegin(n, v, 1) /\ Same
  \/ \E n \in made \ Heads0 : ErrorEnd(n, 0, 0) /\ Same
  \/ \E n \in made \ Heads0 : Destroy(n) /\ Same
  \/ Internal /\ Same
\* all that the user still could do is let go
Rest == Work /\ AllSent /\ Settled
LetGo == Work /\ AllSent /\ Stop({}) /\ ph' = N + 2 /\ UNCHANGED <<call, back, got, made0, closes>>
MCNext == User \/ Code \/ LetGo
MCSpec == MCInit /\ [][MCNext]_<<vars, h>>

Values(n) == FlattenSeq(got[n])             \* what n was given
Clear == NErr = 0 /\ \A n \in 1..N : \A i \in 1..Len(made0[n]) : made0[n][i] > 0
\* C01: nothing twice; in the order of the sends that did not overlap; what a process emits arrives in its order
NoDup == \A n \in Procs : IsInjective(Values(n)) \/ Net[n].k = "zipay"
Index(q, v) == CHOOSE i \in 1..Len(q) : q[i] = v
Fifo == LET q == Values(First0) IN
  \A i, j \in DOMAIN call : call[i].h = call[j].h /\ i \in call[j].after /\ call[j].v \in Range(q) =>
     call[i].v < 0 \/ (call[i].v \in Range(q) /\ Index(q, call[i].v) < Index(q, call[j].v))
Chain == \A n \in Procs : n > First0 => IsPrefix(Values(n), SelectSeq(made0[Net[n].in[1]], LAMBDA v : v > 0))
\* C01, C03: at rest, all started, whatever was sent while there was a sender has been handled
AllReady == \A r \in DOMAIN rs : rs[r].st = "ready"
Arrived == Rest /\ AllReady /\ Clear /\ Net[First0].k \in {"fn", "ay", "ayc", "aye", "un"} =>
  /\ \A i \in DOMAIN call : call[i].v \in Range(Values(First0))
  /\ \A n \in Procs : n > First0 => Len(got[n]) = Len(made0[Net[n].in[1]])
\* C02: one invocation at a time is how `op` is made; an invocation that began has ended at rest
Ended0 == Rest => \A n \in Procs : n \in dead \/ op[n] = "idle"
\* C03: nothing is handled before everything below is ready (or gone)
NotBefore == \A n \in Procs : got[n] # <<>> /\ ph = N + 1 => Started(n) \/ ~Drops
\* C04: the end is told once, at the end, and always
CloseOnce == \A n \in Procs : closes[n] <= 1
CloseLast == [][\A n \in Procs : closes[n] = 1 => got'[n] = got[n]]_<<vars, h>>
\* (a message without its counterpart stays for ever, and its channel does not end)
Even == Net[First0].k = "zipay" => Cardinality({i \in DOMAIN call : call[i].h = 1}) * 2 = Cardinality(DOMAIN call)
CloseTold == Rest /\ AllReady /\ Clear /\ (\A s \in Heads0 : ss[s].st = "closed") /\ Even => \A n \in Procs : HasClose(n) => closes[n] = 1
\* C06
Pos0(i) == Cardinality({j \in 1..i : call[j].h = call[i].h})
MergeOrder == LET k == Net[First0].k  q == got[First0] IN
  /\ k = "rr" => \A i \in 1..Len(q) : LET v == q[i][1] IN call[v].h = 2 - (i % 2)
  /\ k \in {"zip", "zipay"} => \A i \in 1..Len(q) : \A j \in 1..2 : q[i][j] > 0 => call[q[i][j]].h = j
\* C07: no more waits below a process than the buffer holds (one may be on its way in)
Buffers == \A n \in made : \A m \in LiveKids(n) : ~IsHead(n) /\ cfg[m].bs > 0 => Unread(n, m) <= cfg[m].bs + 1
\* C09: processes go once everything has been let go
Gone == ph = N + 2 /\ Settled /\ \A n \in Procs : n \in dead
Progress == Gone \/ ENABLED MCNext
=============================================================================
