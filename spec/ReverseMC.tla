----------------------------- MODULE ReverseMC -----------------------------
EXTENDS Reverse, Json, IOUtils
Len0 == atoi(IOEnv.REV_LEN)
Count == 1..atoi(IOEnv.REV_NODES)
View == IF part = "nodes" THEN <<next>> ELSE <<arr, f, m, l, start>>
Seqn(x) == [n \in 1..Cardinality(Nodes) |-> x[n]]
Row(o) == LET d == Does(o)  nx == NextOf(d.e)
              pv == [n \in All |-> IF \E e \in d.e: e[2] = n THEN (CHOOSE e \in d.e: e[2] = n)[1] ELSE prev[n]]
          IN <<o, d.r, Seqn(nx), <<pv[0]>> \o Seqn(pv)>>
Line == IF part = "nodes"
          THEN LET os == SetToSeq(Valids)
               IN [part |-> part, path |-> path, next |-> Seqn(next), prev |-> <<prev[0]>> \o Seqn(prev), ops |-> [k \in 1..Len(os) |-> Row(os[k])]]
          ELSE [part |-> part, path |-> <<start[1], <<start[2], m, start[3]>>>>, arr |-> arr, f |-> f, l |-> l]
Emit == (part = "nodes" \/ ~More) => PrintT(ToJson(Line))
=============================================================================
