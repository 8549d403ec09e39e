------------------------------- MODULE Reverse -------------------------------
(* algorithm/reverse.hpp and iterator/set_next.hpp.

   arr is a sequence that reverse_until works on, step by step as an algorithm would (f, m, l are the gaps
   between elements, as iterators are); next and prev are the links of nodes, 0 the end of all lists.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxLen, Nodes
VARIABLES part, arr, f, m, l, start, next, prev, path
vars == <<part, arr, f, m, l, start, next, prev, path>>
None == -1
All == Nodes \cup {0}

\* ------------------------------------------------------------ sequences
Less(a, b) == IF a < b THEN a ELSE b
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
More == f # m /\ m # l
StepUntil == /\ part = "until" /\ More
             /\ arr' = Swap(arr, f + 1, l) /\ f' = f + 1 /\ l' = l - 1
             /\ UNCHANGED <<part, m, start, next, prev, path>>
\* what has been promised, of the whole and not of the steps
Result(s, a, b, c) ==
  LET k == Less(b - a, c - b)
  IN [i \in 1..Len(s) |-> IF i <= a \/ i > c THEN s[i]
                          ELSE IF i <= a + k \/ i > c - k THEN s[a + c + 1 - i] ELSE s[i]]
Until == part = "until" /\ ~More =>
           /\ arr = Result(start[1], start[2], m, start[3])
           /\ f = start[2] + Less(m - start[2], start[3] - m)
           /\ l = start[3] - Less(m - start[2], start[3] - m)
           /\ f = m \/ l = m

\* ------------------------------------------------------------ nodes
RECURSIVE Chain(_, _, _)
Chain(nx, a, b) == IF a = b THEN <<>> ELSE <<a>> \o Chain(nx, nx[a], b)   \* [a, b)
RECURSIVE Tail0(_, _)
Tail0(nx, a) == IF a = 0 THEN {0} ELSE {a} \cup Tail0(nx, nx[a])           \* what can be reached
\* the links of s one after the other, then end
Links(s) == {<<s[i], s[i + 1]>>: i \in 1..Len(s) - 1}
Linked(S) == /\ next' = [n \in Nodes |-> IF \E e \in S: e[1] = n THEN (CHOOSE e \in S: e[1] = n)[2] ELSE next[n]]
             /\ prev' = [n \in All |-> IF \E e \in S: e[2] = n THEN (CHOOSE e \in S: e[2] = n)[1] ELSE prev[n]]
NextOf(S) == [n \in Nodes |-> IF \E e \in S: e[1] = n THEN (CHOOSE e \in S: e[1] = n)[2] ELSE next[n]]
Acyclic(nx) == LET R[k \in 0..Cardinality(Nodes)] == IF k = 0 THEN {0} ELSE R[k - 1] \cup {n \in Nodes: nx[n] \in R[k - 1]}
               IN R[Cardinality(Nodes)] = All
\* the new links of an operation, and what it returns
Does(o) ==
  CASE o[1] \in {"append", "append_range"} ->
         LET c == Chain(next, o[2], o[3])  r == Reverse(c)
         IN [e |-> IF c = <<>> THEN {} ELSE Links(r \o <<o[4]>>), r |-> IF c = <<>> THEN o[4] ELSE r[1]]
    [] o[1] \in {"nodes", "nodes_range"} ->
         LET c == Chain(next, o[2], o[3])  r == Reverse(c)
         IN [e |-> IF c = <<>> THEN {} ELSE Links(r \o <<o[3]>>), r |-> IF c = <<>> THEN o[3] ELSE r[1]]
    [] o[1] = "splice" -> [e |-> {<<o[2], o[3]>>, <<o[4], next[o[2]]>>}, r |-> 0]
    [] o[1] = "skip_next" -> [e |-> {<<o[2], next[next[o[2]]]>>}, r |-> 0]
    [] o[1] = "skip" -> [e |-> {<<prev[o[2]], next[o[2]]>>}, r |-> 0]
    [] o[1] = "link" -> [e |-> {<<o[2], o[3]>>}, r |-> 0]
Pairs == {<<a, b>> \in All \X All: b \in Tail0(next, a)}
Ops == {<<k, p[1], p[2], e>>: k \in {"append", "append_range"}, p \in Pairs, e \in All}
  \cup {<<k, p[1], p[2], 0>>: k \in {"nodes", "nodes_range"}, p \in Pairs}
  \cup {<<"splice", x, p[1], p[2]>>: x \in Nodes, p \in {q \in Pairs: q[2] # 0}}
  \cup {<<"skip_next", x, 0, 0>>: x \in {y \in Nodes: next[y] # 0}}
  \cup {<<"skip", x, 0, 0>>: x \in {y \in Nodes: prev[y] # None}}
  \cup {<<"link", x, y, 0>>: x \in Nodes, y \in All}
Fits(o) == /\ o[1] \in {"append", "append_range"} => ~\E i \in 1..Len(Chain(next, o[2], o[3])): Chain(next, o[2], o[3])[i] = o[4]
           /\ o[1] = "splice" => o[2] # o[4]
           /\ Acyclic(NextOf(Does(o).e))
Valids == {o \in Ops: Fits(o)}
StepNodes == /\ part = "nodes"
             /\ \E o \in Valids: Linked(Does(o).e) /\ path' = Append(path, o)
             /\ UNCHANGED <<part, arr, f, m, l, start>>
\* reversing twice is nothing; what is not asked for stays
Touches == [][\A n \in Nodes: next'[n] # next[n] =>
                LET o == path'[Len(path')] IN
                CASE o[1] \in {"append", "append_range", "nodes", "nodes_range"} -> n \in {Chain(next, o[2], o[3])[i]: i \in 1..Len(Chain(next, o[2], o[3]))}
                  [] o[1] = "splice" -> n \in {o[2], o[4]}
                  [] o[1] = "skip" -> n = prev[o[2]]
                  [] OTHER -> n = o[2]]_vars

NoNodes == next = [n \in Nodes |-> 0] /\ prev = [n \in All |-> None]
InitUntil == /\ part = "until" /\ NoNodes /\ path = <<>>
             /\ \E n \in 0..MaxLen: arr = [i \in 1..n |-> i] /\ f \in 0..n /\ m \in f..n /\ l \in m..n
             /\ start = <<arr, f, l>>
InitNodes == /\ part = "nodes" /\ arr = <<>> /\ f = 0 /\ m = 0 /\ l = 0 /\ start = <<>> /\ path = <<>>
             /\ next = [n \in Nodes |-> IF n + 1 \in Nodes THEN n + 1 ELSE 0]
             /\ prev = [n \in All |-> IF n = 0 THEN Cardinality(Nodes) ELSE IF n - 1 \in Nodes THEN n - 1 ELSE None]
Init == InitUntil \/ InitNodes
Next == StepUntil \/ StepNodes
Spec == Init /\ [][Next]_vars
=============================================================================
