------------------------------- MODULE Forest -------------------------------
(* stlab::forest: two forests of ordered trees and everything that edits them.

   A forest is the sequence of the edges of its nodes in full order: the leading edge <<n, 1>> of a node,
   the edges of its children, its trailing edge <<n, 0>>. A position is an edge, or the end <<0, 0>>.
   Every operation of the class is a transformation of these sequences.

   known[f] tells whether the size of f can be known without counting: it only serves to reach every forest
   with and without that knowledge.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC, Json

CONSTANT N                      \* nodes there are
VARIABLES w, val, known, path
vars == <<w, val, known, path>>

F == {1, 2}
Node == 1..N
End == <<0, 0>>

-----------------------------------------------------------------------------
At(W, p) == IF p <= Len(W) THEN W[p] ELSE End
Ins(W, p, S) == SubSeq(W, 1, p - 1) \o S \o SubSeq(W, p, Len(W))
Cut(W, i, j) == SubSeq(W, 1, i - 1) \o SubSeq(W, j, Len(W))        \* without i..j-1
Rem(W, S) == SelectSeq(W, LAMBDA e: e[1] \notin S)
Idx(W, e) == IF e = End THEN Len(W) + 1 ELSE CHOOSE i \in 1..Len(W): W[i] = e
Match(W, i) == Idx(W, <<W[i][1], 0>>)
Nodes(W) == {W[i][1]: i \in 1..Len(W)}
Leading(W) == {i \in 1..Len(W): W[i][2] = 1}
Pos(W) == 1..Len(W) + 1
Lead(S) == SelectSeq(S, LAMBDA e: e[2] = 1)

\* positions reached from i by going over siblings
RECURSIVE Over(_, _)
Over(W, i) == {i} \cup (IF i <= Len(W) /\ W[i][2] = 1 THEN Over(W, Match(W, i) + 1) ELSE {})
Siblings(W) == UNION {{<<i, j>>: j \in Over(W, i)}: i \in Pos(W)}

RECURSIVE Blocks(_)   \* the trees of a balanced sequence
Blocks(S) == IF S = <<>> THEN <<>>
             ELSE LET m == Match(S, 1) IN <<SubSeq(S, 1, m)>> \o Blocks(SubSeq(S, m + 1, Len(S)))

Free == Node \ (Nodes(w[1]) \cup Nodes(w[2]))
Least(S) == CHOOSE x \in S: \A y \in S: x <= y
New == Least(Free)
Leaf(x) == <<<<x, 1>>, <<x, 0>>>>

-----------------------------------------------------------------------------
\* a copy of the balanced sequence S: its nodes in order are the least free ones
RECURSIVE Take(_, _)
Take(S, k) == IF k = 0 THEN <<>> ELSE LET x == Least(S) IN <<x>> \o Take(S \ {x}, k - 1)
Fresh(S) == Take(Free, Cardinality(Nodes(S)))
NameOf(S, fresh, n) == fresh[Idx(Lead(S), <<n, 1>>)]
Copy(S) == LET fr == Fresh(S) IN [k \in 1..Len(S) |-> <<NameOf(S, fr, S[k][1]), S[k][2]>>]
CopyVal(S, C) == [n \in Node |-> IF n \in Nodes(C) THEN val[S[Idx(C, <<n, 1>>)][1]] ELSE val[n]]

\* operations: records with positions given as edges
Op(k, f, p, g, i, j) == [k |-> k, f |-> f, p |-> p, g |-> g, i |-> i, j |-> j]
Room(k) == Cardinality(Free) >= k
Size(W) == Len(W) \div 2
Outside(f, p, g, i, j) == f # g \/ p <= i \/ p >= j

Ops ==
  (IF Room(1) THEN
    {Op("insert", f, At(w[f], p), f, End, End): f \in F, p \in 1..2 * N + 1}
    \cup {Op(k, f, End, f, End, End): k \in {"push_front", "push_back"}, f \in F}
    \cup UNION {{Op(k, f, <<n, 1>>, f, End, End): k \in {"cpush_front", "cpush_back"}, n \in Nodes(w[f]) \cup {0}}: f \in F}
    \cup UNION {{Op("insert_parent", f, End, f, At(w[f], s[1]), At(w[f], s[2])): s \in Siblings(w[f])}: f \in F}
   ELSE {})
  \cup UNION {{Op("erase", f, e, f, End, End): e \in Range(w[f])}: f \in F}
  \cup UNION {{Op("erase_range", f, End, f, At(w[f], i), At(w[f], j)): i \in 1..j}: f \in F, j \in 1..2 * N + 1}
  \cup UNION {{Op("reverse", f, End, f, At(w[f], s[1]), At(w[f], s[2])): s \in Siblings(w[f])}: f \in F}
  \cup {Op(k, f, End, f, End, End): k \in {"pop_front", "pop_back"}, f \in {x \in F: w[x] # <<>>}}
  \cup UNION {{Op(k, f, <<n, 1>>, f, End, End): k \in {"cpop_front", "cpop_back"},
                n \in {m \in Nodes(w[f]) \cup {0}: IF m = 0 THEN w[f] # <<>>
                                                  ELSE Match(w[f], Idx(w[f], <<m, 1>>)) > Idx(w[f], <<m, 1>>) + 1}}: f \in F}
  \cup {Op("clear", f, End, f, End, End): f \in F}
  \cup {Op("size", f, End, f, End, End): f \in F}
  \cup {Op("splice_all", f, At(w[f], p), 3 - f, End, End): f \in F, p \in 1..2 * N + 1}
  \cup UNION {UNION {{Op("splice_one", f, At(w[f], p), g, w[g][i], End):
                  p \in {q \in Pos(w[f]): Outside(f, q, g, i, Match(w[g], i) + 1)}}:
             i \in Leading(w[g])}: f \in F, g \in F}
  \cup UNION {UNION {{Op(k, f, At(w[f], p), g, At(w[g], s[1]), At(w[g], s[2])):
                  p \in {q \in Pos(w[f]): Outside(f, q, g, s[1], s[2])}, k \in {"splice_range", "splice_count"}}:
             s \in Siblings(w[g])}: f \in F, g \in F}
  \cup UNION {UNION {{Op("copy_range", f, At(w[f], p), g, At(w[g], s[1]), At(w[g], s[2])):
                  p \in {q \in Pos(w[f]): f # g \/ q <= s[1] \/ q > s[2]}}:
             s \in {t \in Siblings(w[g]): Room((t[2] - t[1]) \div 2)}}: f \in F, g \in F}
  \cup {Op("copy", f, End, 3 - f, End, End): f \in {x \in F: Cardinality(Free) + Size(w[x]) >= Size(w[3 - x])}}
  \cup {Op(k, f, End, 3 - f, End, End): k \in {"move", "swap"}, f \in F}
  \cup {Op("move_self", f, End, f, End, End): f \in F}

Result(W, V, r, K) == [w |-> W, val |-> V, r |-> r, known |-> K]
One(f, W) == [w EXCEPT ![f] = W]
Splice(f, p, g, i, j, K) ==    \* indices
  LET S == SubSeq(w[g], i, j - 1)
      W == IF f = g
             THEN IF p <= i THEN Ins(Cut(w[f], i, j), p, S) ELSE Ins(Cut(w[f], i, j), p - (j - i), S)
             ELSE <<>>
  IN Result(IF f = g THEN One(f, W) ELSE [w EXCEPT ![f] = Ins(w[f], p, S), ![g] = Cut(w[g], i, j)],
            val, IF S = <<>> THEN At(w[f], p) ELSE S[1], K)
Insert(f, p) == Result(One(f, Ins(w[f], p, Leaf(New))), [val EXCEPT ![New] = New], <<New, 1>>, known)
Erase(f, i) ==
  LET n == w[f][i][1]
      after == IF w[f][i][2] = 1 /\ At(w[f], i + 1) = <<n, 0>> THEN At(w[f], i + 2) ELSE At(w[f], i + 1)
      W == Rem(w[f], {n})
  IN Result(One(f, W), val, after, [known EXCEPT ![f] = known[f] \/ W = <<>>])

FirstPos(f, n) == IF n = 0 THEN 1 ELSE Idx(w[f], <<n, 1>>) + 1        \* its first child
LastPos(f, n) == IF n = 0 THEN Len(w[f]) + 1 ELSE Idx(w[f], <<n, 0>>) \* behind its last child

Do(o) ==
  LET f == o.f  g == o.g
      p == Idx(w[f], o.p)
      i == Idx(w[g], o.i)
      j == Idx(w[g], o.j)
      unknown == [known EXCEPT ![f] = FALSE, ![g] = FALSE]
      free(K) == [x \in F |-> K[x]]
  IN CASE o.k = "insert" -> Insert(f, p)
       [] o.k = "push_front" -> [Insert(f, 1) EXCEPT !.r = End]
       [] o.k = "push_back" -> [Insert(f, Len(w[f]) + 1) EXCEPT !.r = End]
       [] o.k = "cpush_front" -> [Insert(f, FirstPos(f, o.p[1])) EXCEPT !.r = End]
       [] o.k = "cpush_back" -> [Insert(f, LastPos(f, o.p[1])) EXCEPT !.r = End]
       [] o.k = "insert_parent" ->
            Result(One(f, SubSeq(w[f], 1, i - 1) \o <<<<New, 1>>>> \o SubSeq(w[f], i, j - 1) \o <<<<New, 0>>>> \o SubSeq(w[f], j, Len(w[f]))),
                   [val EXCEPT ![New] = New], <<New, 1>>, known)
       [] o.k = "erase" -> Erase(f, p)
       [] o.k = "erase_range" ->
            LET in == SubSeq(w[f], i, j - 1)
                gone == {n \in Nodes(in): <<n, 0>> \in Range(in) /\ <<n, 1>> \in Range(in)}
                W == Rem(w[f], gone)
            IN Result(One(f, W), val, o.j, [known EXCEPT ![f] = known[f] \/ W = <<>>])
       [] o.k = "reverse" ->
            Result(One(f, SubSeq(w[f], 1, i - 1) \o FlattenSeq(Reverse(Blocks(SubSeq(w[f], i, j - 1)))) \o SubSeq(w[f], j, Len(w[f]))),
                   val, End, known)
       [] o.k = "pop_front" -> [Erase(f, 1) EXCEPT !.r = End]
       [] o.k = "pop_back" -> [Erase(f, Len(w[f])) EXCEPT !.r = End]
       [] o.k = "cpop_front" -> [Erase(f, FirstPos(f, o.p[1])) EXCEPT !.r = End]
       [] o.k = "cpop_back" -> [Erase(f, LastPos(f, o.p[1]) - 1) EXCEPT !.r = End]
       [] o.k = "clear" -> Result(One(f, <<>>), val, End, [known EXCEPT ![f] = TRUE])
       [] o.k = "size" -> Result(w, val, End, [known EXCEPT ![f] = TRUE])
       [] o.k = "splice_all" -> Splice(f, p, g, 1, Len(w[g]) + 1,
                                       IF w[g] = <<>> \/ (known[f] /\ known[g]) THEN known ELSE [unknown EXCEPT ![g] = TRUE])
       [] o.k = "splice_one" -> Splice(f, p, g, i, Match(w[g], i) + 1,
                                       IF f = g \/ Match(w[g], i) = i + 1 THEN known ELSE unknown)
       [] o.k = "splice_range" -> Splice(f, p, g, i, j, IF f = g \/ i = j THEN known ELSE unknown)
       [] o.k = "splice_count" -> Splice(f, p, g, i, j, known)
       [] o.k = "copy_range" ->
            LET S == SubSeq(w[g], i, j - 1)  C == Copy(S)
            IN Result(One(f, Ins(w[f], p, C)), CopyVal(S, C), o.p, known)
       [] o.k = "copy" ->   \* the new nodes are there before the old ones are gone
            LET S == w[g]
                fr == Take(Free \cup Nodes(w[f]), Cardinality(Nodes(S)))
                C == [k \in 1..Len(S) |-> <<NameOf(S, fr, S[k][1]), S[k][2]>>]
            IN Result(One(f, C), CopyVal(S, C), End, [known EXCEPT ![f] = TRUE])
       [] o.k = "move" -> Result([w EXCEPT ![f] = w[g], ![g] = <<>>], val, End, [known EXCEPT ![f] = known[g], ![g] = TRUE])
       [] o.k = "swap" -> Result([w EXCEPT ![f] = w[g], ![g] = w[f]], val, End, [known EXCEPT ![f] = known[g], ![g] = known[f]])
       [] o.k = "move_self" -> Result(w, val, End, known)

-----------------------------------------------------------------------------
\* what can be seen of a forest (D02)
Open(W, k) == Cardinality({i \in 1..k: W[i][2] = 1}) - Cardinality({i \in 1..k: W[i][2] = 0})
Depth(W, k) == IF k > Len(W) THEN -1 ELSE IF W[k][2] = 1 THEN Open(W, k) - 1 ELSE Open(W, k)
Parent(W, n) ==   \* the node that encloses n, 0 for none
  LET i == Idx(W, <<n, 1>>)
      S == {m \in Nodes(W) \ {n}: Idx(W, <<m, 1>>) < i /\ Idx(W, <<m, 0>>) > i}
  IN IF S = {} THEN 0 ELSE CHOOSE m \in S: \A q \in S: Idx(W, <<m, 1>>) >= Idx(W, <<q, 1>>)
Children(W, n) == SelectSeq(Lead(W), LAMBDA e: Parent(W, e[1]) = n)
Pruned(W, S) ==   \* nodes outside S are left out with all that is below them
  SelectSeq(W, LAMBDA e: e[1] \in S /\ \A m \in Nodes(W) \ S: ~(Idx(W, <<m, 1>>) < Idx(W, e) /\ Idx(W, <<m, 0>>) > Idx(W, e)))

-----------------------------------------------------------------------------
Code(e) == 2 * e[1] + e[2]
Word(W) == [k \in 1..Len(W) |-> Code(W[k])]
JOp(o) == <<o.k, o.f, Code(o.p), o.g, Code(o.i), Code(o.j)>>
Shape(W) == [k \in 1..Len(W) |-> W[k][2]]
Flat(W, v) == [k \in 1..Len(W) |-> IF W[k][2] = 1 THEN v[W[k][1]] ELSE -1]   \* flattened (D03)
Equal(x, v) == Flat(x[1], v) = Flat(x[2], v)
JRes(o) == LET d == Do(o) IN <<JOp(o), Code(d.r), Word(d.w[1]), Word(d.w[2]), d.val, Equal(d.w, d.val)>>
Step(o) ==
  LET d == Do(o)
  IN /\ w' = d.w /\ val' = d.val
     /\ known' = [x \in F |-> d.known[x] \/ d.w[x] = <<>>]
     /\ path' = Append(path, <<JOp(o), Word(d.w[1]), Word(d.w[2])>>)

Init == w = [f \in F |-> <<>>] /\ val = [n \in Node |-> 0] /\ known = [f \in F |-> TRUE] /\ path = <<>>
Next == \E o \in Ops: Step(o)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the state is always a pair of forests
Balanced(W) == /\ \A n \in Nodes(W): Cardinality({i \in 1..Len(W): W[i][1] = n}) = 2 /\ Idx(W, <<n, 1>>) < Idx(W, <<n, 0>>)
               /\ \A n \in Nodes(W): \A m \in Nodes(W):
                    LET a == Idx(W, <<n, 1>>)  b == Idx(W, <<n, 0>>)  c == Idx(W, <<m, 1>>)  d == Idx(W, <<m, 0>>)
                    IN ~(a < c /\ c < b /\ b < d)
TypeOK == \A f \in F: Balanced(w[f])
Disjoint == Nodes(w[1]) \cap Nodes(w[2]) = {}
\* no operation other than an insertion makes a node, no other than an erasure loses one
=============================================================================
