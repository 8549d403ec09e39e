------------------------------ MODULE ForestMC ------------------------------
(* Every forest of up to N nodes (up to the names of the nodes), everything that can be done with it, and
   what is to be seen afterwards: one line for each state, replayed on the real class.                      *)
EXTENDS Forest, IOUtils
MaxNodes == atoi(IOEnv.FOREST_N)
Filters == atoi(IOEnv.FOREST_FILTER)   \* subsets for filters up to this number of nodes

\* names do not matter
Canon == LET all == w[1] \o w[2]
             name == [n \in Nodes(all) |-> Idx(Lead(all), <<n, 1>>)]
         IN [f \in F |-> [k \in 1..Len(w[f]) |-> <<name[w[f][k][1]], w[f][k][2]>>]]
View == <<Canon, known>>

Seen(W) ==
  [depth |-> [k \in 1..Len(W) + 1 |-> Depth(W, k)],
   par |-> [k \in 1..Len(W) |-> Parent(W, W[k][1])],
   kids |-> LET ns == <<0>> \o [k \in 1..Size(W) |-> Lead(W)[k][1]]
            IN [k \in 1..Len(ns) |-> <<ns[k], [c \in 1..Len(Children(W, ns[k])) |-> Children(W, ns[k])[c][1]]>>],
   pre |-> [k \in 1..Size(W) |-> Lead(W)[k][1]],
   post |-> LET T == SelectSeq(W, LAMBDA e: e[2] = 0) IN [k \in 1..Size(W) |-> T[k][1]],
   pruned |-> IF Size(W) <= Filters
                THEN LET Z == SetToSeq(SUBSET Nodes(W)) IN [k \in 1..Len(Z) |-> <<SetToSeq(Z[k]), Word(Pruned(W, Z[k]))>>]
                ELSE <<>>]
Part == IOEnv.FOREST_EMIT
Base == [path |-> path, w1 |-> Word(w[1]), w2 |-> Word(w[2]), val |-> val]
Mirror(W) == [k \in 1..Len(W) |-> LET e == W[Len(W) + 1 - k] IN <<e[1], 1 - e[2]>>]
Proj(W) == LET v == [n \in Node |-> 10 * val[n] + 3] IN Flat(W, v)
Line == CASE Part = "edit" -> LET os == SetToSeq(Ops) IN Base @@ [ops |-> [k \in 1..Len(os) |-> JRes(os[k])]]
          [] Part = "walk" -> Base @@ [see |-> [f \in F |-> Seen(w[f])]]
          [] Part = "algo" -> Base @@ [same |-> Shape(w[1]) = Shape(w[2]),
                                       flat |-> [f \in F |-> Flat(w[f], val)], proj |-> [f \in F |-> Proj(w[f])],
                                       mirror |-> [f \in F |-> Proj(Mirror(w[f]))],
                                       sibs |-> [f \in F |-> LET z == SetToSeq(Siblings(w[f]))
                                                             IN [k \in 1..Len(z) |-> <<z[k][1] - 1, z[k][2] - 1>>]]]
Emit == PrintT(ToJson(Line))

\* properties of the model itself
Keeps == [][LET before == Nodes(w[1]) \cup Nodes(w[2])  after == Nodes(w'[1]) \cup Nodes(w'[2])
                k == path'[Len(path')][1][1]
            IN /\ k \in {"reverse", "splice_all", "splice_one", "splice_range", "splice_count", "swap", "size", "move_self"} => after = before
               /\ k \in {"insert", "insert_parent", "push_front", "push_back", "cpush_front", "cpush_back"} =>
                    before \subseteq after /\ Cardinality(after) = Cardinality(before) + 1
               /\ k \in {"erase", "pop_front", "pop_back", "cpop_front", "cpop_back"} =>
                    after \subseteq before /\ Cardinality(after) = Cardinality(before) - 1]_vars
\* an erased node leaves its children in its place
Promotes == [][path'[Len(path')][1][1] = "erase" =>
                 \A f \in F: \A n \in Nodes(w'[f]): \/ Parent(w'[f], n) = Parent(w[f], n)
                                                    \/ Parent(w[f], n) \notin Nodes(w'[f])
                                                       /\ Parent(w'[f], n) = (IF Parent(w[f], n) = 0 THEN 0 ELSE Parent(w[f], Parent(w[f], n)))]_vars
=============================================================================
