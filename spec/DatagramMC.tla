----------------------------- MODULE DatagramMC -----------------------------
(* All behaviours of Datagram with two or three handles, tiny trees and a bounded number of operations.  Checks its      *)
(* structural invariants and prints one operation sequence for every transition, to be performed on real datagrams.    *)
EXTENDS Datagram, Json, IOUtils
CONSTANTS Depth, MaxNodes
VARIABLE hist
Handles == {"A", "B"}
Keys == {"61", "62"}
Trees0 == {[k |-> "e"], [k |-> "v", t |-> "i", v |-> "1"], [k |-> "l", l |-> << >>], [k |-> "d", d |-> << >>]}
Trees1 == {[k |-> "v", t |-> "s", v |-> "61"], [k |-> "l", l |-> <<[k |-> "v", t |-> "i", v |-> "1"]>>], [k |-> "d", d |-> [s \in {"61"} |-> [k |-> "e"]]]}

\* Nodes that no handle reaches any more are forgotten, so that equal situations are recognised as such.
RECURSIVE Reach(_, _)
Reach(hp, S) == LET T == S \cup UNION {Children(hp[n]) : n \in S} IN IF T = S THEN S ELSE Reach(hp, T)
View == LET R == Reach(heap, {h[a] : a \in DOMAIN h})
            rank(n) == Cardinality({m \in R : m < n}) + 1
            ren(c) == [c EXCEPT !.l = [i \in DOMAIN c.l |-> rank(c.l[i])], !.d = [s \in DOMAIN c.d |-> rank(c.d[s])]]
        IN <<[n \in {rank(m) : m \in R} |-> ren(heap[CHOOSE m \in R : rank(m) = n])], [a \in DOMAIN h |-> rank(h[a])], Len(hist) = 0>>

Op(o) == hist' = Append(hist, o)
MCInit == DInit /\ hist = << >>
Start ==
  /\ Len(hist) = 0
  /\ \E t \in Trees0 \cup Trees1 :
       /\ heap' = Build(Build(<< >>, 1, t), Fresh(Build(<< >>, 1, t)), [k |-> "e"])
       /\ h' = [a \in Handles |-> IF a = "A" THEN 1 ELSE Fresh(Build(<< >>, 1, t))]
       /\ hist' = <<[op |-> "create", a |-> "A", tree |-> t, form |-> 1, lit |-> 0], [op |-> "create", a |-> "B", tree |-> [k |-> "e"], form |-> 1, lit |-> 0]>>
       /\ x' = "" /\ r' = "" /\ UNCHANGED msg
More(a) ==
  \/ \E b \in Handles : \/ CopyOf(a, b) /\ Op([op |-> "copy", a |-> a, b |-> b, form |-> 0])
                        \/ AssignFrom(a, b) /\ Op([op |-> "seth", a |-> a, b |-> b])
                        \/ Equal(a, b) /\ Op([op |-> "eq", a |-> a, b |-> b])
                        \/ \E s \in Keys : AtKey(a, b, s) /\ Op([op |-> "key", a |-> a, b |-> b, s |-> s])
                        \/ \E i \in 0..2 : AtIndex(a, b, i) /\ Op([op |-> "idx", a |-> a, b |-> b, i |-> i])
  \/ AssignValue(a, "i", "2") /\ Op([op |-> "setv", a |-> a, t |-> "i", v |-> "2", form |-> 0])
  \/ AssignValue(a, "s", "62") /\ Op([op |-> "setv", a |-> a, t |-> "s", v |-> "62", form |-> 1])
  \/ \E t \in Trees0 : AddTree(a, t) /\ Op([op |-> "add", a |-> a, tree |-> t])
  \/ \E t \in Trees0 : AssignTree(a, t) /\ Op([op |-> "sett", a |-> a, tree |-> t])
  \/ \E s \in Keys : \/ RemoveKey(a, s) /\ Op([op |-> "rmk", a |-> a, s |-> s])
                     \/ Exists(a, s) /\ Op([op |-> "exists", a |-> a, s |-> s])
  \/ \E i \in 0..2 : RemoveIndex(a, i) /\ Op([op |-> "rmi", a |-> a, i |-> i])
  \/ Clear(a) /\ Op([op |-> "clear", a |-> a])
  \/ Count(a) /\ Op([op |-> "count", a |-> a])
  \/ \E t \in {"i", "s", "b"} : GetValue(a, t) /\ Op([op |-> "get", a |-> a, t |-> t, form |-> 0])
  \/ \E p \in {"", "61", "612f62", "612f", "2f61"} : Lookup(a, p, "i", "7") /\ Op([op |-> "path", a |-> a, p |-> p, t |-> "i", def |-> "7"])
MCNext == /\ \/ Start
             \/ Len(hist) >= 2 /\ Len(hist) < Depth + 2 /\ \E a \in Handles : More(a)
          /\ PrintT(<<"CASE", ToJson(hist')>>)
MCSpec == MCInit /\ [][MCNext]_<<dvars, hist>>
Bounded == Cardinality(Reach(heap, {h[a] : a \in DOMAIN h})) <= MaxNodes
Structure == OneParent /\ ListsHaveDistinctNodes /\ KindsAreClean
\* Equality is an equivalence that copies respect, and looking things up changes nothing.
EqualityOk == \A a, b \in DOMAIN h : LET s == Tree(heap, h[a]) t == Tree(heap, h[b]) IN Same(s, s) /\ (Same(s, t) <=> Same(t, s)) /\ (s = t => Same(s, t))
=============================================================================
