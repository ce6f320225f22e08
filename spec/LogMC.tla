------------------------------- MODULE LogMC -------------------------------
(* Several threads that write several lines each: the output consists of whole calls, each once, in the order of each thread. *)
EXTENDS Log, FiniteSets
CONSTANTS Threads, Calls
VARIABLES nr
Tx(t, k) == IF k % 2 = 0 THEN <<t \o ToString(k)>> ELSE <<t \o ToString(k), "more of " \o t \o ToString(k)>>
MCInit == LInit /\ nr = [t \in Threads |-> 0]
MCNext == \E t \in Threads :
  \/ nr[t] < Calls /\ Call(t, t, nr[t], Tx(t, nr[t])) /\ nr' = [nr EXCEPT ![t] = @ + 1]
  \/ Write(t) /\ UNCHANGED nr
  \/ Return(t) /\ UNCHANGED nr
MCSpec == MCInit /\ [][MCNext]_<<lvars, nr>>
Situations == (IF \E t, u \in Threads : t # u /\ Busy(t) /\ Busy(u) THEN {"two at once"} ELSE {}) \cup (IF \A t \in Threads : nr[t] = Calls /\ ~Busy(t) THEN {"all written"} ELSE {})
ASSUME TLCSet(1, {})
Note == \A s \in Situations : IF s \notin TLCGet(1) THEN TLCSet(1, TLCGet(1) \cup {s}) /\ PrintT(<<"SITUATION", s>>) ELSE TRUE
First(t, k) == "[" \o t \o "] " \o Spaces(k) \o t \o ToString(k)
At(t, k) == {i \in DOMAIN out : out[i] = First(t, k)}
Written(t, k) == k < nr[t] /\ (k < nr[t] - 1 \/ ~Busy(t) \/ pend[t].done)
Whole == \A t \in Threads : \A k \in 0..(Calls - 1) :
  /\ Cardinality(At(t, k)) = IF Written(t, k) THEN 1 ELSE 0
  /\ \A i \in At(t, k) : k % 2 = 1 => i < Len(out) /\ out[i + 1] = "more of " \o t \o ToString(k)
NothingElse == LET all == {<<t, k>> \in Threads \X (0..(Calls - 1)) : Written(t, k)} IN Len(out) = Cardinality(all) + Cardinality({x \in all : x[2] % 2 = 1})
InOrder == \A t \in Threads : \A j, k \in 0..(Calls - 1) : j < k => \A a \in At(t, j) : \A b \in At(t, k) : a < b
=============================================================================
