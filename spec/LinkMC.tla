------------------------------- MODULE LinkMC -------------------------------
(***************************************************************************)
(* All behaviours of Link in a given topology with a bounded number of     *)
(* publications, frames of an outsider and hosts that shut down.           *)
(***************************************************************************)
EXTENDS Link
CONSTANTS Topology, Publications, Closings, Frames
VARIABLES pub, closed, origin
mcvars == <<lvars, pub, closed, origin>>

Server(h, n, p) == [h |-> h, name |-> n, srv |-> TRUE, spub |-> p, ssub |-> p + 1, cli |-> FALSE, cpub |-> 0, csub |-> 0]
Client(h, n, p) == [h |-> h, name |-> n, srv |-> FALSE, spub |-> 0, ssub |-> 0, cli |-> TRUE, cpub |-> p + 1, csub |-> p]
\* "star": server on host 1, clients on 2 and 3; "chain": 1 - 2 - 3 - 4, host 2 and 3 with two links; "pair"
Links ==
  CASE Topology = "pair"  -> <<Server(1, "s", 10), Client(2, "c", 10)>>
    [] Topology = "star"  -> <<Server(1, "s", 10), Client(2, "c", 10), Client(3, "d", 10)>>
    [] Topology = "chain" -> <<Server(1, "s", 10), Client(2, "c", 10), Server(2, "t", 20), Client(3, "d", 20)>>
    [] Topology = "both"  -> <<Server(1, "s", 10), [Client(2, "c", 10) EXCEPT !.srv = TRUE, !.spub = 20, !.ssub = 21], Client(3, "d", 20)>>
Hosts == {Links[i].h : i \in DOMAIN Links}
Outsiders == IF Frames > 0 THEN (-1 :> {1}) ELSE << >>

MCInit == LInit(Links, Hosts, Outsiders) /\ pub = 0 /\ closed = {} /\ origin = << >>
Pub(h) == pub < Publications /\ h \notin closed /\ Publish(h, Msg(<<"me">>, "a", ToString(pub))) /\ pub' = pub + 1 /\ origin' = (ToString(pub) :> h) @@ origin /\ UNCHANGED closed
Frame == \E o \in DOMAIN Outsiders : pub < Frames /\ (\E k \in {"none", "msg", "any"} : Outside(o, k, Msg(<<"out">>, "a", "x"))) /\ pub' = pub + 1 /\ UNCHANGED <<closed, origin>>
Keep == UNCHANGED <<pub, closed, origin>>
ByItself ==
  \/ \E h \in Hosts : \E p \in pend[h] : (\A r \in pend[h] : p.n <= r.n) /\ DispatchOwn(h, p)
  \/ \E c \in DOMAIN chan : \E i \in DOMAIN chan[c] :
       Arrive(c, i, IF chan[c][i] = Doubtful THEN Msg(<<links[c[2]].name, "x">>, "?", "?") ELSE Received(chan[c][i], c[2]))
Down(h) == Cardinality(closed) < Closings /\ h \notin closed /\ pend[h] = {} /\ Close(h) /\ closed' = closed \cup {h} /\ UNCHANGED <<pub, origin>>
MCNext ==
  \/ \E h \in Hosts : Pub(h) \/ Down(h) \/ (h \in closed /\ (\E l \in DOMAIN state : links[l].h = h /\ state[l] = "closing") /\ Closed(h) /\ Keep)
  \/ Frame
  \/ ByItself /\ Keep
MCSpec == MCInit /\ [][MCNext]_mcvars

Situations ==
  (IF \E h \in Hosts : Len(seen[h]) >= 2 THEN {"two seen"} ELSE {}) \cup
  (IF \E h \in Hosts : \E i \in DOMAIN seen[h] : Len(seen[h][i].tr) >= 2 THEN {"came through a link"} ELSE {})
ASSUME TLCSet(1, {})
Note == \A s \in Situations : IF s \notin TLCGet(1) THEN TLCSet(1, TLCGet(1) \cup {s}) /\ PrintT(<<"SITUATION", s>>) ELSE TRUE

-----------------------------------------------------------------------------
Times(h, v) == Cardinality({i \in DOMAIN seen[h] : seen[h][i].v = v})
Direct(g, h) == \E c \in Connections : links[c[1]].h = g /\ links[c[2]].h = h
\* C24: everything arrives on the hosts that are directly linked, and nowhere twice, unless somebody shuts down.
AllArrives == (Settled /\ closed = {}) => \A v \in DOMAIN origin : \A h \in Hosts : Direct(origin[v], h) => Times(h, v) = 1
Once == \A v \in DOMAIN origin : \A h \in Hosts : Times(h, v) <= 1
\* a message is what it was, and its trail is the way that it came
Unchanged == \A h \in Hosts : \A i \in DOMAIN seen[h] : LET m == seen[h][i] IN m.v \in DOMAIN origin => m.top = "a" /\ m.tr[Len(m.tr)] = "me"
RECURSIVE Way(_, _)
Way(tr, h) == IF Len(tr) = 1 THEN {h} ELSE UNION {Way(Tail(tr), links[c[1]].h) : c \in {x \in Connections : links[x[2]].h = h /\ links[x[2]].name = tr[1]}}
Trails == \A h \in Hosts : \A i \in DOMAIN seen[h] : LET m == seen[h][i] IN m.v \in DOMAIN origin => origin[m.v] \in Way(m.tr, h)
\* a link never sends out what it brought in
NoEcho == \A c \in DOMAIN chan : c[1] > 0 => \A i \in DOMAIN chan[c] : ~(Len(chan[c][i].tr) > 1 /\ chan[c][i].tr[1] = links[c[1]].name)
\* C25: of what is no message, nothing is seen
NothingOfNone == \A h \in Hosts : \A i \in DOMAIN seen[h] : seen[h][i].v \in DOMAIN origin \cup {"x", "?"}
=============================================================================
