-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* Hosts, each with a bus, and links between them.  A link sends what is   *)
(* dispatched on its host's bus to the links it is connected to, unless it *)
(* brought the message in itself, and publishes what it receives on its    *)
(* host's bus, with its own name in front of the trail of senders.  Links  *)
(* have the role of a server, of a client, or both; a client is connected  *)
(* with the server whose ports it is configured with.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  links,   \* sequence of [h: host, name, srv: BOOLEAN, spub, ssub: ports, cli: BOOLEAN, cpub, csub: ports]; never changes
  pend,    \* host -> set of [n: number, m: message] that are published there and not dispatched yet
  chan,    \* connection <<from, to>> -> messages under way; from is a link or the number of an outsider (below 0)
  seen,    \* host -> the messages dispatched on its bus, in order
  state,   \* link -> "up", "closing", "down"
  num      \* publications so far
lvars == <<links, pend, chan, seen, state, num>>

Msg(tr, top, v) == [tr |-> tr, top |-> top, v |-> v]
Doubtful == Msg(<< >>, "?", "?")          \* something that may or may not be a message

Connected(x, y) ==
  \/ links[x].cli /\ links[y].srv /\ links[x].cpub = links[y].ssub
  \/ links[x].srv /\ links[y].cli /\ links[x].spub = links[y].csub
Connections == {<<x, y>> \in (DOMAIN links) \X (DOMAIN links) : x # y /\ Connected(x, y)}

LInit(top, hosts, outs) ==       \* outs: outsider -> the links that hear it
  /\ links = top
  /\ pend = [h \in hosts |-> {}]
  /\ chan = [c \in Connections \cup {<<o, l>> \in (DOMAIN outs) \X (DOMAIN links) : l \in outs[o]} |-> << >>]
  /\ seen = [h \in hosts |-> << >>]
  /\ state = [l \in DOMAIN links |-> "up"]
  /\ num = 0

CameThrough(m, name) == Len(m.tr) > 1 /\ m.tr[1] = name
Received(m, l) == [m EXCEPT !.tr = <<links[l].name>> \o @]
Lossy(c) == (c[1] > 0 /\ state[c[1]] # "up") \/ state[c[2]] # "up"

Publish(h, m) == pend' = [pend EXCEPT ![h] = @ \cup {[n |-> num, m |-> m]}] /\ num' = num + 1 /\ UNCHANGED <<links, chan, seen, state>>
\* An outsider sends something: a message, nothing that anybody would take for a message ("none"), or something doubtful.
Outside(o, kind, m) ==
  /\ chan' = [c \in DOMAIN chan |-> IF c[1] = o /\ kind # "none" THEN Append(chan[c], IF kind = "any" THEN Doubtful ELSE m) ELSE chan[c]]
  /\ UNCHANGED <<links, pend, seen, state, num>>

\* Message m is dispatched on host h; ch: the connections without it, if it came through one.
Dispatch(h, m, ch) ==
  /\ seen' = [seen EXCEPT ![h] = Append(@, m)]
  /\ chan' = [c \in DOMAIN ch |->
       IF c[1] > 0 /\ links[c[1]].h = h /\ state[c[1]] # "down" /\ ~CameThrough(m, links[c[1]].name) THEN Append(ch[c], m) ELSE ch[c]]
DispatchOwn(h, p) == p \in pend[h] /\ Dispatch(h, p.m, chan) /\ pend' = [pend EXCEPT ![h] = @ \ {p}] /\ UNCHANGED <<links, state, num>>
\* The i-th message of connection c arrives, as m; those before it are lost.
Arrive(c, i, m) ==
  /\ i \in DOMAIN chan[c]
  /\ \A j \in 1..(i - 1) : Lossy(c) \/ chan[c][j] = Doubtful
  /\ IF chan[c][i] = Doubtful THEN CameThrough(m, links[c[2]].name) ELSE m = Received(chan[c][i], c[2])
  /\ Dispatch(links[c[2]].h, m, [chan EXCEPT ![c] = SubSeq(@, i + 1, Len(@))])
  /\ UNCHANGED <<links, pend, state, num>>

Close(h) == state' = [l \in DOMAIN state |-> IF links[l].h = h /\ state[l] = "up" THEN "closing" ELSE state[l]] /\ UNCHANGED <<links, pend, chan, seen, num>>
Closed(h) == state' = [l \in DOMAIN state |-> IF links[l].h = h THEN "down" ELSE state[l]] /\ UNCHANGED <<links, pend, chan, seen, num>>

\* Nothing is under way anymore.
Settled == (\A h \in DOMAIN pend : pend[h] = {}) /\ \A c \in DOMAIN chan : Lossy(c) \/ \A i \in DOMAIN chan[c] : chan[c][i] = Doubtful
=============================================================================
