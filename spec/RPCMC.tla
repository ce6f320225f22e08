-------------------------------- MODULE RPCMC --------------------------------
(***************************************************************************)
(* All behaviours of RPC with two consumers and two providers of one topic *)
(* and a bounded number of requests, responses and raw messages, which are *)
(* sent from two threads and from inside callbacks.  The properties are    *)
(* stated over what consumers and providers saw.                           *)
(***************************************************************************)
EXTENDS RPC
CONSTANTS Calls, Ops, Clients, Consumers
VARIABLES left, given, got, asked, sent, raws
mcvars == <<rvars, left, given, got, asked, sent, raws>>

MCInit ==
  /\ prov = ("p" :> "a") @@ ("q" :> "a") /\ cons = ("c" :> "a") @@ ("d" :> "a")
  /\ req = << >> /\ q = << >> /\ cur = Nothing /\ run = "yes" /\ now = 0
  /\ st = ("run" :> <<[k |-> "c", op |-> [op |-> "start"], ph |-> "run", x |-> "", t0 |-> 0]>>)
  /\ left = Calls
  /\ given = {}         \* responses that were sent: <<identifier, payload>>
  /\ got = << >>        \* request -> the payloads that were handed to it
  /\ asked = << >>      \* provider calls: [p, id, v], in order
  /\ sent = << >>       \* request -> its payload
  /\ raws = {}          \* identifiers of raw requests

Ids == {100 + r : r \in {x \in DOMAIN req : req[x].id # -1}} \cup {99}
T == 10000
OpsOf(t) ==
  LET v == ToString(left) IN
  (IF "req" \in Ops THEN {[op |-> "req", r |-> left, c |-> c, v |-> v] : c \in Consumers} ELSE {}) \cup
  (IF "breq" \in Ops /\ t # "run" THEN {[op |-> "breq", r |-> left, c |-> "c", v |-> v, T |-> T]} ELSE {}) \cup
  (IF "resp" \in Ops THEN {[op |-> "resp", p |-> "p", id |-> i, v |-> v] : i \in Ids} ELSE {}) \cup
  (IF "raw" \in Ops THEN {[op |-> "raw", q |-> 1, id |-> i, top |-> "a", v |-> v] : i \in {-1, 98}} ELSE {}) \cup
  (IF "stop" \in Ops THEN {[op |-> "stop"]} ELSE {})
MayCall(t) == IF t = "run" THEN HasTop(t) /\ Top(t).k \in {"p", "r"} ELSE ~HasTop(t)
MCCall(t) ==
  /\ left > 0 /\ MayCall(t) /\ \E o \in OpsOf(t) : Call(t, o)
  /\ left' = left - 1 /\ UNCHANGED <<given, got, asked, sent, raws>>
MCLin(t) ==
  /\ Lin(t)
  /\ LET o == Top(t).op IN
     /\ given' = IF o.op = "resp" THEN given \cup {<<o.id, o.v>>} ELSE given
     /\ sent' = IF o.op \in {"req", "breq"} THEN (o.r :> o.v) @@ sent ELSE sent
     /\ got' = IF o.op \in {"req", "breq"} THEN (o.r :> << >>) @@ got ELSE got
     /\ raws' = IF o.op = "raw" THEN raws \cup {<<o.id, o.v>>} ELSE raws
  /\ UNCHANGED <<left, asked>>
Same == UNCHANGED <<left, given, got, asked, sent, raws>>
MCProvider ==
  /\ \E p \in DOMAIN prov : \E id \in {100 + r : r \in DOMAIN req} \cup {98} :
       /\ cur.on /\ cur.m.k = "q" /\ (cur.m.r >= 0 => id = 100 + cur.m.r)
       /\ ProviderBegin("run", p, id, cur.m.v)
       /\ asked' = Append(asked, [p |-> p, id |-> id, v |-> cur.m.v])
  /\ UNCHANGED <<left, given, got, sent, raws>>
MCResponse ==
  /\ \E r \in DOMAIN req : ResponseBegin("run", r, req[r].ans) /\ got' = [got EXCEPT ![r] = Append(@, req[r].ans)]
  /\ UNCHANGED <<left, given, asked, sent, raws>>
MCEnd == (\E p \in DOMAIN prov : ProviderEnd("run", p)) \/ (\E r \in DOMAIN req : ResponseEnd("run", r))
Waiting(t) == IsCall(t) /\ Top(t).ph = "w"
MCBRet ==
  /\ \E t \in Clients : Waiting(t) /\ \E v \in {"e", req[Top(t).op.r].ans} : v # "" /\ BRet(t, v, TRUE) /\ got' = IF v = "e" THEN got ELSE [got EXCEPT ![Top(t).op.r] = Append(@, v)]
  /\ UNCHANGED <<left, given, asked, sent, raws>>
MCTick == (\A t \in DOMAIN st : ~Pend(t)) /\ \E d \in {5000, 20000} : now + d <= 40000 /\ Tick(now + d, TRUE)
ByItself ==
  \/ \E t \in DOMAIN st : MCLin(t)
  \/ MCProvider \/ MCResponse \/ MCBRet
  \/ Same /\ (Begin \/ End \/ (\E t \in DOMAIN st : RunEnd(t) \/ Ret(t, "")))
MCNext == ByItself \/ (Same /\ (MCEnd \/ MCTick)) \/ \E t \in Clients \cup {"run"} : MCCall(t)
MCSpec == MCInit /\ [][MCNext]_mcvars

Situations ==
  (IF \E r \in DOMAIN got : got[r] # << >> /\ req[r].kind = "b" THEN {"blocking answered"} ELSE {}) \cup
  (IF \E r \in DOMAIN req : req[r].kind = "b" /\ req[r].s = "gone" /\ got[r] = << >> /\ \E x \in given : x[1] = req[r].id THEN {"answered too late"} ELSE {}) \cup
  (IF \E r, s \in DOMAIN got : r # s /\ got[r] # << >> /\ got[s] # << >> THEN {"two answered"} ELSE {}) \cup
  (IF \E r \in DOMAIN req : Cardinality({x \in given : x[1] = req[r].id}) >= 2 THEN {"answered twice"} ELSE {}) \cup
  (IF Len(asked) >= 4 THEN {"two requests at two providers"} ELSE {})
ASSUME TLCSet(1, {})
Note == \A s \in Situations : IF s \notin TLCGet(1) THEN TLCSet(1, TLCGet(1) \cup {s}) /\ PrintT(<<"SITUATION", s>>) ELSE TRUE

-----------------------------------------------------------------------------
Still == ~ENABLED ByItself /\ ~Held
\* C09
AtMostOnce == \A r \in DOMAIN got : Len(got[r]) <= 1
OwnResponse == \A r \in DOMAIN got : \A i \in DOMAIN got[r] : <<req[r].id, got[r][i]>> \in given
FirstResponse == (Still /\ run = "yes") => \A r \in DOMAIN req : (req[r].kind = "a" /\ \E x \in given : x[1] = req[r].id) => got[r] # << >>
UniqueIds == \A r, s \in DOMAIN req : r # s /\ req[r].id # -1 => req[r].id # req[s].id
\* C10
InTime == \A t \in Clients : Waiting(t) => now <= Top(t).t0 + Top(t).op.T + Late + Drift
NotEarly == [][\A t \in Clients : (Waiting(t) /\ Stack(t) # st'[t] /\ got' = got) => now + Slack >= Top(t).t0 + Top(t).op.T]_mcvars
\* a response that was delivered before the limit is what the request returns
NotMissed == [][\A t \in Clients : (Waiting(t) /\ Stack(t) # st'[t] /\ got' = got) => ~(req[Top(t).op.r].s = "taken" /\ req[Top(t).op.r].at + Slack < Top(t).t0 + Top(t).op.T)]_mcvars
\* C11
Askings(p, r) == {i \in DOMAIN asked : asked[i].p = p /\ asked[i].id = 100 + r}
AskedOnce == \A r \in DOMAIN sent : \A p \in DOMAIN prov : /\ Cardinality(Askings(p, r)) <= 1
                                                          /\ \A i \in Askings(p, r) : asked[i].v = sent[r]
AllAsked == (Still /\ run = "yes") => \A r \in DOMAIN sent : \A p \in DOMAIN prov : Cardinality(Askings(p, r)) = 1
NothingElse == \A i \in DOMAIN asked : (\E r \in DOMAIN sent : asked[i].id = 100 + r) \/ (asked[i].id # -1 /\ <<asked[i].id, asked[i].v>> \in raws)
NeverStuck == (Still /\ run = "yes") => (q = << >> /\ ~cur.on)
=============================================================================
