-------------------------------- MODULE BusMC --------------------------------
(***************************************************************************)
(* All behaviours of Bus with a small tree and a bounded number of calls,  *)
(* made from two threads, from the thread that runs the root bus and from  *)
(* inside callbacks.  The properties of the bus are stated here once more, *)
(* over what the users of the bus saw (hist), without the means by which   *)
(* Bus states them.                                                        *)
(***************************************************************************)
EXTENDS Bus
CONSTANTS Calls, Ops, Clients
VARIABLES left, nv, dlv, ord, before, rets, dead, asleep, owed
mcvars == <<bus, sub, pub, q, cur, st, left, nv, dlv, ord, before, rets, dead, asleep, owed>>
hvars == <<left, nv, dlv, ord, before, rets, dead, asleep, owed>>

\* Root 0 with child 1; a subscriber on either, a publisher on either.
MCInit ==
  /\ bus = (0 :> [n |-> "root", p |-> -1, up |-> FALSE, link |-> TRUE]) @@ (1 :> [n |-> "kid", p |-> 0, up |-> TRUE, link |-> TRUE])
  /\ sub = (10 :> [b |-> 0, top |-> "/**/*", cb |-> 0, live |-> TRUE]) @@ (11 :> [b |-> 1, top |-> "a", cb |-> 0, live |-> TRUE])
  /\ pub = (20 :> [b |-> 0, top |-> "a", live |-> TRUE]) @@ (21 :> [b |-> 1, top |-> "a", live |-> TRUE])
  /\ q = (0 :> << >>) /\ cur = (0 :> NoMsg) /\ st = << >>
  /\ left = Calls /\ nv = 0
  /\ dlv = [s \in {10, 11, 12} |-> << >>]      \* what each subscriber got: [snd, top, v]
  /\ ord = << >>                               \* what was published, in the order in which it took effect: [snd, top, v, by]
  /\ before = << >>                            \* v -> what had been published when its publication was called
  /\ rets = {}                                 \* what has been published: publications that returned
  /\ dead = {}                                 \* subscribers and publishers whose deletion has returned
  /\ asleep = {}                               \* buses that were stopped, detached or destroyed by a call that returned, until a start is called
  /\ owed = {}                                 \* <<s, v>>: s has to get v

Op(n) ==
  CASE n = "pub0" -> [op |-> "publish", p |-> 20, v |-> nv]
    [] n = "pub1" -> [op |-> "publish", p |-> 21, v |-> nv]
    [] n = "start0" -> [op |-> "start", b |-> 0]
    [] n = "start1" -> [op |-> "start", b |-> 1]
    [] n = "stop0" -> [op |-> "stop", b |-> 0]
    [] n = "stop1" -> [op |-> "stop", b |-> 1]
    [] n = "del10" -> [op |-> "delsub", s |-> 10]
    [] n = "del11" -> [op |-> "delsub", s |-> 11]
    [] n = "none11" -> [op |-> "setcb", s |-> 11, k |-> -1]
    [] n = "set11" -> [op |-> "setcb", s |-> 11, k |-> 1]
    [] n = "sub12" -> [op |-> "sub", s |-> 12, b |-> 1, top |-> "a", k |-> 0]
    [] n = "delpub" -> [op |-> "delpub", p |-> 21]
    [] n = "detach" -> [op |-> "detach", b |-> 0]
    [] n = "kid" -> [op |-> "child", p |-> 0, b |-> 100 + left, n |-> "kid"]
    [] n = "kid2" -> [op |-> "child", p |-> 0, b |-> 100 + left, n |-> "kid2"]
    [] n = "get" -> [op |-> "get", p |-> 0, n |-> "kid2"]

Idle(t) == Stack(t) = << >>
InCallback(t) == HasTop(t) /\ Top(t).k = "cb"
Starting == \E t \in DOMAIN st : \E i \in DOMAIN st[t] : st[t][i].k = "c" /\ st[t][i].op.op = "start" /\ st[t][i].op.b = 0
WakesUp(b) == \E t \in DOMAIN st : \E i \in DOMAIN st[t] : st[t][i].k = "c" /\ st[t][i].op.op = "start" /\ st[t][i].op.b = b /\ st[t][i].ph = "p"
MCCall(t, n) ==
  /\ left > 0 /\ n \in Ops
  /\ n = "start0" => t = "run" /\ Idle(t) /\ ~Starting
  /\ n \in {"sub12"} => 12 \notin DOMAIN sub /\ \A u \in DOMAIN st : \A i \in DOMAIN st[u] : st[u][i].k = "c" => st[u][i].op.op # "sub"
  /\ n \in {"del10", "del11", "none11", "set11"} => \A u \in DOMAIN st : \A i \in DOMAIN st[u] : st[u][i].k = "c" => st[u][i].op.op # "delsub"
  /\ IF t = "run" THEN (n = "start0" /\ Idle(t)) \/ InCallback(t) ELSE n # "start0" /\ Idle(t)
  /\ LET o == Op(n) IN
     /\ Call(t, o)
     /\ nv' = IF o.op = "publish" THEN nv + 1 ELSE nv
     /\ before' = IF o.op = "publish" THEN (nv :> rets) @@ before ELSE before
     /\ asleep' = IF o.op = "start" THEN asleep \ {o.b} ELSE asleep
  /\ left' = left - 1
  /\ UNCHANGED <<dlv, ord, rets, dead, owed>>

\* Who has to get a message published now, at the latest when the bus runs again?
Obliged(m) ==
  {s \in DOMAIN sub : /\ sub[s].live /\ sub[s].cb >= 0 /\ Matches(s, m.top)
                      /\ \A b \in Chain(sub[s].b) \ {0} : bus[b].up
                      /\ bus[0].up \/ ~Running(0)}
MCSilent ==
  /\ Silent
  /\ ord' = IF Len(q'[0]) > Len(q[0]) /\ ~(\E t \in DOMAIN st : RunEnd(t)) THEN Append(ord, q'[0][Len(q'[0])]) ELSE ord
  /\ LET new == IF Len(ord') > Len(ord) THEN LET m == ord'[Len(ord')] IN {<<s, m.v>> : s \in Obliged(m)} ELSE {}
         lost == {x \in owed : \/ ~sub'[x[1]].live \/ sub'[x[1]].cb < 0
                               \/ \E b \in Chain(sub[x[1]].b) : bus[b].up /\ ~bus'[b].up}
     IN owed' = (owed \ lost) \cup new
  /\ UNCHANGED <<left, nv, dlv, before, rets, dead, asleep>>
MCCb ==
  /\ \E s \in DOMAIN sub : \E k \in {0, 1} : cur[0].on /\ CbBegin("run", s, k, cur[0].m.snd, cur[0].m.top, cur[0].m.v) /\ dlv' = [dlv EXCEPT ![s] = Append(@, cur[0].m)]
  /\ UNCHANGED <<left, nv, ord, before, rets, dead, asleep, owed>>
MCCbEnd == (\E s \in DOMAIN sub : CbEnd("run", s)) /\ UNCHANGED <<left, nv, dlv, ord, before, rets, dead, asleep, owed>>
MCRet ==
  /\ \E t \in DOMAIN st :
       /\ HasTop(t) /\ Top(t).k = "c" /\ Top(t).ph = "d"
       /\ Ret(t, Top(t).x, Top(t).v)
       /\ LET o == Top(t).op IN
          /\ rets' = IF o.op = "publish" THEN rets \cup {o.v} ELSE rets
          /\ dead' = IF o.op = "delsub" THEN dead \cup {<<"s", o.s>>} \cup (IF InOwnCallback(t, o.s) THEN {} ELSE {<<"o", o.s>>}) ELSE IF o.op = "delpub" THEN dead \cup {<<"p", o.p, nv>>} ELSE dead
          /\ asleep' = asleep \cup {b \in DOMAIN bus : ~bus[b].up /\ ~WakesUp(b) /\
               (\/ o.op = "stop" /\ b = o.b /\ b # 0
                \/ o.op = "start" /\ b = 0 /\ o.b = 0
                \/ o.op = "detach" /\ b \in Desc(o.b))}
  /\ UNCHANGED <<left, nv, dlv, ord, before, owed>>

\* Interesting situations that have to be reached, so that the properties are not true for want of behaviours.
Situations ==
  (IF \E s \in {10, 11} : Len(dlv[s]) >= 2 THEN {"two delivered"} ELSE {}) \cup
  (IF \E t \in DOMAIN st : Len(Stack(t)) = 3 /\ Top(t).op.op = "delsub" /\ Top(t).ph = "d" THEN {"deleted in a callback"} ELSE {}) \cup
  (IF \E t \in Clients : HasTop(t) /\ Top(t).op.op = "delsub" /\ Top(t).ph = "p" /\ Active(Top(t).op.s) THEN {"deletion waits"} ELSE {}) \cup
  (IF \E s \in {10, 11} : cur[0].on /\ s \in cur[0].must /\ s \notin cur[0].got /\ cur[0].got # {} THEN {"half delivered"} ELSE {}) \cup
  (IF \E t \in DOMAIN st : HasTop(t) /\ Top(t).k = "c" /\ Top(t).x = "DuplicateKey" THEN {"a child was refused"} ELSE {}) \cup
  (IF Len(q[0]) >= 2 THEN {"two pending"} ELSE {}) \cup
  (IF q[0] # << >> /\ bus[0].up = FALSE /\ dlv[10] # << >> THEN {"pending while stopped"} ELSE {}) \cup
  (IF dead # {} /\ dlv[10] # << >> THEN {"deleted and delivered"} ELSE {})
MCNext ==
  /\ \/ \E t \in Clients \cup {"run"} : \E n \in Ops : MCCall(t, n)
     \/ MCSilent
     \/ ~MustBegin /\ (MCCb \/ MCCbEnd \/ MCRet)
MCSpec == MCInit /\ [][MCNext]_mcvars
Note == \A s \in Situations : IF s \notin TLCGet(1) THEN TLCSet(1, TLCGet(1) \cup {s}) /\ PrintT(<<"SITUATION", s>>) ELSE TRUE
ASSUME TLCSet(1, {})

-----------------------------------------------------------------------------
Values(x) == [i \in DOMAIN x |-> x[i].v]
Pos(v) == CHOOSE i \in DOMAIN ord : ord[i].v = v
\* C01, C03: only what was published, as it was published, once; and everything that is owed once nothing happens anymore.
OnlyPublished == \A s \in DOMAIN dlv : \A i \in DOMAIN dlv[s] : \E j \in DOMAIN ord : ord[j] = dlv[s][i]
Once == \A s \in DOMAIN dlv : \A i, j \in DOMAIN dlv[s] : dlv[s][i].v = dlv[s][j].v => i = j
Fitting == \A s \in DOMAIN sub : \A i \in DOMAIN dlv[s] : Matches(s, dlv[s][i].top)
Stuck == ~ENABLED Silent /\ ~ENABLED MCCb
Still == Stuck /\ ~Held
Complete == (Still /\ Running(0) /\ bus[0].up) => \A x \in owed : \E i \in DOMAIN dlv[x[1]] : dlv[x[1]][i].v = x[2]
\* C02: one order; it respects the order of the publications; callbacks do not overlap.
OneOrder == \A s \in DOMAIN dlv : \A i, j \in DOMAIN dlv[s] : i < j => Pos(dlv[s][i].v) < Pos(dlv[s][j].v)
RealTime == \A i \in DOMAIN ord : \A v \in before[ord[i].v] : (\E j \in DOMAIN ord : ord[j].v = v) => Pos(v) < i
OneCallback == \A t \in DOMAIN st : Cardinality({i \in DOMAIN st[t] : st[t][i].k = "cb"}) <= 1 /\ (t # "run" => \A i \in DOMAIN st[t] : st[t][i].k = "c")
InStep == \A s \in DOMAIN dlv : dlv[s] # << >> =>        \* all callbacks of a message end before the first of the next begins
            \A u \in DOMAIN dlv : (dlv[u] # << >> /\ Active(s)) => Pos(dlv[u][Len(dlv[u])].v) <= Pos(dlv[s][Len(dlv[s])].v)
\* C04: what was deleted is silent.
Silence == [][\A s \in DOMAIN dlv : Len(dlv'[s]) > Len(dlv[s]) => <<"s", s>> \notin dead]_mcvars
NotRunning == \A x \in dead : x[1] = "o" => ~Active(x[2])        \* deleted outside of its own callback
Mute == \A x \in dead : x[1] = "p" => \A i \in DOMAIN ord : ord[i].v >= x[3] => ord[i].snd # bus[pub[x[2]].b].n
\* C05: a stopped bus gets nothing that is published after the stop; nothing at all is delivered after the run call returned.
Asleep == [][\A s \in DOMAIN dlv : Len(dlv'[s]) > Len(dlv[s]) => 0 \notin asleep]_mcvars
NotOwedAsleep == [][\A r \in DOMAIN cur : (~cur[r].on /\ cur'[r].on) => \A s \in cur'[r].must : Chain(sub[s].b) \cap asleep = {}]_mcvars
\* ... and none of its subscribers may be given it:
NotPermittedAsleep == [][\A r \in DOMAIN cur : (~cur[r].on /\ cur'[r].on) => asleep \cap cur'[r].ups = {}]_mcvars
\* C06: names are unique among siblings and never empty.
Names == \A b \in DOMAIN bus : bus[b].n # "" /\ \A c \in Kids(b) : \A d \in Kids(b) : bus[c].n = bus[d].n => c = d
\* C07: if nothing can happen by itself, nothing is pending and nobody waits (but for a callback that somebody holds).
NeverStuck == Stuck => Quiescent(TRUE)
=============================================================================
