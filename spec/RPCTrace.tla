------------------------------ MODULE RPCTrace ------------------------------
(* Is every recorded execution of action requests a behaviour of RPC? *)
EXTENDS RPC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Full == IOEnv.FULL = "1"

VARIABLES tr, l
Ev == Traces[tr][l]
More == l <= Len(Traces[tr])
TraceInit == RInit /\ tr \in DOMAIN Traces /\ l = 2
Prompt == Traces[tr][1].mode = 0

\* First and last event that shows the effect of the message with payload v (0: none).
First(v) == IF v \in DOMAIN Traces[tr][1].first THEN Traces[tr][1].first[v] ELSE 0
Last(v) == IF v \in DOMAIN Traces[tr][1].last THEN Traces[tr][1].last[v] ELSE 0

IsSend(o) == o.op \in {"req", "breq", "resp", "raw"}

CanEnd == cur.on /\ ~Held /\ cur.must \subseteq cur.got /\ (cur.m.k = "q" => l > Last(cur.m.v))
\* Messages that are ignored whenever they are dispatched.
Dead(t) ==
  /\ Pend(t)
  /\ LET o == Top(t).op IN
     \/ o.op = "raw" /\ o.id = -1
     \/ /\ o.op = "resp" \/ (o.op = "raw" /\ o.q = 0)
        /\ First(o.v) = 0
        /\ ~\E r \in DOMAIN req : req[r].id = o.id /\ req[r].s = "sent"
AtOnce == CanBegin \/ CanEnd \/ \E t \in DOMAIN st : Dead(t)
StepAtOnce ==
  IF CanBegin THEN Begin
  ELSE IF CanEnd THEN End
  ELSE Finish(CHOOSE t \in DOMAIN st : Dead(t), "") /\ UNCHANGED <<prov, cons, req, q, cur, run, now>>

\* Position of the delivery itself (0: not known).
Exact(v) == IF v \in DOMAIN Traces[tr][1].by THEN 0 ELSE First(v)
InOrder(t) ==
  LET v == Top(t).op.v IN
  Exact(v) = 0 \/ \A u \in DOMAIN st \ {t} : (Pend(u) /\ IsSend(Top(u).op)) => (Exact(Top(u).op.v) = 0 \/ Exact(Top(u).op.v) > Exact(v))

Useful(u) ==
  LET o == Top(u).op IN
  IF IsSend(o) THEN InOrder(u)
  ELSE IF o.op = "prov" THEN (Ev.e = "r" /\ Ev.t = u) \/ (Ev.e = "pq" /\ Ev.p = o.p)
  ELSE IF o.op \in {"cons", "reqnull", "stop"} THEN Ev.e = "r" /\ Ev.t = u
  ELSE TRUE

Silent ==
  \/ \E u \in DOMAIN st : Pend(u) /\ (IF Full THEN TRUE ELSE Useful(u)) /\ Lin(u)
  \/ \E u \in DOMAIN st : RunEnd(u)
  \/ Full /\ (Begin \/ End)

Timely == Ev.us <= now
Visible ==
  /\ IF Full THEN TRUE ELSE ~AtOnce
  /\ Timely
  /\ CASE Ev.e = "c" -> Call(Ev.t, Ev)
       [] Ev.e = "r" -> IF IsCall(Ev.t) /\ Top(Ev.t).ph = "w" THEN BRet(Ev.t, Ev.v, Prompt) ELSE Ret(Ev.t, Ev.v)
       [] Ev.e = "pq" -> ProviderBegin(Ev.t, Ev.p, Ev.id, Ev.v)
       [] Ev.e = "pe" -> ProviderEnd(Ev.t, Ev.p)
       [] Ev.e = "rc" -> ResponseBegin(Ev.t, Ev.r, Ev.v)
       [] Ev.e = "re" -> ResponseEnd(Ev.t, Ev.r)
       [] Ev.e = "idle" -> Settled(now, Prompt) /\ UNCHANGED rvars
       [] OTHER -> FALSE
  /\ l' = l + 1

TraceNext ==
  \/ More /\ Visible /\ UNCHANGED tr
  \/ More /\ ~Timely /\ Tick(Ev.us, Prompt) /\ UNCHANGED <<tr, l>>
  \/ More /\ (IF Full THEN Silent ELSE IF AtOnce THEN StepAtOnce ELSE Silent) /\ UNCHANGED <<tr, l>>
  \/ ~More /\ l = Len(Traces[tr]) + 1 /\ PrintT(<<"ACC", tr>>) /\ l' = l + 1 /\ UNCHANGED <<rvars, tr>>

TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, tr, l>>

ASSUME TLCSet(1, 0)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Reached1 == PrintT(<<"PROG", TLCGet(1)>>)
=============================================================================
