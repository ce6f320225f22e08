-------------------------------- MODULE RPC --------------------------------
(***************************************************************************)
(* Action requests over a running bus tree: consumers send requests on a   *)
(* topic, every provider of the topic is called for each of them, and      *)
(* responses find their way back to the request they name.  Requests and   *)
(* responses travel as messages of the tree's one total order.             *)
(*                                                                         *)
(* Time is in microseconds.  On a prompt machine (Prompt) it only passes   *)
(* when nothing can happen without it.                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  prov,   \* provider -> topic
  cons,   \* consumer -> topic
  req,    \* request -> [c, v, id: -1 until somebody saw it, kind: "a"sync or "b"locking, s: "new", "sent", "taken" or "gone", ans, at]
  q,      \* published messages that are not yet dispatched
  cur,    \* the message being dispatched
  run,    \* "no", "yes", "stopping"
  st,     \* thread -> stack of frames
  now

rvars == <<prov, cons, req, q, cur, run, st, now>>

Nothing == [on |-> FALSE, act |-> "", got |-> {}, must |-> {}]
RInit ==
  /\ prov = << >> /\ cons = << >> /\ req = << >> /\ q = << >> /\ cur = Nothing /\ run = "no" /\ st = << >> /\ now = 0

Upd(f, k, v) == (k :> v) @@ f
Stack(t) == IF t \in DOMAIN st THEN st[t] ELSE << >>
HasTop(t) == Len(Stack(t)) > 0
Top(t) == Stack(t)[Len(Stack(t))]
Push(t, f) == st' = Upd(st, t, Append(Stack(t), f))
Pop(t) == st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
SetTop(t, f) == st' = [st EXCEPT ![t][Len(st[t])] = f]
IsCall(t) == HasTop(t) /\ Top(t).k = "c"
Pend(t) == IsCall(t) /\ Top(t).ph = "p"
Finish(t, x) == SetTop(t, [Top(t) EXCEPT !.ph = "d", !.x = x])
Runner(t) == IsCall(t) /\ Top(t).op.op = "start" /\ Top(t).ph = "run"

\* Is a callback being executed (so that nothing else can be dispatched)?
Held == cur.act # ""

-----------------------------------------------------------------------------
\* The open request that response message m is for (or none).
For(m) == {r \in DOMAIN req : req[r].id = m.id /\ req[r].s = "sent" /\ cons[req[r].c] = m.top}

CanBegin == run = "yes" /\ ~cur.on /\ q # << >>

\* A request obliges the providers of its topic, a response takes the request it is for out of the open ones.
Begin ==
  /\ CanBegin
  /\ LET m == Head(q) IN
     IF m.k = "q"
     THEN /\ cur' = [on |-> TRUE, act |-> "", m |-> m, got |-> {},
                     must |-> IF m.id = -1 THEN {} ELSE {<<"p", p>> : p \in {x \in DOMAIN prov : prov[x] = m.top}}]
          /\ UNCHANGED req
     ELSE LET F == For(m) IN
          /\ cur' = [on |-> TRUE, act |-> "", m |-> m, got |-> {}, must |-> {<<"r", r>> : r \in {x \in F : req[x].kind = "a"}}]
          /\ req' = [r \in DOMAIN req |-> IF r \in F THEN [req[r] EXCEPT !.s = "taken", !.ans = m.v, !.at = IF @ = 0 /\ req[r].kind = "b" THEN now ELSE 0] ELSE req[r]]
  /\ q' = Tail(q)
  /\ UNCHANGED <<prov, cons, run, st, now>>

End ==
  /\ cur.on /\ ~Held /\ cur.must \subseteq cur.got
  /\ cur' = Nothing
  /\ UNCHANGED <<prov, cons, req, q, run, st, now>>

\* Provider p is called with identifier id and payload v.
ProviderBegin(t, p, id, v) ==
  /\ Runner(t) /\ cur.on /\ ~Held /\ cur.m.k = "q" /\ cur.m.id # -1
  /\ p \in DOMAIN prov /\ prov[p] = cur.m.top /\ <<"p", p>> \notin cur.got
  /\ cur.m.v = v
  /\ IF cur.m.r >= 0
     THEN /\ \/ req[cur.m.r].id = id
             \/ req[cur.m.r].id = -1 /\ \A r \in DOMAIN req : req[r].id # id       \* identifiers are unique
          /\ req' = [req EXCEPT ![cur.m.r].id = id]
     ELSE cur.m.id = id /\ UNCHANGED req
  /\ cur' = [cur EXCEPT !.got = @ \cup {<<"p", p>>}, !.act = "p"]
  /\ Push(t, [k |-> "p", p |-> p])
  /\ UNCHANGED <<prov, cons, q, run, now>>
ProviderEnd(t, p) ==
  /\ HasTop(t) /\ Top(t).k = "p" /\ Top(t).p = p
  /\ cur' = [cur EXCEPT !.act = ""] /\ Pop(t)
  /\ UNCHANGED <<prov, cons, req, q, run, now>>

\* The callback of asynchronous request r is called with payload v.
ResponseBegin(t, r, v) ==
  /\ Runner(t) /\ cur.on /\ ~Held /\ cur.m.k = "s"
  /\ <<"r", r>> \in cur.must \ cur.got /\ req[r].ans = v
  /\ cur' = [cur EXCEPT !.got = @ \cup {<<"r", r>>}, !.act = "r"]
  /\ Push(t, [k |-> "r", r |-> r])
  /\ UNCHANGED <<prov, cons, req, q, run, now>>
ResponseEnd(t, r) ==
  /\ HasTop(t) /\ Top(t).k = "r" /\ Top(t).r = r
  /\ cur' = [cur EXCEPT !.act = ""] /\ Pop(t)
  /\ UNCHANGED <<prov, cons, req, q, run, now>>

-----------------------------------------------------------------------------
Call(t, o) ==
  /\ Push(t, [k |-> "c", op |-> o, ph |-> "p", x |-> "", t0 |-> now])
  /\ UNCHANGED <<prov, cons, req, q, cur, run, now>>

Send(m) == q' = Append(q, m)

Lin(t) ==
  /\ Pend(t)
  /\ LET o == Top(t).op IN
     CASE o.op = "prov" -> prov' = Upd(prov, o.p, o.top) /\ Finish(t, "") /\ UNCHANGED <<cons, req, q, cur, run, now>>
       [] o.op = "cons" -> cons' = Upd(cons, o.c, o.top) /\ Finish(t, "") /\ UNCHANGED <<prov, req, q, cur, run, now>>
       [] o.op = "req" -> /\ req' = Upd(req, o.r, [c |-> o.c, v |-> o.v, id |-> -1, kind |-> "a", s |-> "sent", ans |-> "", at |-> 0])
                          /\ Send([k |-> "q", r |-> o.r, id |-> -2, top |-> cons[o.c], v |-> o.v])
                          /\ Finish(t, "") /\ UNCHANGED <<prov, cons, cur, run, now>>
       [] o.op = "breq" -> /\ req' = Upd(req, o.r, [c |-> o.c, v |-> o.v, id |-> -1, kind |-> "b", s |-> "sent", ans |-> "", at |-> 0])
                           /\ Send([k |-> "q", r |-> o.r, id |-> -2, top |-> cons[o.c], v |-> o.v])
                           /\ SetTop(t, [Top(t) EXCEPT !.ph = "w"]) /\ UNCHANGED <<prov, cons, cur, run, now>>
       [] o.op = "reqnull" -> Finish(t, "ArgumentNull") /\ UNCHANGED <<prov, cons, req, q, cur, run, now>>
       [] o.op = "resp" -> /\ Send([k |-> "s", r |-> -1, id |-> o.id, top |-> prov[o.p], v |-> o.v])
                           /\ Finish(t, "") /\ UNCHANGED <<prov, cons, req, cur, run, now>>
       [] o.op = "raw" -> /\ Send([k |-> IF o.q = 1 THEN "q" ELSE "s", r |-> -1, id |-> o.id, top |-> o.top, v |-> o.v])
                          /\ Finish(t, "") /\ UNCHANGED <<prov, cons, req, cur, run, now>>
       [] o.op = "start" -> run' = "yes" /\ SetTop(t, [Top(t) EXCEPT !.ph = "run"]) /\ UNCHANGED <<prov, cons, req, q, cur, now>>
       [] o.op = "stop" -> run' = "stopping" /\ Finish(t, "") /\ UNCHANGED <<prov, cons, req, q, cur, now>>

RunEnd(t) ==
  /\ Runner(t) /\ run = "stopping" /\ ~Held
  /\ cur' = Nothing /\ q' = << >> /\ run' = "no"
  /\ Finish(t, "") /\ UNCHANGED <<prov, cons, req, now>>

Ret(t, v) ==
  /\ IsCall(t) /\ Top(t).ph = "d" /\ Top(t).x = v
  /\ Pop(t) /\ UNCHANGED <<prov, cons, req, q, cur, run, now>>

\* The blocking request of thread t returns: the response once there is one, nothing once its time is over.
Slack == 1000
BRet(t, v, prompt) ==
  /\ IsCall(t) /\ Top(t).ph = "w"
  /\ LET r == Top(t).op.r IN
     /\ \/ req[r].s = "taken" /\ req[r].ans = v
        \/ /\ v = "e" /\ now + Slack >= Top(t).t0 + Top(t).op.T
           /\ req[r].s = "sent" \/ ~prompt \/ req[r].at + Slack >= Top(t).t0 + Top(t).op.T
     /\ req' = [req EXCEPT ![r].s = "gone", ![r].ans = "", ![r].at = 0]
  /\ Pop(t) /\ UNCHANGED <<prov, cons, q, cur, run, now>>

-----------------------------------------------------------------------------
(* Time.  On a prompt machine it does not pass while something can happen. *)
Late == 20000
Drift == 300      \* reading the clock takes time, too
Settled(to, prompt) ==
  /\ Held \/ (~CanBegin /\ ~cur.on)
  /\ \A t \in DOMAIN st : \A i \in 1..Len(st[t]) :
       LET f == st[t][i] IN
       f.k = "c" =>
         \/ i < Len(st[t])                                             \* in a callback of its own
         \/ f.ph = "w" /\ req[f.op.r].s = "sent" /\ (prompt => to <= f.t0 + f.op.T + Late)
         \/ f.op.op = "start" /\ f.ph = "run" /\ (run = "yes" \/ to <= now + 1000000)
         \/ Held /\ f.ph = "p"
Tick(to, prompt) ==
  /\ to > now
  /\ prompt => (to <= now + Drift \/ Settled(to, prompt))
  /\ now' = to
  /\ UNCHANGED <<prov, cons, req, q, cur, run, st>>
=============================================================================
