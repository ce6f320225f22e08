------------------------------ MODULE SysInfo ------------------------------
(***************************************************************************)
(* Instances of the system information plugin on a bus.  Every instance    *)
(* notes each message on /sysinfo and each action request in the log,      *)
(* answers the requests, and greets the bus at once and every two seconds  *)
(* if its configuration wants it to.                                       *)
(*                                                                         *)
(* Messages: [snd, top, tx: its text if it is one and its print otherwise, *)
(* p: its print, id: the invocation that it names].  Times in microseconds.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  inst,    \* instances: sequence of [name, send]; never changes
  up,      \* instance -> time at which it was started
  pend,    \* set of [n: number, m: message]: published and not dispatched
  num,     \* publications so far
  cur,     \* message being dispatched: [must: what the log still has to get because of it, rc: requests whose callback is due]
  greets,  \* instance -> [n: greetings published, said: of which are noted in the log, at: time of the last one (or of the start)]
  reqs,    \* request -> [p: its print, id: the invocation ("" until it is dispatched), done: answered]
  phase    \* "running", "stopped", "unloaded"
svars == <<inst, up, pend, num, cur, greets, reqs, phase>>

Request == "/sysinfoaction/request"
Response == "/sysinfoaction/response"
Topic == "/sysinfo"
Greeting(i) == [snd |-> inst[i].name, top |-> Topic, tx |-> "Hello Bus!", p |-> "%22Hello Bus!%22", id |-> ""]
AnswerText == "%22This is the response message.%22"
Answer(i, id) == LET p == "{invocationId: %22" \o id \o "%22, response: " \o AnswerText \o "}" IN [snd |-> inst[i].name, top |-> Response, tx |-> p, p |-> p, id |-> id]
RequestOf(r, id) == LET p == "{invocationId: %22" \o id \o "%22, request: " \o reqs[r].p \o "}" IN [snd |-> "env", top |-> Request, tx |-> p, p |-> p, id |-> id]

Idle == [must |-> {}, rc |-> {}]
SInit(is) ==
  /\ inst = is /\ up = << >> /\ pend = {} /\ num = 0 /\ cur = Idle /\ phase = "running"
  /\ greets = [i \in DOMAIN is |-> [n |-> 0, said |-> 0, at |-> 0, seen |-> 0]] /\ reqs = << >>

Enqueue(m) == pend' = pend \cup {[n |-> num, m |-> m]} /\ num' = num + 1
StartOf(i, us) == up' = (i :> us) @@ up /\ greets' = [greets EXCEPT ![i].at = us] /\ UNCHANGED <<inst, pend, num, cur, reqs, phase>>
Publish(m) == Enqueue(m) /\ UNCHANGED <<inst, up, cur, greets, reqs, phase>>
SendRequest(r, p) == reqs' = (r :> [p |-> p, id |-> "", done |-> FALSE]) @@ reqs /\ UNCHANGED <<inst, up, pend, num, cur, greets, phase>>
\* An instance publishes a greeting; it notes that before the next one.
Greet(i) ==
  /\ i \in DOMAIN up /\ inst[i].send /\ greets[i].n = greets[i].said /\ phase # "unloaded"
  /\ Enqueue(Greeting(i)) /\ greets' = [greets EXCEPT ![i].n = @ + 1]
  /\ UNCHANGED <<inst, up, cur, reqs, phase>>

Free == cur = Idle /\ phase = "running"
Duties(m) ==
  IF m.top = Topic THEN {[i |-> i, tx |-> "Got it: " \o m.tx, id |-> ""] : i \in DOMAIN up}
  ELSE IF m.top = Request /\ m.id # "" THEN {[i |-> i, tx |-> "Received action request: " \o m.p, id |-> m.id] : i \in DOMAIN up}
  ELSE {}
\* The dispatch of a message begins: one that was published ...
DispatchPublished(m) ==
  /\ Free
  /\ \E p \in pend : p.m = m /\ (\A q \in pend : q.m = m => p.n <= q.n) /\ pend' = pend \ {p}
  /\ LET rs == IF m.top = Response THEN {r \in DOMAIN reqs : reqs[r].id = m.id /\ m.id # "" /\ ~reqs[r].done} ELSE {} IN
     /\ cur' = [must |-> Duties(m), rc |-> rs]
     /\ reqs' = [r \in DOMAIN reqs |-> [reqs[r] EXCEPT !.done = @ \/ r \in rs]]
  /\ UNCHANGED <<inst, up, num, greets, phase>>
\* ... or a request, which gets its identifier.
DispatchRequest(r, m) ==
  /\ Free /\ reqs[r].id = "" /\ m.id # "" /\ m = RequestOf(r, m.id) /\ \A x \in DOMAIN reqs : reqs[x].id # m.id
  /\ reqs' = [reqs EXCEPT ![r].id = m.id]
  /\ cur' = [must |-> Duties(m), rc |-> {}]
  /\ UNCHANGED <<inst, up, pend, num, greets, phase>>

\* Lines in the log.  Having noted a request, the instance answers it.
Note(d) ==
  /\ d \in cur.must
  /\ cur' = [cur EXCEPT !.must = @ \ {d}]
  /\ IF d.id = "" THEN UNCHANGED <<pend, num>> ELSE Enqueue(Answer(d.i, d.id))
  /\ UNCHANGED <<inst, up, greets, reqs, phase>>
NoteGreeting(i) ==
  /\ greets[i].said < greets[i].n
  /\ greets' = [greets EXCEPT ![i].said = @ + 1]
  /\ UNCHANGED <<inst, up, pend, num, cur, reqs, phase>>

Callback(r, p) == r \in cur.rc /\ p = AnswerText /\ cur' = [cur EXCEPT !.rc = @ \ {r}] /\ UNCHANGED <<inst, up, pend, num, greets, reqs, phase>>

Period == 2000000
Late == 100000
\* A greeting of instance i is seen at its time.
Seen(i, us) ==
  /\ IF greets[i].seen = 0 THEN us <= greets[i].at + Late ELSE us >= greets[i].at + Period - Late /\ us <= greets[i].at + Period + Late
  /\ greets' = [greets EXCEPT ![i].at = us, ![i].seen = @ + 1]
  /\ UNCHANGED <<inst, up, pend, num, cur, reqs, phase>>
\* Everything that is due has happened.
Settled(us) ==
  /\ cur = Idle /\ pend = {}
  /\ \A r \in DOMAIN reqs : reqs[r].id # "" /\ (up # << >> => reqs[r].done)
  /\ \A i \in DOMAIN up : inst[i].send => us <= greets[i].at + Late + (IF greets[i].seen = 0 THEN 0 ELSE Period)
Stopped == cur = Idle /\ phase = "running" /\ phase' = "stopped" /\ UNCHANGED <<inst, up, pend, num, cur, greets, reqs>>
Unloaded == phase = "stopped" /\ phase' = "unloaded" /\ UNCHANGED <<inst, up, pend, num, cur, greets, reqs>>
=============================================================================
