----------------------------- MODULE SysInfoMC -----------------------------
(* All behaviours of SysInfo with one or two instances, some requests, messages of others, and the passing of time. *)
EXTENDS SysInfo
CONSTANTS Instances, Requests, Messages, Periods
VARIABLES time, sent, log, called, given
mcvars == <<svars, time, sent, log, called, given>>
Others == {[snd |-> "env", top |-> Topic, tx |-> "t", p |-> "%22t%22", id |-> ""], [snd |-> "env", top |-> Topic, tx |-> "3", p |-> "3", id |-> ""],
           [snd |-> "env", top |-> "/other", tx |-> "t", p |-> "%22t%22", id |-> ""], [snd |-> "env", top |-> Response, tx |-> "{}", p |-> "{}", id |-> "no"]}
MCInit == (\E snd \in [1..Instances -> BOOLEAN] : SInit([i \in 1..Instances |-> [name |-> "SysInfo" \o ToString(i - 1), send |-> snd[i]]]))
          /\ time = 0 /\ sent = 0 /\ log = << >> /\ called = << >> /\ given = {}
Wait == UNCHANGED <<sent, log, called, given>>
ByItself ==
  \/ \E p \in pend : (DispatchPublished(p.m) /\ UNCHANGED <<time, sent, log, called, given>>)
  \/ \E r \in DOMAIN reqs : DispatchRequest(r, RequestOf(r, "id" \o ToString(r))) /\ UNCHANGED <<time, sent, log, called, given>>
  \/ \E d \in cur.must : Note(d) /\ log' = Append(log, d) /\ given' = (IF d.id = "" THEN given ELSE given \cup {<<d.i, d.id>>}) /\ UNCHANGED <<time, sent, called>>
  \/ \E r \in DOMAIN reqs : Callback(r, AnswerText) /\ called' = Append(called, r) /\ UNCHANGED <<time, sent, log, given>>
  \/ \E i \in DOMAIN inst : NoteGreeting(i) /\ log' = Append(log, [i |-> i, tx |-> "greeting", id |-> ""]) /\ UNCHANGED <<time, sent, called, given>>
\* a greeting is published when it is due, and seen
Due(i) == i \in DOMAIN up /\ inst[i].send /\ greets[i].n = greets[i].said /\ time >= greets[i].at + (IF greets[i].seen = 0 THEN 0 ELSE Period)
MCGreet == \E i \in DOMAIN inst : Due(i) /\ greets[i].n = greets[i].seen /\ Greet(i) /\ UNCHANGED <<time, sent, log, called, given>>
MCSeen == \E i \in DOMAIN inst : greets[i].seen < greets[i].n /\ Seen(i, time) /\ UNCHANGED <<time, sent, log, called, given>>
Env ==
  \/ \E i \in DOMAIN inst : i \notin DOMAIN up /\ (\A j \in 1..(i - 1) : j \in DOMAIN up) /\ StartOf(i, time) /\ UNCHANGED <<time, sent, log, called, given>>
  \/ sent < Messages /\ (\E m \in Others : Publish(m)) /\ sent' = sent + 1 /\ UNCHANGED <<time, log, called, given>>
  \/ Cardinality(DOMAIN reqs) < Requests /\ DOMAIN up = DOMAIN inst /\ SendRequest(Cardinality(DOMAIN reqs), "q") /\ UNCHANGED <<time, sent, log, called, given>>
Quiet == ~ENABLED ByItself /\ ~ENABLED MCGreet /\ ~ENABLED MCSeen
Pass == Quiet /\ time < Periods * Period /\ time' = time + Period \div 2 /\ UNCHANGED svars /\ Wait
MCNext == ByItself \/ MCGreet \/ MCSeen \/ Env \/ Pass
MCSpec == MCInit /\ [][MCNext]_mcvars
Situations ==
  (IF Len(called) >= 1 THEN {"answered"} ELSE {}) \cup
  (IF \E i \in DOMAIN inst : greets[i].seen >= 2 THEN {"greeted twice"} ELSE {}) \cup
  (IF \E i \in DOMAIN log : log[i].tx = "Got it: 3" THEN {"noted"} ELSE {})
ASSUME TLCSet(1, {})
Noted == \A s \in Situations : IF s \notin TLCGet(1) THEN TLCSet(1, TLCGet(1) \cup {s}) /\ PrintT(<<"SITUATION", s>>) ELSE TRUE
\* C31
AnsweredOnce == \A i, j \in DOMAIN called : called[i] = called[j] => i = j
AllAnswered == Quiet => \A r \in DOMAIN reqs : (up # << >> => \E i \in DOMAIN called : called[i] = r)
EveryInstance == Quiet => \A r \in DOMAIN reqs : \A i \in DOMAIN up : <<i, reqs[r].id>> \in given
Greetings == Quiet => \A i \in DOMAIN up : greets[i].n = IF inst[i].send THEN 1 + (time - greets[i].at) \div Period + (greets[i].seen - 1) ELSE 0
IsSettled == Quiet => Settled(time)
=============================================================================
