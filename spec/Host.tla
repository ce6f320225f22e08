-------------------------------- MODULE Host --------------------------------
(***************************************************************************)
(* The host: which plugin libraries become templates, which instances the  *)
(* configuration files create, how every instance lives and ends, and how  *)
(* the host stops.  Also used for a plugin manager without a host (there   *)
(* are no entries then, Called is used in place of them, and "stop" is the *)
(* unloading).                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  files,    \* number -> [dir, pre, ext: parts of the name, reg: is a file, open: can be loaded, info: "none", "null", "good",
            \*            creator: BOOLEAN, id: identifier]; never changes
  added,    \* the directories added to the search paths; never changes
  entries,  \* entries of the configuration files that are still to be processed: [type, conf]
  opened,   \* the files whose libraries are open
  tmpl,     \* identifier -> the file that provides it, once it has been used
  count,    \* identifier -> number of instantiations
  inst,     \* name -> [f: file, bus, par: root bus, st: state, thread: BOOLEAN (it is started)]
  said,     \* published values -> [by: name, to: those that have to hear it]
  heard,    \* <<who, value>>
  stop,     \* a stop has been requested
  phase     \* "new", "up" (started), "down" (stopped)
hvars == <<files, added, entries, opened, tmpl, count, inst, said, heard, stop, phase>>

HInit(fs, ad, es) ==
  /\ files = fs /\ added = ad /\ entries = es
  /\ opened = {} /\ tmpl = << >> /\ count = << >> /\ inst = << >> /\ said = << >> /\ heard = {}
  /\ stop = FALSE /\ phase = "new"

SearchPaths == {"exe", "cwd", "lib"} \cup added
Candidate(f) == LET x == files[f] IN x.dir \in SearchPaths /\ x.reg /\ x.pre = "libplugin_" /\ x.ext = "so"
Proper(f) == LET x == files[f] IN Candidate(f) /\ x.open /\ x.info = "good" /\ x.creator /\ x.id # ""
Ids == {files[f].id : f \in {g \in DOMAIN files : Proper(g)}}
Count(id) == IF id \in DOMAIN count THEN count[id] ELSE 0
NameOf(id) == id \o ToString(Count(id))
Over(n) == inst[n].st \in {"gone", "null"}
AllOver == \A n \in DOMAIN inst : Over(n)
Set(n, st) == inst' = [inst EXCEPT ![n].st = st]

Start == phase = "new" /\ phase' = "up" /\ UNCHANGED <<files, added, entries, opened, tmpl, count, inst, said, heard, stop>>
RequestStop == stop' = TRUE /\ UNCHANGED <<files, added, entries, opened, tmpl, count, inst, said, heard, phase>>

Open(f) == phase = "up" /\ Candidate(f) /\ files[f].open /\ f \notin opened /\ opened' = opened \cup {f}
  /\ UNCHANGED <<files, added, entries, tmpl, count, inst, said, heard, stop, phase>>
Info(f) == f \in opened /\ files[f].info # "none" /\ UNCHANGED hvars
\* A library is closed when nothing of it is in use.
Close(f) ==
  /\ f \in opened
  /\ \A n \in DOMAIN inst : inst[n].f = f => Over(n)
  /\ Proper(f) => stop \/ \E g \in DOMAIN files : g # f /\ Proper(g) /\ files[g].id = files[f].id
  /\ opened' = opened \ {f}
  /\ UNCHANGED <<files, added, entries, tmpl, count, inst, said, heard, stop, phase>>

\* The next instance is the one of an entry before which there are only entries without a plugin; a stop ends the processing.
Called(id, conf) == \E k \in DOMAIN entries : entries[k] = [type |-> id, conf |-> conf] /\ \A j \in 1..(k - 1) : entries[j].type \notin Ids
Rest(id) == LET k == CHOOSE k \in DOMAIN entries : entries[k].type = id /\ \A j \in 1..(k - 1) : entries[j].type # id IN SubSeq(entries, k + 1, Len(entries))
Make(f, name, bus, par, null) ==
  LET id == files[f].id IN
  /\ phase = "up" /\ Proper(f) /\ f \in opened
  /\ IF id \in DOMAIN tmpl THEN tmpl[id] = f /\ UNCHANGED tmpl ELSE tmpl' = (id :> f) @@ tmpl
  /\ name = NameOf(id) /\ name \notin DOMAIN inst
  /\ \A n \in DOMAIN inst : inst[n].bus # bus
  /\ count' = (id :> Count(id) + 1) @@ count
  /\ inst' = (name :> [f |-> f, bus |-> bus, par |-> par, st |-> IF null THEN "null" ELSE "made", thread |-> FALSE]) @@ inst
  /\ UNCHANGED <<files, added, opened, said, heard, stop, phase>>
Create(f, name, conf, bus, null) == Called(files[f].id, conf) /\ entries' = Rest(files[f].id) /\ Make(f, name, bus, "#0", null)

Keep == UNCHANGED <<files, added, entries, opened, tmpl, count, said, heard, stop, phase>>
Initialise(n) == n \in DOMAIN inst /\ inst[n].st = "made" /\ Set(n, "init") /\ Keep
Initialised(n) == inst[n].st = "init" /\ Set(n, "ready") /\ Keep
Run(n) == n \in DOMAIN inst /\ inst[n].st = "ready" /\ inst' = [inst EXCEPT ![n].st = "running", ![n].thread = TRUE] /\ Keep
\* An instance ends on its own, or because it has been asked to.
End(n, own) == n \in DOMAIN inst /\ inst[n].st = "running" /\ (own \/ stop) /\ Set(n, "ended") /\ Keep
Deinitialise(n) == n \in DOMAIN inst /\ stop /\ inst[n].st = "ended" /\ Set(n, "deinit") /\ Keep
Deinitialised(n) == inst[n].st = "deinit" /\ Set(n, "over") /\ Keep
Destroy(n) == n \in DOMAIN inst /\ inst[n].st = "over" /\ Set(n, "gone") /\ inst[n].f \in opened /\ Keep

Listening(n) == inst[n].st \in {"init", "ready", "running", "ended", "deinit"}
Say(n, v) ==
  /\ v \notin DOMAIN said /\ inst[n].st \in {"ready", "running"}
  /\ said' = (v :> [by |-> n, to |-> {m \in DOMAIN inst : inst[m].st \in {"ready", "running", "ended"} /\ inst[m].par = inst[n].par}]) @@ said
  /\ UNCHANGED <<files, added, entries, opened, tmpl, count, inst, heard, stop, phase>>
\* What an instance publishes bears its name, and is heard once, in its tree.
Hear(who, snd, v) ==
  /\ v \in DOMAIN said /\ snd = said[v].by /\ <<who, v>> \notin heard
  /\ IF who \in DOMAIN inst THEN Listening(who) /\ inst[who].par = inst[snd].par ELSE who = inst[snd].par
  /\ heard' = heard \cup {<<who, v>>}
  /\ UNCHANGED <<files, added, entries, opened, tmpl, count, inst, said, stop, phase>>

\* Nothing happens anymore, and no stop has been requested: everything that had to be is done.
Settled == stop \/
  /\ phase = "up"
  /\ \A k \in DOMAIN entries : entries[k].type \notin Ids
  /\ \A n \in DOMAIN inst : inst[n].st \in {"running", "ended", "null"}
  /\ \A v \in DOMAIN said : \A n \in said[v].to : <<n, v>> \in heard
Stopped == phase \in {"up", "down"} /\ stop /\ AllOver /\ phase' = "down" /\ UNCHANGED <<files, added, entries, opened, tmpl, count, inst, said, heard, stop>>
=============================================================================
