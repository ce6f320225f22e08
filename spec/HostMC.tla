------------------------------- MODULE HostMC -------------------------------
(***************************************************************************)
(* All behaviours of Host with a few libraries and entries, from start to  *)
(* stop, with what instances say.                                          *)
(***************************************************************************)
EXTENDS Host
CONSTANTS Entries, Words, Nulls, Twins
VARIABLES life, made, unknown
mcvars == <<hvars, life, made, unknown>>

File(d, id, kind) == [dir |-> d, pre |-> "libplugin_", ext |-> IF kind = "name" THEN "txt" ELSE "so", reg |-> TRUE, open |-> kind # "closed",
                      info |-> IF kind = "noinfo" THEN "none" ELSE "good", creator |-> TRUE, id |-> id]
Files == <<File("exe", "A", ""), File("elsewhere", "C", ""), File("lib", "B", IF Twins THEN "" ELSE "closed")>> \o IF Twins THEN <<File("cwd", "A", "")>> ELSE << >>
Plans == {e \in UNION {[1..n -> {[type |-> t, conf |-> "x"] : t \in {"A", "B", "C"}}] : n \in 0..Entries} : TRUE}
MCInit == (\E es \in Plans : HInit(Files, {}, es) /\ made = << >> /\ unknown = es) /\ life = << >>

Bus(n) == "bus" \o n
Note1(n, e) == life' = (n :> (IF n \in DOMAIN life THEN life[n] ELSE << >>) \o <<e>>) @@ life
Quiet == UNCHANGED <<life, made, unknown>>
MCMake ==
  \E f \in opened : \E null \in (IF Nulls THEN {TRUE, FALSE} ELSE {FALSE}) :
    LET n == NameOf(files[f].id) IN
    /\ Create(f, n, "x", Bus(n), null)
    /\ made' = Append(made, files[f].id) /\ Note1(n, IF null THEN "null" ELSE "made") /\ UNCHANGED unknown
\* The next instance is made when the one before is started.
Before == \A n \in DOMAIN inst : inst[n].st \in {"null", "running", "ended"} \/ stop
Lives ==
  \/ \E n \in DOMAIN inst :
       \/ Initialise(n) /\ Note1(n, "initialise")
       \/ Initialised(n) /\ UNCHANGED life
       \/ Run(n) /\ Note1(n, "run")
       \/ (End(n, TRUE) \/ End(n, FALSE)) /\ Note1(n, "end")
       \/ Deinitialise(n) /\ Note1(n, "deinitialise")
       \/ Deinitialised(n) /\ UNCHANGED life
       \/ Destroy(n) /\ Note1(n, "destroy")
  /\ UNCHANGED <<made, unknown>>
Talk ==
  \/ \E n \in DOMAIN inst : Cardinality(DOMAIN said) < Words /\ Say(n, Cardinality(DOMAIN said))
  \/ \E v \in DOMAIN said : \E w \in DOMAIN inst \cup {"#0"} : Hear(w, said[v].by, v)
Libraries == \/ Start
             \/ RequestStop /\ ~stop
             \/ \E f \in DOMAIN files : (Open(f) /\ inst = << >>) \/ (Close(f) /\ (stop => AllOver))
Done == phase = "up" /\ Stopped
MCNext == (MCMake /\ Before /\ ~stop) \/ Lives \/ ((Talk \/ Libraries \/ Done) /\ Quiet)
MCSpec == MCInit /\ [][MCNext]_mcvars

Situations ==
  (IF phase = "down" /\ Cardinality(DOMAIN inst) >= 2 THEN {"two lived and ended"} ELSE {}) \cup
  (IF \E v \in DOMAIN said : Cardinality({x \in heard : x[2] = v}) >= 2 THEN {"heard by two"} ELSE {}) \cup
  (IF "A1" \in DOMAIN inst THEN {"a second instance"} ELSE {}) \cup
  (IF phase = "up" /\ Settled /\ inst # << >> /\ ~stop THEN {"settled"} ELSE {})
ASSUME TLCSet(1, {})
Note == \A s \in Situations : IF s \notin TLCGet(1) THEN TLCSet(1, TLCGet(1) \cup {s}) /\ PrintT(<<"SITUATION", s>>) ELSE TRUE

-----------------------------------------------------------------------------
\* C19: names are unique, buses too, and the k-th instance of a template bears the number k - 1.
OwnBus == \A m, n \in DOMAIN inst : m # n => inst[m].bus # inst[n].bus
Numbered == LET Of(id) == Cardinality({i \in DOMAIN made : made[i] = id}) IN DOMAIN inst = UNION {{id \o ToString(k) : k \in 0..(Of(id) - 1)} : id \in {made[i] : i \in DOMAIN made}}
SenderIsName == \A v \in DOMAIN said : said[v].by \in DOMAIN inst
\* C20: the orderly life.
Order == <<"made", "initialise", "run", "end", "deinitialise", "destroy">>
Orderly == \A n \in DOMAIN life : life[n] = <<"null">> \/ life[n] = SubSeq(Order, 1, Len(life[n]))
AllGone == phase = "down" => \A n \in DOMAIN life : life[n] \in {<<"null">>, Order}
InOpenLibrary == \A n \in DOMAIN inst : ~Over(n) => inst[n].f \in opened
EndedFirst == \A n \in DOMAIN life : "deinitialise" \in {life[n][i] : i \in DOMAIN life[n]} => stop
\* C21: the entries that have a plugin, in order; all of them, unless the host is stopped.
Known == SelectSeq([i \in DOMAIN unknown |-> unknown[i].type], LAMBDA t : t \in Ids)
InOrder == made = SubSeq(Known, 1, Len(made))
AllMade == (Settled /\ ~stop) => made = Known
\* C22: stopped means that it was asked to, and everything is over.
OnlyAsked == phase = "down" => stop
CanStop == (stop /\ phase = "up") => ENABLED (Lives \/ Done)
\* C23: instances come from proper libraries only.
FromProper == \A n \in DOMAIN inst : Proper(inst[n].f) /\ files[inst[n].f].dir \in SearchPaths /\ files[inst[n].f].ext = "so"
OneTemplate == \A m, n \in DOMAIN inst : files[inst[m].f].id = files[inst[n].f].id => inst[m].f = inst[n].f
=============================================================================
