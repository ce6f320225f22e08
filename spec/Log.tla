-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* Writing lines to the program's output from several threads.  Each call  *)
(* takes effect at one moment between its begin and its return: a line     *)
(* with the logger's prefix in brackets, two spaces per level of           *)
(* indentation and the text is appended to the output.  Texts are given as *)
(* the pieces between their line ends.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES out,      \* the lines written so far
          pend      \* thread -> its call: [pre, lv, tx, done]
lvars == <<out, pend>>
LInit == out = << >> /\ pend = << >>

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE "  " \o Spaces(n - 1)
Lines(c) == <<"[" \o c.pre \o "] " \o Spaces(c.lv) \o c.tx[1]>> \o Tail(c.tx)

Busy(t) == t \in DOMAIN pend
Call(t, pre, lv, tx) == ~Busy(t) /\ pend' = (t :> [pre |-> pre, lv |-> lv, tx |-> tx, done |-> FALSE]) @@ pend /\ UNCHANGED out
Write(t) == Busy(t) /\ ~pend[t].done /\ out' = out \o Lines(pend[t]) /\ pend' = [pend EXCEPT ![t].done = TRUE]
Return(t) == Busy(t) /\ pend[t].done /\ pend' = [u \in DOMAIN pend \ {t} |-> pend[u]] /\ UNCHANGED out
=============================================================================
