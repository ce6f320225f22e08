----------------------------- MODULE UtilitiesMC -----------------------------
(* Operations on small paths, trees, buffers, configurations and settings, and what a user may conclude from their results. *)
EXTENDS Utilities, Integers
CONSTANTS Part, Steps
VARIABLES n, last, given
mvars == <<uvars, n, last, given>>
Texts(k) == UNION {[1..m -> {"61", "2e", "2f"}] : m \in 0..k}
RECURSIVE Joined(_)
Joined(s) == IF s = << >> THEN "" ELSE s[1] \o Joined(Tail(s))
Names == {"61", "62"}
Paths == {<<a>> : a \in Names} \cup {<<a, b>> : a \in Names, b \in Names}
Results == {<< >>} \cup {<<a>> : a \in Names} \cup {<<a, b>> : a \in Names, b \in Names}
Chunks == {"", "61", "6162"}
Lists == {<< >>, <<"61">>, <<"61", "62">>, <<"62", "61">>}
Parts == {[paths |-> p, bus |-> b, files |-> f] : p \in Lists, b \in {-1, 0}, f \in {<< >>, <<"61">>}}
Op(r0) == last' = r0
MCInit == UInit /\ n = 0 /\ last = << >> /\ given = << >>
DoPaths == UNCHANGED given /\
  \/ \E s \in Texts(Steps + 3) : LET p == Joined(s) IN Occurrences(p, Slash) # {} /\ Split(p) /\ Op([op |-> "split", p |-> p])
  \/ \E s \in Texts(2), t \in Texts(2) : Combine(Joined(s), Joined(t)) /\ Op([op |-> "combine", p |-> Joined(s), q |-> Joined(t)])
\* What the environment can do to a tree: names are made where there is a directory and nothing of that name; one does not delete where one is.
Free(p) == Kind(SubSeq(p, 1, Len(p) - 1)) = "d" /\ Place(p) \notin DOMAIN fs
DoFiles == UNCHANGED given /\
  \/ \E p \in Paths, k \in {"f", "d", "l", "p"}, to \in Paths \cup {<< >>} : Free(p) /\ (k = "l" \/ to = << >>) /\ Make(p, k, to) /\ Op([op |-> "make", p |-> p])
  \/ \E p \in Paths : Place(p) \in DOMAIN fs /\ Kind(SubSeq(p, 1, Len(p) - 1)) = "d" /\ ~(Len(cwd) >= Len(Place(p)) /\ SubSeq(cwd, 1, Len(Place(p))) = Place(p)) /\ Delete(p) /\ Op([op |-> "delete", p |-> p])
  \/ \E p \in Paths : Kind(p) = "d" /\ ChangeTo(p) /\ Op([op |-> "cd", p |-> p])
  \/ \E p \in Paths : Exists(p) /\ Op([op |-> "exists", p |-> p])
  \/ \E p \in Paths \cup {<< >>}, f \in 1..3, res \in Results : Listing(p, f, res) /\ Op([op |-> "list", p |-> p, f |-> f])
DoBuffers == \E b \in {"X", "Y"} :
  \/ NewBuffer(b, "") /\ given' = Upd(given, b, << >>) /\ Op([op |-> "new"])
  \/ b \in DOMAIN buf /\ \E d \in Chunks : AppendBytes(b, d) /\ given' = [given EXCEPT ![b] = Append(@, d)] /\ Op([op |-> "append"])
  \/ b \in DOMAIN buf /\ AppendSelf(b) /\ given' = [given EXCEPT ![b] = @ \o @] /\ Op([op |-> "self"])
  \/ b \in DOMAIN buf /\ DropBuffer(b) /\ given' = [c \in DOMAIN given \ {b} |-> given[c]] /\ Op([op |-> "drop"])
  \/ NullBuffer /\ UNCHANGED given /\ Op([op |-> "null"])
DoConfigs == UNCHANGED given /\
  \/ \E c \in {"P", "Q"}, p \in Parts : NewConfiguration(c, p) /\ Op([op |-> "new"])
  \/ "P" \in DOMAIN cfg /\ CopyConfiguration("Q", "P") /\ Op([op |-> "copy"])
  \/ \E c, o \in DOMAIN cfg, w \in BOOLEAN : SameConfiguration(c, o, w) /\ Op([op |-> "same", c |-> c, o |-> o, w |-> w])
DoSettings == \E c \in {"M", "N"} :
  \/ c \notin DOMAIN cfg /\ NewSettings(c) /\ given' = Upd(given, c, << >>) /\ Op([op |-> "new"])
  \/ c \in DOMAIN cfg /\ \E p \in Names : AddSetting(c, p) /\ given' = [given EXCEPT ![c] = Append(@, p)] /\ Op([op |-> "add"])
  \/ c \in DOMAIN cfg /\ Settings(c) /\ UNCHANGED given /\ Op([op |-> "get", c |-> c])
DoFailures == UNCHANGED given /\ \E c \in DOMAIN KeyErrors \cup IndexErrors \cup DOMAIN ArgumentErrors, a \in {"", "61", "7"} : Failure(c, a) /\ Op([op |-> "fail", c |-> c, a |-> a])
MCNext == n < Steps /\ n' = n + 1 /\
  CASE Part = "paths" -> DoPaths [] Part = "files" -> DoFiles [] Part = "buffers" -> DoBuffers [] Part = "configs" -> DoConfigs [] Part = "settings" -> DoSettings [] OTHER -> DoFailures
MCSpec == MCInit /\ [][MCNext]_mvars

Is(op) == last # << >> /\ last.op = op
Situations == (IF Is("split") /\ r.ext # "" THEN {"an extension"} ELSE {}) \cup (IF Is("list") /\ Len(r) = 2 THEN {"two listed"} ELSE {})
  \cup (IF Part = "files" /\ \E p \in Paths : p \notin DOMAIN fs /\ Kind(p) # "" THEN {"through a link"} ELSE {}) \cup (IF Part = "files" /\ \E p \in DOMAIN fs : fs[p].k = "l" /\ Kind(p) = "" THEN {"a link to nothing"} ELSE {})
  \cup (IF Is("append") /\ \E b \in DOMAIN given : Len(given[b]) > 1 THEN {"two chunks"} ELSE {}) \cup (IF Is("same") /\ last.c # last.o THEN IF r.eq THEN {"equal"} ELSE {"different"} ELSE {})
  \cup (IF Is("get") /\ Len(r) > 1 THEN {"two paths"} ELSE {}) \cup (IF Is("fail") THEN {r.kind} ELSE {})
ASSUME TLCSet(1, {})
Note == \A s \in Situations : IF s \notin TLCGet(1) THEN TLCSet(1, TLCGet(1) \cup {s}) /\ PrintT(<<"SITUATION", s>>) ELSE TRUE

\* C26: a path is its directory and its name, which has no separator; the extension is what follows the last dot of the name
PathsFit == Is("split") =>
  /\ Combined(r.base, r.file) = last.p /\ Occurrences(r.file, Slash) = {} /\ Occurrences(r.ext, Dot) = {}
  /\ IF Occurrences(r.file, Dot) = {} THEN r.ext = "" ELSE \E i \in Occurrences(r.file, Dot) : To(r.file, i) \o r.ext = r.file
CombineFits == Is("combine") /\ Occurrences(last.q, Slash) = {} => BaseDirectory(r) = last.p /\ FileName(r) = last.q
\* everything is in a directory, and a link is what it leads to
Tree == \A p \in DOMAIN fs : \A i \in 0..(Len(p) - 1) : SubSeq(p, 1, i) \in DOMAIN fs /\ fs[SubSeq(p, 1, i)].k = "d"
Somewhere == cwd \in DOMAIN fs /\ fs[cwd].k = "d"
ListedExist == Is("list") => \A i \in DOMAIN r : LET k == Kind(Append(last.p, r[i])) IN CASE last.f = 1 -> k = "f" [] last.f = 2 -> k = "d" [] OTHER -> k \in {"f", "d"}
AllListed == Is("list") /\ Kind(last.p) = "d" => \A a \in Names : LET k == Kind(Append(last.p, a)) IN
  ((k = "f" /\ last.f # 2) \/ (k = "d" /\ last.f # 1)) => \E i \in DOMAIN r : r[i] = a
NoListOfFile == Is("list") /\ Kind(last.p) # "d" => r = << >>
\* C28, C30, C32, C33
Compared == Is("same") => r.ne = ~r.eq /\ (last.c = last.o => r.eq) /\ (r.eq /\ ~last.w => cfg[last.c].paths = cfg[last.o].paths) /\ (cfg[last.c] = cfg[last.o] => r.eq) /\ (last.w /\ r.eq => cfg[last.c] = cfg[last.o])
Buffered == \A b \in DOMAIN buf : buf[b] = Joined(given[b])
Kept == \A c \in DOMAIN given : Part = "settings" => cfg[c] = given[c] /\ (Is("get") /\ last.c = c => r = given[c])
Named == Is("fail") => r.described /\ (r.kind = "ArgumentNull" \/ r.arg = last.a)
=============================================================================
