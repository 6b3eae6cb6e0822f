------------------------------ MODULE MC_Frame ------------------------------
(***************************************************************************)
(* A command at work: it may unpack its input to a temporary directory,    *)
(* whose entries bear names chosen by whoever made the input, reads from   *)
(* there or from the input, writes its output, and clears up.  It may fail *)
(* at any point, and clears up then too; it may be stopped at any point.   *)
(***************************************************************************)
EXTENDS Frame, TLC
CONSTANTS Literal,      \* entries are unpacked under the names they bear (as a check of the properties)
          Borrow,       \* an input which needs no unpacking is taken for the temporary directory
          Beside        \* the temporary directory lies beside the input
Names == {"a", "b"}
\* what an entry's name comes to when it is taken literally
Entry == {<<"tmp", "a">>, <<"tmp", "b">>, <<"in", "a">>, <<"cwd", "a">>, <<"keep", "b">>}
Sane(p) == <<"tmp", p[2]>>
Packed == {<<>>} \cup {<<e>> : e \in Entry} \cup {<<e, f>> : e \in Entry, f \in Entry}
Start0 == [p \in {<<"in", "j">>, <<"in", "a">>, <<"cwd", "a">>, <<"keep", "b">>, <<"own", "j">>} |-> "old"]
Reqs == {[writes |-> w] : w \in {<<>>, <<"out">>, <<"own">>}}

VARIABLES fs, req, zipped, todo, phase, temp
vars == <<fs, req, zipped, todo, phase, temp>>
Init == /\ fs = Start0 /\ req \in Reqs /\ zipped \in BOOLEAN
        /\ todo \in (IF zipped THEN Packed ELSE {<<>>})
        /\ phase = "open" /\ temp = {}
Put(f, p, c) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN c ELSE f[x]]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
TempArea == IF Beside THEN "in" ELSE "tmp"
Open == /\ phase = "open"
        /\ IF zipped THEN phase' = "unpack" /\ fs' = Put(fs, <<TempArea, "d">>, "dir") /\ temp' = {<<TempArea, "d">>}
                     ELSE phase' = "read" /\ fs' = fs /\ temp' = IF Borrow THEN {p \in DOMAIN fs : p[1] = "in"} ELSE {}
        /\ UNCHANGED <<req, zipped, todo>>
Unpack == /\ phase = "unpack" /\ todo # <<>>
          /\ LET p == IF Literal THEN Head(todo) ELSE Sane(Head(todo)) IN
             /\ fs' = Put(fs, p, "new")
             /\ temp' = temp \cup {p}
          /\ todo' = Tail(todo)
          /\ UNCHANGED <<req, zipped, phase>>
Unpacked == /\ phase = "unpack" /\ todo = <<>> /\ phase' = "read" /\ UNCHANGED <<fs, req, zipped, todo, temp>>
\* an answer is written where it is asked for
Write == /\ phase = "read" /\ phase' = "clear"
         /\ fs' = IF "out" \in Writes(req) THEN Put(fs, <<"out", "r">>, "new") ELSE IF "own" \in Writes(req) THEN Put(fs, <<"own", "j">>, "new") ELSE fs
         /\ UNCHANGED <<req, zipped, todo, temp>>
Fail == /\ phase \in {"unpack", "read"} /\ phase' = "failing" /\ UNCHANGED <<fs, req, zipped, todo, temp>>
Clear == /\ phase \in {"clear", "failing"}
         /\ fs' = Drop(fs, temp)
         /\ phase' = IF phase = "clear" THEN "done" ELSE "failed"
         /\ temp' = {}
         /\ UNCHANGED <<req, zipped, todo>>
Stop == /\ phase \notin {"done", "failed", "stopped"} /\ phase' = "stopped" /\ UNCHANGED <<fs, req, zipped, todo, temp>>
Next == Open \/ Unpack \/ Unpacked \/ Write \/ Fail \/ Clear \/ Stop

TypeOK == \A p \in DOMAIN fs : p[1] \in Areas
Kept == /\ (phase \in {"done", "failed"}) => Keeps(Start0, fs, req)
        /\ (phase = "stopped") => KeepsStopped(Start0, fs, req)
\* nor does it change anything else for a while
Always == KeepsStopped(Start0, fs, req)
Delivered == (phase = "done") => Made(fs, req)
\* the first half of a failure is no worse than being stopped
Weaker == Keeps(Start0, fs, req) => KeepsStopped(Start0, fs, req)
=============================================================================
