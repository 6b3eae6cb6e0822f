----------------------------- MODULE Resources -----------------------------
(***************************************************************************)
(* What an opened jar or distribution may hold between two uses.  A zipped *)
(* jar holds its file from the first use on, a zipped distribution holds a *)
(* directory with its contents; exploded ones hold nothing.  Closing gives *)
(* everything back, and what is asked has one answer.                      *)
(***************************************************************************)
LOCAL INSTANCE Naturals
Kinds == {"jar-zip", "jar-dir", "dist-zip", "dist-dir"}
\* [files, dirs] an object of a kind may hold when it has been used since it was opened
MayHold(kind, used) == [files |-> IF used /\ kind = "jar-zip" THEN 1 ELSE 0, dirs |-> IF used /\ kind = "dist-zip" THEN 1 ELSE 0]
Answer(known, out) == out = known
=============================================================================
