---------------------------- MODULE MC_MpDist ----------------------------
(* Bounded instances of MpDist, with the words of actors (0: the parent,  *)
(* otherwise a helper, 10 + helper: that helper dies) for the driver.      *)
EXTENDS MpDist, TLC, IOUtils
CONSTANTS Words
VARIABLE word
F0 == {{}}
FAll == SUBSET (1..(N + M))

MInit == Init /\ word = <<>>
Say(a) == IF Words THEN word' = Append(word, a) ELSE word' = word
MNext == \/ Parent /\ Say(0)
         \/ \E k \in Helpers : (Helper(k) /\ Say(k)) \/ (Die(k) /\ Say(10 + k))
MSpec == MInit /\ [][MNext]_<<vars, word>> /\ WF_vars(Parent) /\ \A k \in Helpers : WF_vars(Helper(k))
Emit == (Words /\ pc \in {"ok", "error"}) => PrintT(<<"WORD", N, M, W, word, faulty>>)
Stop == ~(Words /\ pc \in {"ok", "error"})
=============================================================================
