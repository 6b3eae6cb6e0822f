---------------------------- MODULE Trace_Repeat ----------------------------
(* Answers of the real commands to the same requests, asked again in other *)
(* processes, after other things, with other numbers of helpers.           *)
EXTENDS Repeat, TraceKit
TStart(t) == NoMemory
TBad(s, ev) == IF Fits(s, ev.q, <<ev.rc, ev.out>>) THEN "" ELSE ev.q \o " answers otherwise when asked again: " \o ev.where
TAfter(s, ev) == Remember(s, ev.q, <<ev.rc, ev.out>>)
=============================================================================
