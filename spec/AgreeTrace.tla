----------------------------- MODULE AgreeTrace -----------------------------
(* The same bytes offered in several ways: through every entry point, whole and in pieces.  Whatever the
   bytes mean (their meaning may be left open), each way of loading them gives the first one's result. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, first, d
vars == << t, i, first, d >>
T == Traces[t]

Init == t \in DOMAIN Traces /\ i = 0 /\ first = << >> /\ d = << >>
First == i = 0 /\ i' = 1 /\ first' = T.results[1] /\ UNCHANGED << t, d >>
Again ==
  /\ i > 0 /\ i < Len(T.results)
  /\ i' = i + 1
  /\ d' = IF T.results[i + 1] = first THEN d ELSE Append(d, i + 1)
  /\ UNCHANGED << t, first >>
Next == First \/ Again
Spec == Init /\ [][Next]_vars
View == << t, i >>

Verdict ==
  i = Len(T.results) =>
    PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> IF d # << >> /\ "agree" \in Focus THEN << "agree" >> ELSE << >>, ways |-> d ]))
=============================================================================
