--------------------------- MODULE OutcomeTrace ---------------------------
(* Loading seen from outside: bytes go in, and within a budget of memory and time that depends only on how
   many bytes were supplied a Bvh or an error comes out.  Whatever the bytes are, there is no other way for
   loading to end.  Memory is in kilobytes, time in milliseconds. *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils

CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, pc, d
vars == << t, pc, d >>
T == Traces[t]

MemoryBudget(bytes) == 1024 + bytes \div 2
TimeBudget(bytes) == 3000 + bytes \div 500

Init == t \in DOMAIN Traces /\ pc = "Loading" /\ d = {}
When(b, x) == IF b THEN {x} ELSE {}
Overspent == When(T.kb > MemoryBudget(T.size), "memory") \cup When(T.ms > TimeBudget(T.size), "time")
End(r, to, bad) == pc = "Loading" /\ T.r = r /\ pc' = to /\ d' = bad /\ UNCHANGED t
EndsWithBvh == End("ok", "Bvh", Overspent)
EndsWithError == End("err", "Error", Overspent)
(* Not steps of a loader: what must not be observed. *)
Panics == End("panic", "Broken", {"panic"})
Crashes == End("crash", "Broken", {"crash"})
Hangs == End("hang", "Broken", {"hang"})
Next == EndsWithBvh \/ EndsWithError \/ Panics \/ Crashes \/ Hangs
Spec == Init /\ [][Next]_vars
View == << t, pc >>

Verdict ==
  pc # "Loading" => PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> SetToSeq(d \cap Focus), pc |-> pc ]))
=============================================================================
