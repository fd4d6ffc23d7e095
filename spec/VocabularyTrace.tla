-------------------------- MODULE VocabularyTrace --------------------------
(* Trace validation for conversions to channel types.  A trace: word, via, and what came back. *)
EXTENDS BvhVocabulary, Json, IOUtils
CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, r, d
vars == << t, i, r, d >>
T == Traces[t]
Init == t \in DOMAIN Traces /\ i = 1 /\ r = StartName /\ d = {}
When(b, x) == IF b THEN {x} ELSE {}
Letter == i <= Len(T.word) /\ r' = ReadLetter(r, SubSeq(T.word, i, i)) /\ i' = i + 1 /\ UNCHANGED << t, d >>
AtEnd == i = Len(T.word) + 1 /\ i' = i + 1 /\ UNCHANGED << t, r >>
O == T.obs
Accepted ==
  /\ AtEnd /\ Recognised(r)
  /\ LET m == Meaning(r) IN
     d' = IF O.r # "ok" THEN {"rejected"}
          ELSE When(O.variant # m.name \/ O.str # m.name, "type") \cup When(O.disp # m.name \/ O.again # << TRUE, TRUE, TRUE, TRUE >>, "printed")
               \cup When(O.axis # m.axis \/ O.vec # m.vec, "axis") \cup When(O.rot # m.rot \/ O.pos # m.pos, "kind")
Refused ==
  /\ AtEnd /\ ~ Recognised(r)
  /\ d' = IF O.r = "err" THEN When(O.bad # T.word, "bytes") ELSE {"accepted"}
Next == Letter \/ Accepted \/ Refused
Spec == Init /\ [][Next]_vars
View == << t, i >>
Verdict == i = Len(T.word) + 2 => PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> SetToSeq(d \cap Focus), ok |-> Recognised(r) ]))
=============================================================================
