----------------------------- MODULE OptionsTrace -----------------------------
(* Trace validation for options.  A trace: two scripts of settings, and the fields that were read after
   every step of each; whether the results are equal; or what terminators and indentations say. *)
EXTENDS BvhOptions, Json, IOUtils
CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, a, b, d
vars == << t, i, a, b, d >>
T == Traces[t]
Options == T.is = "options"
When(x, y) == IF x THEN { y } ELSE {}
Steps == IF Options THEN Max({ Len(T.script), Len(T.twin) }) ELSE 0

Init ==
  /\ t \in DOMAIN Traces /\ i = 0 /\ a = Defaults /\ b = Defaults
  /\ d = IF Options THEN When(T.o.steps[1] # Defaults \/ T.o.twin[1] # Defaults, "options") ELSE {}
(* One setting of each script, as long as there are any. *)
After(o, script) == IF i < Len(script) THEN Set(o, script[i + 1][2], script[i + 1][3]) ELSE o
Wrong(o, script, seen) == i < Len(script) /\ seen[i + 2] # o
Setting ==
  /\ i < Steps /\ i' = i + 1 /\ a' = After(a, T.script) /\ b' = After(b, T.twin)
  /\ d' = d \cup When(Wrong(a', T.script, T.o.steps) \/ Wrong(b', T.twin, T.o.twin), "options")
  /\ UNCHANGED t
(* Options are equal exactly if their fields are, and then write the same. *)
Compared ==
  /\ Options /\ i = Steps /\ i' = i + 1
  /\ d' = d \cup When(T.o.eq # (a = b) \/ T.o.ne # (a # b) \/ ~ T.o.copy, "options-eq")
            \cup When(a = b /\ ~ (T.o.hash /\ T.o.sametext), "options-eq") \cup When(T.o.after # a, "options")
  /\ UNCHANGED << t, a, b >>
Words ==
  /\ T.is = "terms" /\ i = 0 /\ i' = 1
  /\ d' = UNION { LET x == T.terms[k] o == T.o.terms[k] IN
                  When(o.is # Stored("term", x) \/ o.str # TerminatorText(x) \/ o.bytes # TerminatorText(x)
                       \/ o.disp # TerminatorText(x) \/ o.esc # Escaped(x) \/ o.escbytes # Escaped(x), "terminators") : k \in DOMAIN T.terms }
          \cup UNION { When(T.o.indents[k].is # Stored("indent", T.indents[k]), "indents") : k \in DOMAIN T.indents }
  /\ UNCHANGED << t, a, b >>
Next == Setting \/ Compared \/ Words
Spec == Init /\ [][Next]_vars
View == << t, i, d >>
Verdict == i = Steps + 1 => PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> SetToSeq(d \cap Focus) ]))
=============================================================================
