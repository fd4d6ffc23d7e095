----------------------------- MODULE ErrorTrace -----------------------------
(* Trace validation for load errors.  TLC walks down the chain of an error and compares what it says with
   what it carries.  A trace: sec, kind, line (of the load error), iline (of the section error), fline (the
   field), axis, counts; disp, chain (messages of the sources), types (of the sources); cause (the message
   of the I/O or channel error); words: the words of the section error's message, in lower case;
   roles: << what, number >> where the message says what a number is;
   low: disp and chain[1] in lower case. *)
EXTENDS BvhErrors, Json, IOUtils
CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, at, d
vars == << t, at, d >>
T == Traces[t]
Init == t \in DOMAIN Traces /\ at = "Load" /\ d = {}
When(b, x) == IF b THEN {x} ELSE {}

(* The position of x in y, 0 if it is not there. *)
Find(x, y) ==
  LET hits == { i \in 1 .. Len(y) - Len(x) + 1 : SubSeq(y, i, i + Len(x) - 1) = x } IN
  IF hits = {} THEN 0 ELSE Min(hits)
Second(x) == IF Len(x) < 2 THEN << >> ELSE << x[2] >>
Go(to, kinds) == at' = to /\ d' = d \cup kinds /\ UNCHANGED t

LoadError ==
  /\ at = "Load"
  /\ LET inner == IF T.chain = << >> THEN 0 ELSE Find(T.chain[1], T.disp)
         first == Find(SectionName(T.sec), T.low)
         other == Find(SectionName(IF T.sec = "Joints" THEN "Motion" ELSE "Joints"), T.low)
     IN  Go("Section",
            When(T.chain = << >> \/ inner = 0, "contains")
            (* the section is named before the section's own message (which can be short), and it is the right one *)
            \cup When(first = 0 \/ (inner # 0 /\ Len(T.chain[1]) > 8 /\ first >= inner) \/ (other # 0 /\ other < first), "section")
            \cup When(T.line # T.iline, "line"))
SectionError ==
  /\ at = "Section"
  /\ Go("Cause",
        When(T.types = << >> \/ T.types[1] # (IF T.sec = "Joints" THEN "joints" ELSE "motion"), "source")
        \cup When(T.iline # T.fline \/ CarriesLine(T.kind) # (T.iline >= 0), "line")
        \cup When(CarriesLine(T.kind) /\ ToString(T.fline) \notin Range(T.words), "names-line")
        \cup When(CarriesAxis(T.kind) /\ (T.axisl \notin Range(T.words) \/ \E x \in { "x", "y", "z" } : x # T.axisl /\ x \in Range(T.words)), "names-axis")
        \cup When(CarriesCounts(T.kind) /\ ~ { T.act, T.exp, T.fr, T.cl } \subseteq Range(T.words), "names-counts")
        (* where the message says which number is which, it is right *)
        \cup When(CarriesCounts(T.kind) /\ \E r \in Range(T.roles) :
                    r[2] # (CASE r[1] = "exp" -> T.exp [] r[1] = "act" -> T.act [] r[1] = "fr" -> T.fr [] OTHER -> T.cl), "count-roles"))
Cause ==
  /\ at = "Cause"
  /\ LET want == CauseOf(T.kind) IN
     Go("End", When(Second(T.types) # want \/ (want # << >> /\ Second(T.chain) # << T.cause >>), "source"))
Next == LoadError \/ SectionError \/ Cause
Spec == Init /\ [][Next]_vars
View == << t, at >>
Verdict == at = "End" => PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> SetToSeq(d \cap Focus) ]))
=============================================================================
