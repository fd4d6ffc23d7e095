----------------------------- MODULE ScaleTrace -----------------------------
(* Trace validation for huge files: what the library shows of some joints and values of a Bvh, against the
   formulas.  A trace is the file g and a list of looks; the first is at the totals. *)
EXTENDS BvhScale, Json, IOUtils
CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, d
vars == << t, k, d >>
T == Traces[t]
G == T.g
Init == t \in DOMAIN Traces /\ k = 1 /\ d = {}
Look == T.looks[k]
Is(x) == k <= Len(T.looks) /\ Look.is = x
When(b, x) == IF b THEN {x} ELSE {}
Go(kinds) == k' = k + 1 /\ d' = d \cup kinds /\ UNCHANGED t

Broken == Is("broken") /\ Go({ Look.how })
Totals ==
  /\ Is("totals")
  /\ LET o == Look.o IN
     Go(When(o.nj # G.n, "joints") \cup When(o.nm # G.n, "tree") \cup When(o.nc # Columns(G) \/ o.columns # Columns(G) \/ o.odd # -1, "columns")
        \cup When(o.nf # (IF Columns(G) = 0 THEN 0 ELSE G.nf), "frames") \cup When(o.ft # T.ft, "frametime"))
JointLook ==
  /\ Is("joint")
  /\ LET o == Look.o  i == Look.i IN
     Go(When(o.i # i \/ o.par # Par(G, i) \/ o.parj # o.par \/ o.found # i, "tree")
        \cup When(o.nk # NumKids(G, i) \/ \E x \in 1 .. Min({ 2, NumKids(G, i), Len(o.k) }) : o.k[x] # Kid(G, i, x), "tree")
        \cup When(o.k # << >> /\ o.k[Len(o.k)] # Kid(G, i, NumKids(G, i)), "tree")
        \cup When(o.name # Name(i) \/ o.off # Off(i) \/ o.es # EndSite(G, i) \/ o.nch # NumCh(G, i), "joints")
        \cup When(\E x \in DOMAIN o.ch : o.ch[x][1] # Type(FirstCol(G, i) + x - 1), "joints")
        \cup When(\E x \in DOMAIN o.ch : o.ch[x][2] # FirstCol(G, i) + x - 1, "columns")
        \cup When(\E x \in DOMAIN o.ch : o.ch[x][3] # (IF G.nf = 0 THEN "" ELSE Val(G, G.nf - 1, FirstCol(G, i) + x - 1)), "access"))
ValueLook == Is("value") /\ Go(When(Look.o # Val(G, Look.r, Look.c), "frames"))
ErrorLook == Is("error") /\ Go(When(Look.o # ErrorOf(G, Look.x), "error") \cup When(Look.x.what = "io" /\ Look.io # Look.failure, "error"))
Next == ErrorLook \/ Broken \/ Totals \/ JointLook \/ ValueLook
Spec == Init /\ [][Next]_vars
View == << t, k >>
Verdict == k > Len(T.looks) => PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> SetToSeq(d \cap Focus) ]))
=============================================================================
