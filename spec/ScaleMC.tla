------------------------------ MODULE ScaleMC ------------------------------
(* The formulas of BvhScale against the definitions: for every file of at most MaxJoints joints, the skeleton that
   the formulas describe is coherent, its children and columns are those of BvhCore, and writing it and
   loading what was written gives the joints that the formulas say; and if one thing in it is made wrong, then
   loading fails as the formulas say. *)
EXTENDS BvhScale, BvhWriter
Load == INSTANCE BvhLoader
CONSTANTS MaxJoints, MaxParam, Spoil
VARIABLES g, w, s, ln, x
vars == << g, w, s, ln, x >>

Sk(f) == [ i \in 1 .. f.n |-> [ name |-> Name(i - 1), par |-> Par(f, i - 1), off |-> Off(i - 1), es |-> EndSite(f, i - 1),
                                ch |-> [ k \in 1 .. NumCh(f, i - 1) |-> Type(FirstCol(f, i - 1) + k - 1) ] ] ]
B(f) == [ sk |-> Sk(f), nch |-> Columns(f), ft |-> "7",
          frames |-> IF Columns(f) = 0 THEN << >> ELSE [ r \in 1 .. f.nf |-> [ c \in 1 .. Columns(f) |-> Val(f, r - 1, c - 1) ] ] ]

Defects ==
     { [ what |-> "io", i |-> i, k |-> 0 ] : i \in 0 .. MotionLine(g) + 2 } \cup
     { [ what |-> "axis", i |-> i, k |-> k ] : i \in 0 .. g.n - 1, k \in 0 .. 2 }
  \cup { [ what |-> y, i |-> i, k |-> 0 ] : y \in { "name", "count" }, i \in 0 .. g.n - 1 }
  \cup UNION { { [ what |-> "channel", i |-> i, k |-> k ] : k \in 0 .. NumCh(g, i) - 1 } : i \in 0 .. g.n - 1 }
  \cup (IF Columns(g) = 0 THEN {} ELSE { [ what |-> "value", i |-> r, k |-> k ] : r \in 0 .. g.nf - 1, k \in { 0, Columns(g) - 1 } })
  \cup (IF Columns(g) * g.nf = 0 THEN {} ELSE { [ what |-> y, i |-> g.nf - 1, k |-> Columns(g) - 1 ] : y \in { "short", "long" } })

Init ==
  /\ \E n \in 1 .. MaxJoints, shape \in { "comb", "broom" }, p \in 1 .. MaxParam, wide \in 0 .. 2, m \in 1 .. 4, nf \in 0 .. 2 :
       g = [ shape |-> shape, n |-> n, p |-> p, w |-> wide, m |-> m, nf |-> nf ]
  /\ g.shape = "broom" => g.p = 1
  /\ w = StartWriting /\ s = Load!Start /\ ln = 0
  /\ x \in { [ what |-> "none", i |-> 0, k |-> 0 ] } \cup (IF Spoil THEN Defects ELSE {})

Digits == { ToString(k) : k \in 0 .. 1000 }
Token(p) ==
  [ s |-> p.v, f |-> p.v, u |-> IF p.v \in Digits THEN p.v ELSE "bad", t |-> p.v,
    n |-> IF p.v \in Digits THEN CHOOSE k \in 0 .. 1000 : ToString(k) = p.v ELSE 0 ]
Colonless(p) == IF p.c = "lit" /\ p.v = "Frames:" THEN Lit("Frames") ELSE IF p.c = "lit" /\ p.v = "Time:" THEN Lit("Time") ELSE p
Seen(line) ==
  [ h |-> [ i \in DOMAIN line.ps |-> Token(Colonless(line.ps[i])) ], w |-> [ i \in DOMAIN line.ps |-> Token(line.ps[i]) ],
    nm |-> IF Len(line.ps) >= 2 THEN line.ps[2].v ELSE "" ]
Here ==
  CASE x.what = "axis" -> w.pc = "Offset" /\ Innermost(w) = x.i
    [] x.what \in { "channel", "count" } -> w.pc = "Channels" /\ Innermost(w) = x.i
    [] x.what = "name" -> w.pc = "Declare" /\ w.ji = x.i
    [] x.what \in { "value", "short", "long" } -> w.pc = "Row" /\ w.fi = x.i
    [] OTHER -> FALSE
Spoiled(line) ==
  IF ~ Here THEN line
  ELSE CASE x.what = "axis" -> [ line EXCEPT !.h[x.k + 2].f = "bad" ]
         [] x.what = "channel" -> [ line EXCEPT !.h[x.k + 3].s = "Xpos" ]
         [] x.what = "count" -> [ line EXCEPT !.h[2].u = "bad" ]
         [] x.what = "name" -> [ line EXCEPT !.h = << @[1] >>, !.w = << @[1] >>, !.nm = "" ]
         [] x.what = "value" -> [ line EXCEPT !.w[x.k + 1].f = "bad" ]
         [] x.what = "short" -> [ line EXCEPT !.w = Front(@) ]
         [] x.what = "long" -> [ line EXCEPT !.w = Append(@, @[1]) ]
Next ==
  /\ w.pc # "Done" /\ s.pc # "Failed"
  /\ LET b == B(g)
         line == Spoiled(Seen(Written(b, w)))
     IN  w' = After(b, w) /\ s' = (IF x.what = "io" /\ ln = x.i THEN Load!AtFault(s) ELSE Load!Step(s, Load!LineKind(s, line), line, ln)) /\ ln' = ln + 1 /\ UNCHANGED << g, x >>
Spec == Init /\ [][Next]_vars

Coherent == ln = 0 =>
  /\ DepthFirst(Sk(g))
  /\ \A i \in 0 .. g.n - 1 : LET kids == Children(Sk(g), i) IN Len(kids) = NumKids(g, i) /\ \A k \in DOMAIN kids : kids[k] = Kid(g, i, k)
  /\ FirstColumns(Sk(g)) = [ i \in 1 .. g.n + 1 |-> FirstCol(g, i - 1) ]
Placed == w.pc = "Declare" => ln = LineOf(g, w.ji)
Fails ==
  (w.pc = "Done" \/ s.pc = "Failed") /\ x.what # "none" =>
    LET e == IF s.pc = "Failed" THEN s ELSE Load!AtEof(s) IN e.pc = "Failed" /\ e.err = ErrorOf(g, x)
Loaded == w.pc = "Done" /\ x.what = "none" =>
  LET e == Load!AtEof(s) IN
  /\ e.pc = "Loaded" /\ Skeleton(e.joints) = Sk(g) /\ e.nch = Columns(g) /\ Chunks(e.vals, e.nch) = B(g).frames
=============================================================================
