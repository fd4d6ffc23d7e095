------------------------------ MODULE BvhWriter ------------------------------
(* The writer as a state machine that writes one line at a time.

   A Bvh is a record: sk (joints with name, par, off, es, ch), nch, ft, frames.  The writer keeps the stack
   of joints whose blocks are open, and never looks at depths: a joint is declared while the block of its
   parent is innermost, and blocks are closed until that is so.  (The library computes how many braces to
   close from the difference of depths.  The two must agree.)

   A line is its depth of nesting and its pieces, to be separated by single spaces.  A piece is a literal
   text, a name, or a number of one of the three classes with a precision of their own: offsets "off",
   motion values "mo", the frame time "ft". *)
EXTENDS BvhCore

Lit(x) == [ c |-> "lit", v |-> x ]
Num(class, v) == [ c |-> class, v |-> v ]
Line(depth, pieces) == [ depth |-> depth, ps |-> pieces ]

(* pc: the line that is written next; ji: the number of joints declared so far; fi: of frames written. *)
StartWriting == [ pc |-> "Hierarchy", open |-> << >>, ji |-> 0, fi |-> 0 ]

Innermost(w) == w.open[Len(w.open)]
Joint(b, i) == b.sk[i + 1]

(* Between blocks: declare the next joint if it belongs into the innermost block, else close that block. *)
Between(b, w) ==
  IF w.open = << >> THEN (IF w.ji = 0 /\ b.sk # << >> THEN "Declare" ELSE "Motion")
  ELSE IF w.ji < Len(b.sk) /\ Joint(b, w.ji).par = Innermost(w) THEN "Declare"
  ELSE "Close"
Go(b, w) == [ w EXCEPT !.pc = Between(b, w) ]
Rows(b, w) == [ w EXCEPT !.pc = IF w.fi < Len(b.frames) THEN "Row" ELSE "Done" ]

Keyword(b, w) == IF w.ji = 0 THEN "ROOT" ELSE "JOINT"
Vector(v) == << Lit("OFFSET"), Num("off", v[1]), Num("off", v[2]), Num("off", v[3]) >>

(* The line written in state w. *)
Written(b, w) ==
  LET d == Len(w.open)
      j == Joint(b, Innermost(w))
  IN
  CASE w.pc = "Hierarchy" -> Line(0, << Lit("HIERARCHY") >>)
    [] w.pc = "Declare" -> Line(d, << Lit(Keyword(b, w)), Lit(Joint(b, w.ji).name) >>)
    [] w.pc = "Open" -> Line(d - 1, << Lit("{") >>)
    [] w.pc = "Offset" -> Line(d, Vector(j.off))
    [] w.pc = "Channels" -> Line(d, << Lit("CHANNELS"), Lit(ToString(Len(j.ch))) >> \o [ k \in DOMAIN j.ch |-> Lit(j.ch[k]) ])
    [] w.pc = "Site" -> Line(d, << Lit("End"), Lit("Site") >>)
    [] w.pc = "SiteOpen" -> Line(d, << Lit("{") >>)
    [] w.pc = "SiteOffset" -> Line(d + 1, Vector(j.es))
    [] w.pc = "SiteClose" -> Line(d, << Lit("}") >>)
    [] w.pc = "Close" -> Line(d - 1, << Lit("}") >>)
    [] w.pc = "Motion" -> Line(0, << Lit("MOTION") >>)
    [] w.pc = "Frames" -> Line(0, << Lit("Frames:"), Lit(ToString(Len(b.frames))) >>)
    [] w.pc = "Time" -> Line(0, << Lit("Frame"), Lit("Time:"), Num("ft", b.ft) >>)
    [] w.pc = "Row" -> Line(0, [ k \in DOMAIN b.frames[w.fi + 1] |-> Num("mo", b.frames[w.fi + 1][k]) ])

(* The state after that line. *)
After(b, w) ==
  CASE w.pc = "Hierarchy" -> Go(b, w)
    [] w.pc = "Declare" -> [ w EXCEPT !.pc = "Open", !.open = Append(@, w.ji), !.ji = @ + 1 ]
    [] w.pc = "Open" -> [ w EXCEPT !.pc = "Offset" ]
    [] w.pc = "Offset" -> [ w EXCEPT !.pc = "Channels" ]
    [] w.pc = "Channels" -> IF Joint(b, Innermost(w)).es = << >> THEN Go(b, w) ELSE [ w EXCEPT !.pc = "Site" ]
    [] w.pc = "Site" -> [ w EXCEPT !.pc = "SiteOpen" ]
    [] w.pc = "SiteOpen" -> [ w EXCEPT !.pc = "SiteOffset" ]
    [] w.pc = "SiteOffset" -> [ w EXCEPT !.pc = "SiteClose" ]
    [] w.pc = "SiteClose" -> Go(b, w)
    [] w.pc = "Close" -> Go(b, [ w EXCEPT !.open = Front(@) ])
    [] w.pc = "Motion" -> [ w EXCEPT !.pc = "Frames" ]
    [] w.pc = "Frames" -> [ w EXCEPT !.pc = "Time" ]
    [] w.pc = "Time" -> Rows(b, w)
    [] w.pc = "Row" -> Rows(b, [ w EXCEPT !.fi = @ + 1 ])
=============================================================================
