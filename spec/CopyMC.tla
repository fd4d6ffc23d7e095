------------------------------- MODULE CopyMC -------------------------------
(* Histories over two Bvhs: copies, frame edits, frame times, extraction, comparing, writing and reloading,
   with the law that every operation changes only what it names, in the Bvh it names.  A Bvh here is the
   number of its skeleton (0: no joints), its frame time and its frames.  Emits the history leading to
   each transition; the state is remembered up to renaming of frames, with the last Memory operations. *)
EXTENDS BvhCursor, TLC, Json
CONSTANTS MaxFrames, Memory, Emit

VARIABLES a, b, hist, last, fresh
vars == << a, b, hist, last, fresh >>

Bvh(sk, ft, frames) == [ sk |-> sk, ft |-> ft, frames |-> frames ]
Init ==
  /\ a \in { Bvh(1, 1, << << 1 >> >>), Bvh(1, 1, << >>) }
  /\ b \in { Bvh(2, 2, << << 2 >>, << 3 >> >>), Bvh(0, 0, << >>) }
  /\ hist = << << "init", ToString(Len(a.frames)), ToString(b.sk) >> >> /\ last = << >> /\ fresh = 4
Cu(x) == Cursor(x.frames, IF x.sk = 0 THEN 0 ELSE 1)
End(x) == MoveLast(Cu(x))

(* op on the Bvh called s ("a" or "b"), giving values for a and b. *)
Do(op, s, na, nb) ==
  /\ Len(na.frames) <= MaxFrames /\ Len(nb.frames) <= MaxFrames
  /\ a' = na /\ b' = nb /\ last' = << op, s >> /\ hist' = Append(hist, << op, s, "" >>) /\ fresh' = fresh + 1
  /\ Emit => PrintT("CASE " \o ToJson([ h |-> hist' ]))
On(op, s, x) == IF s = "a" THEN Do(op, s, x, b) ELSE Do(op, s, a, x)

Edit(s) ==
  LET x == IF s = "a" THEN a ELSE b
      y == IF s = "a" THEN b ELSE a
      with(cu) == [ x EXCEPT !.frames = cu.frames ]
      new == IF x.sk = 0 THEN << >> ELSE << fresh >>
  IN
  \/ On("push", s, with(Insert(End(x), new)))
  \/ On("unshift", s, with(Insert(Cu(x), new)))
  \/ On("badinsert", s, with(Insert(Cu(x), << 1, 2, 3, 4, 5, 6, 7, 8, 9 >>)))
  \/ On("shift", s, with(RemoveOne(Cu(x))))
  \/ On("clear", s, with(RemoveAll(Cu(x))))
  \/ On("set", s, with(SetAt(Cu(x), 0, 0, fresh)))
  \/ On("setft1", s, [ x EXCEPT !.ft = 1 ])
  \/ On("setft3", s, [ x EXCEPT !.ft = 3 ])
  \/ On("extract", s, [ x EXCEPT !.frames = << >> ])
  \/ On("write", s, x)
  \/ On("iterate", s, [ x EXCEPT !.frames = [ k \in DOMAIN @ |-> IF x.sk = 0 THEN << >> ELSE << fresh >> ] ])
  \/ On("new", s, Bvh(0, 0, << >>))
  \/ On("clone", s, y) \/ On("clone_from", s, y)
  \/ y.sk > 0 /\ On("reload", s, y)
  \/ On("eq", s, x)
Next == Edit("a") \/ Edit("b")
Spec == Init /\ [][Next]_vars
Constraint == Len(hist) <= 8
Shape(x) == << x.sk, x.ft, Len(x.frames) >>
View == << Shape(a), Shape(b), a = b, SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist)) >>

TypeOk == \A x \in { a, b } : InBounds(Cu(x)) /\ (x.sk = 0 => x.frames = << >>)
Named == IF last'[2] = "a" THEN << a, a', b, b' >> ELSE << b, b', a, a' >>
OnlyNamed ==
  [][/\ Named[3] = Named[4]
     /\ last'[1] \in { "clone", "clone_from", "reload" } => Named[2] = Named[3]
     /\ last'[1] \in { "push", "unshift", "badinsert", "shift", "clear", "set", "extract", "iterate" } =>
          Named[2].sk = Named[1].sk /\ Named[2].ft = Named[1].ft
     /\ last'[1] \in { "setft1", "setft3" } => Named[2].sk = Named[1].sk /\ Named[2].frames = Named[1].frames
     /\ last'[1] \in { "write", "eq", "badinsert" } => Named[2] = Named[1]]_vars
=============================================================================
