---------------------------- MODULE SessionTrace ----------------------------
(* Trace validation for everything that is done to Bvhs once they exist: histories of frame edits,
   iterations, value accesses, copies, comparisons, writes and reloads over several Bvhs.

   A Bvh is a record: sk the skeleton (name, par, off, es, ch of each joint), nch, ft and frames.  A trace is
   a sequence of operations with what the library returned; some have a sequence of commands, which are
   steps of their own.  The specification never follows the library: it computes the state from the
   operations alone, and every disagreement with what was observed is collected as a kind of
   discrepancy with the place of the first one. *)
EXTENDS BvhCore, BvhEquality, BvhCursor, BvhFrames, Json, IOUtils

CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  t,        \* index of the trace
  k,        \* index of the current operation
  c,        \* number of commands of this operation that are done
  bv,       \* the Bvhs, by slot
  cu,       \* the cursor, while a cursor operation is going on
  it,       \* the iterator, while an iteration or search is going on
  d         \* discrepancies: a sequence of << kind, operation, command >>
vars == << t, k, c, bv, cu, it, d >>

T == Traces[t]
Op == T.ops[k]
Cmd == Op.cmds[c + 1]

None == [ sk |-> << >>, nch |-> -1, ft |-> "", frames |-> << >> ]
EmptyBvh == [ sk |-> << >>, nch |-> 0, ft |-> "0", frames |-> << >> ]
Slots == { "a", "b", "c", "d" }
NoCursor == Cursor(<< >>, 0)
NoIter == Iter(0, 0)

Init ==
  /\ t \in DOMAIN Traces /\ k = 1 /\ c = 0
  /\ bv = [ x \in Slots |-> None ]
  /\ cu = NoCursor /\ it = NoIter /\ d = << >>

Active == k <= Len(T.ops)
Is(name) == Active /\ Op.op = name
Note(kinds) == d' = d \o SetToSeq({ << x, k, c >> : x \in kinds })
When(b, x) == IF b THEN {x} ELSE {}

(* The operation is done; go on with the next one. *)
Advance == k' = k + 1 /\ c' = 0 /\ cu' = NoCursor /\ it' = NoIter /\ UNCHANGED t
Done(new, kinds) == bv' = new /\ Note(kinds) /\ Advance
(* One command is done, with the operation going on. *)
Step(new, cursor, iter, kinds) ==
  /\ bv' = new /\ cu' = cursor /\ it' = iter /\ Note(kinds)
  /\ c' = c + 1 /\ UNCHANGED << t, k >>

---------------------------------------------------------------------------
(* Observations of a whole Bvh *)

Observed(snap) ==
  [ sk |-> [ i \in DOMAIN snap.joints |->
               [ name |-> snap.joints[i].name, par |-> snap.joints[i].par, off |-> snap.joints[i].off,
                 es |-> snap.joints[i].es, ch |-> [ j \in DOMAIN snap.joints[i].ch |-> snap.joints[i].ch[j][1] ] ] ],
    nch |-> snap.nc, ft |-> snap.ft, frames |-> snap.frames ]

(* What holds of every Bvh however obtained, in terms of what was observed alone. *)
ParentsOk(snap) ==
  /\ DepthFirst(snap.joints)
  /\ \A i \in DOMAIN snap.joints :
       LET o == snap.joints[i] IN
       /\ o.i = i - 1 /\ o.parj = o.par /\ o.root = (i = 1) /\ o.child = (i # 1)
       /\ o.parn = IF o.par < 0 THEN "" ELSE snap.joints[o.par + 1].name
       /\ o.hes = (o.es # << >>)
  /\ snap.jm = Len(snap.joints)
  /\ snap.root = IF snap.joints = << >> THEN << >> ELSE << 0, snap.joints[1].name >>
ChildrenOk(snap) ==
  \A i \in DOMAIN snap.joints :
    LET kids == Children(snap.joints, i - 1) IN
    snap.joints[i].kids = [ j \in DOMAIN kids |-> << kids[j], snap.joints[kids[j] + 1].name >> ]
ColumnsOk(snap) ==
  /\ LET cols == FoldLeft(LAMBDA a, o : a \o [ j \in DOMAIN o.ch |-> o.ch[j][2] ], << >>, snap.joints)
     IN  cols = [ j \in 1 .. snap.nc |-> j - 1 ]
WholeFrames(snap) ==
  /\ \A f \in DOMAIN snap.frames : Len(snap.frames[f]) = snap.nc
  /\ snap.nc = 0 => snap.frames = << >>
  /\ snap.nf = Len(snap.frames) /\ snap.len = Len(snap.frames)
Incoherent(snap) ==
  When(~ ParentsOk(snap), "tree") \cup When(~ ChildrenOk(snap), "children")
  \cup When(~ ColumnsOk(snap), "columns") \cup When(~ WholeFrames(snap), "wholeframes")

Differs(b, snap, after) ==
  LET o == Observed(snap) IN
  When(o.sk # b.sk, "skeleton") \cup When(o.nch # b.nch, "nchannels") \cup When(o.ft # b.ft, "frametime")
  \cup When(o.frames # b.frames, "frames-" \o after)
  \cup Incoherent(snap)

---------------------------------------------------------------------------
(* Operations without commands *)

(* A Bvh enters the history: the trace says what it is. *)
Load ==
  /\ Is("load")
  /\ Done([ bv EXCEPT ![Op.slot] = Observed(Op.snap) ], Incoherent(Op.snap))
New == Is("new") /\ Done([ bv EXCEPT ![Op.slot] = EmptyBvh ], {})
Clone == Is("clone") /\ Done([ bv EXCEPT ![Op.to] = bv[Op.slot] ], {})
CloneFrom == Is("clone_from") /\ Done([ bv EXCEPT ![Op.slot] = bv[Op.from] ], {})
SetFrameTime == Is("setft") /\ Done([ bv EXCEPT ![Op.slot].ft = Op.ft ], {})
Extract ==
  /\ Is("extract")
  /\ Done([ bv EXCEPT ![Op.slot].frames = << >> ], When(Op.vals # Flatten(bv[Op.slot].frames), "extract"))
Compare ==
  /\ Is("eq")
  /\ LET e == Equal(bv[Op.slot], bv[Op.to]) IN
     Done(bv, When(Op.eq # e \/ Op.ne = e \/ Op.qe # e, "eq"))
(* Writing and debug printing change nothing. *)
Read == (Is("write") \/ Is("debug")) /\ Done(bv, {})
(* Writing with default precision and loading the text gives an equal Bvh. *)
Reload ==
  /\ Is("reload")
  /\ LET b == bv[Op.slot] IN
     IF ~ Op.ok THEN Done(bv, {"reload"})
     ELSE Done([ bv EXCEPT ![Op.to] = b ],
               When(Observed(Op.snap) # b \/ ~ Op.eq, "reload") \cup Incoherent(Op.snap))
Snap ==
  /\ Is("snap")
  /\ Done(bv, Differs(bv[Op.slot], Op.snap, Op.after))
Broken ==
  /\ \E x \in { "panic", "crash", "hang" } : Is(x) /\ d' = Append(d, << x, k, c >>)
  /\ k' = Len(T.ops) + 1 /\ c' = 0 /\ UNCHANGED << t, bv, cu, it >>

---------------------------------------------------------------------------
(* The cursor *)

ObservedCursor(new, o) ==
  When(o.i # new.i, "index") \cup When(o.n # Count(new), "count") \cup When(o.nc # new.nch, "nchannels")
  \cup When(o.pk /\ (o.pn # PeekNext(new) \/ o.pp # PeekPrev(new)), "peek")
  \cup When(o.mk /\ (o.mn # PeekNext(new) \/ o.mp # PeekPrev(new)), "peek")
  \cup When((o.e # << >>) # (new.err \in { "length", "range", "channel" }),
            IF new.err \in { "length", "range" } \/ o.e # << >> THEN "refusal" ELSE "access")
  \cup When(o.e # << >> /\ new.err \in { "length", "range", "channel" } /\ ~ Range(new.bad) \subseteq Range(o.e[1]), "message")
  (* where the message says which number is which, it is right *)
  \cup When(new.err = "length" /\ \E r \in Range(o.roles) :
              r[2] # ToString(IF r[1] = "expected" THEN new.bad[1] ELSE new.bad[2]), "message-roles")

CursorStart ==
  /\ Is("cursor") /\ c = 0
  /\ LET b == bv[Op.slot]
         new == Cursor(b.frames, b.nch)
     IN  Step(bv, new, NoIter, ObservedCursor(new, Op.start))

CC == Op.cmds[c]                 \* the first step of a cursor operation creates the cursor
CursorDo(name, new, kinds) ==
  /\ Is("cursor") /\ c > 0 /\ c <= Len(Op.cmds) /\ CC.c = name
  /\ Step([ bv EXCEPT ![Op.slot].frames = new.frames ], new, NoIter, ObservedCursor(new, CC.o) \cup kinds)
CursorNext == CursorDo("next", MoveNext(cu), {})
CursorPrev == CursorDo("prev", MovePrev(cu), {})
CursorFirst == CursorDo("first", MoveFirst(cu), {})
CursorLast == CursorDo("last", MoveLast(cu), {})
CursorShrink == CursorDo("shrink", Ok(cu), {})
CursorInsert == CursorDo("ins", Insert(cu, CC.x[1]), {})
CursorInsertMany == CursorDo("insm", InsertMany(cu, CC.x), {})
(* Frames of another Bvh: one of them, or all. *)
Donated == bv[Op.donor].frames
CursorInsertFrom ==
  Is("cursor") /\ c > 0 /\ c <= Len(Op.cmds) /\ CC.c = "insd"
  /\ CursorDo("insd", IF CC.k < Len(Donated) THEN Insert(cu, Donated[CC.k + 1]) ELSE Ok(cu), {})
CursorInsertAllFrom == CursorDo("insmd", InsertMany(cu, Donated), {})
CursorRemove == CursorDo("rm", RemoveOne(cu), {})
CursorRemoveAll == CursorDo("rmall", RemoveAll(cu), {})
CursorSurrounding == CursorDo("surr", Ok(cu), When(CC.o.r # << PeekPrev(cu), PeekNext(cu) >>, "peek"))
CursorSet ==
  LET p == IF CC.c = "setn" THEN cu.i ELSE cu.i - 1
      new == SetAt(cu, p, CC.k, CC.v)
      old == IF new.err = "noframe" THEN "none"
             ELSE IF new.err = "channel" THEN "refused" ELSE cu.frames[p + 1][CC.k + 1]
  IN  Is("cursor") /\ c > 0 /\ c <= Len(Op.cmds) /\ CC.c \in { "setn", "setp" }
      /\ CursorDo(CC.c, new, When(CC.o.old # old, "access"))
(* The cursor becomes an iterator over the frames from its position on. *)
CursorInto ==
  /\ Is("cursor") /\ c > 0 /\ c <= Len(Op.cmds) /\ CC.c = "into"
  /\ Step(bv, cu, NoIter, When(CC.o.f # Rest(cu) \/ CC.o.n # Len(Rest(cu)), "into"))
CursorEnd == Is("cursor") /\ c > Len(Op.cmds) /\ Done(bv, {})

---------------------------------------------------------------------------
(* Iterating over frames *)

IterStart ==
  /\ Is("iter") /\ c = 0
  /\ LET n == Len(bv[Op.slot].frames)
     IN  Step(bv, NoCursor, Iter(Min2(Op.from, n), n), {})
IC == Op.cmds[c]
IterTake ==
  /\ Is("iter") /\ c > 0 /\ c <= Len(Op.cmds)
  /\ LET y == Take(it, IC.c, IC.k)
         b == bv[Op.slot]
         frames == IF IC.set = << >> THEN b.frames ELSE WriteFrames(b.frames, y.at, IC.set)
     IN  Step([ bv EXCEPT ![Op.slot].frames = frames ], NoCursor, y.it,
              IF IC.c = "count" THEN When(IC.o.num # Left(it), "iter-count") \cup When(IC.o.len # Left(it), "iter-len")
              ELSE When(IC.o.f # [ j \in DOMAIN y.at |-> frames[y.at[j] + 1] ], "iter-frames")
                   \cup IF Consuming(IC.c) THEN When(IC.o.len # Left(it), "iter-len")
                        ELSE When(IC.o.len # Left(y.it) \/ IC.o.lo # Left(y.it) \/ IC.o.hi # Left(y.it), "iter-len"))
IterEnd == Is("iter") /\ c > Len(Op.cmds) /\ Done(bv, {})

---------------------------------------------------------------------------
(* Values of single frames.  Every command obtains its frame anew. *)

(* The column of channel z of joint y of the Bvh in slot x. *)
ColumnOf(x, y, z) == FirstColumns(bv[x].sk)[y + 1] + z
AC == Op.cmds[c + 1]
AccessDo ==
  /\ Is("access") /\ c < Len(Op.cmds)
  /\ LET b == bv[Op.slot]
         has == AC.f < Len(b.frames)
         f == b.frames[AC.f + 1]
         a == IF AC.ch # << >> THEN ColumnOf(AC.ch[1], AC.ch[2], AC.ch[3]) ELSE AC.a
         sp == Span(f, AC.r, a, AC.b)
         ok == Valid(f, sp)
         writes == AC.w /\ has /\ ok
         new == IF writes THEN [ bv EXCEPT ![Op.slot].frames[AC.f + 1] = Store(f, sp, AC.v) ] ELSE bv
         expected == IF ~ has THEN << "noframe", << >> >>
                     ELSE IF AC.c = "len" THEN << "len", << >> >>
                     ELSE IF AC.c = "set" THEN (IF ok THEN << "old", Select(f, sp) >> ELSE << "err", << >> >>)
                     ELSE IF ok THEN << "some", Select(f, sp) >> ELSE << "none", << >> >>
     IN  Step(new, NoCursor, NoIter,
              When(<< AC.o.r, AC.o.v >> # expected, "access")
              \cup When(expected[1] = "len" /\ (AC.o.n # Len(f) \/ AC.o.e # (Len(f) = 0)), "access")
              \cup When(expected[1] = "err" /\ AC.o.r = "err" /\ AC.o.k # << "BadChannel", a >>, "access")
              \cup When(expected[1] = "err" /\ AC.o.r = "err" /\ a \notin Range(AC.o.nums), "message"))
AccessEnd == Is("access") /\ c = Len(Op.cmds) /\ Done(bv, {})

---------------------------------------------------------------------------
(* Searching and stepping through joints: all of them, or the children of joint Op.owner.  The iterator is
   the window of positions in that list. *)

List == IF Op.owner < 0 THEN [ i \in 1 .. Len(bv[Op.slot].sk) |-> i - 1 ] ELSE Children(bv[Op.slot].sk, Op.owner)
FindStart == Is("find") /\ c = 0 /\ Step(bv, NoCursor, Iter(0, Len(List)), {})
FC == Op.cmds[c]
Named(j) == << j, bv[Op.slot].sk[j + 1].name >>
FindDo ==
  /\ Is("find") /\ c > 0 /\ c <= Len(Op.cmds)
  /\ LET list == List
         hits == { p \in it.lo .. it.hi - 1 :
                     CASE FC.c = "find" -> bv[Op.slot].sk[list[p + 1] + 1].name = FC.x
                       [] FC.c = "next" -> TRUE
                       [] FC.c = "nth" -> p >= it.lo + FC.k }
         p == Min(hits)
     IN  Step(bv, NoCursor, Iter(IF hits = {} THEN it.hi ELSE p + 1, it.hi),
              When(FC.o # (IF hits = {} THEN << >> ELSE Named(list[p + 1])), "find"))
FindEnd ==
  /\ Is("find") /\ c > Len(Op.cmds)
  /\ Done(bv, When(Op.rest # [ p \in 1 .. it.hi - it.lo |-> List[it.lo + p] ], "find"))

---------------------------------------------------------------------------
Next ==
  \/ Load \/ New \/ Clone \/ CloneFrom \/ SetFrameTime \/ Extract \/ Compare \/ Read \/ Reload \/ Snap \/ Broken
  \/ CursorStart \/ CursorNext \/ CursorPrev \/ CursorFirst \/ CursorLast \/ CursorShrink \/ CursorInsert
  \/ CursorInsertFrom \/ CursorInsertAllFrom \/ CursorInsertMany \/ CursorRemove \/ CursorRemoveAll \/ CursorSurrounding \/ CursorSet \/ CursorInto \/ CursorEnd
  \/ IterStart \/ IterTake \/ IterEnd
  \/ AccessDo \/ AccessEnd
  \/ FindStart \/ FindDo \/ FindEnd
Spec == Init /\ [][Next]_vars
View == << t, k, c >>

Finished == k > Len(T.ops)
Verdict ==
  Finished =>
    LET hits == SelectSeq(d, LAMBDA x : x[1] \in Focus) IN
    PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> { hits[i][1] : i \in DOMAIN hits },
                                  at |-> IF hits = << >> THEN << >> ELSE hits[1], ops |-> Len(T.ops) ]))

(* The model itself stays coherent (unless it started from something incoherent). *)
ModelOk ==
  d = << >> =>
    /\ InBounds(cu)
    /\ Finished => \A x \in Slots : bv[x].nch >= 0 =>
         /\ \A f \in DOMAIN bv[x].frames : Len(bv[x].frames[f]) = bv[x].nch
         /\ bv[x].nch = NumChannels(bv[x].sk)
=============================================================================
