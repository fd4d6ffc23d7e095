----------------------------- MODULE LoaderTrace -----------------------------
(* Trace validation for the loader.  Every trace is an input (bytes) with what the real library did
   with it.  TLC lexes the bytes, takes the loader through them line by line with the actions below,
   and in the final state compares the outcome with the observation.

   A trace record:
     id     identification
     bytes  the input, numbers 0..255
     text   the input as a string, one character per byte
     fault  number of bytes after which the reader fails, or -1
     io     kind and message of that failure
     num    table: text of a token -> [f, u, n, t]
     obs    observation: r = "ok" (with snap), "err" (with err), or "panic"/"crash"/"hang"
     mem    peak of memory used while loading; size: number of bytes of the input *)
EXTENDS BvhLoader, BvhLexer, Json, IOUtils

CONSTANT Focus        \* the set of kinds of discrepancies that count

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  t,       \* index of the trace
  l,       \* number of the next physical line (from 1); 0 before the input is divided into lines
  lines,   \* the physical lines, as spans of the input
  cur,     \* the next line, lexed
  s        \* the state of the loader
vars == << t, l, lines, cur, s >>

T == Traces[t]
Token(tr, txt) ==
  LET a == tr.num[txt] IN [ s |-> txt, f |-> a.f, u |-> a.u, n |-> a.n, t |-> a.t ]
NoLine == [ h |-> << >>, w |-> << >>, nm |-> "" ]
LexAt(ls, i) ==
  IF i <= Len(ls) THEN Lex(T.bytes, T.text, ls[i], LAMBDA x : Token(T, x)) ELSE NoLine

Init == t \in DOMAIN Traces /\ l = 0 /\ lines = << >> /\ cur = NoLine /\ s = Start

(* Divide the bytes that the reader delivers into lines.  If it fails, what it delivered after the
   last line feed never becomes a line. *)
Open ==
  /\ l = 0
  /\ l' = 1
  /\ lines' = IF T.fault < 0 THEN PhysicalLines(T.bytes)
              ELSE CompleteLines(T.bytes, T.fault)
  /\ cur' = LexAt(lines', 1)
  /\ UNCHANGED << t, s >>

Read(kind) ==
  /\ l > 0 /\ l <= Len(lines) /\ ~ Final(s)
  /\ LineKind(s, cur) = kind
  /\ s' = Step(s, kind, cur, l - 1)
  /\ l' = l + 1
  /\ cur' = LexAt(lines, l + 1)
  /\ UNCHANGED << t, lines >>

BlankLine == Read("Blank")
OtherLine == Read("Other")
HierarchyLine == Read("HIERARCHY")
RootLine == Read("ROOT")
JointLine == Read("JOINT")
EndLine == Read("End")
OpenBraceLine == Read("{")
CloseBraceLine == Read("}")
OffsetLine == Read("OFFSET")
ChannelsLine == Read("CHANNELS")
MotionLine == Read("Motion")
FramesLine == Read("Frames")
FrameTimeLine == Read("Time")
RowLine == Read("Row")

Eof ==
  /\ l > Len(lines) /\ l > 0 /\ ~ Final(s) /\ T.fault < 0
  /\ s' = AtEof(s) /\ l' = l + 1 /\ UNCHANGED << t, lines, cur >>

IoError ==
  /\ l > Len(lines) /\ l > 0 /\ ~ Final(s) /\ T.fault >= 0
  /\ s' = AtFault(s) /\ l' = l + 1 /\ UNCHANGED << t, lines, cur >>

Next ==
  \/ Open \/ BlankLine \/ OtherLine
  \/ HierarchyLine \/ RootLine \/ JointLine \/ EndLine \/ OpenBraceLine \/ CloseBraceLine
  \/ OffsetLine \/ ChannelsLine
  \/ MotionLine \/ FramesLine \/ FrameTimeLine \/ RowLine
  \/ Eof \/ IoError
Spec == Init /\ [][Next]_vars
View == << t, l >>

---------------------------------------------------------------------------
(* Discrepancies between the final state and the observation, by kind *)

When(c, k) == IF c THEN {k} ELSE {}

JointDiff(e, o, i) ==          \* e: expected joint, o: observed joint
     When(o.name # e.name, "name")
  \cup When(o.off # e.off, "offset")
  \cup When(o.es # e.es /\ ~ (e.site /\ e.es = << >>), "endsite")
  \cup When(o.hes # (o.es # << >>), "endsite")
  \cup When([ k \in DOMAIN o.ch |-> o.ch[k][1] ] # e.ch, "channels")
  \cup When([ k \in DOMAIN o.ch |-> o.ch[k][2] ] # [ k \in DOMAIN e.ch |-> e.first + k - 1 ], "columns")
  \cup When(o.i # i, "index")
  \cup When(o.par # e.par \/ o.parj # e.par, "parent")
  \cup When(o.root # (i = 0) \/ o.child # (i # 0), "root")

ParentNames(snap) ==
  \A i \in DOMAIN snap.joints :
    LET o == snap.joints[i] IN
    o.parn = IF o.par < 0 \/ o.par >= Len(snap.joints) THEN "" ELSE snap.joints[o.par + 1].name

KidsDiff(joints, snap) ==
  \E i \in DOMAIN joints :
    LET kids == Children(joints, i - 1) IN
    snap.joints[i].kids # [ k \in DOMAIN kids |-> << kids[k], joints[kids[k] + 1].name >> ]

SnapDiff(st, snap) ==
  LET n == Len(st.joints)
      same == Len(snap.joints) = n
  IN   When(~ same, "njoints")
  \cup (IF same THEN UNION { JointDiff(st.joints[i], snap.joints[i], i - 1) : i \in 1 .. n } ELSE {})
  \cup (IF same THEN When(KidsDiff(st.joints, snap), "children") ELSE {})
  \cup When(same /\ ~ ParentNames(snap), "parent")
  \cup When(snap.jm # n, "jointsmut")
  \cup When(snap.root # << 0, st.joints[1].name >>, "root")
  \cup When(snap.nc # st.nch, "nchannels")
  \cup When(snap.ft # st.ft, "frametime")
  \cup When(snap.frames # Chunks(st.vals, st.nch), "frames")
  \cup When(snap.nf # Len(snap.frames) \/ snap.len # Len(snap.frames), "nframes")

ErrDiff(e, o) ==
       When(o.sec # e.sec \/ o.kind # e.kind, "kind")
  \cup When(o.line # e.line, "line")
  \cup When(o.axis # e.axis \/ o.idx # e.idx, "detail")
  \cup When(o.bad # e.bad, "detail")
  \cup When(o.act # e.act \/ o.fr # e.fr \/ o.cl # e.cl \/ (e.exp # "?" /\ o.exp # e.exp), "counts")
  \cup When(e.kind = "Io" /\ (o.io.kind # T.io.kind \/ o.io.msg # T.io.msg), "ioerror")

(* Memory stays in proportion to the input: each byte of input may account for 512 bytes. *)
MemoryBound == 1048576 + 512 * T.size

Diff ==
  LET o == T.obs IN
  IF o.r \notin {"ok", "err"} THEN {o.r}
  ELSE When(T.mem > MemoryBound, "memory")
    \cup IF s.pc = "Loaded"
         THEN IF o.r = "ok" THEN SnapDiff(s, o.snap) ELSE {"rejected"}
         ELSE IF o.r = "err" THEN ErrDiff(s.err, o.err)
         ELSE {IF s.err.kind = "MotionCountMismatch" THEN "accepted-count"
               ELSE IF s.err.kind = "Io" THEN "accepted-io" ELSE "accepted"}

(* One verdict per trace. *)
Verdict ==
  Final(s) =>
    LET d == Diff \cap Focus IN
    PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> d, pc |-> s.pc, kind |-> s.err.kind,
      exp |-> IF d = {} THEN << >> ELSE << Skeleton(s.joints), s.nch, s.ft, s.err, Len(s.vals) >> ]))

CoherentState == Final(s) => Coherent(s) /\ LoadedMeans(s) /\ FailedMeans(s)
=============================================================================
