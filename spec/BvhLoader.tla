------------------------------ MODULE BvhLoader ------------------------------
(* The loader as a state machine over lexed lines.

   One line is one step.  A line is a record of its tokens: h (separated by blanks and colons), w
   (separated by blanks) and nm, the name that a ROOT or JOINT line declares ("" if none).  A token is
   a record: s its text; f the bits of the single-precision number it denotes; u the decimal digits of
   the count it denotes and n that count, or -1 if it is too large for TLC; t the nanoseconds of the
   frame time it denotes.  f, u and t are "bad" if the token is no such number.

   The specification keeps a stack of open blocks and gives a joint its parent when it is declared:
   the innermost open block's joint.  (The library instead searches backwards by depth when a joint is
   complete.  The two must agree.) *)
EXTENDS BvhCore

NoCount == [ n |-> 0, d |-> "" ]
NoErr == [ sec |-> "", kind |-> "", line |-> -1, axis |-> "", idx |-> -1,
           act |-> "", exp |-> "", fr |-> "", cl |-> "", bad |-> "" ]

(* pc: what is expected next.
     Hierarchy  the HIERARCHY line           Root   the ROOT line
     Brace      the brace of the block declared last
     Member     a statement of the innermost open block
     Motion, Frames, Time                    the three lines of the motion header
     Values     rows of numbers              Loaded, Failed   final *)
Start ==
  [ pc |-> "Hierarchy", stack |-> << >>, joints |-> << >>, nch |-> 0,
    nf |-> NoCount, ft |-> "0", vals |-> << >>, last |-> 0, err |-> NoErr ]

InHierarchy(s) == s.pc \in {"Hierarchy", "Root", "Brace", "Member"}
InMotion(s) == s.pc \in {"Motion", "Frames", "Time", "Values"}
Final(s) == s.pc \in {"Loaded", "Failed"}

Fail(s, e) == [ s EXCEPT !.pc = "Failed", !.err = e ]
HierErr(s, kind, ln) == Fail(s, [ NoErr EXCEPT !.sec = "Joints", !.kind = kind, !.line = ln ])
MotErr(s, kind, ln) == Fail(s, [ NoErr EXCEPT !.sec = "Motion", !.kind = kind, !.line = ln ])

Top(s) == s.stack[Len(s.stack)]
InSite(s) == Len(s.stack) > 0 /\ Top(s).site
Owner(s) == Top(s).joint                       \* index of the joint whose block is innermost
Cur(s) == s.joints[Owner(s) + 1]
(* Statements of the joint itself (OFFSET, CHANNELS, End Site) are allowed until it is sealed. *)
OwnStatements(s) == s.pc = "Member" /\ ~ InSite(s) /\ ~ Cur(s).sealed

---------------------------------------------------------------------------
(* Hierarchy lines *)

Keyword(line) == IF line.h = << >> THEN "" ELSE line.h[1].s
Known == {"HIERARCHY", "ROOT", "JOINT", "End", "{", "}", "OFFSET", "CHANNELS"}

ReadHierarchy(s, line, ln) ==
  IF s.pc = "Hierarchy" THEN [ s EXCEPT !.pc = "Root" ] ELSE HierErr(s, "UnexpectedKeyword", ln)

Declare(s, name, par) ==
  [ s EXCEPT !.joints = Append([ i \in DOMAIN @ |->
                                   IF i = par + 1 THEN [ @[i] EXCEPT !.sealed = TRUE ] ELSE @[i] ],
                               NewJoint(name, par)),
             !.stack = Append(@, [ joint |-> Len(s.joints), site |-> FALSE ]),
             !.pc = "Brace" ]

ReadRoot(s, line, ln) ==
  IF s.pc # "Root" THEN HierErr(s, "UnexpectedKeyword", ln)
  ELSE IF line.nm = "" THEN HierErr(s, "MissingJointName", ln)
  ELSE Declare(s, line.nm, -1)

ReadJoint(s, line, ln) ==
  IF s.pc # "Member" \/ InSite(s) THEN HierErr(s, "UnexpectedKeyword", ln)
  ELSE IF line.nm = "" THEN HierErr(s, "MissingJointName", ln)
  ELSE Declare(s, line.nm, Owner(s))

ReadEnd(s, line, ln) ==
  IF OwnStatements(s) /\ Len(line.h) >= 2 /\ line.h[2].s = "Site"
  THEN [ s EXCEPT !.joints[Owner(s) + 1].sealed = TRUE,
                  !.joints[Owner(s) + 1].site = TRUE,
                  !.stack = Append(@, [ joint |-> Owner(s), site |-> TRUE ]),
                  !.pc = "Brace" ]
  ELSE HierErr(s, "UnexpectedKeyword", ln)

ReadOpen(s, line, ln) ==
  IF s.pc = "Brace" THEN [ s EXCEPT !.pc = "Member" ] ELSE HierErr(s, "UnexpectedKeyword", ln)

ReadClose(s, line, ln) ==
  IF s.pc # "Member" THEN HierErr(s, "UnexpectedKeyword", ln)
  ELSE [ s EXCEPT !.stack = Front(@), !.pc = IF Len(s.stack) = 1 THEN "Motion" ELSE "Member" ]

ReadOffset(s, line, ln) ==
  LET have == Len(line.h) - 1
      bad == { i \in 1 .. 3 : i > have \/ line.h[i + 1].f = "bad" }
      a == Min(bad)
      o == [ i \in 1 .. 3 |-> line.h[i + 1].f ]
  IN  IF ~ (s.pc = "Member" /\ (InSite(s) \/ ~ Cur(s).sealed))
      THEN HierErr(s, "UnexpectedOffsetSection", ln)
      ELSE IF bad # {}
      THEN Fail(s, [ NoErr EXCEPT !.sec = "Joints", !.line = ln, !.axis = Axes[a],
                       !.kind = IF a > have THEN "MissingOffsetAxis" ELSE "ParseOffsetError" ])
      ELSE IF InSite(s) THEN [ s EXCEPT !.joints[Owner(s) + 1].es = o ]
      ELSE [ s EXCEPT !.joints[Owner(s) + 1].off = o ]

ReadChannels(s, line, ln) ==
  LET names == [ i \in 1 .. Len(line.h) - 2 |-> line.h[i + 2].s ]
      bad == { i \in DOMAIN names : ~ IsChannel(names[i]) }
  IN  IF ~ (OwnStatements(s) /\ ~ Cur(s).listed)
      THEN HierErr(s, "UnexpectedChannelsSection", ln)
      ELSE IF Len(line.h) < 2 \/ (Len(line.h) >= 2 /\ line.h[2].u = "bad")
      THEN HierErr(s, "ParseNumChannelsError", ln)
      ELSE IF bad # {}
      THEN Fail(s, [ NoErr EXCEPT !.sec = "Joints", !.line = ln, !.kind = "ParseChannelError",
                                  !.bad = names[Min(bad)] ])
      ELSE [ s EXCEPT !.joints[Owner(s) + 1].ch = names,
                      !.joints[Owner(s) + 1].first = s.nch,
                      !.joints[Owner(s) + 1].listed = TRUE,
                      !.nch = @ + Len(names) ]

ReadOther(s, line, ln) == s

---------------------------------------------------------------------------
(* Motion lines; blank lines are skipped before and between them *)

ReadMotionKeyword(s, line, ln) ==
  IF Len(line.w) = 1 /\ line.w[1].s = "MOTION" THEN [ s EXCEPT !.pc = "Frames" ]
  ELSE MotErr(s, "MissingMotionSection", ln)

ReadFrames(s, line, ln) ==
  IF Len(line.h) >= 2 /\ line.h[1].s = "Frames" /\ line.h[2].u # "bad"
  THEN [ s EXCEPT !.pc = "Time", !.nf = [ n |-> line.h[2].n, d |-> line.h[2].u ] ]
  ELSE MotErr(s, "MissingNumFrames", ln)

ReadFrameTime(s, line, ln) ==
  LET at == IF Len(line.w) >= 3 /\ line.w[3].s = ":" THEN 4 ELSE 3
  IN  IF Len(line.w) >= at /\ line.w[1].s = "Frame" /\ line.w[2].s = "Time:" /\ line.w[at].t # "bad"
      THEN [ s EXCEPT !.pc = "Values", !.ft = line.w[at].t ]
      ELSE MotErr(s, "MissingFrameTime", ln)

ReadRow(s, line, ln) ==
  LET bad == { i \in DOMAIN line.w : line.w[i].f = "bad" }
  IN  IF bad # {}
      THEN Fail(s, [ NoErr EXCEPT !.sec = "Motion", !.kind = "ParseMotionSection", !.line = ln,
                                  !.idx = Min(bad) - 1 ])
      ELSE [ s EXCEPT !.vals = @ \o [ i \in DOMAIN line.w |-> line.w[i].f ] ]

---------------------------------------------------------------------------
(* One line *)

LineKind(s, line) ==
  IF InHierarchy(s)
  THEN IF line.h = << >> THEN "Blank"
       ELSE IF Keyword(line) \in Known THEN Keyword(line) ELSE "Other"
  ELSE IF s.pc = "Values" THEN "Row"
  ELSE IF line.w = << >> THEN "Blank"
  ELSE s.pc

Apply(s, kind, line, ln) ==
  CASE kind = "Blank" -> s
    [] kind = "Other" -> ReadOther(s, line, ln)
    [] kind = "HIERARCHY" -> ReadHierarchy(s, line, ln)
    [] kind = "ROOT" -> ReadRoot(s, line, ln)
    [] kind = "JOINT" -> ReadJoint(s, line, ln)
    [] kind = "End" -> ReadEnd(s, line, ln)
    [] kind = "{" -> ReadOpen(s, line, ln)
    [] kind = "}" -> ReadClose(s, line, ln)
    [] kind = "OFFSET" -> ReadOffset(s, line, ln)
    [] kind = "CHANNELS" -> ReadChannels(s, line, ln)
    [] kind = "Motion" -> ReadMotionKeyword(s, line, ln)
    [] kind = "Frames" -> ReadFrames(s, line, ln)
    [] kind = "Time" -> ReadFrameTime(s, line, ln)
    [] kind = "Row" -> ReadRow(s, line, ln)

(* Reading a line; `last` remembers the line read last, for errors at the end of the input. *)
Step(s, kind, line, ln) == [ Apply(s, kind, line, ln) EXCEPT !.last = ln ]

---------------------------------------------------------------------------
(* The end of the input, and a reader that fails *)

ExpectedValues(s) ==
  IF s.nch = 0 THEN 0
  ELSE IF s.nf.n >= 0 /\ s.nf.n <= 1000000 THEN s.nch * s.nf.n
  ELSE -1                                        \* more than any text in a trace can supply

AtEof(s) ==
  IF InHierarchy(s) THEN HierErr(s, "MissingRoot", -1)
  ELSE IF s.pc = "Motion" THEN MotErr(s, "MissingMotionSection", s.last)
  ELSE IF s.pc = "Frames" THEN MotErr(s, "MissingNumFrames", s.last)
  ELSE IF s.pc = "Time" THEN MotErr(s, "MissingFrameTime", s.last)
  ELSE IF Len(s.vals) = ExpectedValues(s) THEN [ s EXCEPT !.pc = "Loaded" ]
  ELSE Fail(s, [ NoErr EXCEPT !.sec = "Motion", !.kind = "MotionCountMismatch",
                   !.act = ToString(Len(s.vals)), !.fr = s.nf.d, !.cl = ToString(s.nch),
                   !.exp = IF ExpectedValues(s) < 0 THEN "?" ELSE ToString(ExpectedValues(s)) ])

AtFault(s) ==
  IF InHierarchy(s) THEN HierErr(s, "Io", -1) ELSE MotErr(s, "Io", -1)

---------------------------------------------------------------------------
(* What every reachable state satisfies (checked by TLC in LoaderMC) *)

Coherent(s) ==
  /\ DepthFirst(s.joints)
  /\ \A i \in DOMAIN s.joints : s.joints[i].es # << >> => s.joints[i].site
  /\ NumChannels(s.joints) = s.nch
  (* The channels of different joints occupy disjoint, consecutive columns. *)
  /\ \A i \in DOMAIN s.joints : s.joints[i].ch # << >> =>
       s.joints[i].first = FirstColumns(s.joints)[i]
  (* The stack is a chain of ancestors ending at the last declared open joint. *)
  /\ \A k \in DOMAIN s.stack :
       /\ s.stack[k].joint \in Indices(s.joints)
       /\ s.stack[k].site => k = Len(s.stack) /\ k > 1 /\ s.stack[k - 1].joint = s.stack[k].joint
       /\ k > 1 /\ ~ s.stack[k].site => Parent(s.joints, s.stack[k].joint) = s.stack[k - 1].joint
       /\ k = 1 => s.stack[k].joint = 0

LoadedMeans(s) ==
  s.pc = "Loaded" =>
    /\ Len(s.joints) > 0 /\ s.stack = << >>
    /\ s.err = NoErr
    /\ Len(s.vals) = ExpectedValues(s)
    /\ s.nch > 0 => Flatten(Chunks(s.vals, s.nch)) = s.vals

FailedMeans(s) ==
  s.pc = "Failed" =>
    /\ s.err.kind # ""
    /\ s.err.kind \in {"MissingRoot", "MotionCountMismatch", "Io"} <=> s.err.line = -1
    /\ s.err.line <= s.last
=============================================================================
