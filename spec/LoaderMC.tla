------------------------------ MODULE LoaderMC ------------------------------
(* The loader over every text made of a bounded alphabet of lines, valid and not, in every order.

   `text` is the history of lines that led to the state; it is not part of the VIEW, so that TLC
   reaches every abstract state once, by a shortest text, and takes every line from there.  Each
   transition prints the texts which exercise it in the real loader: the text itself, cut off after the
   line, and the text completed to a loadable one if that is still possible. *)
EXTENDS BvhLoader, Json

Errors == INSTANCE BvhErrors

CONSTANTS
  MaxJoints, MaxChannels, MaxValues, MaxOffsets,   \* bounds
  Valid,          \* only lines of well-formed files, OFFSET and CHANNELS in the usual order
  Emit            \* print the texts

VARIABLES s, text, n          \* n counts values used so far, so that no two are equal
vars == << s, text, n >>

Digits(k) == ToString(k)
Counts == { "0", "1", "2", "3" }
CountOf(x) == CHOOSE k \in 0 .. 3 : ToString(k) = x
BadNumbers == { "x", "-", "FOO", "Xposition" }
Words == { "HIERARCHY", "ROOT", "JOINT", "End", "Site", "{", "}", "OFFSET", "CHANNELS", "MOTION", "Frames", "Frames:",
           "Frame", "Time:", "Time", "FOO", "x", "-", ":", "" } \cup Range(ChannelNames)

(* The attributes of a token of the model; its value is the token itself. *)
Token(x) ==
  [ s |-> x,
    f |-> IF x \in Words THEN "bad" ELSE x,
    u |-> IF x \in Counts THEN x ELSE "bad",
    n |-> IF x \in Counts THEN CountOf(x) ELSE 0,
    t |-> IF x \in Words \/ x = "-1" THEN "bad" ELSE x ]

(* Colons only occur in the words below. *)
Uncolon(x) == IF x = "Frames:" THEN "Frames" ELSE IF x = "Time:" THEN "Time" ELSE x
Line(ts) ==
  [ h |-> [ i \in DOMAIN SelectSeq(ts, LAMBDA x : x # ":") |->
              Token(Uncolon(SelectSeq(ts, LAMBDA x : x # ":")[i])) ],
    w |-> [ i \in DOMAIN ts |-> Token(ts[i]) ],
    nm |-> IF Len(ts) >= 2 THEN ts[2] ELSE "" ]

Num(k) == ToString(10 + k)
Name == "j" \o ToString(Len(s.joints))

(* The lines that may follow, by state; every keyword is tried in every state. *)
Anywhere ==
  { << >>, << "FOO", "1" >>, << "HIERARCHY" >>, << "ROOT", Name >>, << "ROOT" >>,
    << "JOINT", Name >>, << "JOINT" >>, << "End", "Site" >>, << "End" >>, << "End", "FOO" >>,
    << "{" >>, << "}" >>,
    << "OFFSET", Num(n), Num(n + 1), Num(n + 2) >>,
    << "OFFSET", Num(n), Num(n + 1), Num(n + 2), Num(n + 3) >>,
    << "OFFSET" >>, << "OFFSET", Num(n) >>, << "OFFSET", Num(n), Num(n + 1) >>,
    << "OFFSET", "x", Num(n), Num(n + 1) >>, << "OFFSET", Num(n), "-", Num(n + 1) >>,
    << "OFFSET", Num(n), Num(n + 1), "x" >>, << "OFFSET", "x" >>,
    << "CHANNELS" >>, << "CHANNELS", "x" >>, << "CHANNELS", "Xposition" >>, << "CHANNELS", "0" >>,
    << "CHANNELS", "1", "Zrotation" >>, << "CHANNELS", "2", "Yposition", "Xrotation" >>,
    << "CHANNELS", "3", "Xposition" >>, << "CHANNELS", "1", "FOO" >>,
    << "CHANNELS", "2", "Zposition", "x" >>, << "CHANNELS", "0", "Yrotation" >>,
    << "MOTION" >>, << "Frames:", "1" >> }
Motionless ==
  { << >>, << "MOTION" >>, << "MOTION", "x" >>, << "MOTION", ":" >>, << "FOO" >>, << "}" >>, << "{" >>,
    << "JOINT", "x" >>, << "OFFSET", "1", "2", "3" >>, << "Frames:", "1" >>, << "Frame", "Time:", "1" >>, << "1" >> }
FramesLines ==
  { << >>, << "Frames:", "0" >>, << "Frames:", "1" >>, << "Frames:", "2" >>, << "Frames", ":", "1" >>, << "Frames", "1" >>,
    << "Frames:" >>, << "Frames:", "x" >>, << "Frames:", "-1" >>, << "Frames:", "1", "x" >>, << "Frame", "Time:", "1" >>,
    << "MOTION" >>, << "1" >>, << "x", "Frames:", "1" >> }
TimeLines ==
  { << >>, << "Frame", "Time:", "7" >>, << "Frame", "Time:", ":", "7" >>, << "Frame", "Time:" >>, << "Frame", "Time:", ":" >>,
    << "Frame", "Time:", "x" >>, << "Frame", "Time:", "-1" >>, << "Frame", "Time:", "7", "x" >>, << "Frame", "Time", "7" >>,
    << "Frame", "7" >>, << "Frame" >>, << "Time:", "7" >>, << "Frames:", "1" >>, << "7" >> }
Rows ==
  { << >>, << Num(n) >>, << Num(n), Num(n + 1) >>, << Num(n), Num(n + 1), Num(n + 2) >>,
    << "x" >>, << Num(n), "x" >>, << Num(n), "-", Num(n + 1) >>, << "MOTION" >>, << "-1" >> }
(* Well-formed files only. *)
ValidLines ==
  LET three == << "OFFSET", Num(n), Num(n + 1), Num(n + 2) >> IN
  CASE s.pc = "Hierarchy" -> { << "HIERARCHY" >> }
    [] s.pc = "Root" -> { << "ROOT", Name >> }
    [] s.pc = "Brace" -> { << "{" >> }
    [] s.pc = "Member" /\ InSite(s) -> IF Cur(s).es = << >> THEN { three } ELSE { << "}" >> }
    [] s.pc = "Member" /\ ~ InSite(s) ->
         IF ~ Cur(s).sealed /\ Cur(s).off = ZeroOffset THEN { three }
         ELSE IF ~ Cur(s).sealed /\ ~ Cur(s).listed
         THEN { << "CHANNELS", "0" >>, << "CHANNELS", "1", "Zrotation" >>, << "CHANNELS", "2", "Yposition", "Xrotation" >> }
         ELSE { << "JOINT", Name >>, << "}" >> } \cup (IF Cur(s).sealed THEN {} ELSE { << "End", "Site" >> })
    [] s.pc = "Motion" -> { << "MOTION" >> }
    [] s.pc = "Frames" -> { << "Frames:", "0" >>, << "Frames:", "1" >>, << "Frames:", "2" >> }
    [] s.pc = "Time" -> { << "Frame", "Time:", "7" >> }
    [] s.pc = "Values" -> { << Num(n) >>, << Num(n), Num(n + 1) >>, << Num(n), Num(n + 1), Num(n + 2) >> }

Alphabet ==
  IF Valid THEN ValidLines
  ELSE IF InHierarchy(s) THEN Anywhere
  ELSE CASE s.pc = "Motion" -> Motionless
         [] s.pc = "Frames" -> FramesLines
         [] s.pc = "Time" -> TimeLines
         [] s.pc = "Values" -> Rows

(* Lines that complete a text from state st; << >> if there are too many values already. *)
Close(st) == [ i \in 1 .. Len(st.stack) |-> << "}" >> ]
Header(k) == << << "MOTION" >>, << "Frames:", ToString(k) >>, << "Frame", "Time:", "7" >> >>
Row(st) == IF st.nch = 0 THEN << >> ELSE << [ i \in 1 .. st.nch |-> Num(900 + i) ] >>
Missing(st) == st.nch * st.nf.n - Len(st.vals)
Completion(st) ==
  CASE st.pc = "Hierarchy" -> << << "HIERARCHY" >>, << "ROOT", "r" >>, << "{" >>, << "}" >> >> \o Header(0)
    [] st.pc = "Root" -> << << "ROOT", "r" >>, << "{" >>, << "}" >> >> \o Header(0)
    [] st.pc = "Brace" -> << << "{" >> >> \o Close(st) \o Header(1) \o Row(st)
    [] st.pc = "Member" -> Close(st) \o Header(1) \o Row(st)
    [] st.pc = "Motion" -> Header(1) \o Row(st)
    [] st.pc = "Frames" -> Tail(Header(1)) \o Row(st)
    [] st.pc = "Time" -> << << "Frame", "Time:", "7" >> >>
                          \o IF st.nch * st.nf.n = 0 THEN << >>
                             ELSE << [ i \in 1 .. st.nch * st.nf.n |-> Num(900 + i) ] >>
    [] st.pc = "Values" -> IF Missing(st) <= 0 THEN << >> ELSE << [ i \in 1 .. Missing(st) |-> Num(900 + i) ] >>
    [] OTHER -> << >>

RunLine(st, ts, ln) == LET line == Line(ts) IN IF Final(st) THEN st ELSE Step(st, LineKind(st, line), line, ln)
RunAll(st, lines, ln) ==
  FoldLeft(LAMBDA a, i : RunLine(a, lines[i], ln + i - 1), st, [ i \in DOMAIN lines |-> i ])

---------------------------------------------------------------------------
Init == s = Start /\ text = << >> /\ n = 0

Bounded(st) ==
  /\ Len(st.joints) <= MaxJoints
  /\ st.nch <= MaxChannels
  /\ Len(st.vals) <= MaxValues

Outcome(st) == IF AtEof(st).pc = "Loaded" THEN "Loaded" ELSE AtEof(st).err.kind
Record(lines, complete, end) ==
  ~ Emit \/ PrintT("CASE " \o ToJson([ lines |-> lines, done |-> complete,
                                       k |-> IF Final(end) THEN end.err.kind ELSE Outcome(end) ]))

Read(ts) ==
  LET s2 == RunLine(s, ts, Len(text))
      t2 == Append(text, ts)
  IN  /\ Bounded(s2)
      /\ s' = s2
      /\ text' = t2
      /\ n' = n + Len(ts)
      /\ Record(t2, << >>, s2)
      /\ IF Final(s2) \/ Completion(s2) = << >> THEN TRUE
         ELSE Record(t2, Completion(s2), RunAll(s2, Completion(s2), Len(t2)))

Next == ~ Final(s) /\ \E ts \in Alphabet : Read(ts)
Spec == Init /\ [][Next]_vars

(* What distinguishes states: not the values of numbers, only which were given; and once the hierarchy is
   complete, only how many channels it has.  (Every complete hierarchy still makes its own texts, by the
   transition that completes it.) *)
Shape(j) == << j.par, j.off # ZeroOffset, j.site, j.es # << >>, j.sealed, j.listed, Len(j.ch) >>
View ==
  << s.pc, s.stack, IF InMotion(s) THEN << s.nch >> ELSE [ i \in DOMAIN s.joints |-> Shape(s.joints[i]) ],
     s.nf.n, Len(s.vals), s.err.kind, s.err.axis, s.err.idx >>
(* Fewer states: which joints have an offset is not distinguished unless MaxOffsets allows it. *)
Constraint == Cardinality({ i \in DOMAIN s.joints : s.joints[i].off # ZeroOffset }) <= MaxOffsets

---------------------------------------------------------------------------
(* Every error says everything that its kind has to say. *)
Described == s.pc = "Failed" => Errors!WellDescribed(s.err)
DescribedAtEnd == ~ Final(s) /\ AtEof(s).pc = "Failed" => Errors!WellDescribed(AtEof(s).err)

CoherentState == Coherent(s) /\ LoadedMeans(s) /\ FailedMeans(s)

(* From every state that has not failed, and has not read too many values, there is a way to load; the
   specified completion is one. *)
Completable ==
  (~ Final(s) /\ (s.pc = "Values" => Missing(s) >= 0)) =>
    LET e == RunAll(s, Completion(s), Len(text)) IN
    ~ Final(e) /\ AtEof(e).pc = "Loaded"

(* A text that ends here is loaded only if the specification of "complete" says so. *)
EndsRight ==
  ~ Final(s) =>
    (AtEof(s).pc = "Loaded" <=> (s.pc = "Values" /\ Len(s.vals) = s.nch * s.nf.n))

(* What has been declared is never changed by later lines, except the joint whose block is innermost. *)
Stable ==
  [][ /\ IsPrefix([ i \in DOMAIN s.joints |-> << s.joints[i].name, s.joints[i].par >> ],
                  [ i \in DOMAIN s'.joints |-> << s'.joints[i].name, s'.joints[i].par >> ])
      /\ IsPrefix(s.vals, s'.vals)
      /\ s'.nch >= s.nch
      /\ \A i \in DOMAIN s.joints :
           (s.stack = << >> \/ Owner(s) # i - 1) => s'.joints[i] = s.joints[i]
      /\ s.pc \in {"Motion", "Frames", "Time", "Values"} => s'.joints = s.joints
    ]_vars
=============================================================================
