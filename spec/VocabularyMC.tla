---------------------------- MODULE VocabularyMC ----------------------------
(* Every word that can be had from a channel name with at most MaxEdits letters dropped, added or replaced,
   or from nothing: the recogniser accepts it exactly if it is one of the six names.  Emits the words. *)
EXTENDS BvhVocabulary, Json
CONSTANTS Alphabet, MaxEdits, Emit
VARIABLES target, at, edits, word, r
vars == << target, at, edits, word, r >>

Init == \E i \in DOMAIN ChannelNames : target = ChannelNames[i] /\ at = 1 /\ edits = 0 /\ word = "" /\ r = StartName
Put(x) == word' = word \o x /\ r' = ReadLetter(r, x)
Copy == at <= Len(target) /\ Put(SubSeq(target, at, at)) /\ at' = at + 1 /\ UNCHANGED << target, edits >>
Edit == edits < MaxEdits /\ edits' = edits + 1 /\ UNCHANGED target
DropLetter == Edit /\ at <= Len(target) /\ at' = at + 1 /\ UNCHANGED << word, r >>
AddLetter == Edit /\ (\E x \in Alphabet : Put(x)) /\ UNCHANGED at
ReplaceLetter == Edit /\ at <= Len(target) /\ (\E x \in Alphabet : Put(x)) /\ at' = at + 1
Next == Copy \/ DropLetter \/ AddLetter \/ ReplaceLetter
Spec == Init /\ [][Next]_vars
(* How the word came about does not matter. *)
View == << target, at, edits, word >>
SixNames == Recognised(r) <=> IsChannel(word)
Folded == r = Read(word)
Distinct ==
  Recognised(r) => LET m == Meaning(r) IN
                   m.name = word /\ m.rot # m.pos /\ \A i \in 1 .. 3 : (m.vec[i] = One) = (Axes[i] = m.axis)
(* Every state is a word: prefixes as well as edits. *)
Emitted == Emit => PrintT("CASE " \o ToJson(word))
=============================================================================
