---------------------------- MODULE ConfFileAlg ----------------------------
(***************************************************************************)
(* The import: defaults, merge section by section or write the defaults,   *)
(* then set up handlers, levels, cosmology and progress bars from the      *)
(* result.  Every history of Depth operations with files giving at most    *)
(* MaxGiven keys is judged by ConfFile!Check.                              *)
(***************************************************************************)
EXTENDS ConfFile, TLC, Json

CONSTANTS Bug, Depth, MaxGiven, Emit

VARIABLES st, disk, bad, hist, edit
vars == <<st, disk, bad, hist, edit>>

Section == [debug |-> "logging", con |-> "console", conlevel |-> "console",
            file |-> "logfile", filelevel |-> "logfile", Om |-> "cosmology",
            h0 |-> "cosmology", progress |-> "top"]
GivenSections(g) == {Section[k] : k \in DOMAIN g \cap Keys}

Merge(g) ==
  CASE Bug = "defaultswin" -> Default
    [] Bug = "sections" ->   \* a section given replaces the whole default section
         [k \in Keys |-> IF k \in DOMAIN g THEN g[k]
                         ELSE IF Section[k] \in GivenSections(g) THEN "missing" ELSE Default[k]]
    [] OTHER -> [k \in Keys |-> IF k \in DOMAIN g THEN g[k] ELSE Default[k]]

Import ==
  LET g == disk.given
      fails == ~disk.absent /\ ~Accepted(g) /\ ~(Bug = "ignoreunknown" /\ \A k \in DOMAIN g \cap Keys : g[k] \in Dom[k])
      c == IF disk.absent THEN Default ELSE Merge(g)
      d == CASE disk.absent /\ Bug = "nowrite" -> disk
             [] disk.absent -> [absent |-> FALSE, given |-> Default]
             [] ~fails /\ Bug = "rewrite" -> [absent |-> FALSE, given |-> c]
             [] OTHER -> disk
      f == IF fails \/ Bug = "sections" THEN Default ELSE c
      seq(S) == SelectSeq(<<10, 20, 30, 40, 50>>, LAMBDA m : m \in S)
      ev == [ op |-> "import", ok |-> ~fails, conf |-> c,
              console |-> seq(Through(IF Bug = "always" THEN "true" ELSE f.con, f.conlevel)),
              usr |-> seq(Through(f.file, IF Bug = "onelevel" THEN f.conlevel ELSE f.filelevel)),
              dev |-> seq(IF f.debug = "true" THEN AllMsgs ELSE {}),
              Om |-> IF Bug = "early" THEN Default.Om ELSE f.Om, h0 |-> f.h0,
              bars |-> f.progress, unchanged |-> d = disk, exists |-> ~d.absent,
              written |-> IF d.absent THEN <<>> ELSE d.given ]
  IN  /\ disk' = d /\ bad' = bad \cup Check(st, ev) /\ st' = Apply(st, ev)
      /\ hist' = Append(hist, [op |-> "import"])

\* the user writes a file key by key: how many keys, with or without wrong ones
Tried(k) == (IF k \in Keys THEN IF Emit THEN Dom[k]
                                ELSE {Default[k], CHOOSE v \in Dom[k] : v # Default[k]}
             ELSE {})
            \cup (IF edit.wrong THEN {"bad"} ELSE {})
AllKeys == Keys \cup {"unknown", "logunknown"}
NoEdit == [on |-> FALSE, size |-> 0, wrong |-> FALSE, given |-> <<>>]
Last == IF hist = <<>> THEN "none" ELSE hist[Len(hist)].op

Begin == \E n \in 0..MaxGiven, w \in (IF Emit THEN 1..5 ELSE 1..2) :
  /\ ~edit.on /\ Last # "write" /\ Len(hist) < Depth
  /\ edit' = [on |-> TRUE, size |-> n, wrong |-> w = 1, given |-> <<>>]
  /\ UNCHANGED <<st, disk, bad, hist>>
Add == \E k \in AllKeys : \E v \in Tried(k) :
  /\ edit.on /\ k \notin DOMAIN edit.given /\ Cardinality(DOMAIN edit.given) < edit.size
  /\ edit' = [edit EXCEPT !.given = Over(@, (k :> v))]
  /\ UNCHANGED <<st, disk, bad, hist>>
Write ==
  /\ edit.on /\ Cardinality(DOMAIN edit.given) = edit.size
  /\ LET e == [op |-> "write", given |-> edit.given]
     IN  st' = Apply(st, e) /\ hist' = Append(hist, e)
  /\ disk' = [absent |-> FALSE, given |-> edit.given] /\ edit' = NoEdit /\ UNCHANGED bad
Delete ==
  /\ ~edit.on /\ ~disk.absent /\ Last = "import" /\ Len(hist) < Depth
  /\ disk' = [absent |-> TRUE, given |-> <<>>] /\ st' = Apply(st, [op |-> "delete"])
  /\ hist' = Append(hist, [op |-> "delete"]) /\ UNCHANGED <<bad, edit>>
Run == ~edit.on /\ Len(hist) < Depth /\ Import /\ UNCHANGED edit

Finish == /\ Emit /\ Len(hist) = Depth
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ UNCHANGED <<st, disk, bad, edit>> /\ hist' = Append(hist, [op |-> "end"])

Init == /\ st = InitSt /\ disk = [absent |-> TRUE, given |-> <<>>] /\ bad = {} /\ hist = <<>>
        /\ edit = NoEdit
Next == Begin \/ Add \/ Write \/ Delete \/ Run \/ Finish
View == <<st, disk, bad, edit, Len(hist), Last>>

NoViolation == bad = {}
Agree == st.absent = disk.absent /\ (~st.absent => st.given = disk.given)
=============================================================================
