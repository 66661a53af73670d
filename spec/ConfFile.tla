------------------------------ MODULE ConfFile ------------------------------
(***************************************************************************)
(* The user configuration file.  A configuration maps every key to a value *)
(* (a token); a file gives some keys a value.  Importing the package merges *)
(* the file over the defaults, or writes the defaults if there is no file.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, name) == IF c THEN {} ELSE {name}

Bools == {"true", "false"}
LevelNames == {"DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}
Dom == [ debug |-> Bools, con |-> Bools, conlevel |-> LevelNames,
         file |-> Bools, filelevel |-> LevelNames,
         Om |-> {"0.307", "0.2", "0.45"}, h0 |-> {"67.7", "50.0", "80.0"},
         progress |-> Bools ]
Keys == DOMAIN Dom
Default == [ debug |-> "false", con |-> "true", conlevel |-> "WARNING",
             file |-> "true", filelevel |-> "WARNING",
             Om |-> "0.307", h0 |-> "67.7", progress |-> "true" ]

Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Accepted(g) == \A k \in DOMAIN g : k \in Keys /\ g[k] \in Dom[k]

LevelOf == [DEBUG |-> 10, INFO |-> 20, WARNING |-> 30, ERROR |-> 40, CRITICAL |-> 50]
AllMsgs == {10, 20, 30, 40, 50}
Through(on, level) == {m \in AllMsgs : on = "true" /\ m >= LevelOf[level]}

\* absent: no file; given: what it says
InitSt == [ absent |-> TRUE, given |-> <<>> ]

Given(e) == IF e.given = <<>> THEN <<>> ELSE e.given
Merged(st) == IF st.absent THEN Default ELSE Over(Default, st.given)

Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "write" -> [absent |-> FALSE, given |-> Given(e)]
    [] e.op = "delete" -> [absent |-> TRUE, given |-> <<>>]
    [] e.op = "import" /\ st.absent -> [absent |-> FALSE, given |-> Default]
    [] OTHER -> st

Has(s, m) == \E i \in 1..Len(s) : s[i] = m
Same(s, set) == (\A i \in 1..Len(s) : s[i] \in set) /\ (\A m \in set : Has(s, m))

\* what a process that imported the package observes
CheckForce(c, e) ==
  UNION {If(e.conf[k] = c[k], "C16:the configuration in force has another " \o k) : k \in Keys}
  \cup If(Same(e.console, Through(c.con, c.conlevel)), "C16:the console log shows other levels")
  \cup If(Same(e.usr, Through(c.file, c.filelevel)), "C16:the user log shows other levels")
  \cup If(Same(e.dev, IF c.debug = "true" THEN AllMsgs ELSE {}), "C16:the developer log is wrong")
  \cup If(e.Om = c.Om /\ e.h0 = c.h0, "C16:another cosmology is in force")
  \cup If(e.bars = c.progress, "C16:progress bars do not follow the configuration")

Check(st, e) ==
  IF e.op # "import" THEN {}
  ELSE If(e.unchanged \/ st.absent, "C16:the user's file was changed")
       \cup If(e.exists, "C16:there is no configuration file after the import")
       \cup (IF ~Accepted(IF st.absent THEN Default ELSE st.given)
             THEN If(~e.ok, "C16:an unknown or wrong value was accepted")
             ELSE If(e.ok, "C16:a valid configuration was refused")
                  \cup (IF e.ok THEN CheckForce(Merged(st), e) ELSE {})
                  \cup (IF st.absent /\ e.exists
                        THEN UNION {If(k \in DOMAIN e.written /\ e.written[k] = Default[k],
                                       "C16:the file written does not hold the default " \o k)
                                    : k \in Keys}
                        ELSE {}))
=============================================================================
