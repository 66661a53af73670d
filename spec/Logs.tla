-------------------------------- MODULE Logs --------------------------------
(***************************************************************************)
(* The switches of the console log, the user log, the warnings and the     *)
(* progress bars.  Levels are those of Python: DEBUG 10 ... CRITICAL 50.   *)
(*                                                                         *)
(* A message is shown by a handler if its level is at least the handler's  *)
(* and it is not a warning while warnings are switched off.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, name) == IF c THEN {} ELSE {name}

Levels == {10, 20, 30, 40}   \* messages of these levels are sent

InitSt == [ con |-> 30, usr |-> 30,
            silenced |-> FALSE,
            saved |-> [con |-> 30, usr |-> 30],  \* in force before silencing
            warn |-> TRUE, prog |-> TRUE,
            ctx |-> <<>>,                         \* levels found by the temporary silence
            known |-> TRUE ]                      \* the levels are determined

Silence(st) ==
  LET s == IF st.silenced THEN st
           ELSE [st EXCEPT !.saved = [con |-> st.con, usr |-> st.usr], !.silenced = TRUE]
  IN  [s EXCEPT !.con = 50, !.usr = 50]

Loud(st) == [st EXCEPT !.con = 20, !.usr = 20, !.silenced = FALSE]

Apply(st, e) ==
  CASE e.op = "reset" -> [InitSt EXCEPT !.con = e.con, !.usr = e.usr, !.prog = e.prog]
    [] e.op = "silence" -> Silence(st)
    [] e.op = "quiet" -> [Silence(st) EXCEPT !.prog = FALSE]
    [] e.op = "loud" -> [Loud(st) EXCEPT !.prog = TRUE]
    [] e.op = "debug" -> [st EXCEPT !.con = 10]
    [] e.op = "activate" ->
         [st EXCEPT !.con = st.saved.con, !.usr = st.saved.usr, !.silenced = FALSE]
    [] e.op = "level" -> [st EXCEPT !.con = e.v]
    [] e.op = "warnoff" -> [st EXCEPT !.warn = FALSE]
    [] e.op = "warnon" -> [st EXCEPT !.warn = TRUE]
    [] e.op = "progon" -> [st EXCEPT !.prog = TRUE]
    [] e.op = "progoff" -> [st EXCEPT !.prog = FALSE]
    [] e.op = "enter" ->
         [st EXCEPT !.ctx = Append(@, [con |-> st.con, usr |-> st.usr]),
                    !.con = 40, !.usr = 40]
    [] e.op = "leave" ->
         LET c == st.ctx[Len(st.ctx)]
         IN  [st EXCEPT !.con = c.con, !.usr = c.usr,
                        !.ctx = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> st

\* the calls whose outcome is determined: logs are re-activated only after they
\* were silenced, and not silenced again after a level was changed meanwhile
Meant(st, e) ==
  CASE e.op = "activate" -> st.silenced /\ st.ctx = <<>>
    [] e.op \in {"silence", "quiet"} -> st.ctx = <<>> /\ (st.silenced => st.con = 50 /\ st.usr = 50)
    [] e.op \in {"loud", "debug", "level"} -> st.ctx = <<>>
    [] OTHER -> TRUE

Shown(st, lev, m) == m >= lev /\ (m = 30 => st.warn)

\* which messages came through
CheckMsgs(st, lev, got, what) ==
  If(\A m \in Levels :
       (st.ctx # <<>> /\ m = 40) \/ ((\E i \in 1..Len(got) : got[i] = m) <=> Shown(st, lev, m)),
     "C15:" \o what)
  \cup If(\A i, j \in 1..Len(got) : i # j => got[i] # got[j], "C15:a message was shown twice")

Check(st, e) ==
  IF e.op = "reset" THEN {}
  ELSE
  LET t == Apply(st, e)
  IN
  If(e.ok, "C15:a switch fails with " \o e.err)
  \cup CheckMsgs(t, t.con, e.con, "the console log shows other messages")
  \cup CheckMsgs(t, t.usr, e.usr, "the user log shows other messages")
  \cup If(e.bars <=> t.prog, "C15:progress bars do not follow their switches")
  \cup (IF e.op = "draw"
        THEN If(e.drew, "*:drawing fails")
             \cup If(e.drawbars <=> t.prog, "C15:drawing shows progress bars")
             \cup If(t.con < 50 \/ ~e.said, "C15:drawing writes to a silenced console")
        ELSE {})
  \cup (IF e.op = "leave" THEN If(e.raised = e.failing, "C15:an error was lost") ELSE {})
=============================================================================
