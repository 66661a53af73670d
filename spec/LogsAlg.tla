------------------------------ MODULE LogsAlg ------------------------------
(***************************************************************************)
(* The bookkeeping behind the switches: what is stored when logs are       *)
(* silenced, made loud or set to debug, and what is restored.  Every       *)
(* history of Depth meant calls is judged by Logs!Check; in simulation     *)
(* mode the histories are printed for drv/run_logs.py.                     *)
(***************************************************************************)
EXTENDS Logs, TLC, Json

CONSTANTS Bug, Depth, Emit

VARIABLES st, al, bad, hist
vars == <<st, al, bad, hist>>

Al0 == [con |-> 30, usr |-> 30, scon |-> 30, susr |-> 30, sil |-> FALSE,
        filt |-> FALSE, prog |-> TRUE, ctx |-> <<>>]

Store(a) == IF a.sil /\ Bug # "storealways" THEN a ELSE [a EXCEPT !.scon = a.con, !.susr = a.usr]

Step(a, e) ==
  CASE e.op \in {"silence", "quiet"} ->
         LET b == [Store(a) EXCEPT !.sil = TRUE, !.con = 50, !.usr = IF Bug = "consoleonly" THEN @ ELSE 50]
         IN  IF e.op = "quiet" /\ Bug # "quietbars" THEN [b EXCEPT !.prog = FALSE] ELSE b
    [] e.op = "loud" ->
         [Store(a) EXCEPT !.sil = (Bug = "loudkeeps" /\ @), !.con = 20, !.usr = 20, !.prog = TRUE]
    [] e.op = "debug" -> [Store(a) EXCEPT !.con = 10, !.usr = IF Bug = "debugboth" THEN 10 ELSE @]
    [] e.op = "activate" -> [a EXCEPT !.con = a.scon, !.usr = a.susr, !.sil = FALSE,
                                     !.prog = IF Bug = "activatebars" THEN TRUE ELSE @]
    [] e.op = "level" -> [a EXCEPT !.con = e.v]
    [] e.op = "warnoff" -> [a EXCEPT !.filt = TRUE]
    [] e.op = "warnon" -> [a EXCEPT !.filt = FALSE]
    [] e.op = "progon" -> [a EXCEPT !.prog = TRUE]
    [] e.op = "progoff" -> [a EXCEPT !.prog = FALSE]
    [] e.op = "enter" -> [a EXCEPT !.ctx = Append(@, [con |-> a.con, usr |-> a.usr]),
                                   !.con = 40, !.usr = 40]
    [] e.op = "leave" ->
         LET c == a.ctx[Len(a.ctx)]
             b == [a EXCEPT !.ctx = SubSeq(@, 1, Len(@) - 1)]
         IN  IF Bug = "nofinally" /\ e.failing THEN b
             ELSE [b EXCEPT !.con = c.con, !.usr = c.usr]

Msgs(a, lev) ==
  SelectSeq(<<10, 20, 30, 40>>, LAMBDA m : m >= lev /\ ~(m = 30 /\ a.filt))

Ops == {[op |-> o] : o \in {"silence", "quiet", "loud", "debug", "activate", "warnoff",
                            "warnon", "progon", "progoff", "enter"}}
       \cup {[op |-> "level", v |-> v] : v \in {10, 40}}
       \cup (IF st.ctx = <<>> THEN {}
             ELSE {[op |-> "leave", failing |-> b, raised |-> b] : b \in BOOLEAN})

Call == \E e \in Ops :
  /\ Len(hist) < Depth
  /\ Meant(st, e)
  /\ e.op = "enter" => Len(st.ctx) < 2
  /\ LET a == Step(al, e)
         ev == [x \in DOMAIN e \cup {"ok", "err", "con", "usr", "bars"} |->
                  CASE x = "ok" -> TRUE [] x = "err" -> ""
                    [] x = "con" -> Msgs(a, a.con) [] x = "usr" -> Msgs(a, a.usr)
                    [] x = "bars" -> a.prog [] OTHER -> e[x]]
     IN  al' = a /\ st' = Apply(st, e) /\ bad' = bad \cup Check(st, ev)
         /\ hist' = Append(hist, e)

Finish == /\ Emit /\ Len(hist) = Depth
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ UNCHANGED <<st, al, bad>> /\ hist' = Append(hist, [op |-> "end"])

Init == st = InitSt /\ al = Al0 /\ bad = {} /\ hist = <<>>
Next == Call \/ Finish
View == <<st, al, bad, Len(hist)>>

NoViolation == bad = {}
Agree == st.con = al.con /\ st.usr = al.usr /\ st.prog = al.prog
\* silencing any number of times and re-activating is no change
SilencedIsUndone ==
  st.silenced => (al.sil /\ st.saved.con = al.scon /\ st.saved.usr = al.susr)
=============================================================================
