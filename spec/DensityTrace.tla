--------------------------- MODULE DensityTrace ---------------------------
(* Judges a recorded execution of the real package, event by event. *)
EXTENDS Density, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st
vars == <<l, st>>

Init == l = 1 /\ st = InitSt

Report(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad))

Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
     IN  /\ Report(Check(st, e))
         /\ st' = Apply(st, e)
  /\ l' = l + 1
  /\ (IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE)

Spec == Init /\ [][Next]_vars
View == l
=============================================================================
