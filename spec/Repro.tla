------------------------------- MODULE Repro -------------------------------
(***************************************************************************)
(* Surveys drawn in several processes.  A survey is known by the            *)
(* configuration of its synth but the seed (k), the seed (s), the options   *)
(* of the draw (o) and whether code is compiled (mode, one per script).     *)
(* It has n objects, and dig is a digest of everything in it.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, name) == IF c THEN {} ELSE {name}
With(g, k, v) == [x \in DOMAIN g \cup {k} |-> IF x = k THEN v ELSE g[x]]

InitSt == [ y |-> [x \in {} |-> 0], drawn |-> {} ]

Known(st, e) == e.y \in DOMAIN st.y
Drawn(st, e) == [k |-> st.y[e.y].k, s |-> st.y[e.y].s, o |-> e.o, dig |-> e.dig, n |-> e.n]

Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "make" -> [st EXCEPT !.y = With(@, e.y, [k |-> e.k, s |-> e.s, p |-> e.p])]
    [] e.op = "draw" /\ e.ok -> [st EXCEPT !.drawn = @ \cup {Drawn(st, e)}]
    [] OTHER -> st

Check(st, e) ==
  IF e.op # "draw" THEN {}
  ELSE IF ~e.ok THEN {"C20:a survey cannot be drawn"}
  ELSE LET d == Drawn(st, e)
           alike == {x \in st.drawn : x.k = d.k /\ x.o = d.o}
       IN  If(\A x \in alike : x.s = d.s => x.dig = d.dig,
              "C20:the same configuration and seed give another survey")
           \cup If(\A x \in alike : x.s # d.s /\ x.n > 0 /\ d.n > 0 => x.dig # d.dig,
              "C20:different seeds give the same survey")
=============================================================================
