------------------------------ MODULE ReproAlg ------------------------------
(***************************************************************************)
(* Where the numbers of a survey come from: every process has one global   *)
(* generator, whose state is a seed and how much was drawn since.  A draw  *)
(* sets it to the seed of the synth and then draws places, luminosities     *)
(* and the rest one after another, some of them by the package's own        *)
(* compiled code.  Every history of Depth calls in a few processes is       *)
(* judged by Repro!Check.                                                   *)
(***************************************************************************)
EXTENDS Repro, TLC, Json

CONSTANTS Bug, Depth, Emit, Procs, Confs, Seeds, Opts, MaxSynths

VARIABLES st, gen, own, bars, syn, bad, hist
vars == <<st, gen, own, bars, syn, bad, hist>>

Amount(k, o) == k + o
Max(a, b) == IF a > b THEN a ELSE b

Draw(y, o) ==
  LET x == syn[y]
      before == gen[x.p]
      seeded == [s |-> IF Bug = "sameseed" THEN 0 ELSE x.s, n |-> 0]
      start == CASE Bug = "noseed" -> before
                 [] Bug = "once" /\ x.used > 0 -> before
                 [] Bug = "oncehere" /\ before.s = x.s -> before
                 [] OTHER -> seeded
      first == IF Bug = "lateseed" THEN before ELSE start
      extra == IF Bug = "progress" /\ bars[x.p] THEN 1 ELSE 0
      compiled == IF Bug = "own" THEN <<own[x.p]>> ELSE <<>>
      names == IF Bug = "hashorder" THEN <<x.p>> ELSE <<>>
  IN  [ dig |-> <<x.k, o, first, [start EXCEPT !.n = @ + extra], compiled, names>>,
        after |-> [start EXCEPT !.n = @ + Amount(x.k, o) + extra] ]

Script(e) == [x \in DOMAIN e \ {"dig", "ok", "n"} |-> e[x]]
Did(ev) == /\ bad' = bad \cup Check(st, ev) /\ st' = Apply(st, ev) /\ hist' = Append(hist, Script(ev))
Fresh == "y" \o ToString(Cardinality(DOMAIN syn) + 1)

Call ==
  /\ Len(hist) < Depth
  /\ \/ /\ Cardinality(DOMAIN syn) < MaxSynths
        /\ \E p \in Procs : \E k \in Confs : \E s \in Seeds :
             /\ Did([op |-> "make", p |-> p, y |-> Fresh, k |-> k, s |-> s])
             /\ syn' = With(syn, Fresh, [p |-> p, k |-> k, s |-> s, used |-> 0])
             /\ UNCHANGED <<gen, own, bars>>
     \/ \E y \in DOMAIN syn : \E o \in Opts :
          LET d == Draw(y, o) p == syn[y].p
          IN  /\ Did([op |-> "draw", p |-> p, y |-> y, o |-> o, ok |-> TRUE, dig |-> d.dig, n |-> 1])
              /\ gen' = [gen EXCEPT ![p] = d.after] /\ own' = [own EXCEPT ![p] = @ + 1]
              /\ syn' = [syn EXCEPT ![y].used = 1] /\ UNCHANGED bars
     \* something else draws numbers, or sets the generator
     \/ \E p \in Procs :
          /\ Did([op |-> "noise", p |-> p])
          /\ gen' = [gen EXCEPT ![p].n = @ + 1] /\ UNCHANGED <<own, bars, syn>>
     \/ \E p \in Procs : \E s \in Seeds :
          /\ gen[p] # [s |-> s, n |-> 0]
          /\ Did([op |-> "seed", p |-> p, s |-> s])
          /\ gen' = [gen EXCEPT ![p] = [s |-> s, n |-> 0]] /\ UNCHANGED <<own, bars, syn>>
     \/ \E p \in Procs :
          /\ Did([op |-> "bars", p |-> p, on |-> ~bars[p]])
          /\ bars' = [bars EXCEPT ![p] = ~@] /\ UNCHANGED <<gen, own, syn>>

Finish == /\ Emit /\ Len(hist) = Depth
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ UNCHANGED <<st, gen, own, bars, syn, bad>> /\ hist' = Append(hist, [op |-> "end"])

\* processes start with some state of the generator
Init == /\ st = InitSt /\ syn = [x \in {} |-> 0] /\ bad = {} /\ hist = <<>>
        /\ gen = [p \in Procs |-> [s |-> p, n |-> 0]] /\ own = [p \in Procs |-> 0]
        /\ bars = [p \in Procs |-> FALSE]
Next == Call \/ Finish
View == <<st, gen, own, bars, syn, bad, Len(hist)>>

NoViolation == bad = {}
=============================================================================
