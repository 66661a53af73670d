----------------------------- MODULE ClassesAlg -----------------------------
(***************************************************************************)
(* How classes are registered: the metaclass collects what is abstract in  *)
(* the class itself and what is still abstract of its bases; the registry  *)
(* is an ordered mapping from names to classes.  All histories of Depth    *)
(* definitions and lookups are judged by Classes!Check.  With Bug set,     *)
(* NoViolation or Agree has to fail.                                       *)
(***************************************************************************)
EXTENDS Classes, TLC, Json

CONSTANTS Bug, Depth, MaxClasses, Bases, Emit

VARIABLES st, abs, reg, n, bad, len, log
vars == <<st, abs, reg, n, bad, len, log>>

Ids == {"k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8"}
Id(i) == CASE i = 1 -> "k1" [] i = 2 -> "k2" [] i = 3 -> "k3" [] i = 4 -> "k4"
           [] i = 5 -> "k5" [] i = 6 -> "k6" [] i = 7 -> "k7" [] OTHER -> "k8"
UserNames == {"Na", "Nb"}

Start0 == [f \in Fams |->
  CASE f = "dist" -> <<"Distribution", "SchechterDistribution">>
    [] f = "aux" -> <<"NormalAuxSampler">>
    [] OTHER -> <<"LowerBound", "UnitySelection">>]

(* the mapping: the names in order, and for each the class *)
Reg0 == [f \in Fams |-> [order |-> Start0[f], at |-> [x \in Range(Start0[f]) |-> x]]]

Drop(s, x) == SelectSeq(s, LAMBDA y : y # x)
Insert(r, nm, c) ==
  IF nm \in Range(r.order)
  THEN IF Bug = "first" THEN r
       ELSE [order |-> IF Bug = "toend" THEN Append(Drop(r.order, nm), nm) ELSE r.order,
             at |-> [r.at EXCEPT ![nm] = c]]
  ELSE [order |-> Append(r.order, nm), at |-> Upd(r.at, nm, c)]

Init ==
  /\ st = [Apply(InitSt, [op |-> "start", names |-> Start0]) EXCEPT !.cls =
             [x \in Bases \cup {"Distribution"} \cup UNION {Ancestors(Package, b) : b \in Bases}
                |-> Package[x]]]
  /\ abs = [x \in Bases |-> Package[x].missing]
  /\ reg = Reg0 /\ n = 0 /\ bad = {} /\ len = 0 /\ log = <<>>

Do(e) ==
  /\ len < Depth
  /\ bad' = bad \cup Check(st, e)
  /\ st' = Apply(st, e)
  /\ len' = len + 1
  /\ log' = IF Emit THEN Append(log, e) ELSE log

Methods(f) ==
  CASE f = "dist" -> {"dNdV", "differential_volume", "transform", "phi", "draw_luminosity"}
    [] f = "aux" -> {"true_sampler", "compute_luminosity"}
    [] OTHER -> {"draw"}

(* what a new class has no implementation for *)
Abstracts(base, gives, needs) ==
  LET own == needs
      kept == {m \in abs[base] : m \notin gives}
  IN  CASE Bug = "ownonly" -> own
        [] Bug = "inherited" -> kept
        [] Bug = "sticky" -> own \cup abs[base]
        [] OTHER -> own \cup kept

NameOf(c) == IF c \in DOMAIN st.cls THEN st.cls[c].name ELSE ""

Class == \E base \in DOMAIN abs, name \in UserNames \cup {"-", "LowerBound"}, norms \in {0, 2} :
  \E gives \in {abs[base], {}} \cup {{m} : m \in abs[base]},
     needs \in {{}, {"extra"}} :
  LET f == st.cls[base].fam
      e0 == [op |-> "class", cls |-> Id(n + 1), base |-> base, name |-> name,
             gives |-> SeqOf(gives \cup (IF "extra" \in abs[base] /\ gives # {} THEN {"extra"} ELSE {})),
             needs |-> SeqOf(needs), norms |-> norms, ok |-> TRUE]
      nm == IF name = "-" THEN NameOf(base) ELSE name
      a == Abstracts(base, Range(e0.gives), needs)
      two == norms > 1
      named == a # {} \/ nm # ""
      ok == (IF Bug = "anynorms" THEN TRUE ELSE ~two) /\ named
      e == [e0 EXCEPT !.ok = ok]
      in == CASE Bug = "incomplete" -> ok
              [] Bug = "refused" -> nm # "" /\ a = {}
              [] OTHER -> ok /\ a = {}
      g == IF Bug = "oneregistry" THEN "dist" ELSE f
  IN  /\ n < MaxClasses
      /\ norms < 2 \/ name # "-"
      /\ st.cls[base].name = "?" => name # "-"
      /\ abs' = IF ok THEN Upd(abs, Id(n + 1), a) ELSE abs
      /\ reg' = IF in /\ nm # "" THEN [reg EXCEPT ![g] = Insert(@, nm, Id(n + 1))] ELSE reg
      /\ n' = n + 1
      /\ Do(e)

List == \E f \in Fams :
  /\ Do([op |-> "list", fam |-> f, names |-> reg[f].order, size |-> Len(reg[f].order)])
  /\ UNCHANGED <<abs, reg, n>>

Got(f, x) == IF x \in DOMAIN reg[f].at THEN reg[f].at[x] ELSE "none"
Lookup == \E f \in Fams, x \in UserNames \cup {"LowerBound", "NormalAuxSampler"} :
  /\ Do([op |-> "lookup", fam |-> f, name |-> x, got |-> Got(f, x),
           known |-> Got(f, x) # "none"])
  /\ UNCHANGED <<abs, reg, n>>

Make == \E f \in Fams, x \in UserNames \cup {"LowerBound"} :
  /\ Do([op |-> "make", fam |-> f, name |-> x, got |-> Got(f, x), fresh |-> TRUE, given |-> TRUE])
  /\ UNCHANGED <<abs, reg, n>>

New == \E c \in DOMAIN abs :
  /\ Do([op |-> "new", cls |-> c,
           ok |-> IF Bug = "objects" THEN TRUE ELSE abs[c] = {}])
  /\ UNCHANGED <<abs, reg, n>>

Up(c) == IF Bug = "parents" THEN {c, st.cls[c].base} ELSE Ancestors(st.cls, c)
Sub == \E a, b \in DOMAIN st.cls :
  /\ Do([op |-> "sub", a |-> a, b |-> b, v |-> b \in Up(a)])
  /\ UNCHANGED <<abs, reg, n>>

Finish == /\ Emit /\ len = Depth
          /\ PrintT("SCRIPT " \o ToJson(log))
          /\ len' = len + 1 /\ UNCHANGED <<st, abs, reg, n, bad, log>>

Next == Class \/ List \/ Lookup \/ Make \/ New \/ Sub \/ Finish
View == <<st, abs, reg, n, bad, len>>

NoViolation == bad = {}
(* the mapping and what is required of it are the same *)
Agree == \A f \in Fams :
  /\ reg[f].order = Names(st.reg[f])
  /\ \A x \in Range(reg[f].order) : reg[f].at[x] = Found(st.reg[f], x)
(* whatever is found can be made *)
Usable == \A f \in Fams : \A x \in DOMAIN reg[f].at :
  reg[f].at[x] \in DOMAIN abs => (abs[reg[f].at[x]] = {} /\ st.cls[reg[f].at[x]].fam = f)
=============================================================================
