----------------------------- MODULE ParamsAlg -----------------------------
(***************************************************************************)
(* How parameters are kept: every object has a storage in which a value is *)
(* absent until it is set or its default is first read.  All histories of  *)
(* Depth calls on three objects of two classes, one of which inherits, are *)
(* judged by Params!Check.  With Bug set, NoViolation has to fail.         *)
(***************************************************************************)
EXTENDS Params, TLC

CONSTANTS Bug, Depth

VARIABLES st, store, defs, bad, len
vars == <<st, store, defs, bad, len>>

A == [p |-> Decl(4, 0, 8, TRUE), q |-> Decl(N, N, N, FALSE)]
B == [q |-> Decl(0, -4, N, FALSE)]
Objs == {"o1", "o2", "o3"}
ClassOf(o) == IF o = "o3" THEN "B" ELSE "A"
Values == {-4, 0, 4, 8, 12}

Run(s, q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN s ELSE Apply(F[i-1], q[i]) IN F[Len(q)]

Base == Run(InitSt,
  << [op |-> "class", cls |-> "A", base |-> "", decls |-> A, ok |-> TRUE],
     [op |-> "class", cls |-> "B", base |-> "A", decls |-> B, ok |-> TRUE],
     [op |-> "new", o |-> "o1", cls |-> "A", ok |-> TRUE],
     [op |-> "new", o |-> "o2", cls |-> "A", ok |-> TRUE],
     [op |-> "new", o |-> "o3", cls |-> "B", ok |-> TRUE] >>)

D0 == [c \in {"A", "B"} |-> [p \in {"p", "q"} |-> Base.cls[c][p].d]]

Key(o) == IF Bug = "classstorage" THEN ClassOf(o) ELSE o
Keys == Objs \cup {"A", "B"}

\* what reading gives, and the storage and defaults afterwards
Got(s, o, p) ==
  LET v == s[Key(o)][p]
  IN  IF v = None \/ (Bug = "falsy" /\ v = 0) THEN defs[ClassOf(o)][p] ELSE v
Fill(s, o, p) == [s EXCEPT ![Key(o)][p] = Got(s, o, p)]

Emit(e, s, d) ==
  /\ st' = Apply(st, e) /\ bad' = bad \cup Check(st, e)
  /\ store' = s /\ defs' = d /\ len' = len + 1

OkBounds(d, v) ==
  IF Bug = "exclusive" THEN (d.lo = None \/ v > d.lo) /\ (d.hi = None \/ v < d.hi)
  ELSE IF Bug = "onlylow" THEN d.lo = None \/ v >= d.lo
  ELSE Within(d, v)

Set == \E o \in Objs, p \in {"p", "q"}, v \in Values :
  LET c == ClassOf(o)
      f == Free(st, c, p) \/ Bug = "ignorefixed"
      ok == f /\ OkBounds(Base.cls[c][p], v)
      s == IF ok \/ Bug = "storefirst" THEN [store EXCEPT ![Key(o)][p] = v] ELSE store
      d == IF ok /\ Bug = "defaults" THEN [defs EXCEPT ![c][p] = v] ELSE defs
  IN  Emit([op |-> "set", o |-> o, p |-> p, v |-> v, ok |-> ok], s, d)

Get == \E o \in Objs, p \in {"p", "q"} :
  Emit([op |-> "get", o |-> o, p |-> p, v |-> Got(store, o, p)], Fill(store, o, p), defs)

Fix == \E c \in {"A", "B"}, f \in BOOLEAN :
  LET p == IF c = "A" THEN "p" ELSE "q"
  IN  Emit([op |-> "fix", cls |-> c, p |-> p, v |-> f, now |-> f], store, defs)

Look ==
  Emit([op |-> "look", vals |-> [o \in Objs |-> [p \in {"p", "q"} |-> Got(store, o, p)]]],
       store, defs)

Init == st = Base /\ store = [k \in Keys |-> [p \in {"p", "q"} |-> None]] /\ defs = D0
        /\ bad = {} /\ len = 0
Next == len < Depth /\ (Set \/ Get \/ Fix \/ Look)
View == <<st.obj, st.fixed, store, defs, bad, len>>

NoViolation == bad = {}
\* what is stored is what was accepted, or a default
Stored == \A o \in Objs, p \in {"p", "q"} : Got(store, o, p) = Reads(st, o, p)
InBounds == \A o \in Objs : \A p \in DOMAIN st.obj[o].vals :
              Within(st.cls[st.obj[o].cls][p], st.obj[o].vals[p])
=============================================================================
