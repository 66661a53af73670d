----------------------------- MODULE SimVarAlg -----------------------------
(***************************************************************************)
(* How simulated variables live in memory: each has a reference to its     *)
(* observed, latent and selection array, and an array may be shared, in    *)
(* particular by the observed and latent values of an unobserved quantity. *)
(* All histories of Depth calls are judged by SimVar!Check.                *)
(***************************************************************************)
EXTENDS SimVar, TLC

CONSTANTS Bug, Depth, MaxVars

VARIABLES heap,  \* sequence of arrays
          refs,  \* id -> [k, o, l, s]: places in heap; s is a value
          st, bad, len
vars == <<heap, refs, st, bad, len>>

Id(n) == <<"v1", "v2", "v3", "v4", "v5", "v6">>[n]
NextId == Id(Cardinality(DOMAIN refs) + 1)

Read(h, r) == [k |-> r.k, o |-> h[r.o], l |-> h[r.l], s |-> r.s]
All(h, rs) == [x \in DOMAIN rs |-> Read(h, rs[x])]

\* p shares memory between observed and latent values
P0 == << <<1, 2>>, <<0, 3>>, <<2, 1>> >>
R0 == [v1 |-> [k |-> "sv", o |-> 1, l |-> 1, s |-> <<TRUE, FALSE>>],
       v2 |-> [k |-> "sv", o |-> 2, l |-> 3, s |-> <<TRUE, FALSE>>]]

Fin(e, h, rs) ==
  LET ev == [x \in DOMAIN e \cup {"ok", "err", "all"} |->
               CASE x = "ok" -> TRUE [] x = "err" -> "" [] x = "all" -> All(h, rs)
                 [] OTHER -> e[x]]
  IN  /\ heap' = h /\ refs' = rs
      /\ bad' = bad \cup Check(st, ev) /\ st' = Apply(st, ev) /\ len' = len + 1

Same(x, y) == Len(heap[refs[x].o]) = Len(heap[refs[y].o]) /\ refs[x].s = refs[y].s

Bin_ == \E x, y \in DOMAIN refs, f \in {"add", "greater"} :
  /\ Cardinality(DOMAIN refs) < MaxVars /\ Same(x, y)
  /\ LET h == heap \o << Map2(f, heap[refs[x].o], heap[refs[y].o]),
                         IF Bug = "latentobs" THEN Map2(f, heap[refs[x].l], heap[refs[y].o])
                         ELSE Map2(f, heap[refs[x].l], heap[refs[y].l]) >>
         n == Len(heap)
         s == IF Bug = "selectionlost" THEN [i \in 1..Len(refs[x].s) |-> TRUE] ELSE refs[x].s
     IN  Fin([op |-> "bin", f |-> f, a |-> [t |-> "id", id |-> x], b |-> [t |-> "id", id |-> y],
              r |-> NextId], h, Upd(refs, NextId, [k |-> "sv", o |-> n + 1, l |-> n + 2, s |-> s]))

\* in place: the observed array is written over, the latent one is replaced
InPlace_ == \E x, y \in DOMAIN refs :
  /\ Same(x, y)
  /\ \A z \in DOMAIN refs \ {x} : refs[z].o # refs[x].o /\ refs[z].l # refs[x].o
  /\ LET obs == Map2("add", heap[refs[x].o], heap[refs[y].o])
         h1 == [heap EXCEPT ![refs[x].o] = obs]
         \* the latent result is computed before anything is written
         src == IF Bug = "obsfirst" THEN h1 ELSE heap
         lat == Map2("add", src[refs[x].l], src[refs[y].l])
         h2 == Append(h1, lat)
         rs == IF Bug = "latentskipped" THEN refs
               ELSE [refs EXCEPT ![x].l = Len(h2)]
     IN  Fin([op |-> "inp", f |-> "add", a |-> [t |-> "id", id |-> x],
              b |-> [t |-> "id", id |-> y], r |-> x,
              mask |-> [i \in 1..Len(obs) |-> TRUE]], h2, rs)

Ixs(n) == {<<>>} \cup {<<i>> : i \in 0..n-1} \cup {<<i, j>> : i, j \in 0..n-1}

Index == \E x \in DOMAIN refs : \E ix \in Ixs(Len(heap[refs[x].o])) :
  /\ Cardinality(DOMAIN refs) < MaxVars
  /\ LET r == refs[x]
         h == heap \o <<Pick(heap[r.o], ix),
                        IF Bug = "latentnotindexed"
                        THEN SubSeq(heap[r.l], 1, Len(ix))
                        ELSE Pick(heap[r.l], ix)>>
     IN  Fin([op |-> "idx", a |-> x, ix |-> ix, r |-> NextId], h,
             Upd(refs, NextId, [k |-> "sv", o |-> Len(heap) + 1, l |-> Len(heap) + 2,
                                s |-> Pick(r.s, ix)]))

Part_ == \E x \in DOMAIN refs, b \in BOOLEAN :
  /\ Cardinality(DOMAIN refs) < MaxVars
  /\ LET r == refs[x]
         ix == Those(r.s, b)
         h == heap \o <<Pick(heap[r.o], ix), Pick(heap[r.l], ix)>>
     IN  Fin([op |-> "part", a |-> x, sel |-> b, r |-> NextId], h,
             Upd(refs, NextId, [k |-> "sv", o |-> Len(heap) + 1, l |-> Len(heap) + 2,
                                s |-> [j \in 1..Len(ix) |-> IF Bug = "allselected" THEN TRUE ELSE b]]))

Init == heap = P0 /\ refs = R0 /\ st = [v |-> All(P0, R0)] /\ bad = {} /\ len = 0
Next == len < Depth /\ (Bin_ \/ InPlace_ \/ Index \/ Part_)
View == <<All(heap, refs), [x \in DOMAIN refs |-> <<refs[x].o, refs[x].l>>], bad, len>>

NoViolation == bad = {}
Aligned == \A x \in DOMAIN refs :
  /\ Len(heap[refs[x].o]) = Len(heap[refs[x].l])
  /\ Len(heap[refs[x].o]) = Len(refs[x].s)
Follows == st.v = All(heap, refs)
=============================================================================
