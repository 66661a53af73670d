------------------------------ MODULE CosmosAlg ------------------------------
(***************************************************************************)
(* Distances from the rational function of Adachi and Kasai, in parts of   *)
(* ten thousand, for cosmologies that are made, set and asked.  Cosmos     *)
(* judges the answers, with the integral that the function stands for.     *)
(***************************************************************************)
EXTENDS Cosmos, Json

CONSTANTS Bug, Depth, Ids, Oms, Hs, Ks, Emit

VARIABLES st, al, bad, hist
vars == <<st, al, bad, hist>>

Poly(x, a, b, c) ==   \* 1 + a x + b x^2 + c x^3, coefficients in parts of a hundred thousand
  LET x2 == (x * x) \div T
      x3 == ((x2 \div 10) * x) \div 1000
  IN  T + ((a \div 10) * x) \div T + ((b \div 10) * x2) \div T + ((c \div 10) * x3) \div T
Phi(x) == LET up == Poly(x, 132000, IF Bug = "misprint" THEN 14410 ELSE 44100, 2656)
              dn == Poly(x, 139200, 51210, 3944)
          IN  (up * T) \div dn
XX(om, s) == ((((T - om) * T) \div om) * Six(s)) \div T

\* mean, volume ratio
Fit(om, k) ==
  LET s == T - 10 * k
      x0 == XX(om, T)
      xz == IF Bug = "square" THEN ((((T - om) * T) \div om) * ((s * s) \div T)) \div T
            ELSE XX(om, s)
      diff == Phi(x0) - (s * Phi(xz)) \div T
      root == IF Bug = "noroot" THEN om ELSE Root(om * T)
  IN  (((diff * 1000) \div k) * T) \div root
Vol(om, k) ==
  LET s == T - 10 * k
      ode == IF Bug = "nolambda" THEN 0 ELSE IF Bug = "lambda" THEN T ELSE T - om
  IN  100000000 \div Root((om + (ode * Six(s)) \div T) * T)

New(a, id, om, h) == Put(a, id, [om |-> om, h |-> h, om0 |-> om, h0 |-> h])
SetIn(a, id, f, v) ==
  [x \in DOMAIN a |->
     IF x = id \/ Bug = "shared"
     THEN [y \in DOMAIN a[x] |-> IF y = f THEN v ELSE a[x][y]] ELSE a[x]]

Answer(a, id, ks) ==
  LET om == IF Bug = "cachedom" THEN a[id].om0 ELSE a[id].om
      h == IF Bug = "cachedh" THEN a[id].h0 ELSE IF Bug = "fixedh" THEN 677 ELSE a[id].h
      hv == IF Bug = "volh" THEN 677 ELSE h
      d(i) == (Fit(om, ks[i]) * 1000) \div h
  IN  [ op |-> "query", id |-> id, via |-> "cosmology", ks |-> ks,
        d |-> [i \in 1..Len(ks) |-> d(i)],
        fine |-> [i \in 1..Len(ks) |-> ((d(i) * h) \div 1000)],
        far |-> [i \in 1..Len(ks) |-> d(i) * ks[i]],
        q |-> [i \in 1..Len(ks) |-> (Vol(om, ks[i]) * 1000) \div hv] ]

Ops ==
  (IF Cardinality(DOMAIN al) < Cardinality(Ids)
   THEN {[op |-> "new", id |-> CHOOSE i \in Ids \ DOMAIN al : \A j \in Ids \ DOMAIN al : i <= j, om |-> om, h |-> h]
           : om \in Oms, h \in Hs}
   ELSE {})
  \cup {[op |-> "setom", id |-> i, om |-> om] : i \in DOMAIN al, om \in Oms}
  \cup {[op |-> "seth", id |-> i, h |-> h] : i \in DOMAIN al, h \in Hs}
  \cup {[op |-> "query", id |-> i] : i \in DOMAIN al}

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOf(S \ {m})

Call == \E e \in Ops :
  /\ Len(hist) < Depth
  /\ LET a == CASE e.op = "new" -> New(al, e.id, e.om, e.h)
                [] e.op = "setom" -> SetIn(al, e.id, "om", e.om)
                [] e.op = "seth" -> SetIn(al, e.id, "h", e.h)
                [] OTHER -> al
         ev == IF e.op = "query" THEN Answer(al, e.id, SeqOf(Ks)) ELSE e
     IN  al' = a /\ st' = Apply(st, ev) /\ bad' = bad \cup Check(st, ev)
         /\ hist' = Append(hist, e)

Finish == /\ Emit /\ Len(hist) = Depth
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ UNCHANGED <<st, al, bad>> /\ hist' = Append(hist, [op |-> "end"])

Init == st = InitSt /\ al = <<>> /\ bad = {} /\ hist = <<>>
Next == Call \/ Finish
View == <<st, al, bad, Len(hist)>>

NoViolation == bad = {}
Agree == DOMAIN st.inst = DOMAIN al /\ \A i \in DOMAIN al : st.inst[i].om = al[i].om /\ st.inst[i].h = al[i].h
=============================================================================
