------------------------------- MODULE Cosmos -------------------------------
(***************************************************************************)
(* Distances and volumes of a flat universe with a cosmological constant.  *)
(* The state is what every cosmology has been set to: om, the density of   *)
(* matter in parts of ten thousand, and h, ten times the Hubble constant.  *)
(*                                                                         *)
(* A redshift is given by k, with 1/sqrt(1+z) = 1 - k/1000.  With s for    *)
(* 1/sqrt(1+z) the comoving distance is c/H0 times the integral of         *)
(* 2/sqrt(Om + (1-Om) s^6) from s to 1.  Mean is that integral divided by  *)
(* 2(1-s), here computed by Simpson's rule, in parts of ten thousand.      *)
(*                                                                         *)
(* Observed are, in the units of H0 = 100,                                 *)
(*   d     luminosity distance / (2(1-s)(1+z)), parts of ten thousand      *)
(*   fine  the same times h0/100, in parts of ten million                  *)
(*   q     volume element / transverse distance^2 / s^3, as d              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

If(c, name) == IF c THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m >= x THEN RootIn(x, lo, m) ELSE RootIn(x, m + 1, hi)
Root(x) == RootIn(x, 0, 46340)

T == 10000

\* s^6 for s in parts of ten thousand
Six(s) == LET s2 == (s * s) \div T
              s4 == (s2 * s2) \div T
          IN  (s4 * s2) \div T
\* 1/sqrt(Om + (1-Om) s^6)
Rate(om, s) == 100000000 \div Root((om + ((T - om) * Six(s)) \div T) * T)

\* Simpson's rule on ten intervals from 1 - k/1000 to 1
Mean(om, k) ==
  LET f(i) == Rate(om, T - k * i)
  IN  (f(0) + 4 * (f(1) + f(3) + f(5) + f(7) + f(9)) + 2 * (f(2) + f(4) + f(6) + f(8)) + f(10)) \div 30

\* what is stated for: matter density from a quarter on
Stated(om) == om >= 2500 /\ om <= T

InitSt == [ inst |-> <<>>, seen |-> <<>> ]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Key(om, k) == ToString(om) \o "/" \o ToString(k)
SeeAll(seen, om, ks, fine) ==
  LET new == {i \in 1..Len(ks) : Key(om, ks[i]) \notin DOMAIN seen}
  IN  [x \in DOMAIN seen \cup {Key(om, ks[i]) : i \in new} |->
         IF x \in DOMAIN seen THEN seen[x] ELSE fine[CHOOSE i \in new : Key(om, ks[i]) = x]]

Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "new" -> [st EXCEPT !.inst = Put(@, e.id, [om |-> e.om, h |-> e.h])]
    [] e.op = "setom" -> [st EXCEPT !.inst[e.id].om = e.om]
    [] e.op = "seth" -> [st EXCEPT !.inst[e.id].h = e.h]
    [] e.op = "query" -> [st EXCEPT !.seen = SeeAll(@, st.inst[e.id].om, e.ks, e.fine)]
    [] OTHER -> st

CheckQuery(st, e) ==
  LET c == st.inst[e.id]
      n == Len(e.ks)
      p == "C25:" \o e.via \o ": "
      k(i) == e.ks[i]
  IN  If(Len(e.d) = n /\ Len(e.fine) = n /\ (e.q = <<>> \/ Len(e.q) = n), p \o "not one value for each redshift")
      \cup If(Stated(c.om) => \A i \in 1..n : LET m == Mean(c.om, k(i))
                                             IN  Abs((e.d[i] * c.h) \div 1000 - m) <= m \div 200 + 3,
              p \o "distance is not the one of this cosmology")
      \cup If(\A i \in 1..n : Key(c.om, k(i)) \in DOMAIN st.seen
                => Abs(st.seen[Key(c.om, k(i))] - e.fine[i]) <= 100,
              p \o "distance depends on more than redshift, density and Hubble constant")
      \cup If(\A i, j \in 1..n : k(i) < k(j) => e.far[i] < e.far[j], p \o "farther objects are not farther")
      \cup If(e.q = <<>> \/ \A i \in 1..n : LET f == Rate(c.om, T - 10 * k(i))
                                         IN  Abs((e.q[i] * c.h) \div 1000 - f) <= f \div 1000 + 3,
              p \o "volume is not the one of this cosmology")

Check(st, e) ==
  CASE e.op = "query" -> CheckQuery(st, e)
    [] e.op = "here" -> If(e.d = 0 /\ e.v = 0, "C25:distance or volume at redshift zero")
    [] e.op = "settings" ->
         If(e.om = st.inst[e.id].om /\ e.h = st.inst[e.id].h, "C25:settings are not the ones made")
    \* the ways from a luminosity to a flux, r = k/1000, x is L/(4 pi F) in millionths
    [] e.op = "sphere" -> If(\A i \in 1..Len(e.ks) : Abs(e.x[i] - (1000 + e.ks[i]) * (1000 + e.ks[i])) <= 1,
                             "C06:flux is not that of a sphere")
    [] e.op = "flat" -> If(\A i \in 1..Len(e.x) : e.x[i] = 1000000, "C06:flux is not the luminosity")
    \* flux and the squared distance belong together, in millionths
    [] e.op = "cosmic" -> If(\A i \in 1..Len(e.x) : Abs(e.x[i] - 1000000) <= 2,
                             "C06:flux does not fall with the squared luminosity distance")
    [] e.op = "same" -> If(\A i \in 1..Len(e.x) : Abs(e.x[i] - 1000000) <= 2,
                           "C25:a sampler sees another luminosity distance")
    [] OTHER -> {}
=============================================================================
