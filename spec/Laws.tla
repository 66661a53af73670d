-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws that draws follow.  A law is given as weights of bins, which are    *)
(* computed here from the parameters of a density where that is exact:     *)
(*   even     bins of equal probability                                    *)
(*   step     density base^floor(r), volume element 1, time adjustment     *)
(*            tadj^floor(r), bins of width one                             *)
(*   sphere   constant density, volume element r^2, bins of equal width    *)
(*   zpow1/2  density (1+r)^delta, volume element r^2, bins of width one   *)
(* Counts of independent draws are within six standard deviations.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, name) == IF c THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) ==   \* the least r in lo..hi with r * r >= x
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m >= x THEN RootIn(x, lo, m) ELSE RootIn(x, m + 1, hi)
Root(x) == RootIn(x, 0, 46340)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

Weight(w, i) ==
  CASE w.rule = "even" -> 1
    [] w.rule = "given" -> w.w[i]
    [] w.rule = "step" -> Pow(w.base, i - 1) * Pow(w.tadj, w.bins - i)
    [] w.rule = "sphere" -> Pow(i, 3) - Pow(i - 1, 3)
    [] w.rule = "zpow1" ->
         4 * (Pow(i, 3) - Pow(i - 1, 3)) + 3 * (Pow(i, 4) - Pow(i - 1, 4))
    [] w.rule = "zpow2" ->
         10 * (Pow(i, 3) - Pow(i - 1, 3)) + 15 * (Pow(i, 4) - Pow(i - 1, 4))
           + 6 * (Pow(i, 5) - Pow(i - 1, 5))
Weights(w) == [i \in 1..w.bins |-> Weight(w, i)]

\* six standard deviations of the count, times q; n up to 50000, q up to 8000
Bound(n, p, q) == (Root(36 * n) * Root(100 * p * (q - p)) + 9) \div 10

Law(k, n, p, q) ==
  IF p = 0 THEN k = 0 ELSE IF p = q THEN k = n
  ELSE Abs(k * q - n * p) <= Bound(n, p, q)

InitSt == [ bins |-> 0 ]
Apply(st, e) == st

CheckBins(e) ==
  LET ws == Weights(e.w)
      q == Sum(ws)
  IN  If(Len(e.k) = e.w.bins /\ Sum(e.k) = e.n, e.prop \o ":" \o e.what \o " lie elsewhere")
      \cup If(\A i \in 1..Len(e.k) : Law(e.k[i], e.n, ws[i], q),
              e.prop \o ":" \o e.what \o " follow another law")

\* numbers ns of objects, which are Poisson distributed with the mean num/den
MeanNum(m) == IF m.rule = "step"
              THEN m.num * Sum([i \in 1..m.bins |-> Pow(m.base, i - 1)]) ELSE m.mean
MeanDen(m) == m.den

CheckCounts(e) ==
  LET m == MeanNum(e.m)
      d == MeanDen(e.m)
      n == Len(e.ns)
      total == Sum(e.ns)
      sq == Sum([i \in 1..n |-> (e.ns[i] * d - m) * (e.ns[i] * d - m)])
  IN  If(Abs(total * d - n * m) <= Root(36 * n * m * d) + d, "C17:" \o e.what \o " has another mean")
      \* the variance of the square is mean + 2 mean^2, and its distribution skewed
      \cup If(Abs(sq - n * m * d) <= 9 * Root(n * m * d * d * d + 2 * n * m * m * d * d),
              "C17:" \o e.what \o " has another spread")

\* parts of a whole, in parts of a hundred thousand
CheckDensity(e) ==
  LET ws == Weights(e.w)
      q == Sum(ws)
  IN  If(\A i \in 1..Len(e.x) : Abs(e.x[i] * q - 100000 * ws[i]) <= 1000 * ws[i] + q,
         e.prop \o ":" \o e.what \o " is not the density of the draws")

Check(st, e) ==
  CASE e.op = "bins" -> CheckBins(e)
    [] e.op = "counts" -> CheckCounts(e)
    [] e.op = "density" -> CheckDensity(e)
    [] e.op = "fact" -> If(e.ok, e.prop \o ":" \o e.what)
    [] OTHER -> {}
=============================================================================
