------------------------------ MODULE Density ------------------------------
(***************************************************************************)
(* What the built-in distributions say of themselves: densities, volume    *)
(* elements, adjustments for time dilation, fluxes and luminosity          *)
(* functions, as functions of the present values of their parameters.      *)
(*                                                                         *)
(* Numbers are fractions <<n, d>>, d > 0, in lowest terms.  What contains  *)
(* the area of the unit sphere is given as a multiple of it.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, name) == IF c THEN {} ELSE {name}
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

---------------------------------------------------------------------------
(* Fractions *)

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
           IN  IF n = 0 THEN <<0, 1>> ELSE << (s * n) \div g, (s * d) \div g >>
I(n) == <<n, 1>>
Zero == I(0)
One == I(1)
Add(x, y) == LET g == Gcd(x[2], y[2])
             IN  Q(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), (x[2] \div g) * y[2])
Neg(x) == << -x[1], x[2] >>
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == LET a == Q(x[1], y[2]) b == Q(y[1], x[2]) IN Q(a[1] * b[1], a[2] * b[2])
Inv(x) == Q(x[2], x[1])
Div(x, y) == Mul(x, Inv(y))
RECURSIVE PowN(_, _)
PowN(x, k) == IF k = 0 THEN One ELSE Mul(x, PowN(x, k - 1))
\* k is a fraction that is whole
Pow(x, k) == IF k[1] < 0 THEN PowN(Inv(x), -k[1]) ELSE PowN(x, k[1])
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Whole(x) == x[2] = 1

---------------------------------------------------------------------------
(* The classes *)

Pars ==
  [ ConstantSphericalDistribution |-> {"Lambda"},
    ZPowerSphericalDistribution |-> {"Lambda", "delta"},
    FlatlandDistribution |-> {"Lambda"},
    SpiralGalaxyDistribution |-> {"rho", "a", "b", "R1", "R0"},
    ZPowerCosmoDistribution |-> {"Lambda", "delta"},
    SFRDistribution |-> {"r0", "a", "rise", "decay", "peak"},
    UniformCosmoDistribution |-> {"r0", "zmin", "zmax"},
    ParetoDistribution |-> {"Lmin", "alpha"},
    BPLDistribution |-> {"Lmin", "alpha", "Lbreak", "beta", "Lmax"} ]

Spheres == {"ConstantSphericalDistribution", "ZPowerSphericalDistribution", "SpiralGalaxyDistribution"}
Cosmic == {"ZPowerCosmoDistribution", "SFRDistribution", "UniformCosmoDistribution"}
Lums == {"ParetoDistribution", "BPLDistribution"}

\* values that parameters have from the beginning
Defaults(c) ==
  [p \in {x \in Pars[c] : \/ x = "Lambda"
                          \/ c = "ParetoDistribution"
                          \/ c = "ZPowerSphericalDistribution"} |-> One]

Complete(o) == DOMAIN o.v = Pars[o.cls]

\* the integral of x^k from a to b
Piece(a, b, k) == LET m == Add(k, One) IN Div(Sub(Pow(b, m), Pow(a, m)), m)
BrokenTop(v, x) == IF Less(x, v.Lmin) \/ Less(v.Lmax, x) THEN Zero
                   ELSE IF ~Less(v.Lbreak, x) THEN Pow(x, v.alpha)
                   ELSE Mul(Pow(v.Lbreak, Sub(v.alpha, v.beta)), Pow(x, v.beta))
BrokenTotal(v) == Add(Piece(v.Lmin, v.Lbreak, v.alpha),
                      Mul(Pow(v.Lbreak, Sub(v.alpha, v.beta)), Piece(v.Lbreak, v.Lmax, v.beta)))

\* whether the density is a fraction there
Sane(o, x) == LET v == o.v IN
  CASE o.cls \in {"ZPowerSphericalDistribution", "ZPowerCosmoDistribution"} -> Whole(v.delta)
    [] o.cls = "SFRDistribution" ->
         /\ Whole(v.decay) /\ v.peak # Zero /\ (v.decay[1] < 0 => x # Zero)
    [] o.cls = "UniformCosmoDistribution" -> v.zmin # v.zmax
    [] o.cls = "SpiralGalaxyDistribution" ->
         /\ Whole(v.a) /\ (v.b = Zero \/ x = v.R0)
         /\ Add(v.R0, v.R1) # Zero /\ (v.a[1] < 0 => Add(x, v.R1) # Zero)
    [] o.cls = "ParetoDistribution" -> Whole(v.alpha) /\ x # Zero /\ x # v.Lmin
    [] o.cls = "BPLDistribution" ->
         /\ Whole(v.alpha) /\ Whole(v.beta) /\ x # v.Lmin /\ x # v.Lmax \* the very ends are left open
         /\ v.alpha # I(-1) /\ v.beta # I(-1)
         /\ Less(Zero, v.Lmin) /\ Less(v.Lmin, v.Lbreak) /\ Less(v.Lbreak, v.Lmax)
    [] OTHER -> TRUE

Density(o, x) == LET v == o.v IN
  CASE o.cls \in {"ConstantSphericalDistribution", "FlatlandDistribution"} -> v.Lambda
    [] o.cls \in {"ZPowerSphericalDistribution", "ZPowerCosmoDistribution"} ->
         Mul(v.Lambda, Pow(Add(One, x), v.delta))
    [] o.cls = "SFRDistribution" ->
         Div(Mul(v.r0, Add(v.a, Mul(v.rise, x))), Add(One, Pow(Div(x, v.peak), v.decay)))
    [] o.cls = "UniformCosmoDistribution" -> Div(v.r0, Sub(v.zmax, v.zmin))
    [] o.cls = "SpiralGalaxyDistribution" ->
         Mul(v.rho, Pow(Div(Add(x, v.R1), Add(v.R0, v.R1)), v.a))
    [] o.cls = "ParetoDistribution" ->
         IF Less(x, v.Lmin) THEN Zero
         ELSE Div(Mul(v.alpha, Pow(v.Lmin, v.alpha)), Pow(x, Add(v.alpha, One)))
    [] o.cls = "BPLDistribution" -> Div(BrokenTop(v, x), BrokenTotal(v))

Volume(o, x) == IF o.cls \in Spheres THEN Mul(x, x) ELSE One
Adjust(o, x) == IF o.cls \in Cosmic /\ o.rate THEN Add(One, x) ELSE One
Flux(o, x, l) == IF o.cls \in Spheres THEN Div(l, PowN(Add(One, x), 2)) ELSE l

\* what can be asked of an object
Asks(o) == {"density"} \cup (IF o.cls \in Lums THEN {} ELSE {"adjust"})
           \cup (IF o.cls \in Lums \cup Cosmic THEN {} ELSE {"volume", "flux"})
Answer(o, e) == CASE e.what = "density" -> Density(o, e.at)
                  [] e.what = "volume" -> Volume(o, e.at)
                  [] e.what = "adjust" -> Adjust(o, e.at)
                  [] e.what = "flux" -> Flux(o, e.at, e.lum)
CanAsk(o, e) == e.what = "density" => Complete(o) /\ Sane(o, e.at)

---------------------------------------------------------------------------
(* Calls *)

InitSt == [x \in {} |-> 0]

Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "new" -> Upd(st, e.o, [cls |-> e.cls, rate |-> e.rate, v |-> Defaults(e.cls)])
    [] e.op = "set" -> [st EXCEPT ![e.o].v = Upd(@, e.par, e.val)]
    [] OTHER -> st

Check(st, e) ==
  CASE e.op = "new" -> If(e.ok, "C28:a " \o e.cls \o " cannot be made")
    [] e.op = "set" -> If(e.ok, "C28:a parameter of a " \o st[e.o].cls \o " cannot be set")
    [] e.op = "ask" ->
         If(CanAsk(st[e.o], e) => e.got = Answer(st[e.o], e),
            "C28:the " \o e.what \o " of a " \o st[e.o].cls \o " is another one")
    [] e.op = "unset" ->
         \* without all its parameters there is no density
         If(e.failed, "C28:a " \o st[e.o].cls \o " has a density without its parameters")
    [] OTHER -> {}
=============================================================================
