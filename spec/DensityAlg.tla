----------------------------- MODULE DensityAlg -----------------------------
(***************************************************************************)
(* How distributions answer: from the values kept for each object, looked  *)
(* up at each question.  Every history of Depth calls is judged by         *)
(* Density!Check; in simulation mode the histories are printed.            *)
(***************************************************************************)
EXTENDS Density, TLC, Json

CONSTANTS Bug, Depth, Emit, Classes, MaxObjs

VARIABLES st, mem, seen, bad, log, len
vars == <<st, mem, seen, bad, log, len>>

Half == <<1, 2>>
Small == {Half, One, I(2)}
Grid(c, p) ==
  CASE p \in {"Lambda", "r0", "rho"} -> {Zero, Half, One, I(3)}
    [] p \in {"delta", "decay"} -> {I(-2), I(-1), Zero, One, I(2), I(3)}
    [] p = "a" /\ c = "SpiralGalaxyDistribution" -> {I(-1), Zero, One, I(2)}
    [] p = "a" -> {Zero, One, I(2)}
    [] p = "b" -> {Zero, One}
    [] p = "rise" -> {Zero, Half, I(2)}
    [] p = "peak" -> Small
    [] p = "zmin" -> {Zero, Half, One}
    [] p = "zmax" -> {I(2), I(3)}
    [] p = "R1" -> {Zero, One}
    [] p = "R0" -> {One, I(2)}
    [] p = "alpha" /\ c = "ParetoDistribution" -> {One, I(2), I(3)}
    [] p = "alpha" -> {I(-2), Zero, One}
    [] p = "beta" -> {I(-3), I(-2), Zero}
    [] p = "Lbreak" -> {I(2)}
    [] p = "Lmax" -> {I(3), I(4)}
    [] p = "Lmin" /\ c = "BPLDistribution" -> {Half, One}
    [] p = "Lmin" -> Small
Places == {Zero, Half, One, I(2), <<5, 2>>, I(4)}

\* the answer, from the values in memory
Mem(o) == [st[o] EXCEPT !.v = IF Bug = "oncefirst" /\ o \in DOMAIN seen THEN seen[o]
                              ELSE IF Bug = "byclass" THEN
                                   LET same == {x \in DOMAIN mem : st[x].cls = st[o].cls}
                                   IN  mem[CHOOSE x \in same : \A y \in same : x >= y]
                              ELSE mem[o]]
Say(o, e) == LET m == Mem(o) x == e.at IN
  CASE Bug = "plainz" /\ e.what = "density" /\ m.cls \in {"ZPowerSphericalDistribution", "ZPowerCosmoDistribution"}
       /\ x # Zero -> Mul(m.v.Lambda, Pow(x, m.v.delta))
    [] Bug = "uncontinued" /\ e.what = "density" /\ m.cls = "BPLDistribution" /\ Less(m.v.Lbreak, x)
       /\ ~Less(m.v.Lmax, x) -> Div(Pow(x, m.v.beta), BrokenTotal(m.v))
    [] Bug = "unbounded" /\ e.what = "density" /\ m.cls = "ParetoDistribution" ->
         Div(Mul(m.v.alpha, Pow(m.v.Lmin, m.v.alpha)), Pow(x, Add(m.v.alpha, One)))
    [] Bug = "width" /\ e.what = "density" /\ m.cls = "UniformCosmoDistribution" ->
         Mul(m.v.r0, Sub(m.v.zmax, m.v.zmin))
    [] Bug = "peakup" /\ e.what = "density" /\ m.cls = "SFRDistribution" /\ (m.v.decay[1] < 0 => x # Zero) ->
         Div(Mul(m.v.r0, Add(m.v.a, Mul(m.v.rise, x))), Add(One, Pow(Mul(x, m.v.peak), m.v.decay)))
    [] Bug = "always" /\ e.what = "adjust" -> Add(One, x)
    [] Bug = "nearflux" /\ e.what = "flux" /\ m.cls \in Spheres /\ x # Zero -> Div(e.lum, PowN(x, 2))
    [] Bug = "flatvolume" /\ e.what = "volume" -> One
    [] OTHER -> Answer(m, e)

Do(e) == /\ bad' = bad \cup Check(st, e) /\ st' = Apply(st, e)
         /\ log' = Append(log, [x \in DOMAIN e \ {"got", "ok"} |-> e[x]]) /\ len' = len + 1

Fresh == Cardinality(DOMAIN st) + 1
New == \E c \in Classes, r \in BOOLEAN :
  /\ Fresh <= MaxObjs /\ (r \/ c \in Cosmic)
  /\ (Emit => Fresh = 1 \/ len > 5)
  /\ mem' = Upd(mem, Fresh, Defaults(c)) /\ UNCHANGED seen
  /\ Do([op |-> "new", o |-> Fresh, cls |-> c, rate |-> r, ok |-> TRUE])

Set == \E o \in DOMAIN st : \E p \in Pars[st[o].cls] : \E x \in Grid(st[o].cls, p) :
  \* first those that are missing; in which order does not matter here
  /\ (IF Complete(st[o]) THEN TRUE
      ELSE IF Emit THEN p \notin DOMAIN st[o].v
      ELSE p = CHOOSE q \in Pars[st[o].cls] : q \notin DOMAIN st[o].v)
  /\ mem' = Upd(mem, o, Upd(mem[o], p, x)) /\ UNCHANGED seen
  /\ Do([op |-> "set", o |-> o, par |-> p, val |-> x, ok |-> TRUE])

Fine(q) == q[2] <= 4000 /\ Abs(q[1]) <= 40000
Ask == \E o \in DOMAIN st : \E w \in Asks(st[o]) : \E x \in Places :
  LET e == [op |-> "ask", o |-> o, what |-> w, at |-> x, lum |-> I(3), got |-> Zero]
  IN  /\ CanAsk(st[o], e) /\ Fine(Answer(st[o], e))
      /\ (Emit => w = "density" \/ len % 4 = 0)
      /\ (w = "density" => CanAsk(Mem(o), e) /\ (st[o].cls \in Lums => x # Zero))
      /\ seen' = IF o \in DOMAIN seen \/ w # "density" THEN seen ELSE Upd(seen, o, mem[o])
      /\ UNCHANGED mem
      /\ Do([e EXCEPT !.got = Say(o, e)])

Unset == \E o \in DOMAIN st :
  /\ ~Complete(st[o]) /\ (Emit => len % 5 = 4)
  /\ UNCHANGED <<mem, seen>>
  /\ Do([op |-> "unset", o |-> o, failed |-> Bug # "zeroed"])

Finish == /\ Emit /\ len = Depth
          /\ PrintT("SCRIPT " \o ToJson(log))
          /\ len' = len + 1 /\ UNCHANGED <<st, mem, seen, bad, log>>

Init == st = InitSt /\ mem = [x \in {} |-> 0] /\ seen = [x \in {} |-> 0] /\ bad = {} /\ log = <<>> /\ len = 0
Next == (len < Depth /\ (New \/ Set \/ Ask \/ Unset)) \/ Finish
View == <<st, mem, seen, bad, len>>

NoViolation == bad = {}
Agree == DOMAIN mem = DOMAIN st /\ \A o \in DOMAIN st : mem[o] = st[o].v
\* the power laws that break are normalized, and continuous
Continuous == \A o \in DOMAIN st : st[o].cls = "BPLDistribution" /\ Complete(st[o]) /\ Sane(st[o], One) =>
  LET v == st[o].v IN Mul(Pow(v.Lbreak, Sub(v.alpha, v.beta)), Pow(v.Lbreak, v.beta)) = BrokenTop(v, v.Lbreak)
=============================================================================
