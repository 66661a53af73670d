------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Synths, the configurations they are exported to and rebuilt from, and   *)
(* the surveys they draw.  A configuration is a record                      *)
(*   seed                                                                   *)
(*   spatial    name, pars, rate ("yes", "no", "none")                      *)
(*   lum flux dist space   name ("none" for none), pars                     *)
(*   aux        names of the samplers of the synth, in order                *)
(*   derived    name of the derived luminosity sampler or "none"            *)
(*   samplers   for each name: type, observed, pars, secondary (names in    *)
(*              order), sel (name, pars, uses)                              *)
(* and means everything a synth is but its model spaces.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, name) == IF c THEN {} ELSE {name}
With(g, k, v) == [x \in DOMAIN g \cup {k} |-> IF x = k THEN v ELSE g[x]]
Empty == [x \in {} |-> 0]

InitSt == [ y |-> Empty, doc |-> Empty, drawn |-> {} ]

Parts == {"seed", "spatial", "lum", "flux", "dist", "space", "aux", "derived"}
SamplerParts == {"type", "observed", "pars", "secondary", "sel"}

\* where two configurations differ
Differ(a, b) ==
  {p \in Parts : a[p] # b[p]}
  \cup If(DOMAIN a.samplers = DOMAIN b.samplers, "samplers")
  \cup UNION { {"sampler " \o p : p \in {p \in SamplerParts : a.samplers[n][p] # b.samplers[n][p]}}
               : n \in DOMAIN a.samplers \cap DOMAIN b.samplers }

---------------------------------------------------------------------------
(* Ready-made populations *)

SpatialOf ==
  [ SphericalPopulation |-> "Sphere", ZPowerSphericalPopulation |-> "ZSphere",
    ZPowerCosmoPopulation |-> "ZCosmo", SFRPopulation |-> "SFR", MWRadialPopulation |-> "MW" ]
Spatials ==
  [ Sphere |-> [name |-> "ConstantSphericalDistribution", pars |-> <<"Lambda">>],
    ZSphere |-> [name |-> "ZPowerSphericalDistribution", pars |-> <<"Lambda", "delta">>],
    ZCosmo |-> [name |-> "ZPowerCosmoDistribution", pars |-> <<"Lambda", "delta">>],
    SFR |-> [name |-> "SFRDistribution", pars |-> <<"r0", "a", "rise", "decay", "peak">>],
    MW |-> [name |-> "SpiralGalaxyDistribution", pars |-> <<"rho", "a", "b", "R1", "R0">>] ]
Lums ==
  [ Pareto |-> [name |-> "ParetoDistribution", pars |-> <<"Lmin", "alpha">>],
    Schechter |-> [name |-> "SchechterDistribution", pars |-> <<"Lmin", "alpha">>],
    LogNormal |-> [name |-> "LogNormalDistribution", pars |-> <<"mu", "tau">>],
    Log10Normal |-> [name |-> "Log10NormalDistribution", pars |-> <<"mu", "tau">>],
    BPL |-> [name |-> "BPLDistribution", pars |-> <<"Lmin", "alpha", "Lbreak", "beta", "Lmax">>],
    none |-> [name |-> "none", pars |-> <<>>] ]
Shapes == [ HomogeneousSphericalPopulation |-> "Sphere", ZPowerSphericalPopulation |-> "ZSphere",
            ZPowerCosmoPopulation |-> "ZCosmo", SFRPopulation |-> "SFR" ]
ReadyNames == DOMAIN SpatialOf \cup {l \o s : l \in DOMAIN Lums \ {"none"}, s \in DOMAIN Shapes}
Composition(cls) ==
  IF cls \in DOMAIN SpatialOf THEN [spatial |-> SpatialOf[cls], lum |-> "none"]
  ELSE LET ls == CHOOSE x \in (DOMAIN Lums \ {"none"}) \X DOMAIN Shapes : x[1] \o x[2] = cls
       IN  [spatial |-> Shapes[ls[2]], lum |-> ls[1]]

\* every parameter a constructor takes, in order
Signature(cls) ==
  LET c == Composition(cls)
  IN  Spatials[c.spatial].pars \o Lums[c.lum].pars
Cosmological(cls) == Composition(cls).spatial \in {"ZCosmo", "SFR"}

RECURSIVE Index(_, _)
Index(s, x) == IF Head(s) = x THEN 1 ELSE 1 + Index(Tail(s), x)
ToSet(s) == {s[i] : i \in 1..Len(s)}

\* args: values of the signature; the given r_max, seed and rate
ReadyConf(e) ==
  LET c == Composition(e.cls)
      sig == Signature(e.cls)
      sp == Spatials[c.spatial].pars
      lm == Lums[c.lum].pars
      nsp == Len(sp)
  IN  [ seed |-> e.seed,
        spatial |-> [ name |-> Spatials[c.spatial].name,
                      pars |-> [p \in ToSet(sp) \cup {"r_max"} |->
                                  IF p = "r_max" THEN e.r_max ELSE e.args[Index(sp, p)]],
                      rate |-> IF Cosmological(e.cls) THEN e.rate ELSE "none" ],
        lum |-> [ name |-> Lums[c.lum].name,
                  pars |-> [p \in ToSet(lm) |-> e.args[nsp + Index(lm, p)]] ],
        flux |-> [name |-> "none", pars |-> Empty], dist |-> [name |-> "none", pars |-> Empty],
        space |-> [name |-> "none", pars |-> Empty],
        aux |-> <<>>, derived |-> "none", samplers |-> Empty ]

---------------------------------------------------------------------------
(* Calls *)

Tuned(c, e) ==
  CASE e.where = "seed" -> [c EXCEPT !.seed = e.v]
    [] e.where \in {"spatial", "lum", "flux", "dist", "space"} ->
         [c EXCEPT ![e.where].pars = With(@, e.par, e.v)]
    [] e.where = "selection" -> [c EXCEPT !.samplers[e.name].sel.pars = With(@, e.par, e.v)]
    [] OTHER -> [c EXCEPT !.samplers[e.name].pars = With(@, e.par, e.v)]

Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "make" -> [st EXCEPT !.y = With(@, e.y, e.d)]
    [] e.op = "ready" -> [st EXCEPT !.y = With(@, e.y, ReadyConf(e))]
    [] e.op = "export" -> [st EXCEPT !.doc = With(@, e.x, st.y[e.y])]
    [] e.op = "hand" -> [st EXCEPT !.doc = With(@, e.x, e.d)]
    [] e.op = "build" -> [st EXCEPT !.y = With(@, e.y, st.doc[e.x])]
    \* a derived luminosity is added to a synth
    [] e.op = "derive" ->
         [st EXCEPT !.y[e.y].derived = e.d.derived, !.y[e.y].samplers = e.d.samplers]
    [] e.op = "tune" -> [st EXCEPT !.y[e.y] = Tuned(@, e)]
    [] e.op = "draw" -> [st EXCEPT !.drawn = @ \cup {[c |-> st.y[e.y], o |-> e.opts, dig |-> e.dig]}]
    [] OTHER -> st

Again(st, e) == {x \in st.drawn : x.c = st.y[e.y] /\ x.o = e.opts}

Check(st, e) ==
  CASE e.op = "ready" ->
         If(e.cls \in ReadyNames, "C23:unknown")
         \cup (IF ~e.ok THEN {"C23:cannot be made"}
               ELSE {"C23:not what is advertised: " \o x : x \in Differ(ReadyConf(e), e.c)})
    [] e.op = "export" ->
         IF ~e.ok THEN {"C09:a synth cannot be exported"}
         ELSE {"C09:the exported configuration is another: " \o x : x \in Differ(st.y[e.y], e.c)}
    [] e.op = "build" ->
         If(e.ok, "C09:a synth cannot be rebuilt")
         \cup If(e.unchanged, "C09:rebuilding changes the configuration")
    [] e.op = "draw" ->
         If(e.ok, "C09,C23:a survey cannot be drawn")
         \cup If(\A x \in Again(st, e) : x.dig = e.dig, "C09,C20,C23:the same synth draws another survey")
         \cup (IF ~e.ok THEN {} ELSE
               {"C09:the population has another configuration: " \o x : x \in Differ(st.y[e.y], e.c)})
    [] OTHER -> {}
=============================================================================
