------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Parameters of distributions, samplers and selections.                   *)
(*                                                                         *)
(* A class declares parameters, each with an optional default, optional    *)
(* inclusive bounds, and whether it is a normalization; objects of the     *)
(* class have values for them.  Numbers are multiples of a quarter and are *)
(* written as four times their value.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NaN == -999999
None == -888888

Range(s) == {s[i] : i \in DOMAIN s}
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |->
                  IF x \in DOMAIN g THEN g[x] ELSE f[x]]
If(c, name) == IF c THEN {} ELSE {name}

Decl(d, lo, hi, norm) == [d |-> d, lo |-> lo, hi |-> hi, norm |-> norm]
N == None

(* the parameters that the package documents for its own classes *)
RMax  == [r_max |-> Decl(40, 0, N, FALSE)]
Sigma == [sigma |-> Decl(4, 0, N, FALSE)]
MuTau == [mu |-> Decl(0, N, N, FALSE), tau |-> Decl(4, 0, N, FALSE)]
Lambda == [Lambda |-> Decl(4, 0, N, TRUE)]
Builtin ==
  [ SpatialDistribution |-> RMax,
    LuminosityDistribution |-> <<>>, AuxiliarySampler |-> <<>>, SelectionProbability |-> <<>>,
    SFRDistribution |->
      Merge(RMax, [r0 |-> Decl(N, 0, N, TRUE), a |-> Decl(N, 0, N, FALSE),
                   rise |-> Decl(N, N, N, FALSE), decay |-> Decl(N, N, N, FALSE),
                   peak |-> Decl(N, 0, N, FALSE)]),
    ZPowerCosmoDistribution |->
      Merge(Merge(RMax, Lambda), [delta |-> Decl(N, N, N, FALSE)]),
    SpiralGalaxyDistribution |->
      Merge(RMax, [rho |-> Decl(N, 0, N, FALSE), a |-> Decl(N, N, N, FALSE),
                   b |-> Decl(N, N, N, FALSE), R1 |-> Decl(N, N, N, FALSE),
                   R0 |-> Decl(N, N, N, FALSE)]),
    ConstantSphericalDistribution |-> Merge(RMax, Lambda),
    ZPowerSphericalDistribution |->
      Merge(Merge(RMax, Lambda), [delta |-> Decl(4, N, N, FALSE)]),
    FlatlandDistribution |-> Merge(RMax, [Lambda |-> Decl(4, 0, N, FALSE)]),
    UniformCosmoDistribution |->
      Merge(RMax, [r0 |-> Decl(N, 0, N, TRUE), zmin |-> Decl(N, 0, N, FALSE),
                   zmax |-> Decl(N, 0, N, FALSE)]),
    DeltaDistribution |-> [Lp |-> Decl(0, 0, N, FALSE)],
    SchechterDistribution |-> [Lmin |-> Decl(4, 0, N, FALSE), alpha |-> Decl(4, N, N, FALSE)],
    ParetoDistribution |-> [Lmin |-> Decl(4, 0, N, FALSE), alpha |-> Decl(4, N, N, FALSE)],
    LogNormalDistribution |-> [mu |-> Decl(N, N, N, FALSE), tau |-> Decl(N, 0, N, FALSE)],
    Log10NormalDistribution |-> [mu |-> Decl(N, N, N, FALSE), tau |-> Decl(N, 0, N, FALSE)],
    BPLDistribution |->
      [Lmin |-> Decl(N, 0, N, FALSE), alpha |-> Decl(N, N, N, FALSE),
       Lbreak |-> Decl(N, 0, N, FALSE), beta |-> Decl(N, N, N, FALSE),
       Lmax |-> Decl(N, 0, N, FALSE)],
    LogUniLuminiosityDistribution |-> [Lmin |-> Decl(N, 0, N, FALSE), Lmax |-> Decl(N, 0, N, FALSE)],
    LogNormalAuxSampler |-> Merge(MuTau, Sigma),
    Log10NormalAuxSampler |-> Merge(MuTau, Sigma),
    NormalAuxSampler |-> Merge(MuTau, Sigma),
    DeltaAuxSampler |-> Merge(Sigma, [xp |-> Decl(0, N, N, FALSE)]),
    ViewingAngleSampler |-> [max_angle |-> Decl(360, 0, 720, FALSE)],
    TruncatedNormalAuxSampler |->
      Merge(Merge(MuTau, Sigma), [lower |-> Decl(N, N, N, FALSE), upper |-> Decl(N, N, N, FALSE)]),
    TruncatedLogNormalAuxSampler |->
      Merge(Merge(MuTau, Sigma), [lower |-> Decl(N, 0, N, FALSE), upper |-> Decl(N, 0, N, FALSE)]),
    TruncatedLog10NormalAuxSampler |->
      Merge(Merge(MuTau, Sigma), [lower |-> Decl(N, 0, N, FALSE), upper |-> Decl(N, 0, N, FALSE)]),
    ParetoAuxSampler |->
      Merge(Sigma, [xmin |-> Decl(4, 0, N, FALSE), alpha |-> Decl(4, 0, N, FALSE)]),
    PowerLawAuxSampler |->
      Merge(Sigma, [xmin |-> Decl(4, 0, N, FALSE), xmax |-> Decl(8, 0, N, FALSE),
                    alpha |-> Decl(4, N, N, FALSE)]),
    BrokenPowerLawAuxSampler |->
      Merge(Sigma, [xmin |-> Decl(N, 0, N, FALSE), alpha |-> Decl(N, N, N, FALSE),
                    xbreak |-> Decl(N, 0, N, FALSE), beta |-> Decl(N, N, N, FALSE),
                    xmax |-> Decl(N, 0, N, FALSE)]),
    GalacticPlaneSelection |-> [b_limit |-> Decl(N, 0, 360, FALSE)],
    DistanceSelection |->
      [min_distance |-> Decl(N, 0, N, FALSE), max_distance |-> Decl(N, 0, N, FALSE)],
    BernoulliSelection |-> [probability |-> Decl(2, 0, 4, FALSE)],
    BoxSelection |-> [vmin |-> Decl(N, N, N, FALSE), vmax |-> Decl(N, N, N, FALSE)],
    LowerBound |-> [boundary |-> Decl(N, N, N, FALSE)],
    UpperBound |-> [boundary |-> Decl(N, N, N, FALSE)],
    SoftSelection |-> [boundary |-> Decl(N, N, N, FALSE), strength |-> Decl(N, 0, N, FALSE)] ]

InitSt ==
  [ cls |-> Builtin,                        \* class -> parameter -> declaration
    fixed |-> {},                           \* <<class that declares it, parameter>>
    owner |-> [c \in DOMAIN Builtin |-> [p \in DOMAIN Builtin[c] |-> c]],
    obj |-> <<>> ]                          \* id -> [cls, vals]

Norms(ds) == {p \in DOMAIN ds : ds[p].norm}

(* may a class be declared *)
Declarable(e) == Cardinality(Norms(e.decls)) <= 1

Within(d, v) ==
  IF v = NaN THEN d.lo = None /\ d.hi = None
  ELSE (d.lo = None \/ v >= d.lo) /\ (d.hi = None \/ v <= d.hi)

Free(st, c, p) == <<st.owner[c][p], p>> \notin st.fixed

Accepts(st, o, p, v) ==
  LET c == st.obj[o].cls
  IN  Free(st, c, p) /\ Within(st.cls[c][p], v)

(* what reading gives: a value, or None for an error *)
Reads(st, o, p) ==
  LET x == st.obj[o]
  IN  IF p \in DOMAIN x.vals THEN x.vals[p] ELSE st.cls[x.cls][p].d

Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "class" ->
         IF ~e.ok THEN st
         ELSE LET base == IF e.base = "" THEN <<>> ELSE st.cls[e.base]
                  own == IF e.base = "" THEN <<>> ELSE st.owner[e.base]
              IN [st EXCEPT
                   !.cls = Upd(@, e.cls, Merge(base, e.decls)),
                   !.owner = Upd(@, e.cls, Merge(own, [p \in DOMAIN e.decls |-> e.cls]))]
    [] e.op = "new" ->
         IF e.ok THEN [st EXCEPT !.obj = Upd(@, e.o, [cls |-> e.cls, vals |-> <<>>])] ELSE st
    [] e.op = "set" ->
         IF e.ok THEN [st EXCEPT !.obj[e.o].vals = Upd(@, e.p, e.v)] ELSE st
    [] e.op = "fix" ->
         LET k == <<st.owner[e.cls][e.p], e.p>>
         IN  [st EXCEPT !.fixed = IF e.v THEN @ \cup {k} ELSE @ \ {k}]
    [] OTHER -> st

CheckGet(st, o, p, v) == v = Reads(st, o, p)

Check(st, e) ==
  CASE e.op = "class" ->
         If(e.ok <=> Declarable(e),
            IF e.ok THEN "C14:a class with two normalizations was declared"
            ELSE "C14:a class could not be declared")
    [] e.op = "new" -> If(e.ok, "*:an object could not be made: " \o e.err)
    [] e.op = "set" ->
         If(e.ok <=> Accepts(st, e.o, e.p, e.v),
            IF e.ok THEN "C14:a value was accepted that is not allowed"
            ELSE "C14:an allowed value was refused")
    [] e.op = "get" ->
         If(CheckGet(st, e.o, e.p, e.v), "C14:reading a parameter gives another value")
    [] e.op = "norm" ->
         LET c == st.obj[e.o].cls
             p == CHOOSE x \in Norms(st.cls[c]) : TRUE
         IN  If(CheckGet(st, e.o, p, e.v), "C14,C17:the normalization has another value")
    [] e.op = "look" ->
         If(\A o \in DOMAIN st.obj :
              /\ o \in DOMAIN e.vals
              /\ \A p \in DOMAIN st.cls[st.obj[o].cls] :
                   p \in DOMAIN e.vals[o] /\ CheckGet(st, o, p, e.vals[o][p]),
            "C14:a parameter changed that was not set")
    [] e.op = "fix" -> If(e.now = e.v, "C14:a parameter does not become fixed or free")
    [] OTHER -> {}
=============================================================================
