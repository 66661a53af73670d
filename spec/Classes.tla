------------------------------ MODULE Classes ------------------------------
(***************************************************************************)
(* The classes of distributions, auxiliary samplers and selections, and    *)
(* the three registries in which they are found by their names.            *)
(*                                                                         *)
(* A class extends another one; it may implement methods and may require   *)
(* further ones.  It is complete when nothing that is required is missing. *)
(* A complete class is registered under its name (its own, or the one that *)
(* it inherits), in the place of what had that name before; an incomplete  *)
(* one is not registered, and has no objects.  A class with more than one  *)
(* normalization, and a complete one without a name, is refused.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
SeqOf(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F[T \ {x}] IN F[S]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, name) == IF c THEN {} ELSE {name}

Fams == {"dist", "aux", "sel"}
Cls(base, fam, missing, name) == [base |-> base, fam |-> fam, missing |-> missing, name |-> name]
Own(base, fam, name) == Cls(base, fam, {}, name)

(* what the package has to begin with *)
Package ==
  [ Distribution |-> Own("", "dist", "Distribution"),
    SpatialDistribution |->
      Cls("Distribution", "dist", {"differential_volume", "dNdV", "transform"}, "?"),
    LuminosityDistribution |-> Cls("Distribution", "dist", {"phi", "draw_luminosity"}, "?"),
    CosmologicalDistribution |-> Cls("SpatialDistribution", "dist", {"dNdV"}, "?"),
    SphericalDistribution |-> Cls("SpatialDistribution", "dist", {"dNdV"}, "?"),
    AuxiliarySampler |-> Cls("", "aux", {"true_sampler"}, ""),
    NonObservedAuxSampler |-> Cls("AuxiliarySampler", "aux", {"true_sampler"}, ""),
    DerivedLumAuxSampler |->
      Cls("AuxiliarySampler", "aux", {"true_sampler", "compute_luminosity"}, ""),
    SelectionProbability |-> Cls("", "sel", {"draw"}, ""),
    SpatialSelection |-> Cls("SelectionProbability", "sel", {"draw"}, "?"),
    SFRDistribution |-> Own("CosmologicalDistribution", "dist", "SFRDistribution"),
    ZPowerCosmoDistribution |-> Own("CosmologicalDistribution", "dist", "ZPowerCosmoDistribution"),
    UniformCosmoDistribution |-> Own("CosmologicalDistribution", "dist", "UniformCosmoDistribution"),
    FlatlandDistribution |-> Own("SpatialDistribution", "dist", "FlatlandDistribution"),
    ConstantSphericalDistribution |->
      Own("SphericalDistribution", "dist", "ConstantSphericalDistribution"),
    ZPowerSphericalDistribution |->
      Own("ConstantSphericalDistribution", "dist", "ZPowerSphericalDistribution"),
    SpiralGalaxyDistribution |-> Own("SphericalDistribution", "dist", "SpiralGalaxyDistribution"),
    BPLDistribution |-> Own("LuminosityDistribution", "dist", "BPLDistribution"),
    DeltaDistribution |-> Own("LuminosityDistribution", "dist", "DeltaDistribution"),
    Log10NormalDistribution |-> Own("LuminosityDistribution", "dist", "Log10NormalDistribution"),
    LogNormalDistribution |-> Own("LuminosityDistribution", "dist", "LogNormalDistribution"),
    ParetoDistribution |-> Own("LuminosityDistribution", "dist", "ParetoDistribution"),
    SchechterDistribution |-> Own("LuminosityDistribution", "dist", "SchechterDistribution"),
    LogUniLuminiosityDistribution |->
      Own("LuminosityDistribution", "dist", "LogUniLuminiosityDistribution"),
    ViewingAngleSampler |-> Own("NonObservedAuxSampler", "aux", "ViewingAngleSampler"),
    DeltaAuxSampler |-> Own("AuxiliarySampler", "aux", "DeltaAuxSampler"),
    LogNormalAuxSampler |-> Own("AuxiliarySampler", "aux", "LogNormalAuxSampler"),
    Log10NormalAuxSampler |-> Own("AuxiliarySampler", "aux", "Log10NormalAuxSampler"),
    NormalAuxSampler |-> Own("AuxiliarySampler", "aux", "NormalAuxSampler"),
    ParetoAuxSampler |-> Own("AuxiliarySampler", "aux", "ParetoAuxSampler"),
    PowerLawAuxSampler |-> Own("AuxiliarySampler", "aux", "PowerLawAuxSampler"),
    BrokenPowerLawAuxSampler |-> Own("AuxiliarySampler", "aux", "BrokenPowerLawAuxSampler"),
    TruncatedNormalAuxSampler |-> Own("AuxiliarySampler", "aux", "TruncatedNormalAuxSampler"),
    TruncatedLogNormalAuxSampler |-> Own("AuxiliarySampler", "aux", "TruncatedLogNormalAuxSampler"),
    TruncatedLog10NormalAuxSampler |->
      Own("AuxiliarySampler", "aux", "TruncatedLog10NormalAuxSampler"),
    DummySelection |-> Own("SelectionProbability", "sel", "DummySelection"),
    UnitySelection |-> Own("SelectionProbability", "sel", "UnitySelection"),
    BernoulliSelection |-> Own("SelectionProbability", "sel", "BernoulliSelection"),
    BoxSelection |-> Own("SelectionProbability", "sel", "BoxSelection"),
    LowerBound |-> Own("SelectionProbability", "sel", "LowerBound"),
    UpperBound |-> Own("SelectionProbability", "sel", "UpperBound"),
    SoftSelection |-> Own("SelectionProbability", "sel", "SoftSelection"),
    HardFluxSelection |-> Own("LowerBound", "sel", "HardFluxSelection"),
    SoftFluxSelection |-> Own("SoftSelection", "sel", "SoftFluxSelection"),
    GalacticPlaneSelection |-> Own("SpatialSelection", "sel", "GalacticPlaneSelection"),
    DistanceSelection |-> Own("SpatialSelection", "sel", "DistanceSelection") ]

Complete(c) == c.missing = {}
PackageNames(f) ==
  {n \in DOMAIN Package : Package[n].fam = f /\ Complete(Package[n])}

InitSt == [cls |-> Package, reg |-> [f \in Fams |-> <<>>]]

RECURSIVE Ancestors(_, _)
Ancestors(cls, c) == {c} \cup (IF cls[c].base = "" THEN {} ELSE Ancestors(cls, cls[c].base))

(* the class that a definition makes *)
Made(st, e) ==
  LET b == st.cls[e.base]
  IN  Cls(e.base, b.fam, (b.missing \ Range(e.gives)) \cup Range(e.needs),
          IF e.name = "-" THEN b.name ELSE e.name)
Accepted(st, e) == e.norms <= 1 /\ (Complete(Made(st, e)) => Made(st, e).name # "")

(* a registry is a sequence of names and classes *)
Put(r, n, c) ==
  IF \E i \in DOMAIN r : r[i].n = n
  THEN [i \in DOMAIN r |-> IF r[i].n = n THEN [n |-> n, c |-> c] ELSE r[i]]
  ELSE Append(r, [n |-> n, c |-> c])
Names(r) == [i \in DOMAIN r |-> r[i].n]
Found(r, n) ==
  IF \E i \in DOMAIN r : r[i].n = n THEN r[CHOOSE i \in DOMAIN r : r[i].n = n].c ELSE "none"

NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

(***************************************************************************)
(* events                                                                  *)
(***************************************************************************)
Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "start" ->
         [st EXCEPT !.reg = [f \in Fams |-> [i \in DOMAIN e.names[f] |->
            [n |-> e.names[f][i],
             c |-> IF e.names[f][i] \in DOMAIN Package THEN e.names[f][i] ELSE "other"]]]]
    [] e.op = "class" ->
         IF ~Accepted(st, e) THEN st
         ELSE LET m == Made(st, e)
                  s == [st EXCEPT !.cls = Upd(@, e.cls, m)]
              IN  IF Complete(m) THEN [s EXCEPT !.reg[m.fam] = Put(@, m.name, e.cls)] ELSE s
    [] OTHER -> st

Check(st, e) ==
  CASE e.op = "reset" -> {}
    [] e.op = "start" -> UNION {
         If(PackageNames(f) \subseteq Range(e.names[f]), "C27:a class of the package is not listed")
         \cup If(NoDup(e.names[f]), "C27:listed twice")
         \cup If(Range(e.names[f]) \cap (DOMAIN Package \ PackageNames(f)) = {},
                 "C27:listed in another registry or incomplete")
         : f \in Fams }
    [] e.op = "class" -> If(e.ok = Accepted(st, e),
         IF e.ok THEN "C27:a wrong class is accepted" ELSE "C27:a right class is refused")
    [] e.op = "list" ->
         If(e.names = Names(st.reg[e.fam]), "C27:list")
         \cup If(e.size = Len(st.reg[e.fam]), "C27:number of classes")
    [] e.op = "lookup" ->
         If(e.got = Found(st.reg[e.fam], e.name), "C27:lookup")
         \cup If(e.known = (Found(st.reg[e.fam], e.name) # "none"), "C27:known")
    [] e.op = "make" ->
         If(e.got = Found(st.reg[e.fam], e.name), "C27:object of another class")
         \cup (IF e.got = "none" THEN {} ELSE
               If(e.fresh, "C27:an object is given twice")
               \cup If(e.given, "C27:arguments are lost"))
    [] e.op = "new" ->
         If(e.ok = Complete(st.cls[e.cls]),
            IF e.ok THEN "C27:object of an incomplete class" ELSE "C27:no object of a complete class")
    [] e.op = "sub" -> If(e.v = (e.b \in Ancestors(st.cls, e.a)), "C27:ancestry")
    [] OTHER -> {"C27:unknown event"}
=============================================================================
