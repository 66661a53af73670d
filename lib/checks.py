"""What is run for each property."""
from core import SEED, scale

SURVEY_CFG = """CONSTANTS Bug = "none"
 Depth = %d
 Emit = %s
 Samplers = {%s}
 Synths = {%s}
INIT Init
NEXT Next
%sINVARIANTS NoViolation Acyclic OneSurvey PrimariesAreNotSecondaries NamesUnique
CHECK_DEADLOCK FALSE
"""


def survey_cfg(depth, samplers="abc", synths=2, emit=False):
    return SURVEY_CFG % (
        depth,
        "TRUE" if emit else "FALSE",
        ",".join('"%s"' % c for c in samplers),
        ",".join('"y%d"' % (i + 1) for i in range(synths)),
        "" if emit else "VIEW View\n",
    )


def survey_model(c):
    """every history of the survey algorithm within the bounds"""
    jobs = []
    jobs.append(lambda: c.model("SurveyAlg", survey_cfg(scale(4, 5)), workers=2,
                                note="two synths, three samplers, all histories of 4 calls"))
    jobs.append(lambda: c.model("SurveyAlg", survey_cfg(scale(4, 6), synths=1), workers=2,
                                mem="8g", note="one synth, three samplers"))
    return jobs


def survey_random(c, prof, scripts, secs=150, shards=6):
    def one(k):
        return lambda: c.drive_and_judge(
            "run_survey.py", [prof, SEED * 1000 + k, secs, scripts], "PopSynthTrace"
        )

    return [one(k) for k in range(shards)]


def survey_replay(c, num, depth=9, held=0, shards=2):
    def one(k):
        def go():
            f, n = c.scripts("SurveyAlg", survey_cfg(depth, emit=True), num, 30, SEED * 77 + k)
            c.drive_and_judge("run_replay.py", [f, SEED, held], "PopSynthTrace")

        return go

    return [one(k) for k in range(shards)]


def survey(prof, held=0, replay=True, quick=110, model=True):
    def go(c):
        jobs = survey_random(c, prof, scale(quick, quick * 12), scale(150, 1500), scale(6, 8))
        if replay:
            jobs += survey_replay(c, scale(150, 2500), scale(9, 12), held)
        if model:
            jobs += survey_model(c)
        c.run(jobs)

    return go


def cfg(consts, invs, view="View", props=""):
    """the text of a configuration with Init and Next"""
    out = "CONSTANTS " + "\n ".join("%s = %s" % kv for kv in consts.items()) + "\n"
    out += "INIT Init\nNEXT Next\n"
    if view:
        out += "VIEW %s\n" % view
    out += "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n%s" % (" ".join(invs), props)
    return out


NONE = '"none"'


def shards(c, driver, args, module, n, **kw):
    """args(k) are the arguments of the k-th run of the driver"""
    return [
        (lambda k: lambda: c.drive_and_judge(driver, args(k), module, **kw))(k) for k in range(n)
    ]


def simvars(c):
    jobs = shards(c, "run_simvar.py", lambda k: [SEED * 1000 + k, scale(250, 4000)],
                  "SimVarTrace", scale(6, 8))
    jobs.append(lambda: c.model("SimVarAlg", cfg(
        dict(Bug=NONE, Depth=scale(3, 4), MaxVars=scale(5, 6)),
        ["NoViolation", "Aligned", "Follows"]), workers=scale(2, 8), mem="12g",
        note="all histories of operations on simulated variables"))
    c.run(jobs)


def params(c):
    jobs = shards(c, "run_params.py", lambda k: [SEED * 1000 + k, scale(300, 5000)],
                  "ParamsTrace", scale(6, 8))
    jobs.append(lambda: c.model("ParamsAlg", cfg(
        dict(Bug=NONE, Depth=scale(5, 7)), ["NoViolation", "Stored", "InBounds"]),
        workers=scale(2, 8), mem="12g", note="all histories of declarations, sets and reads"))
    c.run(jobs)


def logs(c):
    invs = ["NoViolation", "Agree", "SilencedIsUndone"]

    def one(k):
        def go():
            f, _ = c.scripts("LogsAlg", cfg(
                dict(Bug=NONE, Depth=scale(16, 30), Emit="TRUE"), invs, view=None),
                scale(120, 3000), 40, SEED * 91 + k)
            c.drive_and_judge("run_logs.py", [f, SEED * 1000 + k], "LogsTrace")
        return go

    jobs = [one(k) for k in range(scale(4, 8))]
    jobs.append(lambda: c.model("LogsAlg", cfg(
        dict(Bug=NONE, Depth=scale(10, 14), Emit="FALSE"), invs), workers=2,
        note="all histories of switches"))
    c.run(jobs)


def conf(c):
    invs = ["NoViolation", "Agree"]

    def consts(depth, given, emit):
        return dict(Bug=NONE, Depth=depth, MaxGiven=given, Emit=emit)

    def one(k):
        def go():
            f, _ = c.scripts("ConfFileAlg", cfg(consts(scale(5, 8), 8, "TRUE"), invs, view=None),
                             scale(40, 700), 100, SEED * 57 + k)
            c.drive_and_judge("run_conf.py", [f, SEED * 1000 + k], "ConfFileTrace", timeout=1500)
        return go

    jobs = [one(k) for k in range(scale(5, 8))]
    jobs.append(lambda: c.model("ConfFileAlg", cfg(
        consts(scale(4, 5), scale(2, 3), "FALSE"), invs), workers=scale(2, 6), mem="10g",
        note="all histories of editing the file and importing"))
    c.run(jobs)


def selectors(c):
    invs = ["NoViolation", "Agree"]

    def one(k):
        def go():
            f, _ = c.scripts("SelectorsAlg", cfg(
                dict(Bug=NONE, Depth=scale(14, 24), N=4, V=3, Emit="TRUE"), invs, view=None),
                scale(150, 2500), 40, SEED * 31 + k)
            c.drive_and_judge("run_select.py",
                              [f, SEED * 1000 + k, scale(200, 4000), scale(1, 12)],
                              "SelectorsTrace", timeout=1500)
        return go

    jobs = [one(k) for k in range(scale(4, 8))]
    jobs.append(lambda: c.model("SelectorsAlg", cfg(
        dict(Bug=NONE, Depth=scale(7, 9), N=2, V=2, Emit="FALSE"), invs), workers=2,
        note="all histories of a hard and a random selector and their combination"))
    c.run(jobs)


def store(c):
    invs = ["NoViolation", "Agree", "SameGroups"]

    def consts(depth, pops, emit):
        return dict(Bug=NONE, Depth=depth, Emit=emit, MaxPops=pops, Kinds="{2,5,7}",
                    Files='{"f1","f2"}' if emit == "TRUE" else '{"f1"}', Groups='{"g1","g2"}',
                    Spaces='{"grid","zs"}' if emit == "TRUE" else '{"zs"}')

    def one(k):
        def go():
            f, _ = c.scripts("StoreAlg", cfg(consts(scale(10, 16), scale(6, 9), "TRUE"), invs, view=None),
                             scale(45, 900), 40, SEED * 43 + k)
            c.drive_and_judge("run_store.py", [f, SEED * 1000 + k], "StoreTrace", timeout=1500)
        return go

    jobs = [one(k) for k in range(scale(6, 8))]
    jobs.append(lambda: c.model("StoreAlg", cfg(
        consts(scale(7, 10), scale(3, 4), "FALSE"), invs), workers=scale(2, 8), mem="12g",
        note="all histories of making, writing, adding, reading and taking sub-populations"))
    c.run(jobs)


def config(n_scripts, n_ready):
    invs = ["NoViolation", "Agree"]

    def consts(depth, syn, docs, shapes, emit):
        return dict(Bug=NONE, Depth=depth, Emit=emit, MaxSynths=syn, MaxDocs=docs, Shapes0=shapes)

    def go(c):
        def one(k):
            def go():
                f = "none"
                if scale(*n_scripts):
                    f, _ = c.scripts("ConfigAlg", cfg(consts(scale(9, 14), scale(4, 6), scale(3, 5),
                                     "{1,2,3}", "TRUE"), invs, view=None), scale(*n_scripts), 40, SEED * 29 + k)
                c.drive_and_judge("run_config.py", [f, SEED * 1000 + k, scale(*n_ready)], "ConfigTrace",
                                  timeout=1500)
            return go

        jobs = [one(k) for k in range(scale(6, 8))]
        jobs.append(lambda: c.model("ConfigAlg", cfg(
            consts(scale(7, 9), 3, 2, "{1,2}", "FALSE"), invs), workers=scale(2, 8), mem="12g",
            note="all histories of making, exporting, rebuilding, changing and drawing"))
        c.run(jobs)

    return go


def repro(c):
    invs = ["NoViolation"]

    def consts(depth, procs, confs, opts, synths, emit):
        return dict(Bug=NONE, Depth=depth, Emit=emit, Procs=procs, Confs=confs, Seeds="{7,8}",
                    Opts=opts, MaxSynths=synths)

    def one(k, jit):
        def go():
            f, _ = c.scripts("ReproAlg", cfg(consts(scale(14, 20), "{1,2,3}", "{1,2}", "{1,2}", 6, "TRUE"),
                             invs, view=None), scale(30, 700), 40, SEED * 37 + k)
            c.drive_and_judge("run_repro.py", [f, SEED * 1000 + k], "ReproTrace", jit=jit, timeout=1500)
        return go

    jobs = [one(k, k % 2 == 0) for k in range(scale(4, 6))]
    jobs += survey_random(c, "C20", scale(60, 900), scale(150, 1500), scale(2, 2))
    jobs.append(lambda: c.model("ReproAlg", cfg(
        consts(scale(6, 7), "{1,2}", "{1}", "{1}", scale(3, 4), "FALSE"), invs), workers=scale(2, 8), mem="12g",
        note="all histories of draws, other uses of the generator and progress bars in two processes"))
    c.run(jobs)


def laws(c, parts):
    """jobs; parts maps a part of run_laws to (runs, effort) quick and deep"""
    jobs = []
    for part, quick, deep in parts:
        n, effort = scale(quick, deep)
        jobs += shards(c, "run_laws.py",
                       lambda k, p=part, e=effort: [SEED * 1000 + k, p, e], "LawsTrace", n,
                       timeout=1800)
    return jobs


def display_cfg(depth, pops, axes, emit):
    return cfg(dict(Bug=NONE, Depth=depth, MaxPops=pops, MaxAxes=axes, Emit=emit), ["NoViolation", "Agree"],
               view=None if emit == "TRUE" else "View")


def display(c):
    def one(k):
        def go():
            f, _ = c.scripts("DisplayAlg", display_cfg(scale(12, 20), 4, 3, "TRUE"),
                             scale(110, 1500), 40, SEED * 61 + k)
            c.drive_and_judge("run_display.py", [f, SEED * 1000 + k], "DisplayTrace", timeout=1700)
        return go

    jobs = [one(k) for k in range(scale(5, 8))]
    jobs.append(lambda: c.model("DisplayAlg", display_cfg(scale(6, 7), 2, 2, "FALSE"), workers=scale(2, 6), mem="10g",
                                note="all histories of making and displaying populations"))
    c.run(jobs)


def classes_cfg(depth, made, bases, emit):
    return cfg(dict(Bug=NONE, Depth=depth, MaxClasses=made, Emit=emit,
                    Bases="{%s}" % ",".join('"%s"' % b for b in bases.split())),
               ["NoViolation", "Agree", "Usable"], view=None if emit == "TRUE" else "View")


BASES = ("SpatialDistribution SphericalDistribution LuminosityDistribution SchechterDistribution "
         "AuxiliarySampler DerivedLumAuxSampler NormalAuxSampler SelectionProbability SpatialSelection "
         "LowerBound UnitySelection")


def classes(c):
    def one(k):
        def go():
            f, _ = c.scripts("ClassesAlg", classes_cfg(scale(14, 24), 8, BASES, "TRUE"),
                             scale(60, 900), 60, SEED * 67 + k)
            c.drive_and_judge("run_classes.py", [f, SEED * 1000 + k, scale(150, 2500)], "ClassesTrace",
                              timeout=1500)
        return go

    jobs = [one(k) for k in range(scale(4, 8))]
    jobs.append(lambda: c.model("ClassesAlg", classes_cfg(
        scale(4, 5), scale(2, 3), "DerivedLumAuxSampler LowerBound", "FALSE"), workers=scale(2, 6), mem="10g",
        note="all histories of defining, listing and looking up classes"))
    c.run(jobs)


DENSITIES = ("ConstantSphericalDistribution ZPowerSphericalDistribution FlatlandDistribution SpiralGalaxyDistribution "
             "ZPowerCosmoDistribution SFRDistribution UniformCosmoDistribution ParetoDistribution BPLDistribution")


def density_cfg(depth, objs, names, emit):
    return cfg(dict(Bug=NONE, Depth=depth, MaxObjs=objs, Emit=emit,
                    Classes="{%s}" % ",".join('"%s"' % b for b in names.split())),
               ["NoViolation", "Agree", "Continuous"], view=None if emit == "TRUE" else "View")


def densities(c):
    def one(k):
        def go():
            f, _ = c.scripts("DensityAlg", density_cfg(scale(30, 40), 3, DENSITIES, "TRUE"),
                             scale(100, 2000), 60, SEED * 71 + k)
            c.drive_and_judge("run_density.py", [f, SEED * 1000 + k], "DensityTrace", jit=k % 2 == 1, timeout=1500)
        return go

    jobs = [one(k) for k in range(scale(4, 8))]
    jobs.append(lambda: c.model("DensityAlg", density_cfg(scale(8, 9), 1, DENSITIES, "FALSE"), workers=2,
                                note="every setting of the parameters of one distribution"))
    jobs.append(lambda: c.model("DensityAlg", density_cfg(
        scale(5, 6), 2, "ZPowerSphericalDistribution UniformCosmoDistribution", "FALSE"), workers=scale(2, 6),
        mem="10g", note="all histories of making, setting and asking two distributions"))
    c.run(jobs)


COSMOS = ["NoViolation", "Agree"]


def cosmos_cfg(depth, ids, oms, hs, ks, emit):
    return cfg(dict(Bug=NONE, Depth=depth, Ids=ids, Oms="{%s}" % oms, Hs="{%s}" % hs,
                    Ks="{%s}" % ks, Emit=emit), COSMOS, view=None if emit == "TRUE" else "View")


MATTER = "2500,2700,3070,3500,4000,5000,6000,7000,8000,9000,10000"
FAR = "300,350,400,450,500,550,600,650,700,750,800,850,900"


def asked(c, n, jit):
    """the package's cosmologies, in histories of the model"""
    def one(k):
        def go():
            f, _ = c.scripts("CosmosAlg", cosmos_cfg(
                scale(9, 14), "{1,2,3}", MATTER, "500,677,700,731,1000", "300,900", "TRUE"),
                scale(70, 700), 40, SEED * 53 + k)
            c.drive_and_judge("run_cosmos.py", [f, SEED * 1000 + k], "CosmosTrace", jit=jit(k), timeout=1700)
        return go

    return [one(k) for k in range(n)]


def cosmos(c):
    jobs = asked(c, scale(5, 8), lambda k: k % 2 == 1)
    jobs.append(lambda: c.model("CosmosAlg", cosmos_cfg(
        2, "{1}", MATTER, "500,677,700,731,1000", FAR, "FALSE"), workers=2,
        note="the rational function against the integral"))
    jobs.append(lambda: c.model("CosmosAlg", cosmos_cfg(
        scale(5, 6), "{1,2}", "3070,6000", "500,677", "300,700", "FALSE"), workers=2,
        note="all histories of making, setting and asking two cosmologies"))
    c.run(jobs)


def rejection(c):
    return [lambda: c.model("LawsAlg", cfg(
        dict(Bug=NONE, Cells=3, Top=scale(3, 5), Size=scale(3, 4)),
        ["Lawful", "NoneWhereNothing", "CanGoOn"], view=None), workers=2,
        note="rejection sampling: every density, adjustment and scale on three cells")]


def inversion(c):
    return [lambda: c.model("InverseAlg", cfg(
        dict(Bug=NONE, Cells=scale(4, 5), Top=scale(2, 3)),
        ["Lawful", "Continued", "Within", "Errors"], view=None), workers=2,
        note="inverting a broken law restricted to a range, then adding an error")]


def both(prof, parts, quick=80, shards_=3, model=False, more=lambda c: []):
    """surveys of a profile, and large draws against the laws"""
    def go(c):
        jobs = laws(c, parts) + more(c)
        jobs += survey_random(c, prof, scale(quick, quick * 12), scale(150, 1500), scale(shards_, 6))
        jobs += rejection(c) if model else survey_model(c)[1:]
        c.run(jobs)

    return go


CHECKS = {
    "C01": survey("C01"),
    "C02": survey("C02", replay=False),
    "C03": survey("C03"),
    "C04": survey("C04"),
    "C05": survey("C05", held=1, quick=70),
    "C06": both("C06", [("scatter", (2, 1), (6, 4))], more=lambda c: asked(c, scale(1, 2), lambda k: False)),
    "C07": survey("C07"),
    "C08": survey("C08"),
    "C09": config((30, 600), (0, 0)),
    "C10": store,
    "C11": store,
    "C12": store,
    "C13": simvars,
    "C14": params,
    "C15": logs,
    "C16": conf,
    "C17": both("C17", [("counts", (3, 1), (8, 12))]),
    "C18": lambda c: c.run(laws(c, [("distances", (5, 1), (8, 12))]) + rejection(c)),
    "C19": selectors,
    "C20": repro,
    "C21": lambda c: c.run(laws(c, [("samplers", (7, 2), (8, 60))]) + inversion(c)),
    "C22": survey("C22", replay=False),
    "C23": config((0, 0), (3, 40)),
    "C24": both("C24", [("sky", (3, 1), (8, 8))]),
    "C25": cosmos,
    "C26": display,
    "C27": classes,
    "C28": densities,
}

TECH = {
    "*": "TLA+ specification, checked exhaustively with TLC for small constants; traces of the "
    "real package, from random histories and from histories generated by TLC, validated "
    "against it",
}
NOTES = {
    "*": "The specification's algorithm satisfies the property for all configurations and "
    "histories within the stated bounds; the code is bound to it by validating recorded "
    "executions, so the code is covered as far as the generated histories reach. Trusted: TLC, "
    "the recording driver, numpy.",
}
