#!/usr/bin/env python3
"""Checks that the specifications tell right from wrong: every model is checked
without a bug, which must pass, and with every bug it knows, which must fail."""
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from checks import FAR, cfg, classes_cfg, cosmos_cfg, density_cfg, DENSITIES, display_cfg, survey_cfg
from core import Ctx

SV = survey_cfg(4, synths=1)
SV2 = survey_cfg(4)
MODELS = [
    ("SurveyAlg", SV2, "noreset shallowreset parentfirst shallowtruth flatsel stalegraph acceptsecondary"),
    ("SurveyAlg", survey_cfg(5, synths=1), "redraw"),
    ("ParamsAlg", cfg(dict(Bug='"none"', Depth=5), ["NoViolation", "Stored", "InBounds"]),
     "classstorage falsy exclusive onlylow ignorefixed storefirst defaults"),
    ("SimVarAlg", cfg(dict(Bug='"none"', Depth=3, MaxVars=5), ["NoViolation", "Aligned", "Follows"]),
     "latentobs selectionlost obsfirst latentskipped latentnotindexed allselected"),
    ("LogsAlg", cfg(dict(Bug='"none"', Depth=10, Emit="FALSE"), ["NoViolation", "Agree", "SilencedIsUndone"]),
     "storealways consoleonly quietbars loudkeeps debugboth activatebars nofinally"),
    ("ConfFileAlg", cfg(dict(Bug='"none"', Depth=4, MaxGiven=2, Emit="FALSE"), ["NoViolation", "Agree"]),
     "defaultswin sections ignoreunknown nowrite rewrite always onelevel early"),
    ("SelectorsAlg", cfg(dict(Bug='"none"', Depth=7, N=2, V=2, Emit="FALSE"), ["NoViolation", "Agree"]),
     "strict resample stale flagonly noreset either inplace counts"),
    ("LawsAlg", cfg(dict(Bug='"none"', Cells=3, Top=3, Size=3), ["Lawful", "NoneWhereNothing", "CanGoOn"], view=None),
     "density first unscaled adjust twice atleast"),
    ("InverseAlg", cfg(dict(Bug='"none"', Cells=4, Top=2), ["Lawful", "Continued", "Within", "Errors"], view=None),
     "uncontinued noloweroffset upperonly clip always fromzero"),
    ("StoreAlg", cfg(dict(Bug='"none"', Depth=6, Emit="FALSE", MaxPops=3, Kinds="{2,5,7}", Files='{"f1"}',
                          Spaces='{"zs"}', Groups='{"g1","g2"}'), ["NoViolation", "Agree", "SameGroups"]),
     "zerobased allaux onlyobserved undirected noindex append replace wipe latentasobserved keepsel keepknown parent oldknown oldasis firstspace nospaces sharedspaces"),
    ("ConfigAlg", cfg(dict(Bug='"none"', Depth=6, Emit="FALSE", MaxSynths=3, MaxDocs=2, Shapes0="{1,2}"),
                      ["NoViolation", "Agree"]),
     "flat sorted norate nouses firstsecondary derivedlost noseed shared pops"),
    ("ReproAlg", cfg(dict(Bug='"none"', Depth=6, Emit="FALSE", Procs="{1,2}", Confs="{1}", Seeds="{7,8}", Opts="{1}",
                          MaxSynths=3), ["NoViolation"]),
     "sameseed noseed once oncehere lateseed progress own hashorder"),
    ("CosmosAlg", cosmos_cfg(4, "{1,2}", "3070,6000", "500,677", FAR, "FALSE"),
     "misprint square noroot nolambda lambda shared cachedom cachedh fixedh volh"),
    ("DisplayAlg", display_cfg(5, 2, 2, "FALSE"),
     "obsastrue latasobs allobs swaplums lumxy allarrows noarrow clear newaxes sorts open hiddenbars twofigures "
     "lastfigure reversed stalepars total"),
    ("DensityAlg", density_cfg(8, 1, DENSITIES, "FALSE"),
     "oncefirst plainz uncontinued unbounded width peakup always nearflux flatvolume zeroed"),
    ("DensityAlg", density_cfg(5, 2, "ZPowerSphericalDistribution UniformCosmoDistribution", "FALSE"), "byclass"),
    ("ClassesAlg", classes_cfg(4, 2, "DerivedLumAuxSampler LowerBound", "FALSE"),
     "first toend ownonly inherited sticky anynorms incomplete refused oneregistry objects parents"),
]


def main():
    c = Ctx("models")

    def one(job):
        m, text, bug = job
        path = os.path.join(c.dir, "%s-%s.cfg" % (m, bug))
        with open(path, "w") as f:
            f.write(text.replace('Bug = "none"', 'Bug = "%s"' % bug))
        out, _ = c.tlc(m, path, workers=1, timeout=600)
        found = "is violated" in out
        passed = "No error has been found" in out
        ok = passed if bug == "none" else found
        print("%-5s %-12s %s" % ("ok" if ok else "WRONG", m, bug), flush=True)
        if not ok:
            print(out[-800:])
        return ok

    jobs = [(m, t, b) for m, t, bugs in MODELS for b in ["none"] + bugs.split()]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    c.close()
    print("%d of %d as they should be" % (sum(res), len(res)))
    return 0 if all(res) else 1


if __name__ == "__main__":
    sys.exit(main())
