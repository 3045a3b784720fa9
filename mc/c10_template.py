"""C10: the full product of levels, visit types, photon-counting flags, loop flags, exposure-setting patterns and unrelated keywords,
against the decision table written out."""
import itertools
import json
import os

import numpy as np

from mc import kit
import corgidrp.data as data
from corgidrp import walker

LEVELS = ["L1", "L2a", "L2b", "L3", "L4", "TDA", "CAL", "", "L2", "l1", "L2A"]
VIS = [None, "ENGPUPIL", "ENGIMGAGE", "ENG", "BORESITE", "FFIELD", "DARK", "PUPILIMG", "TDEMO", "ABSFLXFT", "ABSFLXBT", "CORETPUT", "ENERGY", "TENG", "DARKS", "PUPIL", "MOCK", ""]
# frames: exposure settings of each frame
PATTERNS = {"one": [0], "same": [0, 0], "exptime": [0, 1], "gain": [0, 2], "kgain": [0, 3], "three": [0, 0, 1], "back": [0, 1, 0]}
SET = [dict(EXPTIME=10.0, EMGAIN_C=1.0, KGAINPAR=8.7), dict(EXPTIME=20.0, EMGAIN_C=1.0, KGAINPAR=8.7), dict(EXPTIME=10.0, EMGAIN_C=2.0, KGAINPAR=8.7),
       dict(EXPTIME=10.0, EMGAIN_C=1.0, KGAINPAR=8.8)]
OTHER = [dict(), dict(CFAMNAME="4A", FPAMNAME="ND225", LSAMNAME="SPEC", SPAMNAME="SPEC", DPAMNAME="PUPIL", ARRTYPE="ENG", OPMODE="X", TARGET="Vega", OBSNUM=3, PHTCNT=True, PSFREF=True, EMGAIN_A=3.0,
                        EMGAIN_M=900.0, DATETIME="2030-01-01T00:00:00.000", BUNIT="electron", STATUS=2, OVEREXP=True)]


def table(level, vis, ispc, los, mixed):
    if level == "L1":
        if vis is None:
            return "l1_to_l2b.json"
        if vis.startswith("ENG"):
            return "l1_to_l2a_eng.json"
        if vis == "BORESITE":
            return "l1_to_boresight.json"
        if vis == "FFIELD":
            return "l1_flat_and_bp.json"
        if vis == "DARK":
            return "l1_to_l2b_pc_dark.json" if ispc else "l1_to_l2a_noisemap.json" if mixed else "build_trad_dark_image.json"
        if vis == "PUPILIMG":
            return ["l1_to_l2a_nonlin.json", "l1_to_kgain.json"]
        return "l1_to_l2a_basic.json"
    if level == "L2a":
        if vis == "DARK":
            return "l2a_to_l2b_pc_dark.json" if ispc else "l2a_to_l2a_noisemap.json" if mixed else "l2a_build_trad_dark_image.json"
        return "l2a_to_l2b_pc.json" if ispc else "l2a_to_l2b.json"
    if level == "L2b":
        return "l2b_to_fluxcal_factor.json" if vis in ("ABSFLXFT", "ABSFLXBT") else "l2b_to_corethroughput.json" if vis == "CORETPUT" else "l2b_to_l3.json"
    if level == "L3":
        return "l3_to_l4.json" if los == 1 else "l3_to_l4_nopsfsub.json"
    return None


def dataset(level, vis, ispc, los, pat, other, first_only=True):
    fr = []
    for i, s in enumerate(PATTERNS[pat]):
        f = kit.frame((2, 2), "L1", i, ISPC=ispc, **dict(other, **SET[s]))
        f.ext_hdr["DATALVL"] = level
        f.ext_hdr["FSMLOS"] = los
        if vis is None:
            del f.pri_hdr["VISTYPE"]
        else:
            f.pri_hdr["VISTYPE"] = vis
        fr.append(f)
    return data.Dataset(fr)


def run(c):
    c.bound(levels=LEVELS, visit_types=[str(v) for v in VIS], photon_counting=[False, True], loop=[0, 1], exposure_patterns=sorted(PATTERNS), unrelated="two sets of all other keywords")

    def one(c, job):
        level, vis = job
        for ispc, los, pat, k in itertools.product((False, True), (0, 1), PATTERNS, range(len(OTHER))):
            if vis is None and level not in ("L1", "L3", "L4", "TDA", "CAL", "", "L2", "l1", "L2A"):
                continue      # the table needs a visit type beyond L1
            with c.case("guess:%s:%s:%s:%d:%s:%d" % (level, vis, ispc, los, pat, k)) as go:
                if go:
                    ds = dataset(level, vis, ispc, los, pat, OTHER[k])
                    before = kit.snap_ds(ds)
                    want = table(level, vis, ispc, los, len(set(PATTERNS[pat])) > 1)
                    c.step()
                    c.state(level, vis, ispc, los, pat, k)
                    if want is None:
                        c.raises(lambda: walker.guess_template(ds), "level %r" % level)
                    else:
                        got = walker.guess_template(ds)
                        c.equal(got, want, "template")
                        c.outcome(str(got))
                    d = kit.diff(before, kit.snap_ds(ds))
                    c.expect(d is None, lambda: "choosing the template modified the data: %s" % d)

    c.fan(list(itertools.product(LEVELS, VIS)), one)

    # generation from files: the chosen templates, in order, each for all the files
    real = json.load

    def gen(c, job):
        level, vis, ispc, los, pat = job
        want = table(level, vis, ispc, los, len(set(PATTERNS[pat])) > 1)
        with c.case("generate:%s:%s:%s:%d:%s" % job) as go:
            if not go:
                return
            import corgidrp
            d = c.newdir("gen")
            ds = dataset(level, vis, ispc, los, pat, OTHER[0])
            ds.save(d)
            files = [f.filepath for f in ds.frames]
            old = corgidrp.jit_calib_id
            corgidrp.jit_calib_id = True
            try:
                c.step()
                c.state("generate", job)
                if want is None:
                    c.raises(lambda: walker.autogen_recipe(files, d), "level %r" % level)
                    return
                got = walker.autogen_recipe(files, d)
            finally:
                corgidrp.jit_calib_id = old
            gots = got if isinstance(got, list) else [got]
            wants = want if isinstance(want, list) else [want]
            c.equal(len(gots), len(wants), "number of recipes")
            for g, w in zip(gots, wants):
                with open(os.path.join(walker.recipe_dir, w)) as fh:
                    t = real(fh)
                c.equal(g["name"], t["name"], "recipe name")
                c.equal([s["name"] for s in g["steps"]], [s["name"] for s in t["steps"]], "steps of the recipe")
                c.equal(g["inputs"], files, "inputs of the recipe")

    jobs = [(lv, v, p, los, pat) for lv in LEVELS[:6] for v in ("ENGPUPIL", "BORESITE", "FFIELD", "DARK", "PUPILIMG", "TDEMO", "ABSFLXFT", "ABSFLXBT", "CORETPUT") for p in (False, True)
            for los in ((0, 1) if lv == "L3" else (0,)) for pat in ("one", "same", "exptime")]
    c.fan(jobs, gen)
