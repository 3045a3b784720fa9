"""C11: all small templates x database contents x pipeline settings x input lists: the generated recipe against one written from scratch."""
import copy
import glob
import itertools
import json
import os

import numpy as np

from mc import kit
from mc.core import REPO
from mc.c07_lookup import Entry, best
import corgidrp
import corgidrp.data as data
from corgidrp import ops as drp_ops
from corgidrp import caldb as cdb, walker

# step building blocks (name, calibs, keywords, extra keys)
ALPHA = {
    "plain": dict(name="update_to_l2a"),
    "kw": dict(name="crop", keywords={"sizexy": 2, "nested": {"a": [1, 2]}}),
    "named": dict(name="convert_to_electrons", calibs={"KGain": "/data/automatic_runs/kgain.fits"}),
    "req": dict(name="convert_to_electrons", calibs={"KGain": "AUTOMATIC"}),
    "dark": dict(name="dark_subtraction", calibs={"Dark": "automatic"}, keywords={"outputdir": "AUTOMATIC"}),
    "darkfix": dict(name="Dark_Subtraction", calibs={"Dark": "/some/dark.fits"}, keywords={"outputdir": "/fixed/dir"}),
    "opt": dict(name="cti_correction", calibs={"TrapCalibration": "AUTOMATIC,OPTIONAL"}),
    "two": dict(name="detect_cosmic_rays", calibs={"DetectorParams": "AUTOMATIC", "KGain": "AUTOMATIC, OPTIONAL"}, keywords={"mode": "full"}),
    "none": dict(name="prescan_biassub", calibs={"DetectorNoiseMaps": None}),
    "skip": dict(name="em_gain_division", skip=True),
    "plots": dict(name="calibrate_nonlin", keywords={"plot_outdir": "Automatic", "outdir": "AUTOMATIC", "verbose": "x"}),
    "save": dict(name="save", keywords={"suffix": "x"}),
    "flat": dict(name="flat_division", calibs={"FlatField": "Automatic, Optional"}, skip=False),
}
KIND = {k: v for k, v in data.datatypes.items()}


def reference(template, files, outdir, frame, entries, jit, skip_missing):
    """The recipe the template stands for, or None when it has to be refused."""
    r = json.loads(json.dumps(template))
    r["template"] = False
    r["inputs"] = list(files)
    r["outputdir"] = outdir
    for s in r["steps"]:
        if not jit:
            for k, v in s.get("calibs", {}).items():
                if v is None or "AUTOMATIC" not in v.upper() or "/" in v:
                    continue
                opt = best(entries, frame, KIND[k])
                if opt:
                    s["calibs"][k] = opt
                elif "OPTIONAL" in v.upper():
                    s["calibs"][k] = None
                elif skip_missing:
                    s["calibs"][k], s["skip"] = None, True
                else:
                    return None
        for k in ("outputdir", "outdir", "plot_outdir"):      # directories the step writes to
            if str(s.get("keywords", {}).get(k)).upper() == "AUTOMATIC":
                s["keywords"][k] = outdir
    return r


def compare(c, got, want, what):
    """Equal, with a set in the reference standing for any of its members."""
    if isinstance(want, set):
        c.expect(isinstance(got, str) and os.path.abspath(got) in want, lambda: "%s is %r, best match is %s" % (what, got, sorted(want)))
    elif isinstance(want, dict):
        c.expect(isinstance(got, dict) and set(got) == set(want), lambda: "%s: keys %r, reference has %r" % (what, sorted(got), sorted(want)))
        if what.endswith(".calibs"):
            c.equal(list(got), list(want), what + " (order of calibrations)")
        for k in want:
            compare(c, got[k], want[k], "%s.%s" % (what, k))
    elif isinstance(want, list):
        c.expect(isinstance(got, list) and len(got) == len(want), lambda: "%s: %d items, reference has %d" % (what, len(got), len(want)))
        for i, (a, b) in enumerate(zip(got, want)):
            compare(c, a, b, "%s[%d]" % (what, i))
    else:
        c.equal(got, want, what)


class settings:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {k: getattr(corgidrp, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(corgidrp, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(corgidrp, k, v)


class World:
    """Input files, calibration files, one database file per content."""

    def __init__(self, c):
        from mc.c07_lookup import put, T, C
        self.d = c.newdir("w")
        self.files, self.frames = [], []
        for i, (t, e) in enumerate([("2024-01-01T12:00:00", 10.0), ("2031-01-01T00:00:00", 20.0), ("2023-06-01T00:00:00", 20.0)]):
            f = kit.frame((4, 4), "L2a", i)
            f.ext_hdr["SCTSRT"], f.ext_hdr["EXPTIME"] = t, e
            f.filename, f.filedir = "in%d_L2a.fits" % i, self.d
            f.save(filedir=self.d, filename=f.filename)
            self.files.append(f.filepath)
            self.frames.append(f)
        mk = [("dk1", kit.dark, T[0], C[0], 10.0), ("dk2", kit.dark, T[1], C[1], 10.0), ("dk3", kit.dark, T[4], C[2], 20.0), ("kg1", kit.kgain, T[1], C[3], 10.0),
              ("kg2", kit.kgain, T[4], C[0], 10.0), ("dp1", kit.detparams, T[1], C[0], 10.0), ("dp2", kit.detparams, T[4], C[3], 10.0),
              ("tr1", kit.traps, T[3], C[0], 10.0), ("fl1", kit.flat, T[3], C[0], 10.0), ("nm1", kit.noisemaps, T[2], C[0], 10.0)]
        self.E = {k: Entry(k, put(m(), self.d, k + ".fits", t, ct, e)) for k, m, t, ct, e in mk}
        self.db = {}
        for name, keys in DBS.items():
            p = os.path.join(self.d, name + ".csv")
            db = cdb.CalDB(filepath=p)
            for k in keys:
                db.create_entry(self.E[k].obj)
            self.db[name] = (p, [self.E[k] for k in keys])


DBS = {"full": ["dk1", "dk2", "dk3", "kg1", "kg2", "dp1", "dp2", "tr1", "fl1", "nm1"], "empty": [], "first": ["dk1", "kg1", "dp1"], "late": ["kg2", "dk3", "dp2", "fl1"]}
SETS = [dict(jit_calib_id=j, skip_missing_cal_steps=s) for j in (False, True) for s in (False, True)]
_box = {}


def world(c):
    if c.scratch not in _box:
        _box.clear()
        _box[c.scratch] = World(c)
    return _box[c.scratch]


def generate(c, w, template, files, out, dbname, st, what, frame="first"):
    """One real call and all the checks on it; the result (None if refused)."""
    p, entries = w.db[dbname]
    with open(p) as f:
        dbtext = f.read()
    tcopy, fcopy, dtext = copy.deepcopy(template), list(files), p
    jit = template["drpconfig"].get("jit_calib_id", st["jit_calib_id"])
    fr = None if not files else w.frames[w.files.index(files[0])]
    want = reference(template, files, out, fr, entries, jit, st["skip_missing_cal_steps"])
    with settings(caldb_filepath=p, **st):
        c.step()
        try:
            got = walker.autogen_recipe(files, out, template=template)
        except ValueError:
            got = None
        c.equal({k: getattr(corgidrp, k) for k in st}, st, what + ": pipeline settings afterwards")
    c.equal(template, tcopy, what + ": the template passed in, afterwards")
    c.equal(files, fcopy, what + ": the file list passed in, afterwards")
    with open(p) as f:
        c.equal(f.read(), dbtext, what + ": the database file, afterwards")
    if want is None:
        c.expect(got is None, lambda: "%s: generated although a required calibration has no match" % what)
        c.outcome("refused")
        return None
    c.expect(got is not None, lambda: "%s: refused, reference generates it" % what)
    compare(c, got, want, what + ": recipe")
    c.outcome(json.dumps(got, sort_keys=True).replace(w.d, ""))
    return got


def scribble(x):
    """Change everything that can be changed in a generated recipe."""
    if isinstance(x, dict):
        for k in list(x):
            scribble(x[k])
            if not isinstance(x[k], (dict, list)):
                x[k] = "scribbled"
        x["scribbled"] = 1
    elif isinstance(x, list):
        for y in x:
            scribble(y)
        x.append("scribbled")


def run(c):
    depth = 3 if c.thorough else 2
    c.bound(step_blocks=len(ALPHA), template_length=depth, databases=list(DBS), settings="just-in-time (recipe unset/on/off x global on/off) x skip missing",
            inputs="none, one, two, three files")
    c.assume("calibrations equally close in time are all acceptable")

    def make(word, drp):
        return dict(name="t", template=True, drpconfig=dict({"track_individual_errors": False}, **({} if drp is None else {"jit_calib_id": drp})), inputs=[],
                    outputdir="", steps=[copy.deepcopy(ALPHA[k]) for k in word])

    def word(c, wd):
        if c.only is not None and not c.only.startswith("word:" + "+".join(wd) + ":"):
            return
        w = world(c)
        for dbname in DBS:
            for drp in (None, False, True):
                for si, st in enumerate(SETS):
                    jit = st["jit_calib_id"] if drp is None else drp
                    if not c.thorough and jit and (dbname not in ("full", "first") or len(wd) == 1 and si % 2):
                        continue        # just-in-time: nothing is looked up
                    if not c.thorough and drp is False and st["jit_calib_id"] is False:
                        continue        # same as unset
                    with c.case("word:%s:%s:%s:%d" % ("+".join(wd), dbname, drp, si)) as go:
                        if not go:
                            continue
                        c.state(wd, dbname, drp, si)
                        t = make(wd, drp)
                        files = [w.files[:1], w.files[1:3], w.files[::-1], []][(len(wd) + si + list(DBS).index(dbname)) % 4]
                        got = generate(c, w, t, files, "/out/one", dbname, st, "generated")
                        if got is not None:
                            scribble(got)
                            c.equal(t, make(wd, drp), "the template after the recipe was edited")
                        # the same template again: other files, other directory, other database
                        other = ["full", "late", "first", "empty"][(si + len(wd)) % 4]
                        generate(c, w, t, w.files[1:2], "/out/two", other, st, "generated again")

    words = [wd for n in range(1, depth + 1) for wd in itertools.product(ALPHA, repeat=n)]
    if not c.thorough:
        words = [wd for wd in words if len(wd) == 1 or wd[0] in ("req", "dark", "two", "opt", "kw", "skip")]
    c.fan(words, word)

    # histories: one template, the database changing between generations
    def hist(c, seq):
        with c.case("hist:" + "/".join(seq)) as go:
            if not go:
                return
            w = world(c)
            t = make(("two", "dark", "opt", "req"), None)
            st = SETS[1]
            for i, dbname in enumerate(seq):
                generate(c, w, t, w.files[i % 3:i % 3 + 1], "/out/%d" % i, dbname, st, "generation %d (%s)" % (i, dbname))
            c.state("hist", seq)

    c.fan(itertools.product(DBS, repeat=4 if c.thorough else 3), hist)

    # the shipped templates, by name of their observation and passed in by the caller; the files on disk stay as they were
    tdir = os.path.join(REPO, "corgidrp", "recipe_templates")
    before = {f: open(f).read() for f in sorted(glob.glob(os.path.join(tdir, "*.json")))}

    def shipped(c, f):
        name = os.path.basename(f)
        with c.case("shipped:" + name) as go:
            if not go:
                return
            w = world(c)
            for si in (1, 3):
                t = json.loads(before[f])
                for dbname in ("full", "empty"):
                    generate(c, w, t, w.files[:2], "/out/s", dbname, SETS[si], name)
            c.state("shipped", name)

    c.fan(before, shipped)
    L = [("L1", "BORESITE", "l1_to_boresight.json"), ("L1", "PUPILIMG", ["l1_to_l2a_nonlin.json", "l1_to_kgain.json"]), ("L2a", "TDEMO", "l2a_to_l2b.json"), ("L2b", "TDEMO", "l2b_to_l3.json"),
         ("L3", "TDEMO", "l3_to_l4_nopsfsub.json"), ("L1", "FFIELD", "l1_flat_and_bp.json")]

    def guessed(c, item):
        level, vis, names = item
        with c.case("guessed:%s:%s" % (level, vis)) as go:
            if not go:
                return
            w = world(c)
            f = kit.frame((4, 4), level, 0, VISTYPE=vis, FSMLOS=0)
            f.ext_hdr["SCTSRT"] = "2024-01-01T12:00:00"
            f.save(filedir=c.newdir("g"), filename="g.fits")
            st = SETS[1]
            for dbname in ("full", "late", "full"):
                p, entries = w.db[dbname]
                with settings(caldb_filepath=p, **st):
                    c.step()
                    got = walker.autogen_recipe([f.filepath], "/out/g")
                lst = names if isinstance(names, list) else [names]
                c.expect(isinstance(got, list) == (len(lst) > 1), "one recipe or a list of recipes")
                got = got if isinstance(got, list) else [got]
                c.equal(len(got), len(lst), "number of recipes")
                for g, n in zip(got, lst):
                    t = json.loads(before[os.path.join(tdir, n)])
                    jit = t["drpconfig"].get("jit_calib_id", False)
                    compare(c, g, reference(t, [f.filepath], "/out/g", f, entries, jit, True), n)
                    scribble(g)
            c.state("guessed", level, vis)

    c.fan(L, guessed)

    # walk_corgidrp: every recipe that is generated is processed once, in order, and given back; the template by name, by path, as an object, or guessed
    def walked(c, item):
        level, vis, names = item
        for how, front in itertools.product(("guess", "name", "path", "object"), (0, 1)):
            with c.case("walked:%s:%s:%s%s" % (level, vis, how, ":ops" if front else "")) as go:
                if not go:
                    continue
                w = world(c)
                f = kit.frame((4, 4), level, 0, VISTYPE=vis, FSMLOS=0)
                f.ext_hdr["SCTSRT"] = "2024-01-01T12:00:00"
                d = c.newdir("g")
                f.save(filedir=d, filename="g.fits")
                lst = names if isinstance(names, list) else [names]
                if how != "guess":
                    lst = lst[-1:]
                tobj = json.loads(before[os.path.join(tdir, lst[0])])
                mine = os.path.join(d, "other.json")
                with open(mine, "w") as fh:
                    json.dump(dict(tobj, name="my own"), fh)
                tm = dict(guess=None, name=lst[0], path=mine, object=tobj)[how]
                p, entries = w.db["full"]
                log, real = [], walker.run_recipe
                walker.run_recipe = lambda recipe, *a, **k: log.append((recipe, copy.deepcopy(recipe), a, k))
                try:
                    with settings(caldb_filepath=p, **SETS[1]):
                        c.step()
                        run_ = drp_ops.step_3_process_data if front else walker.walk_corgidrp
                        got = run_([f.filepath], "", "/out/w", **({} if tm is None else dict(template=tm)))
                        if front:       # (hands nothing back)
                            got = [x[0] for x in log] if len(log) != 1 else log[0][0]
                finally:
                    walker.run_recipe = real
                c.expect(isinstance(got, list) == (len(lst) > 1), "one recipe or a list of recipes")
                got = got if isinstance(got, list) else [got]
                c.equal(len(log), len(lst), "recipes processed")
                c.equal(len(got), len(lst), "recipes returned")
                for g, (r, rc, a, k), n in zip(got, log, lst):
                    c.equal(g, r, "the recipe returned is the one processed")
                    t = json.loads(before[os.path.join(tdir, n)])
                    if how == "path":
                        t["name"] = "my own"
                    compare(c, rc, reference(t, [f.filepath], "/out/w", f, entries, t["drpconfig"].get("jit_calib_id", False), True), n)
                if how == "object":
                    c.equal(tobj, json.loads(before[os.path.join(tdir, lst[0])]), "the template passed in")
                c.state("walked", level, vis, how)

    c.fan(L, walked)
    with c.case("templates-on-disk") as go:
        if go:
            for f in before:
                with open(f) as fh:
                    c.equal(fh.read(), before[f], "template file %s" % os.path.basename(f))
