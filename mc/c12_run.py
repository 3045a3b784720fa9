"""C12: all short recipes over an alphabet of instrumented steps x database contents x pipeline settings, against a simulator of the recipe
language: which step functions are called with what, what is on the disk and in the database afterwards, and what the settings are."""
import copy
import itertools
import json
import os
import shutil

import numpy as np
import astropy.io.fits as fits

from mc import kit
from mc.core import Bad
from mc.c06_caldb_map import read_rows
from mc.c07_lookup import Entry, best, put, T, C
from mc.c11_autogen import settings
import corgidrp
import corgidrp.data as data
from corgidrp import caldb as cdb, walker

FIX = "<kg2>"
ALPHA = {
    "a": dict(name="prescan_biassub"),
    "b": dict(name="frame_select", keywords={"bpix_frac": 0.5, "allowed": [1, {"x": None}]}, skip=False),
    "k": dict(name="convert_to_electrons", calibs={"KGain": "AUTOMATIC"}),
    "f": dict(name="em_gain_division", calibs={"KGain": FIX}, keywords={"mode": "full"}),
    "t": dict(name="detect_cosmic_rays", calibs={"DetectorParams": "AUTOMATIC", "TrapCalibration": "AUTOMATIC, OPTIONAL", "KGain": None}),
    "d": dict(name="dark_subtraction", calibs={"Dark": "AUTOMATIC"}),
    "m": dict(name="build_trad_dark", keywords={"full_frame": True}),        # makes a dark
    "n": dict(name="correct_bad_pixels", skip=True, calibs={"BadPixelMap": "AUTOMATIC,OPTIONAL"}),
    "x": dict(name="desmear"),                                                # fails
    "s": dict(name="save"),
    "z": dict(name="save", keywords={"suffix": "_end_"}),
}
NAMES = sorted({v["name"] for v in ALPHA.values()} - {"save"})
DBS = {"full": ["dk1", "kg1", "kg2", "dp1", "tr1"], "empty": [], "some": ["kg1", "dp1"]}


class Boom(Exception):
    pass


class World:
    def __init__(self, c):
        self.d = c.newdir("w")
        self.files, self.data = [], []
        for i in range(2):
            f = kit.frame((2, 2), "L2a", i, img=np.array([[1., 2.], [3., 4.]]) + 10 * i, EXPTIME=10.0, SCTSRT=T[2])
            f.save(filedir=self.d, filename=("in0.fits", "In.FITS_1.fits")[i])     # only the last ".fits" is the extension
            self.files.append(f.filepath)
            self.data.append(np.array(f.data))
        mk = [("dk1", kit.dark, T[0], C[0], 10.0), ("kg1", kit.kgain, T[1], C[3], 10.0), ("kg2", kit.kgain, T[4], C[0], 10.0), ("dp1", kit.detparams, T[1], C[0], 10.0),
              ("tr1", kit.traps, T[3], C[0], 10.0)]
        self.E = {k: Entry(k, put(m(), self.d, k + ".fits", t, ct, e)) for k, m, t, ct, e in mk}
        self.text = {}
        for name, keys in DBS.items():
            p = os.path.join(self.d, name + ".csv")
            db = cdb.CalDB(filepath=p)
            for k in keys:
                db.create_entry(self.E[k].obj)
            with open(p) as f:
                self.text[name] = f.read()
        self.listing = sorted(os.listdir(self.d))


_box = {}


def world(c):
    if c.scratch not in _box:
        _box.clear()
        _box[c.scratch] = World(c)
    return _box[c.scratch]


def describe(x):
    """What a step was given: kind, file names and pixels."""
    if isinstance(x, data.Dataset):
        return ("Dataset", [(type(f).__name__, f.filename, np.array(f.data).tolist()) for f in x.frames])
    if isinstance(x, data.Image):
        return (type(x).__name__, [(type(x).__name__, x.filename, np.array(x.data).tolist())])
    return ("list", list(x))


class Recorder:
    """Stand-ins for the step functions: they record the call and do something easily predicted."""

    def __init__(self):
        self.log = []

    def table(self):
        return {n: self.fn(n) for n in NAMES}

    def fn(self, name):
        def f(inp, *args, **kwargs):
            self.log.append((name, describe(inp), [None if a is None else (type(a).__name__, os.path.abspath(a.filepath)) for a in args], copy.deepcopy(kwargs),
                             corgidrp.track_individual_errors))
            for v in kwargs.values():
                if isinstance(v, list):
                    pass
            if name == "desmear":
                raise Boom("step failed")
            if name == "build_trad_dark":
                if isinstance(inp, list):
                    pri, ext = kit.headers("L2a", EXPTIME=10.0)
                    par = kit.parents()
                    img = np.zeros((2, 2))
                else:
                    fr = inp[0] if isinstance(inp, data.Dataset) else inp
                    pri, ext = fr.pri_hdr.copy(), fr.ext_hdr.copy()
                    par = inp if isinstance(inp, data.Dataset) else data.Dataset([inp])
                    img = np.array(fr.data)
                o = data.Dark(img + 100, pri_hdr=pri, ext_hdr=ext, input_dataset=par, err=np.ones((2, 2)), err_hdr=fits.Header(), dq=np.zeros((2, 2), dtype=np.uint16))
                o.filename = "made_DRK_CAL.fits"
                o.ext_hdr["SCTSRT"] = T[2]
                return o
            if isinstance(inp, list):
                return inp
            out = inp.copy()
            for fr in (out.frames if isinstance(out, data.Dataset) else [out]):
                fr.data[:] = fr.data * 2 + NAMES.index(name)
            return out
        return f


def ref_fn(name, cur):
    kind, frames = cur
    if name == "build_trad_dark":
        img = np.zeros((2, 2)) if kind == "list" else np.array(frames[0][2])
        return ("Dark", [("Dark", "made_DRK_CAL.fits", (img + 100).tolist())])
    if kind == "list":
        return cur
    return (kind, [(t, n, (np.array(v) * 2 + NAMES.index(name)).tolist()) for t, n, v in frames])


def simulate(w, recipe, dbname, st, outdir, frame0):
    """The recipe language, written out: expected calls, files, registered entries and outcome."""
    r = json.loads(json.dumps(recipe))
    jit = r["drpconfig"].get("jit_calib_id", st["jit_calib_id"])
    skip_missing = r["drpconfig"].get("skip_missing_cal_steps", st["skip_missing_cal_steps"])
    track = r["drpconfig"].get("track_individual_errors", st["track_individual_errors"])
    entries = [w.E[k] for k in DBS[dbname]]
    made = {}                          # path of a saved product
    log, files = [], {}
    cur = ("list", []) if not r["inputs"] else ("Dataset", [("Image", os.path.basename(p), w.data[w.files.index(p)].tolist()) for p in r["inputs"]])
    for s in r["steps"]:
        if s["name"] == "save":
            suf = s.get("keywords", {}).get("suffix", "").strip("_")
            new = []
            for t, n, v in cur[1]:
                if suf:
                    n = n[:-5] + "_" + suf + ".fits"
                p = os.path.join(outdir, n)
                files[p] = (t, v, json.loads(json.dumps(r)), bool(r["inputs"]))
                if t == "Dark":
                    made[p] = v
                new.append((t, n, v))
            cur = (cur[0], new)
            continue
        if s.get("skip"):
            continue
        args = []
        if jit:
            missing = False
            for k, v in s.get("calibs", {}).items():
                if v is None or "AUTOMATIC" not in v.upper():
                    continue
                cls = data.datatypes[k]
                if cls is data.Dark and made:
                    want = set(made)       # made now, at the frame's own time: closest
                elif cur[0] == "list":
                    want = best(entries, None, cls)
                else:
                    want = best(entries, frame0, cls)
                if want:
                    s["calibs"][k] = sorted(want)[0] if len(want) == 1 else want
                elif "OPTIONAL" in v.upper():
                    s["calibs"][k] = None
                elif skip_missing:
                    s["calibs"][k], s["skip"] = None, True
                else:
                    missing = True
                    break
            if missing:
                return "refused", log, files, made, track
            if s.get("skip"):
                continue
        for k, v in s.get("calibs", {}).items():
            if isinstance(v, str) and "AUTOMATIC" in v.upper():
                return "refused", log, files, made, track     # left open and never resolved: there is no such file
            args.append(None if v is None else (data.datatypes[k].__name__, v if isinstance(v, set) else os.path.abspath(v)))
        log.append((s["name"], cur, args, s.get("keywords", {}), track))
        if s["name"] == "desmear":
            return "failed", log, files, made, track
        cur = ref_fn(s["name"], cur)
    return "done", log, files, made, track


def check_run(c, w, recipe, dbname, st, how="dict"):
    outdir = c.newdir("out")
    recipe = copy.deepcopy(recipe)
    recipe["outputdir"] = outdir
    for s in recipe["steps"]:
        for k, v in s.get("calibs", {}).items():
            if v == FIX:
                s["calibs"][k] = w.E["kg2"].path
    db = os.path.join(outdir + "_db.csv")
    with open(db, "w") as f:
        f.write(w.text[dbname])
    orig = json.loads(json.dumps(recipe))
    frame0 = None
    if recipe["inputs"]:
        frame0 = data.Image(recipe["inputs"][0])
    want, wlog, wfiles, wmade, track = simulate(w, orig, dbname, st, outdir, frame0)
    rec = Recorder()
    table = dict(walker.all_steps)
    cwd = sorted(os.listdir("."))
    arg = recipe
    if how == "path":
        arg = outdir + "_recipe.json"
        with open(arg, "w") as f:
            json.dump(recipe, f)
    walker.all_steps.update(rec.table())
    try:
        with settings(caldb_filepath=db, **st):
            c.step()
            try:
                walker.run_recipe(arg, save_recipe_file=True) if how != "nosave" else walker.run_recipe(arg, save_recipe_file=False)
                got = "done"
            except Boom:
                got = "failed"
            except (ValueError, OSError):
                got = "refused"
            after = {k: getattr(corgidrp, k) for k in st}
    finally:
        walker.all_steps.clear()
        walker.all_steps.update(table)
    c.equal([x[0] for x in rec.log], [x[0] for x in wlog], "steps called")
    for i, (g, r) in enumerate(zip(rec.log, wlog)):
        what = "call %d (%s)" % (i, g[0])
        c.equal(g[1], r[1], what + ": input")
        c.equal(len(g[2]), len(r[2]), what + ": number of calibrations")
        for a, b in zip(g[2], r[2]):
            ok = a == b or (a and b and a[0] == b[0] and isinstance(b[1], set) and a[1] in b[1])
            c.expect(ok, lambda: "%s: calibration %r, reference says %r" % (what, a, b))
        c.equal(g[3], r[3], what + ": options")
        c.equal(g[4], r[4], what + ": track_individual_errors")
    c.equal(got, want, "outcome of the run")
    c.equal(after, st, "pipeline settings after the run")
    have = sorted(os.listdir(outdir))
    rfiles = [f for f in have if f.endswith("_recipe.json")]
    c.equal(len(rfiles), 0 if how == "nosave" else 1, "recipe files in the output directory")
    if rfiles:
        with open(os.path.join(outdir, rfiles[0])) as f:
            c.equal(json.load(f), orig, "the saved recipe file")
        c.expect(rfiles[0].startswith(orig["name"] + "_"), lambda: "recipe file named %s" % rfiles[0])
    c.equal(sorted(f for f in have if f not in rfiles), sorted(os.path.basename(p) for p in wfiles), "files in the output directory")
    for p, (t, v, r, carries) in wfiles.items():
        with fits.open(p) as h:
            c.same(h[1].data, np.array(v), os.path.basename(p) + ": pixels")
            hdr = h[1].header
            c.equal(hdr.get("DATATYPE", "Image"), t, os.path.basename(p) + ": kind")
            if carries:
                c.expect("RECIPE" in hdr, lambda: os.path.basename(p) + " does not carry the recipe")
                g = json.loads(hdr["RECIPE"])
                for k in r:
                    if k != "steps":
                        c.equal(g.get(k), r[k], "RECIPE of %s: %s" % (os.path.basename(p), k))
                c.equal(len(g["steps"]), len(r["steps"]), "RECIPE: number of steps")
                for a, b in zip(g["steps"], r["steps"]):
                    b2 = json.loads(json.dumps(b)) if not any(isinstance(x, set) for x in b.get("calibs", {}).values()) else None
                    if b2 is not None:
                        c.equal(a, b2, "RECIPE of %s: step" % os.path.basename(p))
    rows = read_rows(db)
    c.equal(sorted(x["Filepath"] for x in rows), sorted([w.E[k].path for k in DBS[dbname]] + list(wmade)), "registered entries")
    for x in rows:
        if x["Filepath"] in wmade:
            c.equal(x["Type"], "Dark", "kind of the registered product")
    c.equal(sorted(os.listdir(w.d)), w.listing, "files next to the inputs")
    c.equal(sorted(os.listdir(".")), cwd, "files in the working directory")
    c.outcome(want, [x[0] for x in wlog], sorted(os.path.basename(p) for p in wfiles))
    shutil.rmtree(outdir)
    return recipe


def run(c):
    depth = 4 if c.thorough else 3
    c.bound(step_alphabet=len(ALPHA), recipe_length=depth, databases=list(DBS), settings="just-in-time x skip missing x error tracking, by recipe and globally")
    c.assume("the step functions are stood in for by recorders: what the steps themselves do is decided by the other properties")

    def make(word, drp, files):
        return dict(name="rcp", template=False, drpconfig=dict(drp), inputs=list(files), outputdir="", steps=[copy.deepcopy(ALPHA[k]) for k in word])

    DRP = [{"track_individual_errors": False}, {"track_individual_errors": True, "jit_calib_id": True}, {"jit_calib_id": True, "skip_missing_cal_steps": True},
           {}, {"jit_calib_id": False, "track_individual_errors": True}]
    ST = [dict(track_individual_errors=False, jit_calib_id=False, skip_missing_cal_steps=False), dict(track_individual_errors=True, jit_calib_id=True, skip_missing_cal_steps=True)]

    def word(c, item):
        wd, cfgs = item
        name = "".join(wd)
        if c.only is not None and not c.only.startswith(name + ":"):
            return
        w = world(c)
        for dbname, di, si, nf in cfgs:
            if nf == 0 and "m" not in name.replace("z", "s").split("s")[0] and ("s" in name or "z" in name):
                continue        # nothing there to be saved yet
            with c.case("%s:%s:%d:%d:%d" % (name, dbname, di, si, nf), recipe=name) as go:
                if not go:
                    continue
                c.state(name, dbname, di, si, nf)
                check_run(c, w, make(wd, DRP[di], w.files[:nf]), dbname, ST[si], ("dict", "path", "nosave")[(len(wd) + di + nf) % 3])

    every = list(itertools.product(DBS, range(len(DRP)), range(len(ST)), (0, 1, 2)))
    short = [("full", 1, 0, 2), ("some", 2, 0, 1), ("empty", 2, 1, 1), ("full", 3, 1, 1), ("some", 0, 0, 2)]
    items = []
    for n in range(1, depth + 1):
        for wd in itertools.product(ALPHA, repeat=n):
            if n == 1:
                items.append((wd, every))
            elif n == 2:
                items.append((wd, every if c.thorough else [e for i, e in enumerate(every) if (e[3] != 0 or wd[0] in "am") and (i * 7 + e[1]) % 3 == 0]))
            elif n == 3:
                if c.thorough:
                    items.append((wd, short))
                elif wd.count("s") + wd.count("z") >= 1 and (wd[0] in "amkd" and wd[2] in "sdzk"):
                    items.append((wd, short[:2]))
            else:
                if sum(x in "sz" for x in wd) == 1 and "m" in wd and "d" in wd:
                    items.append((wd, short[:2]))
    c.fan(items, word)

    # consecutive runs: what one recipe sets is not seen by the next, whether it finished or failed
    def seq(c, item):
        with c.case("runs:%s" % "/".join("%s%d" % x for x in item)) as go:
            if not go:
                return
            w = world(c)
            for wd, di in item:
                check_run(c, w, make(tuple(wd), DRP[di], w.files[:1]), "some", ST[0])
            c.state("runs", item)

    runs = [("ak", 1), ("ax", 1), ("d", 1), ("as", 3), ("ks", 2), ("tz", 4)]
    c.fan(itertools.product(runs, repeat=3 if c.thorough else 2), seq)
