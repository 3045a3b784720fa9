"""C13: every shipped recipe template, as a transition system and for real.

Part A runs each template through the real autogen_recipe/run_recipe with stand-ins for the steps: a stand-in binds its arguments to the
real step's signature and checks them, and the state of the data it is given, against the contract of that step (level, units, what has been
done before, which kinds of calibration, which directories).  Part B runs the templates whose steps work on a tiny detector for real and
compares the files with the public functions called one after the other."""
import contextlib
import glob
import inspect
import io
import json
import os
import shutil

import numpy as np
import astropy.io.fits as fits

from mc import kit, steps as st
from mc.core import REPO, Bad
from mc.c07_lookup import Entry, put, T, C
from mc.c11_autogen import settings
import corgidrp
import corgidrp.data as data
from corgidrp import (caldb as cdb, walker, detector, l1_to_l2a, l2a_to_l2b, l2b_to_l3, l3_to_l4, combine, darks, photon_counting, flat, sorting, fluxcal, corethroughput, astrom,
                      bad_pixel_calibration, calibrate_kgain, calibrate_nonlin, pump_trap_calibration)

TDIR = os.path.join(REPO, "corgidrp", "recipe_templates")

# name of a step -> the function the documentation names
FN = dict(prescan_biassub=l1_to_l2a.prescan_biassub, detect_cosmic_rays=l1_to_l2a.detect_cosmic_rays, calibrate_nonlin=calibrate_nonlin.calibrate_nonlin,
          correct_nonlinearity=l1_to_l2a.correct_nonlinearity, update_to_l2a=l1_to_l2a.update_to_l2a, add_photon_noise=l2a_to_l2b.add_photon_noise,
          dark_subtraction=l2a_to_l2b.dark_subtraction, flat_division=l2a_to_l2b.flat_division, frame_select=l2a_to_l2b.frame_select,
          convert_to_electrons=l2a_to_l2b.convert_to_electrons, em_gain_division=l2a_to_l2b.em_gain_division, cti_correction=l2a_to_l2b.cti_correction,
          correct_bad_pixels=l2a_to_l2b.correct_bad_pixels, desmear=l2a_to_l2b.desmear, update_to_l2b=l2a_to_l2b.update_to_l2b,
          boresight_calibration=astrom.boresight_calibration, calibrate_trap_pump=pump_trap_calibration.tpump_analysis,
          create_bad_pixel_map=bad_pixel_calibration.create_bad_pixel_map, calibrate_kgain=calibrate_kgain.calibrate_kgain, calibrate_darks=darks.calibrate_darks_lsq,
          create_onsky_flatfield=flat.create_onsky_flatfield, combine_subexposures=combine.combine_subexposures, build_trad_dark=darks.build_trad_dark,
          sort_pupilimg_frames=sorting.sort_pupilimg_frames, get_pc_mean=photon_counting.get_pc_mean, divide_by_exptime=l2b_to_l3.divide_by_exptime,
          northup=l3_to_l4.northup, calibrate_fluxcal_aper=fluxcal.calibrate_fluxcal_aper, update_to_l3=l2b_to_l3.update_to_l3, create_wcs=l2b_to_l3.create_wcs,
          distortion_correction=l3_to_l4.distortion_correction, find_star=l3_to_l4.find_star, do_psf_subtraction=l3_to_l4.do_psf_subtraction,
          update_to_l4=l3_to_l4.update_to_l4, generate_ct_cal=corethroughput.generate_ct_cal)

D = data
OPT = type(None)
# step -> what each calibration argument may be (with OPT: may be missing)
CAL = dict(prescan_biassub=[(D.DetectorNoiseMaps, OPT)], detect_cosmic_rays=[(D.DetectorParams,), (D.KGain, OPT)], correct_nonlinearity=[(D.NonLinearityCalibration,)],
           dark_subtraction=[(D.Dark, D.DetectorNoiseMaps)], flat_division=[(D.FlatField,)], convert_to_electrons=[(D.KGain,)], cti_correction=[(D.TrapCalibration, OPT)],
           correct_bad_pixels=[(D.BadPixelMap,)], desmear=[(D.DetectorParams,)], create_bad_pixel_map=[(D.Dark, D.DetectorNoiseMaps), (D.FlatField,)],
           build_trad_dark=[(D.DetectorParams,)], calibrate_darks=[(D.DetectorParams,)], get_pc_mean=[(D.Dark, OPT)], create_wcs=[(D.AstrometricCalibration,)],
           distortion_correction=[(D.AstrometricCalibration,)], do_psf_subtraction=[(D.CoreThroughputCalibration,)],
           update_to_l4=[(D.CoreThroughputCalibration, OPT), (D.FluxcalFactor,)])
# step -> (level it works at, what must have been done, what must not have been done yet); "-x" in done: undoes x
PRE = dict(
    prescan_biassub=("L1", (), ("bias",)), detect_cosmic_rays=("L1", ("bias",), ("linear",)), correct_nonlinearity=("L1", ("bias",), ("linear", "electrons")),
    sort_pupilimg_frames=("L1", (), ()), update_to_l2a=("L1", ("bias", "linear"), ()), calibrate_kgain=("L1", ("bias",), ("linear",)),
    calibrate_nonlin=("L1", ("bias",), ("linear",)), frame_select=("L2a", (), ()), convert_to_electrons=("L2a", (), ("electrons",)),
    em_gain_division=("L2a", (), ("gain", "photons")), add_photon_noise=("L2a", ("electrons",), ("dark", "photons")), dark_subtraction=("L2a", ("electrons", "gain"), ("dark", "photons")),
    get_pc_mean=("L2a", ("electrons",), ("gain", "dark", "photons")), desmear=("L2a", ("dark",), ("desmeared", "flat")), cti_correction=("L2a", ("dark",), ("flat",)),
    combine_subexposures=(None, (), ()), flat_division=("L2a", ("dark",), ("flat",)), correct_bad_pixels=("L2a", ("dark",), ("badpix",)),
    update_to_l2b=("L2a", ("electrons", "dark", "flat", "badpix"), ()), build_trad_dark=("L2a", ("electrons", "gain"), ("dark",)),
    calibrate_darks=("L2a", ("electrons",), ("dark", "gain")), create_onsky_flatfield=("L2a", ("electrons", "dark"), ("flat",)),
    calibrate_trap_pump=("L2a", ("gain",), ()), create_bad_pixel_map=(None, (), ()), boresight_calibration=("L2b", (), ()),
    divide_by_exptime=("L2b", (), ("rate",)), create_wcs=("L2b", (), ("wcs",)), update_to_l3=("L2b", ("rate", "wcs"), ()), generate_ct_cal=("L2b", ("rate",), ()),
    calibrate_fluxcal_aper=("L2b", ("rate",), ()), distortion_correction=("L3", (), ("undistorted",)), find_star=("L3", ("undistorted",), ()),
    do_psf_subtraction=("L3", ("undistorted", "star"), ("psfsub",)), northup=("L3", ("undistorted",), ("north",)), update_to_l4=("L3", ("undistorted",), ()))
DOES = dict(prescan_biassub="bias", correct_nonlinearity="linear", convert_to_electrons="electrons", em_gain_division="gain", dark_subtraction="dark", desmear="desmeared",
            flat_division="flat", correct_bad_pixels="badpix", divide_by_exptime="rate", create_wcs="wcs", distortion_correction="undistorted", find_star="star",
            do_psf_subtraction="psfsub", northup="north")
UP = dict(update_to_l2a="L2a", update_to_l2b="L2b", update_to_l3="L3", update_to_l4="L4")
AT = {"L1": (), "L2a": ("bias", "linear"), "L2b": ("bias", "linear", "electrons", "dark", "flat", "badpix"),
      "L3": ("bias", "linear", "electrons", "dark", "flat", "badpix", "rate", "wcs")}
MAKES = dict(build_trad_dark=kit.dark, calibrate_darks=kit.noisemaps, create_onsky_flatfield=kit.flat, create_bad_pixel_map=kit.bpmap, calibrate_kgain=kit.kgain,
             calibrate_nonlin=kit.nonlin, calibrate_trap_pump=kit.traps, boresight_calibration=kit.astrom, calibrate_fluxcal_aper=kit.fluxfac, generate_ct_cal=kit.ctcal)
# keyword -> default directory a step would write into on its own (None: it writes nothing unless told to)
WRITES = dict(calibrate_kgain="plot_outdir", calibrate_nonlin="plot_outdir", do_psf_subtraction="outdir", dark_subtraction="outputdir", create_bad_pixel_map="dark_outputdir")

# template -> (level of its input, what it finally saves)
FINAL = {"bp_map.json": (None, "BadPixelMap"), "build_trad_dark_full_frame.json": ("L1", "Dark"), "build_trad_dark_image.json": ("L1", "Dark"),
         "l1_flat_and_bp.json": ("L1", "BadPixelMap"), "l1_to_boresight.json": ("L1", "AstrometricCalibration"), "l1_to_kgain.json": ("L1", "KGain"),
         "l1_to_l2a_basic.json": ("L1", "L2a"), "l1_to_l2a_eng.json": ("L1", "L2a"), "l1_to_l2a_noisemap.json": ("L1", "DetectorNoiseMaps"),
         "l1_to_l2a_nonlin.json": ("L1", "NonLinearityCalibration"), "l1_to_l2a_tdd_vap.json": ("L1", "L2a"), "l1_to_l2a_tdd_vap_full.json": ("L1", "L2a"),
         "l1_to_l2b.json": ("L1", "L2b"), "l1_to_l2b_pc.json": ("L1", "L2b"), "l1_to_l2b_pc_dark.json": ("L1", "Dark"), "l2a_build_trad_dark_image.json": ("L2a", "Dark"),
         "l2a_to_l2a_noisemap.json": ("L2a", "DetectorNoiseMaps"), "l2a_to_l2b.json": ("L2a", "L2b"), "l2a_to_l2b_pc.json": ("L2a", "L2b"),
         "l2a_to_l2b_pc_dark.json": ("L2a", "Dark"), "l2a_to_l2b_tdd_vap.json": ("L2a", "L2b"), "l2b_to_corethroughput.json": ("L2b", "CoreThroughputCalibration"),
         "l2b_to_fluxcal_factor.json": ("L2b", "FluxcalFactor"), "l2b_to_l3.json": ("L2b", "L3"), "l2b_to_l4.json": ("L2b", "L4"), "l3_to_l4.json": ("L3", "L4"),
         "l3_to_l4_nopsfsub.json": ("L3", "L4"), "test.json": ("L1", "NonLinearityCalibration"), "trap_pump_cal.json": ("L1", "TrapCalibration")}
# what the recipe of a level-advancing template has to do to its data, beyond what the level implies
MUST = {"l1_to_l2b_pc.json": ("photons",), "l2a_to_l2b_pc.json": ("photons",), "l3_to_l4.json": ("psfsub",), "l2b_to_l4.json": ("psfsub",), "l3_to_l4_nopsfsub.json": ("north",)}


@contextlib.contextmanager
def tiny_detector():
    areas = detector.detector_areas
    old = dict(areas)
    areas.clear()
    areas.update(st.REGIONS)
    try:
        yield
    finally:
        areas.clear()
        areas.update(old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def tree(*dirs):
    out = {}
    for d in dirs:
        for p, _, fs in os.walk(d):
            out[p] = None
            for f in fs:
                q = os.path.join(p, f)
                with open(q, "rb") as g:
                    out[q] = hash(g.read())
    return out


OPTIONAL = {"KGain": "kg", "TrapCalibration": "tr", "DetectorNoiseMaps": "nm", "CoreThroughputCalibration": "ct"}


class World:
    """Calibration files (one of each kind) and input frames of every level for the tiny detector, with a database per content."""

    def __init__(self, c):
        self.d = c.newdir("world")
        self.cal = os.path.join(self.d, "cal")
        os.makedirs(self.cal)
        self.env = st.Env(os.path.join(self.d, "never"))
        e = self.env
        pcd = st.Env(None).dark
        pcd.ext_hdr["PC_STAT"], pcd.ext_hdr["PCTHRESH"] = "photon-counted master dark", 15.0
        pcd.ext_hdr["NUM_FR"] = 20
        pcd.data *= 1e-3
        mk = dict(nm=e.noise, dk=e.dark, fl=e.flat, nl=e.nonlin, kg=e.kgain, bp=e.bp, dp=e.par, as_=e.astrom, tr=e.traps, fx=e.flux, ct=e.ct)
        self.ent = {}
        for k, o in mk.items():
            o.ext_hdr["SCTSRT"] = "2024-01-01T11:30:00.000" if k != "dp" else o.ext_hdr["SCTSRT"]
            o.save(filedir=self.cal, filename=k + "_CAL.fits")
            self.ent[k] = o
        pcd.save(filedir=self.cal, filename="pc_CAL.fits")
        self.ent["pc"] = pcd
        self.db = {}
        n = 0
        for pc in (False, True):
            for missing in (None, "KGain", "TrapCalibration", "DetectorNoiseMaps", "CoreThroughputCalibration"):
                p = os.path.join(self.d, "db%d.csv" % n)
                n += 1
                db = cdb.CalDB(filepath=p)
                for k, o in self.ent.items():
                    if k == ("dk" if pc else "pc") or missing is not None and k == OPTIONAL[missing]:
                        continue
                    db.create_entry(o)
                self.db[pc, missing] = p

    def by_kind(self, pc):
        return {type(o).__name__: os.path.join(self.cal, o.filename) for k, o in self.ent.items() if k != ("dk" if pc else "pc")}

    def inputs(self, c, level, n, pc=False, dark=False, full=False, **kw):
        """n frames of a level, saved to a fresh directory."""
        d = c.newdir("in")
        out = []
        for i in range(n):
            shape = st.FULL if level == "L1" or full else st.IMG
            pri = dict(VISTYPE="DARK" if dark else "TDEMO", PHTCNT=bool(pc))
            a = kit.arr(shape, i, base=8.0, scale=0.1) if pc else kit.arr(shape, i, scale=0.3)
            f = kit.frame(shape, level, i, img=a, STARLOCX=1.5, STARLOCY=1.5, ISPC=bool(pc), EXPTIME=10.0, EMGAIN_C=5000.0 if pc else 1.0, **dict(pri, **kw))
            if level in ("L3", "L4"):
                for k, v in dict(CTYPE1="RA---TAN", CTYPE2="DEC--TAN", CDELT1=1., CDELT2=1., CRVAL1=80.5, CRVAL2=-69.5, CRPIX1=2., CRPIX2=2., CD1_1=-6e-6, CD1_2=0., CD2_1=0.,
                                 CD2_2=6e-6).items():
                    f.ext_hdr[k] = v
                f.ext_hdr["BUNIT"] = "electrons/s"
            if pc:
                f.ext_hdr["RN"] = 3.0
            f.save(filedir=d)
            out.append(f.filepath)
        return d, out


_box = {}


def world(c):
    if c.scratch not in _box:
        _box.clear()
        with tiny_detector():
            _box[c.scratch] = World(c)
    return _box[c.scratch]


class Contract:
    """Stand-ins for all the steps of the walker, with the state of the data as the recipe's state."""

    def __init__(self, c, level, outdir, jit):
        self.c, self.level, self.done, self.outdir = c, level, set(AT.get(level, ())), os.path.abspath(outdir)
        self.log, self.kind = [], "frames" if level else "nothing"

    def table(self, real):
        return {n: self.fn(n, f) for n, f in real.items()}

    def fn(self, name, real):
        sig = inspect.signature(real)
        docsig = inspect.signature(FN[name]) if name in FN else sig

        def call(inp, *args, **kwargs):
            c = self.c
            c.step()
            what = "step %s" % name
            c.equal(list(sig.parameters), list(docsig.parameters), what + ": arguments of the function in the walker's table")
            try:
                b = sig.bind(inp, *args, **kwargs)
            except TypeError as e:
                raise Bad("%s: called with %d calibrations and options %s: %s" % (what, len(args), sorted(kwargs), e))
            b.apply_defaults()
            vals = list(b.arguments.values())
            if name not in PRE:
                self.log.append(name)
                return inp
            level, need, never = PRE[name]
            if name not in ("create_bad_pixel_map",):
                c.equal(self.kind, "frames", what + ": data it is given")
            if level is not None:
                c.equal(self.level, level, what + ": level of the data it is given")
            for n in need:
                if n == "gain" and "photons" in self.done:
                    continue
                c.expect(n in self.done, lambda: "%s: reached before the data is %r (done so far: %s)" % (what, n, sorted(self.done)))
            for n in never:
                c.expect(n not in self.done, lambda: "%s: reached after the data is %r" % (what, n))
            cal = CAL.get(name, [])
            for i, kinds in enumerate(cal):
                v = vals[1 + i]
                c.expect(isinstance(v, kinds), lambda: "%s: calibration %d is %s, needs one of %s" % (what, i + 1, type(v).__name__, [k.__name__ for k in kinds]))
            c.expect(len(args) <= len(cal), lambda: "%s: %d calibrations given, takes %d" % (what, len(args), len(cal)))
            w = WRITES.get(name)
            if w is not None:
                v = b.arguments[w]
                made = name == "dark_subtraction" and isinstance(vals[1], data.DetectorNoiseMaps)
                c.expect(v is None and name in ("dark_subtraction", "create_bad_pixel_map") or isinstance(v, str) and os.path.abspath(v) == self.outdir,
                         lambda: "%s writes into %r, the recipe was asked to write into %r" % (what, v, self.outdir))
                if made:
                    c.expect(v is None or os.path.abspath(v) == self.outdir, what)
            for k, v in kwargs.items():
                c.expect(not (isinstance(v, str) and "AUTOMATIC" in v.upper()), lambda: "%s: option %s is still %r" % (what, k, v))
            self.log.append(name)
            if name in DOES:
                self.done.add(DOES[name])
            if name == "get_pc_mean":
                self.done.add("photons")
                if vals[1] is not None:
                    self.done.add("dark")
                if b.arguments["inputmode"] == "darks":
                    self.kind = "Dark"
                    return kit.dark()
            if name in UP:
                self.level = UP[name]
                out = inp.copy()
                for f in out.frames:
                    f.ext_hdr["DATALVL"] = self.level
                return out
            if name in MAKES:
                self.kind = {"build_trad_dark": "Dark", "calibrate_darks": "DetectorNoiseMaps"}.get(name, type(MAKES[name]()).__name__)
                o = MAKES[name]()
                o.filename = "product_%s_CAL.fits" % name
                return o
            return inp
        return call


def run_abstract(c, w, name, jit, missing, n, tracking):
    with open(os.path.join(TDIR, name)) as f:
        t = json.load(f)
    level, final = FINAL.get(name, (None, None))
    c.expect(name in FINAL, "template %s is not known to this check" % name)
    pc = "_pc" in name
    optional = {k for s in t["steps"] for k, v in s.get("calibs", {}).items() if v and "OPTIONAL" in v.upper()}
    required = {k for s in t["steps"] for k, v in s.get("calibs", {}).items() if v and "OPTIONAL" not in v.upper()}
    indir, files = w.inputs(c, level, n, pc=pc, dark="dark" in name or "noisemap" in name) if level else (c.newdir("in"), [])
    out = c.newdir("out")
    db = os.path.join(c.newdir("db"), "caldb.csv")
    shutil.copy(w.db[pc, missing], db)
    t.setdefault("drpconfig", {})["jit_calib_id"] = jit
    ct = Contract(c, level, out, jit)
    real = dict(walker.all_steps)
    cwd = c.newdir("cwd")
    before = tree(indir, w.cal)
    old = os.getcwd()
    os.chdir(cwd)
    try:
        with settings(caldb_filepath=db, jit_calib_id=False, skip_missing_cal_steps=False, track_individual_errors=tracking), quiet():
            walker.all_steps.clear()
            walker.all_steps.update(ct.table(real))
            try:
                recipe = walker.autogen_recipe(list(files), out, template=t)
            except (ValueError, AttributeError) as e:
                recipe = e
                # (the best calibration for no frame at all is refused)
            if isinstance(recipe, Exception):
                c.expect(missing in required, lambda: "%s: no recipe: %r" % (name, recipe))
                c.outcome("refused", name)
                return
            try:
                walker.run_recipe(recipe)
            except ValueError as e:
                c.expect(jit and missing in required, lambda: "%s: %r" % (name, e))
                c.outcome("refused late", name)
                return
    finally:
        walker.all_steps.clear()
        walker.all_steps.update(real)
        os.chdir(old)
    c.expect(missing not in required, lambda: "%s runs without its %s" % (name, missing))
    names = [s["name"] for s in t["steps"]]
    c.equal(ct.log, [x for x in names if x.lower() != "save"], "%s: steps executed" % name)
    c.equal(names[-1].lower(), "save", "%s: last step" % name)
    got = []
    for p in sorted(glob.glob(os.path.join(out, "*.fits"))):
        o = data.autoload(p)
        got.append((type(o).__name__ if type(o) is not data.Image else o.ext_hdr["DATALVL"], os.path.basename(p)))
    c.expect(final in [g[0] for g in got], lambda: "%s: saved %s, expected a %s" % (name, got, final))
    c.equal(ct.kind if ct.kind != "frames" else ct.level, final, "%s: result" % name)
    for m in MUST.get(name, ()):
        c.expect(m in ct.done, lambda: "%s: never %r" % (name, m))
    if final in [x.__name__ for x in cdb.labels]:
        kinds = [k.__name__ for k, v in cdb.labels.items()]
        with settings(caldb_filepath=db):
            rows = cdb.CalDB()._db
        reg = [os.path.abspath(p) for p in rows["Filepath"]]
        c.expect(any(os.path.dirname(p) == os.path.abspath(out) for p in reg), "%s: product not registered" % name)
    c.equal(os.listdir(cwd), [], "%s: files in the working directory" % name)
    c.equal(tree(indir, w.cal) == before, True, "%s: input and calibration files unchanged" % name)
    c.outcome(name, sorted(ct.done), missing, jit)
    c.state(name, jit, missing, n, tracking, sorted(ct.done), got)


# --- part B: for real
# template -> inputs (level, number of frames, extra keywords), steps that stand-ins replace (the result of the stand-in)
REAL = {
    "bp_map.json": (None, 0, {}),
    "build_trad_dark_full_frame.json": ("L1", 3, dict(dark=True)),
    "build_trad_dark_image.json": ("L1", 3, dict(dark=True)),
    "l1_flat_and_bp.json": ("L1", 6, {}),
    "l1_to_boresight.json": ("L1", 2, {}),
    "l1_to_l2a_basic.json": ("L1", 2, {}),
    "l1_to_l2a_eng.json": ("L1", 1, {}),
    "l1_to_l2a_noisemap.json": ("L1", 6, dict(dark=True, noise=True)),
    "l1_to_l2b.json": ("L1", 2, {}),
    "l1_to_l2b_pc.json": ("L1", 2, dict(pc=True)),
    "l1_to_l2b_pc_dark.json": ("L1", 3, dict(pc=True, dark=True)),
    "l2a_build_trad_dark_image.json": ("L2a", 3, dict(dark=True, full=True)),
    "l2a_to_l2a_noisemap.json": ("L2a", 6, dict(dark=True, full=True, noise=True)),
    "l2a_to_l2b.json": ("L2a", 2, {}),
    "l2a_to_l2b_tdd_vap.json": ("L2a", 1, {}),
    "l2a_to_l2b_pc.json": ("L2a", 3, dict(pc=True)),
    "l2a_to_l2b_pc_dark.json": ("L2a", 2, dict(pc=True, dark=True)),
    "l2b_to_l3.json": ("L2b", 2, {}),
    "l2b_to_corethroughput.json": ("L2b", 2, {}),
    "l2b_to_fluxcal_factor.json": ("L2b", 2, {}),
    "l3_to_l4_nopsfsub.json": ("L3", 2, {}),
    "l3_to_l4.json": ("L3", 2, {}),
    "l2b_to_l4.json": ("L2b", 2, {}),
    "trap_pump_cal.json": ("L1", 2, {}),
}
# too heavy (or in need of a scene) for tiny frames
HEAVY = dict(create_onsky_flatfield=lambda ds, *a, **k: _named(kit.flat(st.IMG), "made_FLT_CAL.fits"), boresight_calibration=lambda ds, *a, **k: _named(kit.astrom(), "made_AST_CAL.fits"),
             calibrate_trap_pump=lambda ds, *a, **k: _named(kit.traps(), "made_TPU_CAL.fits"), generate_ct_cal=lambda ds, *a, **k: _named(kit.ctcal(), "made_CTP_CAL.fits"),
             calibrate_fluxcal_aper=lambda ds, *a, **k: _named(kit.fluxfac(), "made_ABF_CAL.fits"), find_star=lambda ds, *a, **k: ds.copy(),
             do_psf_subtraction=lambda ds, *a, **k: ds.copy())


def _named(o, name):
    o.filename = name
    return o


def noise_inputs(c, w, level, full):
    """Six exposures of different time and gain (one frame each is one sub-stack)."""
    d = c.newdir("in")
    out = []
    for i, (t, g) in enumerate([(2.0, 1.0), (10.0, 1.0), (20.0, 5.0), (40.0, 25.0), (60.0, 125.0), (80.0, 400.0)]):
        f = kit.frame(st.FULL, level, i, img=kit.arr(st.FULL, i, scale=0.3), EXPTIME=t, EMGAIN_C=g, VISTYPE="DARK")
        f.save(filedir=d)
        out.append(f.filepath)
    return d, out


DROP = kit.STAMPS | {"RECIPE"}


def strip(o):
    s = kit.snap(o, names=False)
    for k in ("ext", "pri"):
        s[k] = [x for x in s[k] if x[0] not in DROP]
    return s


def reference(c, t, files, kinds, out):
    """The public functions one after the other; the (file name, snapshot) of everything saved, in order."""
    cur = data.Dataset(list(files)) if files else []
    saved = []
    for s in t["steps"]:
        if s["name"] == "save":
            frames = cur.frames if isinstance(cur, data.Dataset) else [cur]
            for f in frames:
                sc = f.copy() if type(f) is data.Image else f
                saved.append((f.filename, sc))
                f.save(filedir=out, filename=f.filename)
            continue
        cals = []
        for k, v in s.get("calibs", {}).items():
            p = kinds[k]
            if k == "FlatField" and s["name"] == "create_bad_pixel_map" and isinstance(cur, data.FlatField):
                p = cur.filepath
            cals.append(data.autoload(p))
        kw = {k: (out if v == "AUTOMATIC" else v) for k, v in s.get("keywords", {}).items()}
        f = HEAVY.get(s["name"]) or FN[s["name"]]
        cur = f(cur, *cals, **kw)
    return saved


def run_real(c, w, name, jit, tracking):
    with open(os.path.join(TDIR, name)) as f:
        t = json.load(f)
    level, n, kw = REAL[name]
    kw = dict(kw)
    pc = kw.get("pc", False)
    if name == "bp_map.json":
        files, indir = [], c.newdir("in")
    elif kw.pop("noise", False):
        indir, files = noise_inputs(c, w, level, True)
    else:
        indir, files = w.inputs(c, level, n, **kw)
    out, ref = c.newdir("out"), c.newdir("ref")
    db = os.path.join(c.newdir("db"), "caldb.csv")
    shutil.copy(w.db[pc, None], db)
    if "jit_calib_id" not in t["drpconfig"]:
        t["drpconfig"]["jit_calib_id"] = jit
    t["drpconfig"]["track_individual_errors"] = tracking
    cwd = c.newdir("cwd")
    home = os.environ["HOME"]
    before = tree(indir, w.cal, home)
    old, real = os.getcwd(), dict(walker.all_steps)
    os.chdir(cwd)
    try:
        with tiny_detector(), settings(caldb_filepath=db, jit_calib_id=False, skip_missing_cal_steps=False, track_individual_errors=False), quiet():
            walker.all_steps.update(HEAVY)
            c.step(len(t["steps"]))
            recipe = walker.walk_corgidrp(list(files), "", out, template=json.loads(json.dumps(t)))
            walker.all_steps.update(real)
            c.equal(os.listdir(cwd), [], "%s: files in the working directory" % name)
            corgidrp.track_individual_errors = tracking
            want = reference(c, t, files, w.by_kind(pc), ref)
    finally:
        walker.all_steps.clear()
        walker.all_steps.update(real)
        os.chdir(old)
    c.equal(tree(indir, w.cal, home) == before, True, "%s: input files, calibration files and configuration unchanged" % name)
    got = sorted(x for x in os.listdir(out) if x.endswith(".fits"))
    c.equal(got, sorted(x for x in os.listdir(ref) if x.endswith(".fits")), "%s: files written" % name)
    c.equal([x for x in os.listdir(out) if not x.endswith(".fits") and not x.endswith("_recipe.json")], [], "%s: other files written" % name)
    for fn in got:
        a, b = data.autoload(os.path.join(out, fn)), data.autoload(os.path.join(ref, fn))
        d = kit.diff(strip(b), strip(a), "%s: %s" % (name, fn))
        c.expect(d is None, lambda: "recipe and functions called by hand differ: %s" % d)
        c.outcome(name, fn, np.array(a.data))
    final = FINAL[name][1]
    last = want[-1][0]
    o = data.autoload(os.path.join(out, last))
    c.equal(type(o).__name__ if type(o) is not data.Image else o.ext_hdr["DATALVL"], final, "%s: final product" % name)
    c.state("real", name, jit, tracking)


def run(c):
    names = sorted(os.path.basename(p) for p in glob.glob(os.path.join(TDIR, "*.json")))
    c.bound(templates=len(names), steps="all", run_for_real=len(REAL), just_in_time=2, missing="none or one of %s" % sorted(OPTIONAL), error_tracking=2,
            frames="1-3" if c.thorough else "2")
    c.assume("contracts of the steps (levels, units, calibration kinds) as their documentation states them; steps that need a scene (%s) are stand-ins" % ", ".join(sorted(HEAVY)))

    with c.case("coverage") as go:
        if go:
            c.equal(sorted(set(FINAL) - set(names)), [], "templates that have disappeared")
            c.equal(sorted(set(FN) - set(walker.all_steps)), [], "steps that have disappeared")
    items = [(nm, j, m, n, tr) for nm in names for j in (False, True) for m in (None,) + tuple(sorted(OPTIONAL)) for n in ((1, 2, 3) if c.thorough else (2,))
             for tr in ((False, True) if c.thorough else (False,))]

    def one(c, it):
        with c.case("contract:%s:jit=%d:missing=%s:n=%d:tr=%d" % it) as go:
            if go:
                run_abstract(c, world(c), *it)

    c.fan(items, one)

    def two(c, it):
        with c.case("real:%s:jit=%d:tr=%d" % it) as go:
            if go:
                run_real(c, world(c), *it)

    c.fan([(nm, j, tr) for nm in REAL for j in (False, True) for tr in ((False, True) if c.thorough else (False,))], two)
