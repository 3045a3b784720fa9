"""All processing steps with tiny detector geometry: name, what they need, how to call them."""
import os

import numpy as np
import astropy.io.fits as fits

import corgidrp
import corgidrp.data as data
from corgidrp import l1_to_l2a, l2a_to_l2b, l2b_to_l3, l3_to_l4, l4_to_tda, combine, detector, photon_counting
from mc import kit

# SCI: 6x10 frame, 4x4 image area at (1,5); the other readout types differ in size and placement
REGIONS = {
    "SCI": dict(frame_rows=6, frame_cols=10,
                image=dict(rows=4, cols=4, r0c0=[1, 5]),
                prescan=dict(rows=6, cols=5, r0c0=[0, 0], col_start=1, col_end=4),
                prescan_reliable=dict(rows=6, cols=3, r0c0=[0, 1]),
                parallel_overscan=dict(rows=1, cols=5, r0c0=[5, 5]),
                serial_overscan=dict(rows=6, cols=1, r0c0=[0, 9])),
    "ENG": dict(frame_rows=8, frame_cols=10,
                image=dict(rows=4, cols=4, r0c0=[2, 5]),
                prescan=dict(rows=8, cols=5, r0c0=[0, 0], col_start=1, col_end=4),
                prescan_reliable=dict(rows=8, cols=3, r0c0=[0, 1]),
                parallel_overscan=dict(rows=2, cols=5, r0c0=[6, 5]),
                serial_overscan=dict(rows=8, cols=1, r0c0=[0, 9])),
}
FULL, IMG = (6, 10), (4, 4)


class Env:
    """One set of calibration products for the tiny geometry."""

    def __init__(self, outdir, kg=8.7, exptime=10.0, emgain=1.0):
        self.outdir = outdir
        self.dark = kit.dark(IMG, EXPTIME=exptime, EMGAIN_C=emgain, KGAINPAR=kg, dq=_dq(IMG, (0, 0), 8))
        self.dark.filename = "dark_DRK_CAL.fits"
        self.fulldark = kit.dark(FULL, EXPTIME=exptime, EMGAIN_C=emgain, KGAINPAR=kg, dq=_dq(FULL, (5, 9), 16))
        self.noise = kit.noisemaps(FULL, dq=_dq((3,) + FULL, (2, 2, 6), 1))
        self.noise.filename = "noise_DNM_CAL.fits"
        img = 0.75 + kit.arr(IMG, 2, base=0.0, scale=0.01) / 50
        img[3, 3] = 0.0
        self.flat = kit.flat(IMG, img=img, dq=_dq(IMG, (1, 2), 4))
        self.nonlin = kit.nonlin()
        self.kgain = kit.kgain(kg)
        self.bp = kit.bpmap(IMG, img=_dq(IMG, (2, 1), 4) + _dq(IMG, (0, 3), 8))
        self.par = kit.detparams(TELRSTRT=0, TELREND=1, FWC_PP_E=3000.0, FWC_EM_E=2500.0, ROWREADT=0.125)
        co = np.zeros((2, 4, 4))
        co[0, 1, 0] = 500.0     # x_corr = x
        co[1, 0, 1] = 500.0
        self.astrom = kit.astrom(values=np.concatenate([[80.5, -69.5, 21.5, 22.5, 45.0, 0.001, 0.002], co.ravel(), [3.]]))
        self.traps = kit.traps()
        self.flux = kit.fluxfac()
        self.ct = kit.ctcal()
        self.nd = kit.ndsweet()

    def products(self):
        return {k: v for k, v in vars(self).items() if isinstance(v, data.Image)}


def _dq(shape, at, val):
    d = np.zeros(shape, dtype=np.uint16)
    d[at] = val
    return d


class Step:
    def __init__(self, name, call, shape=None, level=None, grid=True, pre=None, adds_history=True, changes=(), may_refuse=False):
        self.name, self.call, self.shape, self.level = name, call, shape, level
        self.grid = grid            # keeps the pixel grid
        self.pre = pre              # extra precondition on the dataset
        self.adds_history = adds_history
        self.may_refuse = may_refuse
        self.changes = changes      # which of data/err the step is supposed to change

    def enabled(self, ds):
        if self.shape is not None and ds.frames[0].data.shape != self.shape:
            return False
        if self.level is not None and any(f.ext_hdr["DATALVL"] != self.level for f in ds.frames):
            return False
        return self.pre is None or bool(self.pre(ds))

    def __call__(self, ds, env):
        return self.call(ds, env)


def _uniform(ds):
    return len({(f.ext_hdr["EXPTIME"], f.ext_hdr["EMGAIN_C"], f.ext_hdr["KGAINPAR"]) for f in ds.frames}) == 1


def _matches(name):
    return lambda ds: _uniform(ds)


def _nobias(ds):
    return all("BIAS" not in [h.name for h in f.hdu_list] for f in ds.frames)


def _dark10(ds):
    h = ds.frames[0].ext_hdr
    return _uniform(ds) and (h["EXPTIME"], h["EMGAIN_C"], h["KGAINPAR"]) == (10.0, 1.0, 8.7)


def _wcs(ds):
    return all("CD1_1" in f.ext_hdr for f in ds.frames)


def _star(ds):
    return all("STARLOCX" in f.ext_hdr for f in ds.frames)


def all_steps():
    S = [
        Step("prescan_biassub", lambda d, e: l1_to_l2a.prescan_biassub(d, e.noise, detector_regions=REGIONS), FULL, grid=False, pre=_nobias),
        Step("prescan_biassub_imaging", lambda d, e: l1_to_l2a.prescan_biassub(d, None, detector_regions=REGIONS, use_imaging_area=True), FULL, grid=False, pre=_nobias),
        Step("prescan_biassub_full", lambda d, e: l1_to_l2a.prescan_biassub(d, e.noise, return_full_frame=True, detector_regions=REGIONS), FULL,
             pre=_nobias),
        Step("detect_cosmic_rays", lambda d, e: l1_to_l2a.detect_cosmic_rays(d, e.par, e.kgain, cosm_box=1, cosm_tail=1, detector_regions=REGIONS), IMG),
        Step("detect_cosmic_rays_full", lambda d, e: l1_to_l2a.detect_cosmic_rays(d, e.par, None, cosm_box=1, cosm_tail=1, mode="full", detector_regions=REGIONS), FULL),
        Step("correct_nonlinearity", lambda d, e: l1_to_l2a.correct_nonlinearity(d, e.nonlin, threshold=140.0)),
        Step("correct_nonlinearity_none", lambda d, e: l1_to_l2a.correct_nonlinearity(d, None, threshold=140.0), adds_history=False),
        Step("update_to_l2a", lambda d, e: l1_to_l2a.update_to_l2a(d), level="L1"),
        Step("add_photon_noise", lambda d, e: l2a_to_l2b.add_photon_noise(d)),
        Step("dark_subtraction", lambda d, e: l2a_to_l2b.dark_subtraction(d, e.dark, detector_regions=REGIONS), IMG, pre=_dark10),
        Step("dark_subtraction_full", lambda d, e: l2a_to_l2b.dark_subtraction(d, e.fulldark, detector_regions=REGIONS), FULL, pre=_dark10),
        Step("dark_subtraction_synth", lambda d, e: l2a_to_l2b.dark_subtraction(d, e.noise, detector_regions=REGIONS, outputdir=e.outdir),
             pre=lambda d: _uniform(d) and d.frames[0].data.shape in (FULL, IMG)),
        Step("flat_division", lambda d, e: l2a_to_l2b.flat_division(d, e.flat), IMG),
        Step("frame_select", lambda d, e: l2a_to_l2b.frame_select(d, bpix_frac=0.75, overexp=True, tt_rms_thres=5.0), grid=True, may_refuse=True),
        Step("frame_select_mark", lambda d, e: l2a_to_l2b.frame_select(d, overexp=True, tt_bias_thres=1.0, discard_bad=False)),
        Step("convert_to_electrons", lambda d, e: l2a_to_l2b.convert_to_electrons(d, e.kgain)),
        Step("em_gain_division", lambda d, e: l2a_to_l2b.em_gain_division(d)),
        Step("cti_correction", lambda d, e: l2a_to_l2b.cti_correction(d, e.traps), adds_history=False),
        Step("correct_bad_pixels", lambda d, e: l2a_to_l2b.correct_bad_pixels(d, e.bp), IMG),
        Step("desmear", lambda d, e: l2a_to_l2b.desmear(d, e.par)),
        Step("update_to_l2b", lambda d, e: l2a_to_l2b.update_to_l2b(d), level="L2a"),
        Step("combine_subexposures", lambda d, e: combine.combine_subexposures(d, 1 if len(d) % 2 else 2), grid=False),
        Step("combine_subexposures_median", lambda d, e: combine.combine_subexposures(d, collapse="median", num_frames_scaling=False), grid=False),
        Step("divide_by_exptime", lambda d, e: l2b_to_l3.divide_by_exptime(d)),
        Step("create_wcs", lambda d, e: l2b_to_l3.create_wcs(d, e.astrom)),
        Step("update_to_l3", lambda d, e: l2b_to_l3.update_to_l3(d), level="L2b"),
        Step("distortion_correction", lambda d, e: l3_to_l4.distortion_correction(d, e.astrom), IMG, grid=False),
        Step("crop", lambda d, e: l3_to_l4.crop(d, sizexy=2, centerxy=[1.5, 1.5]), grid=False,
             pre=lambda d: min(d.frames[0].data.shape) >= 3),
        Step("crop_star", lambda d, e: l3_to_l4.crop(d, sizexy=[2, 4]), IMG, grid=False, pre=_star),
        Step("northup_roll", lambda d, e: l3_to_l4.northup(d, use_wcs=False, rot_center="starloc"), IMG, grid=False),
        Step("northup_wcs", lambda d, e: l3_to_l4.northup(d), IMG, grid=False, pre=_wcs),
        Step("update_to_l4", lambda d, e: l3_to_l4.update_to_l4(d, e.ct, e.flux), level="L3"),
        Step("update_to_l4_noct", lambda d, e: l3_to_l4.update_to_l4(d, None, e.flux), level="L3"),
        Step("convert_to_flux", lambda d, e: l4_to_tda.convert_to_flux(d, e.flux)),
        Step("update_to_tda", lambda d, e: l4_to_tda.update_to_tda(d), level="L4"),
        Step("get_pc_mean", lambda d, e: photon_counting.get_pc_mean(d, T_factor=1., pc_ecount_max=1e9, safemode=False), pre=lambda d: _uniform(d)
             and all(f.ext_hdr.get("ISPC") is True and "RN" in f.ext_hdr for f in d.frames) and len({f.ext_hdr["RN"] for f in d.frames}) == 1, grid=False),
        Step("nan_flags", lambda d, e: detector.nan_flags(d), adds_history=False),
        Step("flag_nans", lambda d, e: detector.flag_nans(d), adds_history=False),
    ]
    return S


def by_name():
    return {s.name: s for s in all_steps()}


def start(shape=FULL, level="L1", n=2, layers=1, **kw):
    """A dataset with distinct pixels, some flags, an extra extension and distinct per-frame keywords."""
    frames = []
    if not corgidrp.track_individual_errors:
        layers = 1
    for i in range(n):
        dq = _dq(shape, (1, 6 if shape == FULL else 1), 1 << (i + 2))
        err = np.array([kit.arr(shape, 50 + i + 7 * j, base=1.0, scale=0.1) for j in range(layers)])
        f = kit.frame(shape, level, i, dq=dq, err=err[:1], STARLOCX=1.5, STARLOCY=1.5, **kw)
        if layers > 1:
            f.err = err
        for j in range(1, layers):
            f.err_hdr["Layer_%d" % (j + 1)] = "term%d" % j
        f.hdu_list.append(fits.ImageHDU(data=np.arange(3.) + i, name="EXTRA"))
        f.hdu_names.append("EXTRA")
        f.filedir = "somewhere"
        frames.append(f)
    return data.Dataset(frames)
