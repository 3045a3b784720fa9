"""All public operations of the package as small deterministic experiments: name, fresh inputs, the call.

make(env) builds every input anew (values that only depend on the operation), call(inputs) runs the real code on them.  Inputs are
named, so that an explorer can compare them before and after, or scribble over them.
"""
import copy
import os
import warnings

import numpy as np
import astropy.io.fits as fits
from astropy.time import Time

import corgidrp.data as data
from corgidrp import (detector, darks, flat, bad_pixel_calibration, sorting, photon_counting, combine, fluxcal, l4_to_tda, corethroughput,
                      l3_to_l4, klip_fm, astrom, calibrate_kgain, walker, l2a_to_l2b, l1_to_l2a)
from corgidrp import nd_filter_calibration as nd
from mc import kit, steps, chains
from mc import c30_throughput as ct30
from mc import c31_photometry as ph31
from mc import c28_sorting as c28


class Op:
    def __init__(self, name, family, make, call, heavy=False, slow=False):
        self.name, self.family, self.make, self.call, self.heavy, self.slow = name, family, make, call, heavy, slow


class World:
    """Where the operations may write, and the offline archive of spectra."""

    def __init__(self, where):
        self.where = where
        self.archive = os.path.join(where, "archive")
        self.out = os.path.join(where, "out")
        for d in (self.archive, self.out):
            os.makedirs(d, exist_ok=True)
        ph31.write_spectra(self.archive)
        self.regions = copy.deepcopy(steps.REGIONS)


WHEN = Time("2024-01-01T00:00:00", scale="utc")


def _regions(w):
    return copy.deepcopy(w.regions)


def frames(shape, n, level, **kw):
    return data.Dataset([kit.frame(shape, level, i, img=kit.arr(shape, i, scale=0.3), **kw) for i in range(n)])


def noise_stack():
    return data.Dataset([kit.frame(steps.FULL, "L2a", i, img=kit.arr(steps.FULL, i, scale=0.3), EXPTIME=t, EMGAIN_C=g, VISTYPE="DARK", BUNIT="detected electrons")
                         for i, (t, g) in enumerate([(2.0, 1.0), (10.0, 1.0), (20.0, 5.0), (40.0, 25.0), (60.0, 125.0), (80.0, 400.0)])])


def pc_frames(n=4, seed=0, **kw):
    ds = steps.start(steps.IMG, "L2a", n=n, layers=1, ISPC=True, EMGAIN_C=5000.0, RN=100.0, BUNIT="detected electrons", **kw)
    for i, f in enumerate(ds.frames):
        f.data[:] = np.where((np.arange(16).reshape(4, 4) * 3 + i + seed) % 5 == 0, 2000.0, 0.0)
    return ds


def planet(n=2):
    y, x = np.mgrid[:60, :60]
    out = []
    for i, (cx, cy) in enumerate([(28, 30), (33, 27)][:n]):
        img = np.where((x - cx) ** 2 + (y - cy) ** 2 <= 64, 100.0 + (x * 7 + y * 3) % 11, 1.0)
        out.append(kit.frame(None, "L2a", i, img=img, CFAMNAME="1F"))
        out[-1].pri_hdr["TARGET"] = "Neptune"
    return data.Dataset(out)


def spots(mode, at=(20.0, 21.0), sep=8.0, size=41):
    """Science frames and satellite-spot frames around `at`."""
    y, x = np.mgrid[:size, :size].astype(float)
    angles = (0, 90, 180, 270) if mode in ("NFOV", "WFOV") else (0, 180)
    back = 5.0 + 0.01 * x
    s = 2.0
    sp = sum(100.0 * np.exp(-((x - at[0] - sep * np.cos(np.radians(a))) ** 2 + (y - at[1] - sep * np.sin(np.radians(a))) ** 2) / (2 * s * s)) for a in angles)
    out = []
    for i, img in enumerate([back, back + sp, back + 0.0, back + sp]):
        f = kit.frame(None, "L3", i, img=img, FSMPRFL=mode)
        f.pri_hdr["SATSPOTS"] = i % 2
        out.append(f)
    return data.Dataset(out)


def spot_params(mode, sep=8.0):
    a = [0, 90] if mode in ("NFOV", "WFOV") else [0]
    return dict(offset=dict(spotSepPix=sep, roiRadiusPix=3.0, probeRotVecDeg=list(a), nSubpixels=10, nSteps=5, stepSize=1.0, nIter=2),
                separation=dict(spotSepPix=sep, roiRadiusPix=3.0, probeRotVecDeg=list(a), nSubpixels=10, nSteps=5, stepSize=0.5, nIter=2))


def coron(n, ref=False, size=32, roll=0.0):
    out = []
    for i in range(n):
        f = kit.frame((size, size), "L3", i + (10 if ref else 0), img=kit.arr((size, size), i + (5 if ref else 0)), STARLOCX=15.0, STARLOCY=15.0, MASKLOCX=15.0, MASKLOCY=15.0,
                      PLTSCALE=21.8, ROLL=roll + 13.0 * i, LSAMNAME="NFOV")
        f.pri_hdr["PSFREF"] = int(ref)
        f.pri_hdr["TARGET"] = "ref" if ref else "sci"
        a = np.radians(20.0 + 5 * i)
        for k, v in dict(CRPIX1=2.0, CRPIX2=2.0, CRVAL1=80.5, CRVAL2=-69.5, CTYPE1="RA---TAN", CTYPE2="DEC--TAN", CD1_1=-6e-6 * np.cos(a), CD1_2=6e-6 * np.sin(a),
                         CD2_1=6e-6 * np.sin(a), CD2_2=6e-6 * np.cos(a)).items():
            f.ext_hdr[k] = v
        out.append(f)
    return out


def subtracted():
    """A subtracted frame with throughputs, an unocculted star, an ND map."""
    f = kit.frame((2, 41, 41), "L4", 0, img=np.array([kit.arr((41, 41), k) for k in range(2)]), STARLOCX=20.0, STARLOCY=20.0, MASKLOCX=20.0, MASKLOCY=20.0, PLTSCALE=21.8)
    seps = np.array([5.0, 8.0, 12.0, 15.0])
    kl = np.array([np.stack([seps, seps], -1), np.stack([seps * 0 + 0.5, seps * 0 + 3.0], -1), np.stack([seps * 0 + 0.25, seps * 0 + 2.5], -1)])
    f.add_extension_hdu("KL_THRU", data=kl)
    f.add_extension_hdu("CT_THRU", data=np.array([seps, [0.3, 0.5, 0.6, 0.7]]))
    s = ph31.star(9, 1000.0, (15, 16), size=31)
    g = kit.ndsweet()
    g = data.NDFilterSweetSpotDataset(np.array([[2.0, 5., 5.], [2.5, 25., 5.], [2.25, 5., 25.], [2.125, 25., 25.]]), pri_hdr=g.pri_hdr, ext_hdr=g.ext_hdr, input_dataset=kit.parents())
    return data.Dataset([f]), g, data.Dataset([s])


def kgain_dataset():
    """Two read-outs (same exposure time at the start and at the end of a gain setting repeat) of mean frames and k-gain frames."""
    out = []
    n = 0
    y, x = np.mgrid[:60, :40]
    for kind, ts, rep in (("MNFRAME", [5.0], 3), ("KGAIN", [1.0, 2.0, 4.0, 8.0, 16.0, 1.0], 5)):
        for t in ts:
            for r in range(rep):
                img = 100.0 * t * (1 + 0.5 * np.sin(x / 7.0) * np.cos(y / 9.0)) * (x > 9) + np.random.RandomState(n).normal(size=(60, 40)) * np.sqrt(25.0 + 20.0 * t * (x > 9))
                f = kit.frame(None, "L1", n, img=img, EXPTIME=t, EMGAIN_C=1.0, DATETIME="2024-01-01T%02d:%02d:00.000" % (n // 60, n % 60))
                f.pri_hdr["OBSNAME"] = kind
                f.filename, f.filedir = "CGI_EXCAM_L1_%010d.fits" % (n + 7), "x"
                out.append(f)
                n += 1
    return data.Dataset(out)


def sorted_input():
    return c28.build(c28.acquire([c28.M(7), c28.K([1., 2., 4.], 1, 1), c28.N(8.0, [0.5, 1., 2.], 0), c28.E((1.1, 2.0))], 1))


KPAR = dict(offset_colroi1=5, offset_colroi2=9, rowroi1=2, rowroi2=90, colroi1=12, colroi2=90, rn_bins1=-200, rn_bins2=200, max_DN_val=3000, signal_bins_N=30)
KREG = {"SCI": dict(frame_rows=60, frame_cols=40, image=dict(rows=48, cols=26, r0c0=[2, 12]), prescan=dict(rows=60, cols=10, r0c0=[0, 0], col_start=4, col_end=9),
                    prescan_reliable=dict(rows=60, cols=5, r0c0=[0, 4]), parallel_overscan=dict(rows=5, cols=26, r0c0=[55, 12]), serial_overscan=dict(rows=60, cols=2, r0c0=[0, 38]))}


def quietly(f):
    def g(i):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(i)
    return g


def table(w):
    """All operations, in a fixed order."""
    T = []

    def add(name, family, make, call, **kw):
        T.append(Op(name, family, make, quietly(call), **kw))

    # --- every processing step, on the first kind of dataset it is enabled on
    S = chains.starts()
    for s in steps.all_steps():
        for k, mk in S.items():
            if s.enabled(mk()):
                def make(mk=mk):
                    return dict(dataset=mk(), env=steps.Env(w.out), regions=_regions(w))

                def call(i, s=s):
                    steps.REGIONS = i["regions"]
                    return s(i["dataset"], i["env"])
                add("step:" + s.name, "step", make, call)
                break
    # --- detector geometry with the built-in table
    add("unpack_geom", "geometry", lambda: {}, lambda i: tuple(map(str, detector.unpack_geom("SCI", "image"))))
    add("imaging_area_geom", "geometry", lambda: {}, lambda i: tuple(map(str, detector.imaging_area_geom("ENG"))))
    add("slice_section", "geometry", lambda: dict(frame=np.arange(1200. * 2200).reshape(1200, 2200)), lambda i: detector.slice_section(i["frame"], "SCI", "prescan")[::97, ::97].copy())
    add("slice_section_tiny", "geometry", lambda: dict(frame=kit.arr(steps.FULL), regions=_regions(w)), lambda i: detector.slice_section(i["frame"], "SCI", "image", i["regions"]))
    add("embed_tiny", "geometry", lambda: dict(frame=kit.arr(steps.IMG), regions=_regions(w)), lambda i: detector.embed(i["frame"], "SCI", "image", 0.5, i["regions"]))
    # --- darks
    add("mean_combine", "darks", lambda: dict(imgs=[kit.arr((3, 3), k) for k in range(3)], maps=[steps._dq((3, 3), (k, 1), 1).astype(int) for k in range(3)]),
        lambda i: darks.mean_combine(i["imgs"], i["maps"]))
    add("mean_combine_err", "darks", lambda: dict(imgs=[kit.arr((3, 3), k) for k in range(3)], maps=[steps._dq((3, 3), (k, 1), 1).astype(int) for k in range(3)]),
        lambda i: darks.mean_combine(i["imgs"], i["maps"], err=True))
    add("build_trad_dark", "darks", lambda: dict(dataset=frames(steps.FULL, 3, "L2a", VISTYPE="DARK"), par=kit.detparams(TELRSTRT=0, TELREND=1), regions=_regions(w)),
        lambda i: darks.build_trad_dark(i["dataset"], i["par"], detector_regions=i["regions"], full_frame=True))
    add("build_trad_dark_image", "darks", lambda: dict(dataset=frames(steps.FULL, 3, "L2a", VISTYPE="DARK"), par=kit.detparams(TELRSTRT=0, TELREND=1), regions=_regions(w)),
        lambda i: darks.build_trad_dark(i["dataset"], i["par"], detector_regions=i["regions"]))
    for full in (True, False):
        add("build_synthesized_dark_%s" % full, "darks", lambda: dict(dataset=frames(steps.FULL, 1, "L2a", EMGAIN_C=2.0), maps=kit.noisemaps(steps.FULL), regions=_regions(w)),
            lambda i, full=full: darks.build_synthesized_dark(i["dataset"], i["maps"], detector_regions=i["regions"], full_frame=full))
    add("calibrate_darks_lsq", "darks", lambda: dict(dataset=noise_stack(), par=kit.detparams(TELRSTRT=0, TELREND=1), regions=_regions(w)),
        lambda i: darks.calibrate_darks_lsq(i["dataset"], i["par"], detector_regions=i["regions"]))
    # --- flats and bad pixels
    add("create_flatfield", "flats", lambda: dict(dataset=frames((4, 4), 3, "L2b")), lambda i: flat.create_flatfield(i["dataset"]))
    add("create_onsky_flatfield", "flats", lambda: dict(dataset=planet()),
        lambda i: flat.create_onsky_flatfield(i["dataset"], planet="neptune", band="1", up_radius=12, im_size=60, N=1, rad_mask=1.25, planet_rad=7, n_pix=20, n_pad=2))
    add("create_onsky_flatfield_auto", "flats", lambda: dict(dataset=planet()), lambda i: flat.create_onsky_flatfield(i["dataset"], up_radius=12, planet_rad=7, n_pix=20, n_pad=2))
    add("create_bad_pixel_map", "flats", lambda: dict(dataset=frames((4, 4), 1, "L2b"), dark=kit.dark((4, 4)), flat=kit.flat((4, 4))),
        lambda i: bad_pixel_calibration.create_bad_pixel_map(i["dataset"], i["dark"], i["flat"], dthresh=1.5, ffrac=0.9, fwidth=3))
    # --- combining and counting
    add("combine_images", "combine", lambda: dict(d=np.array([kit.arr((3, 3), k) for k in range(3)]), e=np.array([[kit.arr((3, 3), k, base=1.0)] for k in range(3)]),
                                                  q=np.array([steps._dq((3, 3), (k, 1), 2) for k in range(3)])),
        lambda i: combine.combine_images(i["d"], i["e"], i["q"], "mean", True))
    add("get_pc_mean", "combine", lambda: dict(dataset=pc_frames(), dark=pc_frames(4, 2)),
        lambda i: photon_counting.get_pc_mean(i["dataset"], None, T_factor=None, pc_ecount_max=None, safemode=False))
    add("get_pc_mean_binned", "combine", lambda: dict(dataset=pc_frames()), lambda i: photon_counting.get_pc_mean(i["dataset"], T_factor=5.0, pc_ecount_max=1e9, safemode=False, bin_size=2))
    add("get_pc_mean_darks", "combine", lambda: dict(dataset=pc_frames(VISTYPE="DARK")), lambda i: photon_counting.get_pc_mean(i["dataset"], T_factor=5.0, pc_ecount_max=1e9, safemode=False, inputmode="darks"))
    add("get_pc_mean_dark", "combine", lambda: dict(dataset=pc_frames(), dark=photon_counting.get_pc_mean(pc_frames(4, 2, VISTYPE="DARK"), T_factor=5.0, pc_ecount_max=1e9, safemode=False, inputmode="darks")),
        lambda i: photon_counting.get_pc_mean(i["dataset"], i["dark"], T_factor=5.0, pc_ecount_max=1e9, safemode=False))
    add("sort_kgain", "combine", lambda: dict(dataset=sorted_input()), lambda i: sorting.sort_pupilimg_frames(i["dataset"], "k-gain"))
    add("sort_nonlin", "combine", lambda: dict(dataset=sorted_input()), lambda i: sorting.sort_pupilimg_frames(i["dataset"], "non-lin"))
    add("guess_template", "combine", lambda: dict(dataset=frames((4, 4), 2, "L1")), lambda i: walker.guess_template(i["dataset"]))
    # --- photometry
    add("aper_phot", "phot", lambda: dict(image=ph31.star(0, 900.0, (15, 16))), lambda i: fluxcal.aper_phot(i["image"], 5.03))
    add("aper_phot_background", "phot", lambda: dict(image=ph31.star(0, 900.0, (15, 16), back=3.0)), lambda i: fluxcal.aper_phot(i["image"], 5.03, background_sub=True, r_in=7, r_out=11))
    add("gauss_phot", "phot", lambda: dict(image=ph31.star(0, 900.0, (15, 16))), lambda i: fluxcal.phot_by_gauss2d_fit(i["image"], 3.0, fit_shape=(15, 15)))
    add("flux_aper_default", "phot", lambda: dict(data=data.Dataset([ph31.star(0, 900.0, (15, 16)), ph31.star(1, 950.0, (14, 16))])), lambda i: fluxcal.calibrate_fluxcal_aper(i["data"]))
    add("flux_aper", "phot", lambda: dict(data=ph31.star(0, 900.0, (15, 16)), kw=dict(ph31.PHOT["bkg"])), lambda i: fluxcal.calibrate_fluxcal_aper(i["data"], "irr", i["kw"]))
    add("flux_gauss", "phot", lambda: dict(data=ph31.star(0, 900.0, (15, 16)), kw=dict(fwhm=3.0, fit_shape=(15, 15))), lambda i: fluxcal.calibrate_fluxcal_gauss2d(i["data"], "flux", i["kw"]))
    add("flux_gauss_background", "phot", lambda: dict(data=ph31.star(0, 900.0, (15, 16), back=2.0), kw=dict(fwhm=3.0, fit_shape=(15, 15), background_sub=True, r_in=7, r_out=11)),
        lambda i: fluxcal.calibrate_fluxcal_gauss2d(i["data"], "flux", i["kw"]))
    add("app_mag", "phot", lambda: dict(data=ph31.star(0, 900.0, (15, 16))), lambda i: l4_to_tda.determine_app_mag(i["data"], "Eta Uma", scale_factor=0.5))
    add("app_mag_dataset", "phot", lambda: dict(data=data.Dataset([ph31.star(0, 900.0, (15, 16), "3C")])), lambda i: l4_to_tda.determine_app_mag(i["data"], "Vega"))
    add("color_cor", "phot", lambda: dict(data=data.Dataset([ph31.star(0, 900.0, (15, 16))])), lambda i: l4_to_tda.determine_color_cor(i["data"], "Vega", "109 Vir"))
    add("determine_flux", "phot", lambda: dict(data=data.Dataset([ph31.star(0, 900.0, (15, 16)), ph31.star(1, 950.0, (14, 16))]), fac=kit.fluxfac()), lambda i: l4_to_tda.determine_flux(i["data"], i["fac"]))
    add("determine_flux_kw", "phot", lambda: dict(data=data.Dataset([ph31.star(0, 900.0, (15, 16))]), fac=kit.fluxfac(), kw=dict(ph31.PHOT["r8"])),
        lambda i: l4_to_tda.determine_flux(i["data"], i["fac"], phot_kwargs=i["kw"]))
    add("zero_point", "phot", lambda: dict(image=ph31.star(0, 900.0, (15, 16))), lambda i: l4_to_tda.calculate_zero_point(i["image"], "Vega", 6.03))
    add("zero_point_kw", "phot", lambda: dict(image=ph31.star(0, 900.0, (15, 16)), kw=dict(method="center")), lambda i: l4_to_tda.calculate_zero_point(i["image"], "Vega", 6.27, phot_kwargs=i["kw"]))
    add("convert_to_flux", "phot", lambda: dict(data=data.Dataset([ph31.star(0, 900.0, (15, 16), COL_COR=1.25)]), fac=kit.fluxfac()), lambda i: l4_to_tda.convert_to_flux(i["data"], i["fac"]))

    def source():
        f = kit.frame(None, "L4", 0, img=20.0 * ph31.star(0, 900.0, (18, 14)).data + kit.arr((32, 32), 3, scale=0.01, base=0.0) / 20)
        return f
    add("find_source", "phot", lambda: dict(image=source()), lambda i: l4_to_tda.find_source(i["image"], fwhm=3.0, nsigma_threshold=8.0))

    def frn():
        ds, ndf, star = subtracted()
        return dict(data=ds, nd=ndf, star=star)
    add("flux_ratio_noise", "phot", frn, lambda i: l4_to_tda.compute_flux_ratio_noise(i["data"], i["nd"], i["star"]))
    add("flux_ratio_noise_opts", "phot", lambda: dict(frn(), seps=np.array([6.0, 9.0]), loc=np.array([[16], [15]])),
        lambda i: l4_to_tda.compute_flux_ratio_noise(i["data"], i["nd"], i["star"], unocculted_star_loc=i["loc"], requested_separations=i["seps"], halfwidth=1.0))
    # --- the neutral-density filter
    add("nd_avg_factor", "nd", lambda: dict(data=data.Dataset(ph31.scene("3C", 2, 0, 1)[0]), kw=dict(ph31.ND_KW)), lambda i: nd.compute_avg_calibration_factor(i["data"], "Aperture", "irr", i["kw"]))
    add("nd_filter_cal", "nd", lambda: dict(data=data.Dataset(ph31.scene("3C", 1, 1, 2)[0]), kw=dict(ph31.ND_KW)),
        lambda i: nd.create_nd_filter_cal(i["data"], od_raster_threshold=0.1, phot_method="Aperture", flux_or_irr="irr", phot_kwargs=i["kw"]))
    add("nd_filter_cal_gauss", "nd", lambda: dict(data=data.Dataset(ph31.scene("3C", 1, 1, 2)[0])), lambda i: nd.create_nd_filter_cal(i["data"], phot_method="Gaussian", phot_kwargs=dict(fwhm=3.0, fit_shape=(15, 15))))
    add("nd_filter_cal_given", "nd", lambda: dict(data=data.Dataset(ph31.scene("3C", 0, 1, 2, calfac=2e-17)[0]), kw=dict(ph31.ND_KW), fac=kit.fluxfac(2e-17, 1e-18, CFAMNAME="3C")),
        lambda i: nd.create_nd_filter_cal(i["data"], phot_kwargs=i["kw"], fluxcal_factor=i["fac"]))
    add("interpolate_od", "nd", lambda: dict(nd=subtracted()[1]), lambda i: i["nd"].interpolate_od(12.0, 13.0))

    def matrix():
        p = os.path.join(w.out, "matrix.fits")
        if not os.path.exists(p):
            fits.HDUList([fits.PrimaryHDU(data=np.array([[0.5, 0.25], [-0.25, 0.5]]))]).writeto(p + ".%d" % os.getpid(), overwrite=True)
            os.replace(p + ".%d" % os.getpid(), p)
        return p
    add("od_new_location", "nd", lambda: dict(entry=ph31.star(3, 900.0, (15, 16), FPAM_H=5.0, FPAM_V=6.0), mat=matrix(), nd=_nd_fpam()),
        lambda i: nd.calculate_od_at_new_location(i["entry"], i["mat"], i["nd"]))
    # --- core throughput
    add("pix_and_ct", "ct", lambda: dict(data=data.Dataset([f for f, _ in ct30.observation("1F", 1, 2)])), lambda i: corethroughput.estimate_psf_pix_and_ct(i["data"]))
    add("psf_cube", "ct", lambda: dict(data=data.Dataset([f for f, _ in ct30.observation("1F", 1, 2)]), loc=np.array([[20., 22.], [25., 19.]])),
        lambda i: corethroughput.generate_psf_cube(i["data"], i["loc"]))
    add("generate_ct_cal", "ct", lambda: dict(data=data.Dataset([f for f, _ in ct30.observation("1F", 1, 2)])), lambda i: corethroughput.generate_ct_cal(i["data"]))
    add("transmission", "ct", lambda: {}, lambda i: corethroughput.di_over_pil_transmission())

    def fan(mat="general"):
        cal, cor, m = ct30.scene(ct30.FAN, mat, ct30.MOVES[3])
        return dict(cal=cal, cor=cor, fsc=data.FpamFsamCal(np.array(ct30.MATS[mat])))
    add("get_psf", "ct", fan, lambda i: i["cal"].GetPSF(np.array([4.5, 3.0]), np.array([4.0, 6.0]), i["cor"], i["fsc"]))
    add("interpolate_ct", "ct", fan, lambda i: i["cal"].InterpolateCT(np.array([4.5, 3.0]), np.array([4.0, 6.0]), i["cor"], i["fsc"]))
    add("interpolate_ct_log", "ct", fan, lambda i: i["cal"].InterpolateCT(np.array([4.5, 3.0]), np.array([4.0, 6.0]), i["cor"], i["fsc"], logr=True))
    add("fpm_position", "ct", fan, lambda i: i["cal"].GetCTFPMPosition(i["cor"], i["fsc"]))
    add("fpamfsam_default", "ct", lambda: dict(cal=fan()["cal"], cor=fan()["cor"], fsc=data.FpamFsamCal([], date_valid=WHEN)), lambda i: [i["fsc"], i["cal"].GetCTFPMPosition(i["cor"], i["fsc"])])
    add("ct_map", "ct", fan, lambda i: corethroughput.CreateCTMap(i["cor"], i["fsc"], i["cal"], x_range=[1, 7], y_range=[1, 7], n_gridx=4, n_gridy=4))
    add("ct_map_targets", "ct", lambda: dict(fan(), pix=np.array([[4., 3.], [5., 2.]])), lambda i: corethroughput.CreateCTMap(i["cor"], i["fsc"], i["cal"], target_pix=i["pix"]))
    add("get_1d_ct", "ct", lambda: dict(cal=kit.ctcal(), frame=coron(1)[0], seps=np.array([3.0, 5.0])), lambda i: corethroughput.get_1d_ct(i["cal"], i["frame"], i["seps"]))
    # --- registration, subtraction
    for mode in ("NFOV", "SPEC660", "SPEC730", "WFOV"):
        add("find_star_" + mode, "star", lambda mode=mode: dict(data=spots(mode), par=spot_params(mode)), lambda i: l3_to_l4.find_star(i["data"], (20, 20), 0, i["par"]), slow=True)
        add("find_star_part_" + mode, "star", lambda mode=mode: dict(data=spots(mode), par=dict(offset=dict(nSubpixels=10, nIter=1, spotSepPix=8.0), separation=dict(nSubpixels=10, nIter=1, nSteps=5, spotSepPix=8.0))),
            lambda i: l3_to_l4.find_star(i["data"], None, 0, i["par"], drop_satspots_frames=False), slow=True)

    def default_star(mode, sep):
        return spots(mode, (25.0, 25.5), sep, 51)
    add("find_star_default_NFOV", "star", lambda: dict(data=default_star("NFOV", 14.79)), lambda i: l3_to_l4.find_star(i["data"]), heavy=True)
    add("find_star_default_SPEC660", "star", lambda: dict(data=default_star("SPEC660", 17.34)), lambda i: l3_to_l4.find_star(i["data"]), heavy=True)
    add("crop_star", "sub", lambda: dict(data=data.Dataset(coron(2))), lambda i: l3_to_l4.crop(i["data"], [8, 10]))
    add("crop_given", "sub", lambda: dict(data=data.Dataset(coron(2)), size=[8, 10], centre=[12.5, 14.5]), lambda i: l3_to_l4.crop(i["data"], i["size"], i["centre"]))
    add("northup", "sub", lambda: dict(data=data.Dataset(coron(2))), lambda i: l3_to_l4.northup(i["data"]))
    add("northup_roll", "sub", lambda: dict(data=data.Dataset(coron(2))), lambda i: l3_to_l4.northup(i["data"], use_wcs=False, rot_center="starloc"))
    add("measure_noise", "sub", lambda: dict(data=subtracted()[0].frames[0]), lambda i: klip_fm.measure_noise(i["data"], np.array([6.0, 9.0]), 1.5))
    add("measure_noise_cands", "sub", lambda: dict(data=subtracted()[0].frames[0], cands=[(6.0, 30.0)]), lambda i: klip_fm.measure_noise(i["data"], np.array([6.0, 9.0]), 1.5, 0, i["cands"]))
    add("inject_psf", "sub", lambda: dict(frame=coron(1)[0], cal=kit.ctcal()), lambda i: klip_fm.inject_psf(i["frame"], i["cal"], 100.0, 4.0, 30.0))

    def klip(mode, **kw):
        def call(i):
            return l3_to_l4.do_psf_subtraction(i["data"], reference_star_dataset=i.get("ref"), mode=mode, outdir=w.out, measure_klip_thrupt=False, measure_1d_core_thrupt=False, num_processes=1, **kw)
        return call
    add("psfsub_adi", "sub", lambda: dict(data=data.Dataset(coron(3, roll=0.0))), klip(None, crop_sizexy=[20, 20], fileprefix="a"), slow=True)
    add("psfsub_adirdi", "sub", lambda: dict(data=data.Dataset(coron(2) + coron(2, True))), klip(None, crop_sizexy=[20, 20], numbasis=[1, 2], fileprefix="b"), slow=True)
    add("psfsub_rdi", "sub", lambda: dict(data=data.Dataset(coron(1)), ref=data.Dataset(coron(2, True))), klip("RDI", do_crop=False, numbasis=1, fileprefix="c"), slow=True)

    def thr(i):
        return l3_to_l4.do_psf_subtraction(i["data"], ct_calibration=i["cal"], reference_star_dataset=i["ref"], mode="RDI", numbasis=[1, 2], outdir=w.out, fileprefix="t", do_crop=False, num_processes=1, kt_seps=[7.0], kt_pas=[0., 180.])

    def thr_in():
        sci, ref = coron(1, size=41), coron(2, True, size=41)
        for k, f in enumerate(sci + ref):
            f.ext_hdr["STARLOCX"] = f.ext_hdr["STARLOCY"] = f.ext_hdr["MASKLOCX"] = f.ext_hdr["MASKLOCY"] = 20.0
            f.data = np.array([[((x * 7 + y * 13 + 5 * k) % 17) - 8.0 for x in range(41)] for y in range(41)]) + 500 * np.exp(-((np.mgrid[:41, :41] - 20) ** 2).sum(0) / 50.0)
        return dict(data=data.Dataset(sci), ref=data.Dataset(ref), cal=ct_simple())
    add("psfsub_throughput", "sub", thr_in, thr, heavy=True)
    # --- calibration values held in memory
    add("detector_params", "cals", lambda: dict(par={}), lambda i: data.DetectorParams(i["par"], date_valid=WHEN))
    add("detector_params_given", "cals", lambda: dict(par=dict(FWC_PP_E=1.0)), lambda i: data.DetectorParams(i["par"], date_valid=WHEN))
    add("detector_params_hash", "cals", lambda: dict(par=kit.detparams(FWC_PP_E=1.0)), lambda i: i["par"].get_hash())
    add("fpamfsam", "cals", lambda: {}, lambda i: data.FpamFsamCal([], date_valid=WHEN))
    add("calibrate_kgain", "cals", lambda: dict(data=kgain_dataset(), par=dict(KPAR), regions=copy.deepcopy(KREG)),
        lambda i: calibrate_kgain.calibrate_kgain(i["data"], n_cal=6, n_mean=3, min_val=50, max_val=2500, binwidth=10, make_plot=False, logspace_num=20, detector_regions=i["regions"], kgain_params=i["par"]), slow=True)
    # --- containers
    add("copy", "data", lambda: dict(data=steps.start(steps.IMG, "L2b")), lambda i: i["data"].copy())
    add("copy_frame", "data", lambda: dict(data=kit.frame()), lambda i: i["data"].copy())
    add("split", "data", lambda: dict(data=steps.start(steps.IMG, "L2b", n=3)), lambda i: i["data"].split_dataset(exthdr_keywords=["EXPTIME"]))
    add("hash", "data", lambda: dict(data=kit.frame()), lambda i: i["data"].get_hash())
    add("construct", "data", lambda: dict(img=kit.arr((4, 4)), err=kit.arr((4, 4), 2), dq=np.zeros((4, 4), dtype=np.uint16), hdr=kit.headers()[0], ext=kit.headers()[1]),
        lambda i: data.Image(i["img"], pri_hdr=i["hdr"], ext_hdr=i["ext"], err=i["err"], dq=i["dq"]))
    add("construct_plain", "data", lambda: dict(img=kit.arr((4, 4)), hdr=kit.headers()[0], ext=kit.headers()[1]), lambda i: data.Image(i["img"], pri_hdr=i["hdr"], ext_hdr=i["ext"]))
    add("err_term", "data", lambda: dict(data=kit.frame(), term=kit.arr((4, 4), 4)), lambda i: (i["data"].add_error_term(i["term"], "x"), i["data"])[1])
    for k in kit.CALS:
        add("make_" + k, "data", lambda: {}, lambda i, k=k: kit.CALS[k]())
    return T


def _nd_fpam():
    g = subtracted()[1]
    g.ext_hdr["FPAM_H"], g.ext_hdr["FPAM_V"] = 4.0, 7.0
    return g


def ct_simple():
    """Core throughput calibration on a grid of separations around (20, 20) with a Gaussian point-spread function."""
    y, x = np.mgrid[-7:8, -7:8]
    pos = np.array([(20 + r * np.cos(a), 20 + r * np.sin(a), 0.3 + 0.02 * r) for r in (5.0, 7.0, 9.0, 12.0, 15.0) for a in np.radians([0, 90, 180, 270])]).T
    psf = np.exp(-(x ** 2 + y ** 2) / 4.5)
    return kit.ctcal(pos=pos, psfs=np.array([psf] * pos.shape[1]))
