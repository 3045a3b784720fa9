"""C31: every filter curve under every listing order, every pair of standard stars, all orders and groupings of small ND-filter
observations of synthetic stars.  The network boundary (urlretrieve) is replaced by synthetic standard-star spectra; the oracle
re-reads the filter curves and integrates on its own."""
import csv
import itertools
import os
import re
import shutil
import urllib.request
import warnings
from math import erf, log10, sqrt

import numpy as np
import astropy.io.fits as fits
from scipy.integrate import simpson

import corgidrp
import corgidrp.data as data
from corgidrp import corethroughput, fluxcal, l4_to_tda
from corgidrp.l2b_to_l3 import create_wcs
from corgidrp import nd_filter_calibration as nd
from mc import kit

CURVES = os.path.join(os.path.dirname(corgidrp.__file__), "data", "filter_curves")
STARS = {'109 Vir': '109vir_stis_005.fits', 'Vega': 'alpha_lyr_stis_011.fits', 'Eta Uma': 'etauma_stis_008.fits',
         'Lam Lep': 'lamlep_stis_008.fits', 'KSI2 CETI': 'ksi2ceti_stis_008.fits',
         'TYC 4433-1800-1': '1808347_stiswfc_006.fits', 'TYC 4205-1677-1': '1812095_stisnic_008.fits',
         'TYC 4212-455-1': '1757132_stiswfc_006.fits', 'TYC 4209-1396-1': '1805292_stisnic_008.fits',
         'TYC 4413-304-1': 'p041c_stisnic_010.fits', 'UCAC3 313-62260': 'kf08t3_stisnic_005.fits',
         'BPS BS 17447-0067': '1802271_stiswfcnic_006.fits', 'TYC 4424-1286-1': '1732526_stisnic_009.fits',
         'GSC 02581-02323': 'p330e_stiswfcnic_007.fits', 'TYC 4207-219-1': '1740346_stisnic_005.fits'}
NAMES = list(STARS)


# --- the oracle's own filters and spectra
def filters():
    out = {}
    for n in sorted(os.listdir(CURVES)):
        m = re.fullmatch(r"transmission_ID-\d+_(\w\w)_v0\.csv", n)
        if m:
            with open(os.path.join(CURVES, n)) as f:
                rows = list(csv.reader(f))
            i = next(k for k, r in enumerate(rows) if r[:2] == ["lambda_nm", "%T"])
            t = np.array([[float(x) for x in r[:2]] for r in rows[i + 1:] if r])
            out[m.group(1)] = (n, t[:, 0] * 10, t[:, 1] / 100)
    return out


FILTERS = filters()


def sed(star, wave):
    i = NAMES.index(star)
    return 1e-12 * (1 + 0.5 * i) * (wave / 6500.0) ** ((-4, -1, 0, 2, 5)[i % 5])


def irradiance(star, flt):
    _, w, t = FILTERS[flt]
    return simpson(sed(star, w) * t, x=w)


def bandflux(star, flt):
    _, w, t = FILTERS[flt]
    return simpson(sed(star, w) * t * w, x=w) / simpson(t * w, x=w)


def pivot(flt):
    _, w, t = FILTERS[flt]
    return sqrt(simpson(t * w, x=w) / simpson(t / w, x=w))


def colour(ref, src, flt):
    _, w, t = FILTERS[flt]
    p = pivot(flt)
    return (simpson(w * t * sed(src, w), x=w) / np.interp(p, w, sed(src, w))) / (simpson(w * t * sed(ref, w), x=w) / np.interp(p, w, sed(ref, w)))


def write_spectra(where):
    wave = np.arange(3000.0, 11000.5, 1.0)
    for star, name in STARS.items():
        cols = [fits.Column(name="WAVELENGTH", format="D", array=wave), fits.Column(name="FLUX", format="D", array=sed(star, wave))]
        fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(cols)]).writeto(os.path.join(where, name))
    return where


class offline:
    """The archive, without a network: urlretrieve copies the synthetic spectrum of that name."""

    def __init__(self, where):
        self.where = where

    def __enter__(self):
        self.old = urllib.request.urlretrieve

        def get(url, filename=None, **kw):
            src = os.path.join(self.where, url.rsplit("/", 1)[1])
            shutil.copyfile(src, filename + ".%d" % os.getpid())     # (several workers share the download folder)
            os.replace(filename + ".%d" % os.getpid(), filename)
            return filename, None
        urllib.request.urlretrieve = get

    def __exit__(self, *a):
        urllib.request.urlretrieve = self.old


class listing:
    """Directory listings of the filter curves in a given order."""

    def __init__(self, order):
        self.order = order

    def __enter__(self):
        self.old = os.listdir

        def ls(path="."):
            names = self.old(path)
            return self.order(sorted(names)) if os.path.realpath(str(path)) == os.path.realpath(CURVES) else names
        os.listdir = ls

    def __exit__(self, *a):
        os.listdir = self.old


def orders(thorough):
    n = len(os.listdir(CURVES))
    step = 1 if thorough else 4
    out = {"sorted": lambda x: x, "reversed": lambda x: x[::-1]}
    for k in range(1, n, step):
        out["rot%d" % k] = lambda x, k=k: x[k:] + x[:k]
        out["rev%d" % k] = lambda x, k=k: (x[k:] + x[:k])[::-1]
    return out


# --- synthetic stars
FWHM = 3.0


def star(n, flux, at, flt="1F", target="Vega", size=32, back=0.0, err=0.5, name=None, **kw):
    s = FWHM / 2.3548200450309493
    g = [np.array([0.5 * (erf((k - a + 0.5) / s / sqrt(2)) - erf((k - a - 0.5) / s / sqrt(2))) for k in range(size)]) for a in at]
    img = flux * np.outer(g[1], g[0]) + back
    f = kit.frame(None, "L3", n, img=img, err=np.full(img.shape, err), name=name, CFAMNAME=flt, BUNIT="electron/s", **kw)
    f.pri_hdr["TARGET"] = target
    return f


def aperture(f, at, r, sub=5, method="subpixel"):
    """Sum and uncertainty within a circle; flagged pixels are left out."""
    h, w = f.data.shape
    s = 1 if method == "center" else sub
    o = (np.arange(s) + 0.5) / s - 0.5
    yy = (np.arange(h)[:, None] + o).ravel()[:, None] - at[1]
    xx = (np.arange(w)[:, None] + o).ravel()[None, :] - at[0]
    ins = (yy ** 2 + xx ** 2 < r * r).reshape(h, s, w, s).mean(axis=(1, 3))
    ins = np.where(f.dq > 0, 0, ins)
    return (np.where(ins > 0, f.data, 0) * ins).sum(), sqrt((f.err[0] ** 2 * ins).sum())


PHOT = {"r8": dict(encircled_radius=8.03, centroid_roi_radius=5),
        "r5fee": dict(encircled_radius=5.03, frac_enc_energy=0.75, subpixels=3, method="subpixel"),
        "r6center": dict(encircled_radius=6.27, method="center"),
        "bkg": dict(encircled_radius=6.03, background_sub=True, r_in=10, r_out=14)}


def close(c, got, want, what, rtol=1e-6):
    c.expect(abs(got - want) <= rtol * abs(want), lambda: "%s: %r, should be %r" % (what, got, want))


# --- parts
def part_filters(c, item):
    oname, flts, archive = item
    order = orders(c.thorough)[oname]
    with listing(order), offline(archive):
        for flt in flts:
            name, w, t = FILTERS[flt]
            with c.case("filter/%s/%s" % (flt, oname)) as go:
                if not go:
                    continue
                c.state("filter", flt, oname)
                f = star(0, 100.0, (15, 15), flt)
                c.step(4)
                c.equal(os.path.basename(fluxcal.get_filter_name(f)), name, "transmission curve of filter " + flt)
                gw, gt = fluxcal.read_filter_curve(fluxcal.get_filter_name(f))
                c.same(gw, w, "wavelengths")
                c.same(gt, t, "transmission")
                lam, tr = corethroughput.get_cfam(flt)
                c.same(lam, w / 10, "wavelengths of get_cfam")
                c.same(tr, t / t.max(), "transmission of get_cfam")
                close(c, nd.compute_expected_band_irradiance("Vega", flt), irradiance("Vega", flt), "expected irradiance")
                lens = [np.loadtxt(os.path.join(CURVES, n), delimiter=",", unpack=True) for n in ("imaging_lens_v0.txt", "pupil_lens_v0.txt")]
                tt = [np.sum(np.interp(w / 10, l[0] / 10, l[1]) * t) for l in lens]
                close(c, corethroughput.di_over_pil_transmission(flt), tt[0] / tt[1], "imaging over pupil lens transmission")
                c.outcome(flt, name)
        with c.case("filter/unknown/%s" % oname) as go:
            if go:
                f = star(0, 100.0, (15, 15), "9Z")
                c.step(4)
                c.raises(lambda: fluxcal.get_filter_name(f), "a filter without a curve (get_filter_name)")
                c.raises(lambda: corethroughput.get_cfam("9Z"), "a filter without a curve (get_cfam)")
                c.raises(lambda: corethroughput.get_cfam("1F", cfam_version=7), "a filter version without a curve (get_cfam)")
                c.raises(lambda: nd.compute_expected_band_irradiance("Vega", "9Z"), "a filter without a curve (irradiance)")


def part_stars(c, item):
    flt, archive = item
    name, w, t = FILTERS[flt]
    path = os.path.join(CURVES, name)
    with offline(archive):
        for src in NAMES:
            with c.case("star/%s/%s" % (flt, src)) as go:
                if not go:
                    continue
                c.state("star", flt, src)
                ds = data.Dataset([star(i, 1e4, (15, 15), flt, target=src) for i in range(2)])
                for by in ("name", "file"):
                    s = src if by == "name" else os.path.join(archive, STARS[src])
                    for scale in (1.0, 0.25):
                        c.step()
                        o = l4_to_tda.determine_app_mag(ds, s, scale_factor=scale)
                        want = -2.5 * log10(scale * irradiance(src, flt) / irradiance("Vega", flt))
                        for f in o:
                            c.expect(abs(f.ext_hdr["APP_MAG"] - want) < 1e-6, lambda: "magnitude %r of %s, should be %r" % (f.ext_hdr["APP_MAG"], src, want))
                    ref = NAMES[(NAMES.index(src) + 3) % len(NAMES)]
                    r = ref if by == "name" else os.path.join(archive, STARS[ref])
                    c.step()
                    o = l4_to_tda.determine_color_cor(ds, r, s)
                    for f in o:
                        close(c, f.ext_hdr["LAM_REF"], pivot(flt), "reference wavelength", 1e-7)
                        close(c, f.ext_hdr["COL_COR"], colour(ref, src, flt), "colour correction from %s to %s" % (ref, src), 1e-7)
                one = l4_to_tda.determine_app_mag(ds[0], src)
                c.expect(abs(one[0].ext_hdr["APP_MAG"] + 2.5 * log10(irradiance(src, flt) / irradiance("Vega", flt))) < 1e-6, "magnitude of a single image")
                got = fluxcal.read_cal_spec(fluxcal.get_calspec_file(src), w)
                c.same(got, sed(src, w), "spectrum of " + src, rtol=1e-6)
                close(c, fluxcal.calculate_band_flux(t, got, w), bandflux(src, flt), "band flux")
                close(c, fluxcal.calculate_effective_lambda(t, got, w), simpson(sed(src, w) * t * w * w, x=w) / simpson(sed(src, w) * t * w, x=w), "effective wavelength")
                close(c, fluxcal.calculate_vega_mag(1e-3 * bandflux("Vega", flt), path), 7.5, "Vega magnitude")
                c.step(5)
        with c.case("star/%s/mixed" % flt) as go:
            if go:
                other = [k for k in FILTERS if k != flt][0]
                for i in range(3):
                    fl, tg = [flt] * 3, ["Vega"] * 3
                    fl[i], tg2 = other, list(tg)
                    tg2[i] = "Eta Uma"
                    c.step(2)
                    c.raises(lambda: l4_to_tda.determine_app_mag(data.Dataset([star(k, 1e3, (15, 15), fl[k]) for k in range(3)]), "Vega"), "frames with different filters")
                    c.raises(lambda: l4_to_tda.determine_app_mag(data.Dataset([star(k, 1e3, (15, 15), flt, tg2[k]) for k in range(3)]), "Vega"), "frames of different targets")
                c.raises(lambda: fluxcal.get_calspec_file("HD 1"), "a star without a spectrum")


def part_phot(c, item):
    flt, src, archive = item
    with offline(archive), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for back, bad, at in itertools.product((0.0, 2.5), (False, True), ((15, 15), (12, 17))):
            for pn, kw in PHOT.items():
                key = "phot/%s/%s/%s/%g/%d/%d" % (flt, src, pn, back, bad, at[0])
                with c.case(key) as go:
                    if not go:
                        continue
                    c.state(key)

                    def scene(i):
                        f = star(i, 2e4 * (i + 1), at, flt, src, back=back, err=0.5 + i)
                        if bad:
                            f.dq[at[1] + 3, at[0] - 2] = 4
                            f.dq[at[1] + 12, at[0]] = 8
                            for rows in (slice(at[1] + 8, at[1] + 16), slice(max(at[1] - 15, 0), at[1] - 7)):      # most of the ring around the star
                                f.dq[rows] |= 4
                                f.data[rows] += 40.0
                        return f
                    fs = [scene(0), scene(1)]
                    sub = kw.get("background_sub", False)
                    fee = kw.get("frac_enc_energy", 1.0)

                    def expected(f):
                        g = f.copy()
                        if sub:
                            g.data = g.data - back
                        s, e = aperture(g, at, kw["encircled_radius"], kw.get("subpixels", 5), kw.get("method", "subpixel"))
                        return s / fee, e / fee
                    want = [expected(f) for f in fs]
                    for f, (s, e) in zip(fs, want):
                        got = fluxcal.aper_phot(f, **kw)
                        c.step()
                        close(c, got[0], s, "aperture sum", 1e-5)
                        close(c, got[1], e, "uncertainty of the aperture sum", 1e-5)
                        if sub:
                            c.expect(abs(got[2] - back) < 1e-3, lambda: "background %r, should be %r" % (got[2], back))
                    for mode, true in (("flux", bandflux(src, flt)), ("irr", irradiance(src, flt))):
                        for arg in (fs[0], data.Dataset(list(fs))):
                            cal = fluxcal.calibrate_fluxcal_aper(arg, mode, dict(kw))
                            c.step()
                            close(c, cal.fluxcal_fac, true / want[0][0], "flux calibration factor (%s)" % mode, 1e-5)
                            close(c, cal.fluxcal_err, true / want[0][0] ** 2 * want[0][1], "uncertainty of the factor (%s)" % mode, 1e-5)
                            c.equal(cal.filter, flt, "filter of the calibration")
                            if sub:
                                c.expect(abs(cal.ext_hdr["LOCBACK"] - back) < 1e-3, "LOCBACK")
                    fac = kit.fluxfac(2e-12, 1e-13)
                    for k in (None, 0.8):
                        ds = data.Dataset([scene(0), scene(1)])
                        if k:
                            for f in ds:
                                f.ext_hdr["COL_COR"] = k
                        o = l4_to_tda.determine_flux(ds, fac, photo="aperture", phot_kwargs=dict(kw))
                        c.step()
                        s, e = np.mean([x[0] for x in want]), np.mean([x[1] for x in want])
                        fx, fe = s * 2e-12 / (k or 1), sqrt((e * 2e-12 / (k or 1)) ** 2 + (s * 1e-13 / (k or 1)) ** 2)
                        for f in o:
                            close(c, f.ext_hdr["FLUX"], fx, "FLUX", 1e-5)
                            close(c, f.ext_hdr["FLUXERR"], fe, "FLUXERR", 1e-5)
                            c.expect(abs(f.ext_hdr["APP_MAG"] + 2.5 * log10(fx / bandflux("Vega", flt))) < 1e-4, "APP_MAG")
                            close(c, f.ext_hdr["MAGERR"], 2.5 / np.log(10) * fe / fx, "MAGERR", 1e-4)
                            c.expect(abs(f.ext_hdr["LOCBACK"] - (back if sub else 0)) < 1e-3, "LOCBACK")
                    if "subpixels" not in kw and fee == 1.0:
                        pk = {k: v for k, v in kw.items() if k != "encircled_radius"}
                        zp = fluxcal_zero(fs[0], src, kw["encircled_radius"], pk)
                        c.step()
                        mag = -2.5 * log10(irradiance(src, flt) / irradiance("Vega", flt))
                        c.expect(abs(zp - (mag + 2.5 * log10(want[0][0]))) < 1e-4, lambda: "zero point %r" % zp)
        for sub in (False, True):
            with c.case("gauss/%s/%s/%d" % (flt, src, sub)) as go:
                if not go:
                    continue
                f = star(0, 2e4, (15, 15), flt, src, back=2.5 if sub else 0.0)
                kw = dict(fwhm=FWHM, background_sub=sub, r_in=10, r_out=14)
                got = fluxcal.phot_by_gauss2d_fit(f, **kw)
                c.step(3)
                close(c, got[0], 2e4, "flux of the Gaussian fit", 1e-4)
                for mode, true in (("flux", bandflux(src, flt)), ("irr", irradiance(src, flt))):
                    cal = fluxcal.calibrate_fluxcal_gauss2d(f, mode, dict(kw))
                    close(c, cal.fluxcal_fac, true / 2e4, "flux calibration factor of the Gaussian fit (%s)" % mode, 1e-4)
                    close(c, cal.fluxcal_err, true / 2e4 ** 2 * got[1], "its uncertainty (%s)" % mode, 1e-3)
                o = l4_to_tda.determine_flux(data.Dataset([f]), kit.fluxfac(2e-12, 1e-13), photo="2dgauss", phot_kwargs=dict(kw))
                close(c, o[0].ext_hdr["FLUX"], 2e4 * 2e-12, "FLUX of the Gaussian fit", 1e-4)


def part_wcs(c, item):
    """Centring on the coordinates of the target: the step that writes them and the photometry agree on where the target is."""
    flt, src, archive = item
    size, scale, mid = 41, 21.8, 20
    with offline(archive), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for roll, north, (du, dv), (ra, dec) in itertools.product((0.0, 30.0, 200.0), (0.0, 45.0, -80.0), ((0.0, 0.0), (3.25, -2.5), (-4.0, 1.5)), ((80.5, -69.5), (0.0005, 5.0), (200.0, 60.0))):
            with c.case("wcs/%s/%s/%g/%g/%g/%g/%g" % (flt, src, roll, north, du, dv, ra)) as go:
                if not go:
                    continue
                c.state("wcs", roll, north, du, dv, ra)
                # pointing ahead of the target by some degrees; where that puts the target, by the tangent-plane projection
                off = (du * scale / 3.6e6 / np.cos(np.radians(dec)), dv * scale / 3.6e6)
                r0, d0, r, d = np.radians([ra - off[0], dec - off[1], ra, dec])
                den = np.sin(d0) * np.sin(d) + np.cos(d0) * np.cos(d) * np.cos(r - r0)
                xi = np.degrees(np.cos(d) * np.sin(r - r0) / den) * 3.6e6 / scale
                eta = np.degrees((np.cos(d0) * np.sin(d) - np.sin(d0) * np.cos(d) * np.cos(r - r0)) / den) * 3.6e6 / scale
                a = np.radians(roll + north)
                at = (mid - np.cos(a) * xi + np.sin(a) * eta, mid + np.sin(a) * xi + np.cos(a) * eta)
                f = star(0, 2e4, at, flt, src, size=size, back=1.5)
                f.dq[int(at[1]) + 2, int(at[0]) - 1] = 8
                f.data[int(at[1]) - 8, int(at[0]) + 8] += 9e4          # a brighter star that is not the target
                f.pri_hdr["RA"], f.pri_hdr["DEC"], f.pri_hdr["ROLL"] = ra, dec, roll
                cal = kit.astrom(values=[ra, dec, scale, scale, north, off[0], off[1]] + [0.1] * 36 + [3.0])
                g = create_wcs(data.Dataset([f]), cal)[0]
                c.step(3)
                kw = dict(encircled_radius=2.53, centering_method="wcs")
                got = fluxcal.aper_phot(g, **kw)
                s, e = aperture(f, at, 2.53)
                close(c, got[0], s, "sum in the aperture around the target", 1e-3)
                close(c, got[1], e, "its uncertainty", 1e-3)
                kw.update(background_sub=True, r_in=12, r_out=15)
                got = fluxcal.aper_phot(g, **kw)
                c.expect(abs(got[2] - 1.5) < 1e-2, lambda: "background %r, should be 1.5" % got[2])
                got = fluxcal.phot_by_gauss2d_fit(g, FWHM, fit_shape=9, background_sub=True, r_in=12, r_out=15, centering_method="wcs")
                close(c, got[0], 2e4, "flux of the Gaussian at the target", 1e-3)
                c.outcome(round(at[0]), round(at[1]))


def fluxcal_zero(f, src, r, kw):
    return l4_to_tda.calculate_zero_point(f, src, r, phot_kwargs=kw)


# --- the neutral-density filter
DIM = (("TYC 4433-1800-1", 2e-17), ("UCAC3 313-62260", 3e-17), ("GSC 02581-02323", 2.5e-17))
BRIGHT = ("Vega", "Eta Uma", "Lam Lep")
SPOTS = [(15, 15), (12, 15), (15, 18), (13, 17), (17, 13), (18, 16)]


def od_at(i, target):
    x, y = SPOTS[i]
    return 2.0 + 0.01 * (x - 15) + 0.02 * (y - 15) + 0.05 * BRIGHT.index(target)


def scene(flt, ndim, nbright, per, calfac=None, fpam="ND225"):
    """Frames (dims first) and the reference rows."""
    out, rows = [], []
    cal = calfac or float(np.mean([DIM[i][1] for i in range(ndim)]))
    for i in range(ndim):
        t, k = DIM[i]
        out.append(star(i, irradiance(t, flt) / k, (14 + i, 15), flt, t, FPAMNAME="HOLE", FPAM_H=50.0, FPAM_V=60.0))
    n = 0
    for b in range(nbright):
        for p in range(per):
            t = BRIGHT[b]
            od = od_at(n, t)
            out.append(star(10 + n, irradiance(t, flt) / cal * 10 ** -od, SPOTS[n], flt, t, FPAMNAME=fpam, FPAM_H=5.0 + 0.125 * p, FPAM_V=6.0))
            rows.append((od,) + SPOTS[n])
            n += 1
    return out, rows


ND_KW = dict(encircled_radius=11, centroid_roi_radius=5)


def check_nd(c, o, rows, flag, frames, tol=1e-4):
    got = sorted(map(tuple, np.asarray(o.data)), key=lambda r: (round(r[1]), round(r[2])))
    want = sorted(rows, key=lambda r: (round(r[1]), round(r[2])))
    c.expect(len(got) == len(want), lambda: "%d rows, should be %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        c.expect(abs(g[0] - w[0]) < tol and abs(g[1] - w[1]) < 1e-3 and abs(g[2] - w[2]) < 1e-3, lambda: "row %s, should be %s" % (g, w))
    c.equal(o.ext_hdr["FPAMNAME"], "ND225", "FPAMNAME")
    c.expect(abs(o.ext_hdr["FPAM_H"] - 5.0) < 1.2 and abs(o.ext_hdr["FPAM_V"] - 6.0) < 1.2, "FPAM position of the filter")
    c.equal(bool(o.ext_hdr["ODFLAG"]), flag, "ODFLAG")
    c.equal(sorted(v for k, v in o.ext_hdr.items() if re.fullmatch(r"FILE\d+", k)), sorted(f.filename for f in frames), "parents")


def spread(rows, per):
    t = [r[0] for r in rows]
    return max(np.std(t[i:i + per]) for i in range(0, len(t), per))


def nd_call(frames, thr=0.1, method="Aperture", kw=None, fac=None):
    kw = dict(ND_KW) if kw is None else kw
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return nd.create_nd_filter_cal(data.Dataset(list(frames)), od_raster_threshold=thr, phot_method=method, flux_or_irr="irr", phot_kwargs=kw, fluxcal_factor=fac)


def part_nd_orders(c, item):
    perms, shape, archive = item
    ndim, nb, per = shape
    frames, rows = scene("3C", ndim, nb, per)
    with offline(archive):
        for p in perms:
            with c.case("nd/order/%s" % "".join(map(str, p))) as go:
                if go:
                    c.state("nd", p)
                    c.step()
                    fs = [frames[i].copy() for i in p]
                    check_nd(c, nd_call(fs), rows, False, fs)


def part_nd_variants(c, item):
    flt, archive = item
    with offline(archive):
        for (ndim, nb, per), given, method in itertools.product(((2, 2, 2), (1, 1, 3), (0, 2, 2), (0, 3, 2), (1, 3, 1)), (None, "factor", "value"), ("Aperture", "Gaussian")):
            if ndim == 0 and given is None:
                continue
            calfac = None if given is None else 4e-17
            frames, rows = scene(flt, ndim, nb, per, calfac)
            fac = None if given is None else kit.fluxfac(4e-17, 1e-18) if given == "factor" else 4e-17
            kw = dict(ND_KW) if method == "Aperture" else dict(fwhm=FWHM)
            sd = spread(rows, per)
            for thr in (0.1, max(sd * 0.5, 1e-9)):
                for rot in ((0,) if not c.thorough else range(len(frames))):
                    with c.case("nd/variant/%s/%d%d%d/%s/%s/%g/%d" % (flt, ndim, nb, per, given, method, thr, rot)) as go:
                        if go:
                            c.state("ndv", flt, ndim, nb, per, given, method, thr, rot)
                            c.step()
                            fs = [f.copy() for f in frames[rot:] + frames[:rot]]
                            check_nd(c, nd_call(fs, thr, method, kw, fac), rows, bool(sd >= thr), fs, 1e-3)


def part_nd_refuse(c, item):
    k, archive = item
    other = {"CFAMNAME": "1F", "FPAMNAME": "ND475"}
    with offline(archive):
        for (nb, per), at in itertools.product(((2, 2), (1, 3), (3, 2)), range(6)):
            frames, rows = scene("3C", 1, nb, per)
            n = nb * per
            if at >= n:
                continue
            for key, val, ok in (("CFAMNAME", "1F", False), ("FPAMNAME", "ND475", False), ("FPAM_H", 1.5, False), ("FPAM_H", -1.5, False), ("FPAM_V", 1.5, False),
                                 ("FPAM_V", -1.5, False), ("FPAM_H", 0.75, True), ("FPAM_V", -1.0, True)):
                for rev in (False, True):
                    with c.case("nd/refuse/%d%d/%d/%s/%s/%d" % (nb, per, at, key, val, rev)) as go:
                        if not go:
                            continue
                        c.state("ndr", nb, per, at, key, val, rev)
                        c.step()
                        fs = [f.copy() for f in frames]
                        h = fs[1 + at].ext_hdr
                        h[key] = val if key in other else h[key] + val
                        if rev:
                            fs = fs[::-1]
                        if ok:
                            check_nd(c, nd_call(fs), rows, False, fs)
                        else:
                            c.raises(lambda: nd_call(fs), "%s of one neutral-density frame disagrees" % key)
            c.outcome(nb, per, at)


def part_nd_dim(c, item):
    """Whatever the pointing, the sweet spot interpolates the measured optical densities."""
    archive, = item
    d = c.newdir("mat")
    mats = {"swap": np.array([[0., 1.], [-1., 0.]]), "id": np.eye(2), "gen": np.array([[0.5, -0.25], [2.0, 0.125]])}
    plane = lambda x, y: 2.0 + 0.03 * (x - 15) - 0.07 * (y - 15)
    pts = [(x, y) for x in (11., 15., 19.) for y in (10., 14., 20.)]
    for mn, m in mats.items():
        for where in (0, 1):
            path = os.path.join(d, "%s%d.fits" % (mn, where))
            hl = [fits.PrimaryHDU(data=m)] if where == 0 else [fits.PrimaryHDU(), fits.ImageHDU(data=m)]
            fits.HDUList(hl).writeto(path)
            for perm in (pts, pts[::-1], pts[4:] + pts[:4]):
                spot = data.NDFilterSweetSpotDataset(np.array([[plane(x, y), x, y] for x, y in perm]), pri_hdr=kit.cal_headers()[0],
                                                     ext_hdr=kit.cal_headers(FPAM_H=5.0, FPAM_V=6.0)[1], input_dataset=kit.parents())
                for (x, y), (dh, dv) in itertools.product(((15, 15), (14, 16), (13, 13)), ((0., 0.), (1., 0.), (0., 1.), (1., -2.))):
                    with c.case("nd/point/%s/%d/%s/%s/%s" % (mn, where, perm[0], (x, y), (dh, dv))) as go:
                        if not go:
                            continue
                        q = np.array([x, y]) + m @ np.array([dh, dv])
                        if not (11 <= q[0] <= 19 and 10 <= q[1] <= 20):
                            continue
                        c.state("point", mn, where, perm[0], x, y, dh, dv)
                        c.step(2)
                        f = star(0, 1e4, (x, y), FPAM_H=5.0 + dh, FPAM_V=6.0 + dv)
                        got = nd.calculate_od_at_new_location(f, path, spot)
                        c.expect(abs(got - plane(*q)) < 1e-4, lambda: "optical density %r, should be %r" % (got, plane(*q)))
                        got = spot.interpolate_od(float(q[0]), float(q[1]))
                        c.expect(abs(got - plane(*q)) < 1e-9, lambda: "interpolated optical density %r, should be %r" % (got, plane(*q)))


def dispatch(c, item):
    {"wcs": part_wcs, "filters": part_filters, "stars": part_stars, "phot": part_phot, "orders": part_nd_orders, "variants": part_nd_variants, "refuse": part_nd_refuse,
     "dim": part_nd_dim}[item[0]](c, item[1])


def run(c):
    archive = write_spectra(c.newdir("spectra"))
    flts = list(FILTERS)
    work = [("filters", (o, flts, archive)) for o in orders(c.thorough)]
    work += [("stars", (f, archive)) for f in (flts if c.thorough else flts[::3])]
    work += [("phot", (f, s, archive)) for f, s in zip(flts if c.thorough else ("1F", "3C", "4A"), itertools.cycle(("Eta Uma", "TYC 4433-1800-1", "KSI2 CETI")))]
    shape = (2, 2, 2) if c.thorough else (1, 2, 2)
    perms = list(itertools.permutations(range(shape[0] + shape[1] * shape[2])))
    work += [("orders", (perms[i::16], shape, archive)) for i in range(16)]
    work += [("variants", (f, archive)) for f in (flts if c.thorough else ("1F", "3G"))]
    work += [("wcs", (f, "Vega", archive)) for f in (flts[::2] if c.thorough else ("1F",))]
    work += [("refuse", (0, archive)), ("dim", (archive,))]
    c.bound(filters=len(flts), listing_orders=len(orders(c.thorough)), stars=len(NAMES), nd_orders=len(perms), nd_scene="%d dim, %d bright targets, %d dithers" % shape)
    c.assume("the standard-star archive is replaced by synthetic spectra at the download call (no network); stars are pixel-integrated Gaussians centred on pixels")
    c.assume("optical densities of one observation are compared as a set of rows (the row order is not specified)")
    c.fan(work, dispatch)
