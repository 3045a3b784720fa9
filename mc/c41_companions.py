"""C41: noise curves, source finding and companion photometry on scenes whose answer is a closed formula (Gaussians on known backgrounds): every arrangement of
separations, throughputs, frames, star positions, planted sources and companions of a menu."""
import itertools
import math
import warnings

import numpy as np

import corgidrp.data as data
from corgidrp import find_source as fsmod, l4_to_tda, measure_companions as mcomp
from mc import c31_photometry as ph31, kit

LN2 = math.log(2)


def gauss(shape, x0, y0, fwhm, amp=1.0):
    y, x = np.indices(shape)
    return amp * np.exp(-4 * LN2 * ((x - x0) ** 2 + (y - y0) ** 2) / fwhm ** 2)


def quiet(fn, *a, **k):
    import contextlib
    import io
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def interp(x, xs, ys):
    """Piecewise linear, continued beyond both ends."""
    xs, ys = np.asarray(xs, float), np.asarray(ys, float)
    o = np.argsort(xs)
    xs, ys = xs[o], ys[o]
    out = []
    for v in np.atleast_1d(np.asarray(x, float)):
        i = min(max(int(np.searchsorted(xs, v)) - 1, 0), len(xs) - 2)
        out.append(ys[i] + (ys[i + 1] - ys[i]) * (v - xs[i]) / (xs[i + 1] - xs[i]))
    return np.array(out)


# ------------------------------------------------------------------ noise curves

KSEPS = {"even": [5., 8., 11., 14.], "uneven": [4., 6., 11., 15.], "two": [6., 12.]}
CSEPS = {"same": None, "other": [3., 7., 10., 16.]}


def subframe(k, kseps, cseps, nkl, star=(20.0, 20.0)):
    shape = (nkl, 41, 41)
    i = np.arange(nkl * 41 * 41).reshape(shape)
    img = ((i * 7919 + 31 * k) % 211 - 100) * (0.01 + 0.002 * k) * (1 + np.arange(nkl))[:, None, None]
    img = np.where((i * 13 + k) % 97 == 0, np.nan, img)
    f = kit.frame(shape, "L4", k, img=img, STARLOCX=star[0], STARLOCY=star[1], MASKLOCX=1.0, MASKLOCY=2.0, PLTSCALE=21.8 + k)
    s = np.array(kseps)
    kl = np.zeros((nkl + 1, len(s), 2))
    kl[0] = s[:, None]
    for m in range(nkl):
        kl[m + 1, :, 0] = 0.4 + 0.1 * m + 0.03 * np.arange(len(s)) + 0.05 * k
        kl[m + 1, :, 1] = 2.5 + 0.3 * m + 0.2 * np.arange(len(s)) ** 2 + 0.1 * k
    t = s if cseps is None else np.array(cseps)
    f.add_extension_hdu("KL_THRU", data=kl)
    f.add_extension_hdu("CT_THRU", data=np.array([t, 0.2 + 0.1 * np.arange(len(t)) ** 1.5 + 0.02 * k]))
    return f


ODS = np.array([[0.5, 0., 0.], [0.25, 60., 0.], [0.75, 0., 60.], [0.5, 60., 60.]])       # a plane: 0.5 - x/240 + y/240


def ndcal(flat=None):
    g = kit.ndsweet()
    a = ODS.copy()
    if flat is not None:
        a[:, 0] = flat
    return data.NDFilterSweetSpotDataset(a, pri_hdr=g.pri_hdr, ext_hdr=g.ext_hdr, input_dataset=kit.parents())


def od(x, y):
    return 0.5 - x / 240 + y / 240


def noise_at(f, sep, hw):
    y, x = np.indices(f.data.shape[1:])
    r = np.sqrt((x - f.ext_hdr["STARLOCX"]) ** 2 + (y - f.ext_hdr["STARLOCY"]) ** 2)
    m = (r > sep - hw) & (r < sep + hw)
    return [float(np.sqrt(np.nanmean((d[m] - np.nanmean(d[m])) ** 2))) for d in f.data]


def curves(c):
    starpos = [(15, 17), (12, 20), (21.4, 14.7), (16.5, 13.25)]
    sizes = [(33, 33), (34, 32), (33, 36)]
    for ks, cs, nkl, nfr, req, hw, guess, size in itertools.product(KSEPS, CSEPS, (1, 3), (1, 2), (None, (9.0, 6.5), (4.0, 17.0)), (None, 1.25), (False, True), sizes):
        if not c.thorough and (size != sizes[0]) + guess + (nkl == 3) + (nfr == 2) > 2:
            continue
        with c.case("curve/%s/%s/%d/%d/%s/%s/%s/%s" % (ks, cs, nkl, nfr, req, hw, guess, size)):
            fs = [subframe(k, KSEPS[ks], CSEPS[cs], nkl, (20.0 + k, 20.5 - k)) for k in range(nfr)]
            pos = [starpos[(k + len(ks) + nkl) % 4] for k in range(nfr)]
            fw = [4.0 + 1.5 * k for k in range(nfr)]
            amp = [800.0, 350.0]
            ss = [kit.frame(size, "L4", 50 + k, img=gauss(size, pos[k][0], pos[k][1], fw[k], amp[k]), dq=np.zeros(size, np.uint16)) for k in range(nfr)]
            for k in range(nfr):                                                           # a dead pixel on the flank that must not count
                ss[k].data[3 + k, 5] = 9.0
                ss[k].dq[3 + k, 5] = 4
            kw = {}
            if guess:
                for s in ss:                                                               # the brightest pixels of the frame are not the star
                    s.data[-6:-3, 3:6] = 5000.0
                    s.dq[-6:-3, 3:6] = 8
                kw["unocculted_star_loc"] = np.array([[int(round(p[1])) for p in pos], [int(round(p[0])) for p in pos]])
            if req is not None:
                kw["requested_separations"] = np.array(req)
            if hw is not None:
                kw["halfwidth"] = hw
            ins = data.Dataset([f.copy() for f in fs])
            out = quiet(l4_to_tda.compute_flux_ratio_noise, ins, ndcal(), data.Dataset([s.copy() for s in ss]), **kw)
            c.equal(len(out), nfr, "frames")
            for k in range(nfr):
                f, g = fs[k], out[k]
                sep = np.array(KSEPS[ks] if req is None else req)
                h = hw
                if h is None:
                    d = [b - a for l in (KSEPS[ks], CSEPS[cs] or KSEPS[ks]) for a, b in zip(l, l[1:])]
                    h = min(d) / 2
                got = g.hdu_list["FRN_CRV"].data
                c.equal(got.shape, (2 + nkl, len(sep)), "rows and columns")
                c.same(got[0], sep, "separations")
                c.same(got[1], sep * (21.8 + k), "separations in mas")
                kl, ct = f.hdu_list["KL_THRU"].data, f.hdu_list["CT_THRU"].data
                Fs = amp[k] * math.pi * fw[k] ** 2 / 4 / LN2 * od(*pos[k])
                for m in range(nkl):
                    for j, s in enumerate(sep):
                        n = noise_at(f, s, h)[m]
                        fwhm = interp(s, kl[0, :, 0], kl[m + 1, :, 1])[0]
                        want = n * math.pi * fwhm ** 2 / 4 / LN2 / Fs / (interp(s, kl[0, :, 0], kl[m + 1, :, 0])[0] * interp(s, ct[0], ct[1])[0])
                        c.expect(abs(got[2 + m, j] - want) <= 2e-3 * abs(want), "frame %d, mode %d, separation %s: noise %r, want %r" % (k, m, s, got[2 + m, j], want))
                        c.step()
                c.same(g.data, f.data, "pixels", exact=True)
                c.expect("FRN_CRV" in str(g.ext_hdr["HISTORY"]), "history")
            c.state("curve", ks, cs, nkl, nfr)
    with c.case("curve/nd-density"):
        # a density of 2 lets through one part in a hundred: the star is a hundred times brighter than measured
        f, s = subframe(0, KSEPS["even"], None, 1), kit.frame((33, 33), "L4", 50, img=gauss((33, 33), 16, 17, 4.0, 800.0), dq=np.zeros((33, 33), np.uint16))
        a = quiet(l4_to_tda.compute_flux_ratio_noise, data.Dataset([f.copy()]), ndcal(2.0), data.Dataset([s.copy()]))[0].hdu_list["FRN_CRV"].data[2]
        b = quiet(l4_to_tda.compute_flux_ratio_noise, data.Dataset([f.copy()]), ndcal(1.0), data.Dataset([s.copy()]))[0].hdu_list["FRN_CRV"].data[2]
        c.same(b / a, np.full(4, 10.0), "one density more, ten times the star", rtol=1e-3)
    with c.case("curve/refuse"):
        f = [subframe(k, KSEPS["even"], None, 1) for k in range(2)]
        s = kit.frame((33, 33), "L4", 50, img=gauss((33, 33), 16, 17, 4.0, 800.0), dq=np.zeros((33, 33), np.uint16))
        c.raises(lambda: quiet(l4_to_tda.compute_flux_ratio_noise, data.Dataset(f), ndcal(), data.Dataset([s])), "more frames than stars")
        for hw in (0, -1.0, "1"):
            c.raises(lambda: quiet(l4_to_tda.compute_flux_ratio_noise, data.Dataset(f[:1]), ndcal(), data.Dataset([s]), halfwidth=hw), "halfwidth %r" % (hw,), kinds=(ValueError, TypeError))
        c.raises(lambda: quiet(l4_to_tda.compute_flux_ratio_noise, data.Dataset(f[:1]), ndcal(), data.Dataset([s]), unocculted_star_loc=np.array([[50], [10]])), "a guess outside the image", kinds=(ValueError, IndexError))


# ------------------------------------------------------------------ source finding

def noise(n, amp=1.0, seed=0):
    i = np.arange(n * n).reshape(n, n)
    a = np.sin(i * 12.9898 + seed) * 43758.5453
    return amp * ((a - np.floor(a)) - 0.5) * 3.46


def find_one(c, item):
    places, amps, fwhm, n, kind = item
    with c.case("find/%s/%s/%s/%d/%s" % (places, amps, fwhm, n, kind)):
        cen = (n - 1) // 2
        img = noise(n)
        if kind in ("mask", "psf"):                                                                  # no data close to the star
            y, x = np.indices((n, n))
            img = np.where(np.hypot(x - n // 2, y - n // 2) < 5, np.nan, img)
        blank = img.copy()
        pix = []
        for (dx, dy), a in zip(places, amps):
            img = img + gauss((n, n), cen + dx, cen + dy, fwhm, a)
            pix.append((cen + dy, cen + dx))
        f = kit.frame((n, n), "L4", 0, img=img)
        kw = {}
        if kind == "psf":
            b = int(fwhm * 3)
            b += 1 - b % 2
            kw["psf"] = gauss((b, b), b // 2, b // 2, fwhm)
        if kind == "wop":
            kw["image_without_planet"] = blank
        g = f.copy()
        out = quiet(l4_to_tda.find_source, f, fwhm=fwhm, nsigma_threshold=6.0, **kw)
        c.same(f.data, g.data, "the input image", exact=True)
        c.same(out.data, g.data, "the image itself", exact=True)
        found = []
        for k in range(50):
            v = out.ext_hdr.get("SNYX%03d" % k)
            if v is None:
                break
            found.append([float(t) for t in v.split(",")])
        c.equal(len([key for key in out.ext_hdr if key.startswith("SNYX")]), len(found), "numbered without gaps")
        want = [p for _, p in sorted(zip(amps, pix), key=lambda t: -t[0])]
        c.equal(len(found), len(want), "number of sources, found %s" % found)
        for fnd in found:
            c.expect(fnd[0] >= 6.0, "a source below the threshold: %s" % fnd)
        left = list(want)
        for k, fnd in enumerate(found):
            hit = [p for p in left if abs(p[0] - fnd[1]) <= 1 and abs(p[1] - fnd[2]) <= 1]
            c.expect(hit, "source %d at %s is none of %s" % (k, fnd, left))
            left.remove(hit[0])
        # the companions read back from the header are those found
        comp = mcomp.parse_companions(out.ext_hdr)
        c.equal([(p["id"], p["y"], p["x"]) for p in comp], [("SNYX%03d" % k, t[1], t[2]) for k, t in enumerate(found)], "companions read from the header")
        c.state("find", len(places), kind)
        c.step()


def finding(c):
    n = 41
    one = [(9, 0), (-6, 8), (0, -11), (-10, -3)]
    cases = []
    for kind in ("plain", "mask", "psf", "wop"):
        cases.append(((), (), 3.0, n, kind))
        if kind == "plain":                                                                 # (a source is part of its own noise there)
            continue
        for p in one:
            cases.append(((p,), (60.0,), 3.0, n, kind))
    for a, b in itertools.combinations(one, 2):
        for amps in ((60.0, 90.0), (90.0, 60.0), (75.0, 75.0)):
            cases.append(((a, b), amps, 3.0, n, "wop"))
    if c.thorough:
        for p in itertools.product((-11, -8, 6, 10), repeat=2):
            cases.append(((p,), (60.0,), 3.0, 45, "mask"))
            cases.append(((p,), (60.0,), 2.4, 45, "wop"))
        for t in itertools.combinations(one, 3):
            cases.append((t, (60.0, 80.0, 100.0), 3.0, n, "wop"))
    c.bound(find_cases=len(cases))
    c.fan(cases, find_one)


# ------------------------------------------------------------------ companions

def ct_for(host, peaks, fwhm):
    """PSFs measured at four separations on the +x side and at two of them on the +y side."""
    pos = [(host[0] + s, host[1]) for s in (5.0, 9.0, 14.0, 19.0)]
    psfs = np.array([gauss((19, 19), 9, 9, fwhm, p) for p in peaks])
    ct = [0.2 + 0.1 * i for i in range(4)]
    return kit.ctcal(pos=[[p[0] for p in pos], [p[1] for p in pos], ct], psfs=psfs, STARLOCX=host[0], STARLOCY=host[1], FPAM_H=0.0, FPAM_V=0.0, FSAM_H=0.0, FSAM_V=0.0)


def companion_one(c, item):
    (places, amps, fwhm, kl_idx, mode, nd, source), archive = item
    with c.case("companions/%s/%s/%s/%s/%s/%s/%s" % item[0]), ph31.offline(archive):
        n, star = 61, (29.0, 31.0)
        nkl = 2
        cubes = []
        for m in range(nkl):
            im = np.zeros((n, n))
            for (s, pa), a in zip(places, amps):
                im += gauss((n, n), star[0] + s * math.cos(math.radians(pa + 90)), star[1] + s * math.sin(math.radians(pa + 90)), fwhm, a * (1 - 0.25 * m))
            cubes.append(im)
        sub = kit.frame((nkl, n, n), "L4", 0, img=np.array(cubes), STARLOCX=star[0], STARLOCY=star[1], MASKLOCX=star[0], MASKLOCY=star[1],
                        FPAM_H=0.0, FPAM_V=0.0, FSAM_H=0.0, FSAM_V=0.0, DETPIX0X=0, DETPIX0Y=0)
        seps = np.array([4.0, 10.0, 16.0, 20.0])
        kl = np.zeros((nkl + 1, 4, 2))
        kl[0] = seps[:, None]
        for m in range(nkl):
            kl[m + 1, :, 0] = 0.5 + 0.1 * np.arange(4) - 0.15 * m
            kl[m + 1, :, 1] = 3.0
        sub.add_extension_hdu("KL_THRU", data=kl)
        hp, hf = 5000.0, 3.5
        host = kit.frame((41, 41), "L4", 9, img=gauss((41, 41), 22, 19, hf, hp * (od(22, 19) if nd else 1.0)))
        host.pri_hdr["TARGET"] = "Vega"
        host.ext_hdr["CFAMNAME"] = "1F"
        peaks = [10.0, 14.0, 18.0, 20.0]
        ct = ct_for(star, peaks, 3.2)
        kw = dict(phot_method="gauss2d" if mode == "gauss2d" else "aperture", kl_mode_idx=kl_idx, verbose=False)
        kw["thrp_corr"] = "L4" if mode == "L4" else "None"
        if mode != "L4":
            pk = mcomp.get_photometry_kwargs(kw["phot_method"])
            pk["background_sub"] = False
            if mode == "gauss2d":
                pk.update(fit_shape=(11, 11), fwhm=fwhm)
            kw["photometry_kwargs"] = pk
        if nd:
            kw["nd_cal"] = ndcal()
        zp = 20.5
        if mode == "L4":
            fc = kit.fluxfac()
            fc.ext_hdr["ZP"] = zp
            kw.update(fluxcal_factor=fc, host_star_in_calspec=False)
        if source == "given":
            kw["cand_locs"] = list(places)
        else:
            for k, (s, pa) in enumerate(places):
                sub.ext_hdr["SNYX%03d" % k] = "%5.1f,%4d,%4d" % (9 - k, round(star[1] + s * math.sin(math.radians(pa + 90))), round(star[0] + s * math.cos(math.radians(pa + 90))))
        before = sub.copy()
        t = quiet(mcomp.measure_companions, host, sub, ct, data.FpamFsamCal([]), **kw)
        c.same(sub.data, before.data, "the subtracted image", exact=True)
        c.equal(len(t), len(places), "one row per companion")
        for k, ((s, pa), a) in enumerate(zip(places, amps)):
            row = t[k]
            x, y = star[0] + s * math.cos(math.radians(pa + 90)), star[1] + s * math.sin(math.radians(pa + 90))
            tol = 1e-9 if source == "given" else 0.51
            c.expect(abs(row["x"] - x) <= tol and abs(row["y"] - y) <= tol, "companion %d is listed at (%r, %r), is at (%r, %r)" % (k, row["x"], row["y"], x, y))
            m = range(nkl)[kl_idx]
            near = min(range(4), key=lambda i: abs((5.0, 9.0, 14.0, 19.0)[i] - s))
            amp = a * (1 - 0.25 * m)
            flux = math.pi * amp * fwhm ** 2 / 4 / LN2
            scale = hp * hf ** 2 / (20.0 * 3.2 ** 2)                                        # host over the brightest PSF of the calibration, by integrated flux
            if mode == "L4":
                ratio = amp / interp(s, seps, kl[m + 1, :, 0])[0] / (peaks[near] * scale)
                mag = -2.5 * math.log10(flux) + zp
                c.expect(abs(row["companion estimated mag"] - mag) < 0.02, "companion %d: magnitude %r, want %r" % (k, row["companion estimated mag"], mag))
                tolr = 0.01
            else:
                ratio = flux / (math.pi * peaks[near] * scale * 3.2 ** 2 / 4 / LN2)
                tolr = 0.04 if mode == "gauss2d" else 0.02                                  # (the fit integrates its model over pixels of another size of blur)
            c.expect(abs(row["measured companion counts"] - flux) < tolr * flux, "companion %d: counts %r, want %r" % (k, row["measured companion counts"], flux))
            c.expect(abs(row["counts_ratio"] - ratio) < tolr * ratio, "companion %d: flux ratio %r, want %r" % (k, row["counts_ratio"], ratio))
            if mode != "L4":
                app = l4_to_tda.determine_app_mag(host, "Vega")[0].ext_hdr["APP_MAG"]
                c.expect(abs(row["companion estimated mag"] - (app - 2.5 * math.log10(ratio))) < 0.03, "companion %d: magnitude" % k)
            c.step()
        c.state("companions", mode, len(places))


def density(c):
    """A companion behind no filter, its star behind a filter of density 1 or 2."""
    with c.case("companions/nd-density"):
        star = (29.0, 31.0)
        sub = kit.frame((1, 61, 61), "L4", 0, img=gauss((61, 61), 38, 31, 3.2, 40.0)[None], STARLOCX=star[0], STARLOCY=star[1], FPAM_H=0.0, FPAM_V=0.0, FSAM_H=0.0, FSAM_V=0.0,
                        MASKLOCX=star[0], MASKLOCY=star[1])
        sub.add_extension_hdu("KL_THRU", data=np.array([[[4.0, 4.0], [20.0, 20.0]], [[1.0, 3.0], [1.0, 3.0]]]))
        host = kit.frame((41, 41), "L4", 9, img=gauss((41, 41), 22, 19, 3.5, 5000.0))
        fc = kit.fluxfac()
        fc.ext_hdr["ZP"] = 20.0
        r = [quiet(mcomp.measure_companions, host, sub, ct_for(star, [10.0, 14.0, 18.0, 20.0], 3.2), data.FpamFsamCal([]), nd_cal=ndcal(d), fluxcal_factor=fc, host_star_in_calspec=False,
                   cand_locs=[(9.0, 270.0)], verbose=False)[0]["counts_ratio"] for d in (1.0, 2.0)]
        c.expect(abs(r[0] / r[1] - 10.0) < 1e-3, "one density more for the star changes the flux ratio by %r, not 10" % (r[0] / r[1]))


def companions(c):
    density(c)
    sets = [([(9.0, 0.0)], [40.0]), ([(14.0, 130.0)], [25.0]), ([(9.4, 250.0), (18.0, 70.0)], [30.0, 55.0]), ([(18.0, 70.0), (9.4, 250.0)], [55.0, 30.0])]
    cases = []
    for (p, a), kl, mode, nd, src in itertools.product(sets, (-1, 0), ("L4", "aperture", "gauss2d"), (False, True), ("given", "header")):
        if nd and (mode != "L4" or kl == 0):
            continue
        cases.append((tuple(p), tuple(a), 3.2, kl, mode, nd, src))
    archive = ph31.write_spectra(c.newdir("spectra"))
    c.fan([(x, archive) for x in cases], companion_one)


def small(c):
    for vals in itertools.product((None, " 12.3,  10, 200", "  5.0,   7,   0", "9.9,1"), repeat=2):
        with c.case("parse/%s/%s" % vals):
            f = kit.frame((4, 4), "L4", 0)
            f.ext_hdr["SNX"] = "1,2,3"
            for k, v in enumerate(vals):
                if v is not None:
                    f.ext_hdr["SNYX%03d" % (k + 3)] = v
            want = [dict(id="SNYX%03d" % (k + 3), y=float(v.split(",")[1]), x=float(v.split(",")[2])) for k, v in enumerate(vals) if v is not None and v.count(",") >= 2]
            c.equal(mcomp.parse_companions(f.ext_hdr), want, "companions")
    for oh, nh, y, x in itertools.product(((512, 512), (500, 520)), ((50, 50), (40, 61)), (507, 530.4), (490, 512.6)):
        with c.case("moved/%s/%s/%s/%s" % (oh, nh, y, x)):
            f = kit.frame((4, 4), "L4", 0)
            f.ext_hdr["SNYX000"] = "%5.1f,%s,%s" % (7.5, y, x)
            g = mcomp.update_companion_location_in_cropped_image(f, "SNYX000", oh, nh)
            c.equal([float(v) for v in g.ext_hdr["SNYX000"].split(",")], [7.5, round(y - oh[1] + nh[1]), round(x - oh[0] + nh[0])], "significance, y, x after cropping")
            c.raises(lambda: mcomp.update_companion_location_in_cropped_image(f, "SNYX001", oh, nh), "no such companion", kinds=(KeyError,))
    for idx in range(3):
        with c.case("extract/%d" % idx):
            f = kit.frame((3, 5, 6), "L4", 1)
            f.dq[:] = np.arange(90).reshape(3, 5, 6)
            f.add_extension_hdu("KL_THRU", data=np.ones((2, 2)))
            f.add_extension_hdu("OTHER", data=np.ones((2, 2)))
            g = mcomp.extract_single_frame(f, idx)
            c.same(g.data, f.data[idx], "pixels", exact=True)
            c.same(g.err[0], f.err[0, idx], "err", exact=True)
            c.same(g.dq, f.dq[idx], "dq", exact=True)
    with c.case("options"):
        for m in ("nope", "", None):
            c.raises(lambda: mcomp.get_photometry_kwargs(m), "unknown method %r" % m)
            c.raises(lambda: mcomp.measure_counts(None, m, None), "unknown method %r" % m)


def run(c):
    warnings.simplefilter("ignore")
    small(c)
    curves(c)
    companions(c)
    finding(c)
