"""C35: all assignments of science/reference frames, roll angles, modes and mode counts of small coronagraphic datasets through do_psf_subtraction,
against an own principal-component subtraction; injected sources, noise and throughput on grids of positions."""
import contextlib
import io
import itertools
import math
import warnings

import numpy as np

import corgidrp.data as data
from corgidrp import astrom, corethroughput, klip_fm, l3_to_l4
from mc import chains, kit
from mc.c13_templates import quiet

NUMBASIS = ([1, 4, 8, 16], [1, 2, 3], [3, 1], 4, [4], [2, 5, 1])


@contextlib.contextmanager
def silent():
    with quiet(), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def image(k, n):
    """Pairwise independent, bright towards the centre."""
    y, x = np.mgrid[:n, :n]
    r = np.random.RandomState(1000 + k)
    return np.round(40 * np.exp(-((x - n / 2) ** 2 + (y - n / 2) ** 2) / n) + r.randint(-8, 9, size=(n, n)), 3) + 2.0 * k


def frame(k, n=9, roll=0.0, ref=0, star=None, bad=(), img=None):
    c = (n - 1) / 2.0
    star = (c, c) if star is None else star
    f = kit.frame((n, n), "L3", k, img=image(k, n) if img is None else img, BUNIT="electron/s", CFAMNAME="1F", STARLOCX=star[0], STARLOCY=star[1],
                  MASKLOCX=star[0], MASKLOCY=star[1], ROLL=float(roll), PSFREF=ref, PLTSCALE=21.8)
    for y, x in bad:
        f.dq[y, x] = 4
    f.filename = "CGI_%d_L3_.fits" % k
    return chains.wcs(data.Dataset([f])).frames[0]


def recentre(a, star):
    """The image moved so that the star (whole pixels away) is in the middle; what was not observed is undefined."""
    n = a.shape[0]
    out = np.full(a.shape, np.nan)
    dy, dx = int(round((n - 1) / 2.0 - star[1])), int(round((n - 1) / 2.0 - star[0]))
    for y in range(n):
        for x in range(n):
            if 0 <= y - dy < n and 0 <= x - dx < n:
                out[y, x] = a[y - dy, x - dx]
    return out


def turn(a, roll):
    """Counterclockwise (x to the right, y up) by a multiple of 90 degrees about the middle."""
    for _ in range(int(round(roll / 90.0)) % 4):
        b = np.empty_like(a)
        n = a.shape[0]
        for y in range(n):
            for x in range(n):
                b[x, n - 1 - y] = a[y, x]
        a = b
    return a


def subtract(sci, refs, k):
    """sci minus its projection on the first k principal components of the references (vectors over the section)."""
    s = sci - np.nanmean(sci)
    hole = np.isnan(s)
    s = np.where(hole, 0.0, s)
    R = []
    for r in refs:
        r = r - np.nanmean(r)
        R.append(np.where(np.isnan(r), 0.0, r))
    R = np.array(R)
    k = min(k, len(R))
    _, sv, vt = np.linalg.svd(R - R.mean(axis=1)[:, None], full_matrices=False)
    vecs = [v for v, x in zip(vt[:k], sv[:k])]
    # components of the (mean-subtracted) references, as combinations of the references
    out = s - sum(np.dot(s, v) * v for v in vecs)
    out[hole] = np.nan
    return out


def oracle(sci, refs, mode, numbasis):
    """sci/refs: lists of (image with undefined pixels, star, roll)."""
    n = sci[0][0].shape[0]
    c = (n - 1) / 2.0
    yy, xx = np.mgrid[:n, :n]
    inside = np.hypot(xx - c, yy - c) > 0.25
    A = [recentre(a, s) for a, s, _ in sci]
    B = [recentre(a, s) for a, s, _ in refs]
    planes = []
    sure = np.ones((n, n), dtype=bool)
    for a, (_, _, roll) in zip(A, sci):
        if roll % 360:
            hole = np.isnan(a) | ~inside
            hole[0], hole[-1], hole[:, 0], hole[:, -1] = True, True, True, True
            near = np.array([[hole[max(y - 1, 0):y + 2, max(x - 1, 0):x + 2].any() for x in range(n)] for y in range(n)])
            border = np.zeros((n, n), dtype=bool)
            border[0], border[-1], border[:, 0], border[:, -1] = True, True, True, True
            only_border = np.array([[border[max(y - 1, 0):y + 2, max(x - 1, 0):x + 2].any() and not (hole & ~border)[max(y - 1, 0):y + 2, max(x - 1, 0):x + 2].any() for x in range(n)] for y in range(n)])
            sure &= turn(~near | (only_border & ~border), roll)     # (rounding of the rotation: next to an undefined pixel either outcome)
    for k in numbasis:
        done = []
        for i, (_, _, roll) in enumerate(sci):
            use = []
            if "ADI" in mode:
                use += [A[j] for j in range(len(A)) if (sci[j][2] - roll) % 360 != 0]
            if "RDI" in mode:
                use += B
            out = np.full((n, n), np.nan)
            out[inside] = subtract(A[i][inside], [u[inside] for u in use], k)
            done.append(turn(out, roll))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            planes.append(np.nanmean(np.array(done), axis=0))
    return np.array(planes), sure


def masked(f):
    return np.where(f.dq > 0, np.nan, f.data)


def expected_mode(nsci, nref):
    return "ADI" if nref == 0 else ("RDI" if nsci == 1 else "ADI+RDI")


def nrefs(sci_rolls, nref, mode):
    return [(sum((r - q) % 360 != 0 for r in sci_rolls) if "ADI" in mode else 0) + (nref if "RDI" in mode else 0) for q in sci_rolls]


def compare(c, got, want, n, msg):
    want, sure = want
    d, q, e = got.data, got.dq, got.err
    c.expect(d.shape == want.shape, lambda: "%s: output of shape %s instead of %s" % (msg, d.shape, want.shape))
    if d.shape != want.shape:
        return
    lost = (np.isnan(d) != np.isnan(want)) & sure
    c.expect(not lost.any(), lambda: "%s: undefined pixels at %s, expected at %s" % (msg, np.argwhere(np.isnan(d) & sure)[:6].tolist(), np.argwhere(np.isnan(want) & sure)[:6].tolist()))
    both = np.isfinite(d) & np.isfinite(want) & sure
    scale = 1.0 + np.nanmax(np.abs(want))
    bad = both & (np.abs(np.where(both, d, 0) - np.where(both, want, 0)) > 2e-4 * scale)
    c.expect(not bad.any(), lambda: "%s: pixel %s is %.6g instead of %.6g" % ((msg, np.argwhere(bad)[0].tolist()) + (d[tuple(np.argwhere(bad)[0])], want[tuple(np.argwhere(bad)[0])])))
    c.expect(((q > 0) == np.isnan(d)).all(), lambda: "%s: flagged pixels are not exactly the undefined ones" % msg)
    c.expect((np.isnan(e) == np.isnan(d)[None]).all(), lambda: "%s: uncertainties are not undefined exactly where the pixels are" % msg)


def klip(c, ds, **kw):
    kw.setdefault("measure_klip_thrupt", False)
    kw.setdefault("measure_1d_core_thrupt", False)
    kw.setdefault("do_crop", False)
    c.step()
    with silent():
        return l3_to_l4.do_psf_subtraction(ds, outdir=out(c), num_processes=1, **kw)


_out = {}


def out(c):
    if "d" not in _out:
        _out["d"] = c.newdir("klip")
    return _out["d"]


def check_header(c, got, ds_sci, mode, numbasis, n, msg):
    h, p = got.ext_hdr, got.pri_hdr
    c.expect(p["KLIP_ALG"] == mode, lambda: "%s: recorded mode %r instead of %r" % (msg, p["KLIP_ALG"], mode))
    m = (n - 1) / 2.0
    c.expect(h["STARLOCX"] == m and h["STARLOCY"] == m, lambda: "%s: star recorded at (%s, %s), it is at the middle (%s)" % (msg, h["STARLOCX"], h["STARLOCY"], m))
    c.expect([h.get("KLMODE%d" % i) for i in range(len(numbasis))] == list(numbasis), lambda: "%s: modes in the header %s, asked for %s" % (msg, [h.get("KLMODE%d" % i) for i in range(len(numbasis))], numbasis))
    c.expect(got.filename == ds_sci[-1].filename, lambda: "%s: named %s, not after the last science frame %s" % (msg, got.filename, ds_sci[-1].filename))
    used = {str(h["FILE_%d" % i]) for i in range(h["DRPNFILE"])}
    c.expect(all(any(u.startswith(f.filename) for u in used) for f in ds_sci) and len(used) == len(ds_sci), lambda: "%s: science frames in the header: %s" % (msg, sorted(used)))
    c.expect(any("PSF subtracted via pyKLIP %s." % mode in str(x) for x in h["HISTORY"]), lambda: "%s: no history entry" % msg)


def assignments(c, item):
    marks, rolls, explicit, n = item
    nm = len(marks)
    sci_i = [i for i in range(nm) if not marks[i]]
    ref_i = [i for i in range(nm) if marks[i]]
    key = "assign/%d/%s/%s/%s" % (n, "".join(map(str, marks)), "-".join(str(int(r)) for r in rolls), "given" if explicit else "keyword")
    with c.case(key) as go:
        if not go:
            return
        for mode in (None, "ADI", "RDI", "ADI+RDI"):
            m = mode or expected_mode(len(sci_i), len(ref_i))
            if "RDI" in m and not ref_i:
                continue
            have = nrefs([rolls[i] for i in sci_i], len(ref_i), m)
            if min(have) < 1 or (m == "ADI" and n % 2 == 0):
                continue            # (without references images of even size are centred on a pixel)
            for numbasis in NUMBASIS:
                nb = [numbasis] if isinstance(numbasis, int) else numbasis
                if max(nb) < max(have):
                    continue        # (pyKLIP then picks the most correlated references)
                if nb != [1, 2, 3] and mode is not None and not c.thorough:
                    continue
                fs = [frame(i, n, rolls[i], 0 if explicit else marks[i], bad=[(1 + i % 2, 2 + i)]) for i in range(nm)]
                sci = [fs[i] for i in sci_i]
                refs = [fs[i] for i in ref_i]
                kw = dict(numbasis=numbasis)
                if mode is not None or c.thorough:
                    kw["mode"] = mode
                if explicit:
                    ds = data.Dataset(sci)
                    if refs:
                        kw["reference_star_dataset"] = data.Dataset(refs)
                else:
                    ds = data.Dataset(fs)
                want = oracle([(masked(f), (f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"]), f.pri_hdr["ROLL"]) for f in sci],
                              [(masked(f), (f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"]), 0) for f in refs], m, nb)
                got = klip(c, ds, **kw)
                msg = "frames %s rolls %s %s mode %s numbasis %s" % (marks, rolls, "given references" if explicit else "PSFREF", mode, numbasis)
                c.state(key, mode, numbasis)
                c.expect(len(got.frames) == 1, lambda: "%s: %d frames" % (msg, len(got.frames)))
                compare(c, got.frames[0], want, n, msg)
                check_header(c, got.frames[0], sci, m, nb, n, msg)
        c.outcome("assign", len(sci_i), len(ref_i))


def stars(c, item):
    """Star positions away from the middle (whole pixels), with and without cropping about the star."""
    n, offs, crop = item
    key = "star/%d/%s/%s" % (n, offs, crop)
    with c.case(key) as go:
        if not go:
            return
        mid = (n - 1) / 2.0
        fs = []
        for k, (dx, dy) in enumerate(offs):
            fs.append(frame(k, n, roll=0.0, ref=int(k > 0), star=(mid + dx, mid + dy)))
        kw = dict(numbasis=[1, 2, 3])
        if crop:
            kw.update(do_crop=True, crop_sizexy=[crop, crop])
        got = klip(c, data.Dataset(fs), **kw).frames[0]

        def cut(f):
            a, s = masked(f), (f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"])
            if not crop:
                return a, s
            x0, y0 = int(round(s[0] - (crop - 1) / 2.0)), int(round(s[1] - (crop - 1) / 2.0))
            return a[y0:y0 + crop, x0:x0 + crop], (s[0] - x0, s[1] - y0)
        want = oracle([cut(fs[0]) + (0,)], [cut(f) + (0,) for f in fs[1:]], "RDI", [1, 2, 3])
        compare(c, got, want, crop or n, "stars at %s from the middle, crop %s" % (offs, crop))
        check_header(c, got, fs[:1], "RDI", [1, 2, 3], crop or n, "stars at %s, crop %s" % (offs, crop))
        c.state(key)


# --- injected sources, noise and throughput
STAMP = 15
S2F = 2 * math.sqrt(2 * math.log(2))


def ct_grid(star, det=(0, 0), step=4.0, half=3):
    """Gaussian point-spread functions on a grid around the star (in detector pixels), each of its own width and height."""
    y, x = np.mgrid[:STAMP, :STAMP] - STAMP // 2
    pos, psfs, sig = [], [], []
    i = 0
    for gx in range(-half, half + 1):
        for gy in range(-half, half + 1):
            s = 1.2 + 0.12 * ((i * 3) % 7)
            pos.append((star[0] + det[0] + gx * step + 0.3 * (gy % 2) + 0.5, star[1] + det[1] + gy * step + 0.5, 0.1 + 0.01 * i))
            psfs.append((5 + i) * np.exp(-(x ** 2 + y ** 2) / (2 * s * s)))
            sig.append(s)
            i += 1
    return kit.ctcal(pos=np.array(pos).T, psfs=np.array(psfs)), np.array(pos), np.array(sig)


def where_is(sep, pa, roll):
    """Offset (x to the right, y up) of a source: position angle counterclockwise from up on the sky, the frame turned by roll."""
    t = math.radians(pa - roll)
    return -sep * math.sin(t), sep * math.cos(t)


def injections(c, item):
    star, roll, det = item
    key = "inject/%s/%s/%s" % (star, roll, det)
    with c.case(key) as go:
        if not go:
            return
        n = 41
        ct, pos, sig = ct_grid(star, det)
        for sep in (3.0, 4.0, 6.5, 9.0):
            for pa in (0.0, 30.0, 90.0, 135.0, 180.0, 250.0, 270.0, 359.0):
                img = np.round(image(3, n))
                f = frame(0, n, roll, star=star, img=img)
                if det != (0, 0):
                    f.ext_hdr["DETPIX0X"], f.ext_hdr["DETPIX0Y"] = det
                dx, dy = where_is(sep, pa, roll)
                c.step()
                g, model, at = klip_fm.inject_psf(f, ct, 100.0, sep, pa)
                d = np.hypot(pos[:, 0] - 0.5 - det[0] - (star[0] + dx), pos[:, 1] - 0.5 - det[1] - (star[1] + dy))
                o = np.sort(d)
                c.state(key, sep, pa)
                c.expect(np.array_equal(f.data, img), "the frame itself was changed")
                c.expect(abs(at[0] - star[0] - dx) < 1e-9 and abs(at[1] - star[1] - dy) < 1e-9, lambda: "roll %s sep %s pa %s: reported at %s, belongs at %s" % (roll, sep, pa, at, (star[0] + dx, star[1] + dy)))
                c.expect(abs(np.nanmax(model) - 100.0) < 1e-9, lambda: "peak of the model is %s instead of 100" % np.nanmax(model))
                if o[1] - o[0] < 0.1:
                    continue
                s = sig[int(np.argmin(d))]
                y, x = np.mgrid[:n, :n]
                want = 100.0 * np.exp(-((x - star[0] - dx) ** 2 + (y - star[1] - dy) ** 2) / (2 * s * s))
                diff = np.abs(g.data - img - want)
                c.expect(diff.max() < 1.2, lambda: "star %s roll %s detector offset %s, source at separation %s angle %s: injected light differs from the nearest measured point-spread function (width %.2f) there by %.3g of a peak of 100 at pixel %s"
                         % (star, roll, det, sep, pa, s, diff.max(), np.unravel_index(int(np.argmax(diff)), diff.shape)[::-1]))
        c.outcome("inject", det == (0, 0))


def noises(c, item):
    star, hw, cands = item
    key = "noise/%s/%s/%s" % (star, hw, cands)
    with c.case(key) as go:
        if not go:
            return
        n = 21
        cube = np.array([image(k, n) for k in range(3)])
        cube[:, 2, 5] = np.nan
        f = kit.frame((n, n), "L4", 0)
        f = data.Image(cube, pri_hdr=f.pri_hdr.copy(), ext_hdr=f.ext_hdr.copy(), err=np.zeros((1,) + cube.shape), dq=np.zeros(cube.shape, dtype=np.uint16))
        f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"] = star
        seps = [5.0, 3.0, 8.25, 1.9]
        c.step()
        with silent():
            got = klip_fm.measure_noise(f, np.array(seps), hw, cand_locs=list(cands))
            one = [klip_fm.measure_noise(f, np.array(seps), hw, k, list(cands)) for k in range(3)]
        for i, s in enumerate(seps):
            for k in range(3):
                v = []
                for y in range(n):
                    for x in range(n):
                        r = math.hypot(x - star[0], y - star[1])
                        if not s - hw < r < s + hw or math.isnan(cube[k, y, x]):
                            continue
                        if any(math.hypot(x - star[0] - where_is(cs, ca, 0)[0], y - star[1] - where_is(cs, ca, 0)[1]) <= 5 * hw for cs, ca in cands):
                            continue
                        v.append(cube[k, y, x])
                if not v:
                    c.expect(math.isnan(got[i][k]), "noise without pixels is %s" % got[i][k])
                    continue
                m = math.fsum(v) / len(v)
                want = math.sqrt(math.fsum((a - m) ** 2 for a in v) / len(v))
                c.state(key, s, k)
                c.expect(abs(got[i][k] - want) <= 1e-9 * (1 + want), lambda: "noise at separation %s, plane %d: %s instead of %s" % (s, k, got[i][k], want))
                c.expect(abs(one[k][i] - want) <= 1e-9 * (1 + want), lambda: "noise of plane %d alone at separation %s: %s instead of %s" % (k, s, one[k][i], want))
        c.outcome("noise", bool(cands))


def coron(k, ref, n, star, roll, det):
    """A strong fixed speckle pattern of its own per observation plus weak noise; the reference star shares the pattern."""
    y, x = np.mgrid[:n, :n]
    pattern = 300.0 * np.cos(2.1 * (x - star[0])) * np.cos(1.7 * (y - star[1]))
    r = np.random.RandomState(50 + k)
    f = frame(k, n, roll, int(ref), star, img=pattern * (0.7 if ref else 1.0) + r.normal(scale=0.2, size=(n, n)) + 3.0)
    if det != (0, 0):
        f.ext_hdr["DETPIX0X"], f.ext_hdr["DETPIX0Y"] = det
    return f


def throughputs(c, item):
    """References that do not resemble a point source leave the injected sources as they are: throughput one, width unchanged; the core throughput is the one measured nearest to each separation."""
    seps, roll, nsci, det, n, shift, crop = item
    key = "throughput/%s/%s/%s/%s/%s/%s/%s" % (seps, roll, nsci, det, n, shift, crop)
    with c.case(key) as go:
        if not go:
            return
        star = ((n - 1) / 2.0 + shift[0], (n - 1) / 2.0 + shift[1])
        # width and throughput depend on the distance from the star only
        y, x = np.mgrid[:STAMP, :STAMP] - STAMP // 2
        pos, psfs = [], []
        for r in (5.0, 8.0, 11.0, 14.0):
            for a in np.arange(0, 360, 30):
                s = 1.2 + 0.04 * r
                pos.append((star[0] + det[0] + 0.5 + r * math.cos(math.radians(a)), star[1] + det[1] + 0.5 + r * math.sin(math.radians(a)), 0.05 * r))
                psfs.append(np.exp(-(x ** 2 + y ** 2) / (2 * s * s)))
        ct = kit.ctcal(pos=np.array(pos).T, psfs=np.array(psfs))
        fs = [coron(k, False, n, star, roll * (k + 1), det) for k in range(nsci)] + [coron(7, True, n, star, 0, det), coron(8, True, n, star, 0, det)]
        nb = [1, 2]
        kw = dict(do_crop=True, crop_sizexy=[crop, crop]) if crop else {}
        g = klip(c, data.Dataset(fs), mode="RDI", numbasis=nb, ct_calibration=ct, measure_klip_thrupt=True, measure_1d_core_thrupt=True,
                 kt_snr=200.0, kt_seps=np.array(seps), kt_pas=np.array([0.0, 120.0, 240.0]), fileprefix="t", **kw).frames[0]
        kl, one = g.hdu_list["KL_THRU"].data, g.hdu_list["CT_THRU"].data
        c.expect(kl.shape == (3, len(seps), 2), lambda: "throughput table of shape %s" % (kl.shape,))
        c.expect(np.array_equal(kl[0, :, 0], seps), lambda: "separations in the throughput table: %s" % kl[0, :, 0])
        c.expect(np.array_equal(one[0], seps), lambda: "separations in the core throughput table: %s" % one[0])
        for i, s in enumerate(seps):
            near = min((5.0, 8.0, 11.0, 14.0), key=lambda r: abs(r - s))
            fwhm = 2 * math.sqrt(2 * math.log(2)) * (1.2 + 0.04 * near)
            c.state(key, s)
            c.expect(abs(one[1][i] - 0.05 * near) < 1e-9, lambda: "core throughput at separation %s is %s, nearest measurement (at %s) has %s" % (s, one[1][i], near, 0.05 * near))
            for k in range(len(nb)):
                c.expect(abs(kl[1 + k, i, 0] - 1.0) < 0.06, lambda: "throughput at separation %s with %d modes is %s, the references cannot remove anything" % (s, nb[k], kl[1 + k, i, 0]))
                c.expect(abs(kl[1 + k, i, 1] - fwhm) < 0.035 * fwhm, lambda: "width at separation %s with %d modes is %s, injected sources are %s wide" % (s, nb[k], kl[1 + k, i, 1], fwhm))
        c.outcome("throughput", nsci)


def orders(c, item):
    """References that resemble some of the injected sources: the throughput depends on the number of modes, and each row belongs to its own, in whatever order they are asked for."""
    roll, asked = item
    key = "order/%s/%s" % (roll, asked)
    with c.case(key) as go:
        if not go:
            return
        n, seps = 41, (7.5, 10.5)
        star = (20.0, 20.0)
        y, x = np.mgrid[:STAMP, :STAMP] - STAMP // 2
        yy, xx = np.mgrid[:n, :n]
        pos, psfs = [], []
        for r in (5.0, 8.0, 11.0, 14.0):
            for a in np.arange(0, 360, 30):
                pos.append((star[0] + 0.5 + r * math.cos(math.radians(a)), star[1] + 0.5 + r * math.sin(math.radians(a)), 0.05 * r))
                psfs.append(np.exp(-(x ** 2 + y ** 2) / (2 * 1.5 ** 2)))
        ct = kit.ctcal(pos=np.array(pos).T, psfs=np.array(psfs))

        def table(nb):
            refs = [coron(k, True, n, star, 0, (0, 0)) for k in (7, 8, 9)]
            for k, f in enumerate(refs):
                for j in range(k):
                    for s in seps:
                        dx, dy = where_is(s, 120.0 * j, roll)
                        f.data[:] += 150.0 * np.exp(-((xx - star[0] - dx) ** 2 + (yy - star[1] - dy) ** 2) / (2 * 1.5 ** 2))
            fs = [coron(0, False, n, star, roll, (0, 0))] + refs
            g = klip(c, data.Dataset(fs), mode="RDI", numbasis=list(nb), ct_calibration=ct, measure_klip_thrupt=True, kt_snr=200.0,
                     kt_seps=np.array(seps), kt_pas=np.array([0.0, 120.0, 240.0]), fileprefix="o").frames[0]
            return g.hdu_list["KL_THRU"].data, g.data
        up, pu = table(sorted(asked))
        got, pg = table(asked)
        c.expect(np.abs(up[1] - up[-1]).max() > 0.03, "the modes do not differ (%s)" % up.tolist())
        for i, m in enumerate(asked):
            j = sorted(asked).index(m)
            c.expect(np.allclose(pg[i], pu[j], atol=1e-6, equal_nan=True), lambda: "asked for %s modes: plane %d is not the one with %d modes" % (asked, i, m))
            c.expect(np.allclose(got[1 + i], up[1 + j], rtol=1e-4), lambda: "asked for %s modes: throughput and width in row %d are %s, with %d modes they are %s" % (asked, 1 + i, got[1 + i].tolist(), m, up[1 + j].tolist()))
        c.state(key)


def narrowed(c, item):
    """A reference with a broad blob on top of an injected source takes the light of its wings: throughput (of the counts of a fitted Gaussian) and width, against the same subtraction done here."""
    pa, sep, width, modes = item
    key = "narrowed/%s/%s/%s/%s" % item
    with c.case(key) as go:
        if not go:
            return
        from pyklip.fakes import gaussfit2d
        n, s0 = 41, 1.5
        star = (20.0, 20.0)
        y, x = np.mgrid[:STAMP, :STAMP] - STAMP // 2
        yy, xx = np.mgrid[:n, :n]
        pos = [(star[0] + 0.5 + sep * math.cos(math.radians(a)), star[1] + 0.5 + sep * math.sin(math.radians(a)), 0.3) for a in np.arange(0, 360, 30)]
        ct = kit.ctcal(pos=np.array(pos).T, psfs=np.array([np.exp(-(x ** 2 + y ** 2) / (2 * s0 ** 2))] * len(pos)))
        dx, dy = where_is(sep, pa, 0.0)
        r2 = (xx - star[0] - dx) ** 2 + (yy - star[1] - dy) ** 2
        fs = [coron(0, False, n, star, 0, (0, 0)), coron(7, True, n, star, 0, (0, 0)), coron(8, True, n, star, 0, (0, 0))]
        fs[2].data[:] += 300.0 * np.exp(-r2 / (2 * width ** 2))
        g = klip(c, data.Dataset(fs), mode="RDI", numbasis=list(modes), ct_calibration=ct, measure_klip_thrupt=True, kt_snr=500.0,
                 kt_seps=np.array([sep]), kt_pas=np.array([pa]), fileprefix="n").frames[0]
        t = g.hdu_list["KL_THRU"].data
        inside = np.hypot(xx - star[0], yy - star[1]) > 0.25
        left = []
        for k, m in enumerate(modes):
            if m < 2:
                continue                                    # (one mode leaves a part of the blob in the image)
            im = np.zeros((n, n))
            im[inside] = subtract((1000.0 * np.exp(-r2 / (2 * s0 ** 2)))[inside], [f.data[inside] for f in fs[1:]], m)
            peak, fwhm, _, _ = gaussfit2d(im, star[0] + dx, star[1] + dy, searchrad=5, guessfwhm=2.8, guesspeak=1000.0, refinefit=True)
            want = (peak * fwhm ** 2 / (1000.0 * (s0 * S2F) ** 2), fwhm)
            left.append(want)
            c.expect(abs(t[1 + k, 0, 0] - want[0]) < 0.06 * want[0] and abs(t[1 + k, 0, 1] - want[1]) < 0.03 * want[1],
                     lambda: "source at separation %s angle %s under a blob %s wide, %d modes: throughput %.4f and width %.3f, the subtraction leaves %.4f and %.3f" % ((sep, pa, width, m) + tuple(t[1 + k, 0]) + want))
        c.state(key)
        c.outcome("narrowed", [round(a, 1) for w in left for a in w])


def candidates(c, item):
    """A bright companion near some of the injections: told of it, the throughput leaves them out and stays one; the others are measured as if it were not there."""
    roll, where, apart, modes = item
    key = "candidate/%s/%s/%s/%s" % item
    with c.case(key) as go:
        if not go:
            return
        n, sep = 51, 11.0
        star = (25.0, 25.0)
        y, x = np.mgrid[:STAMP, :STAMP] - STAMP // 2
        yy, xx = np.mgrid[:n, :n]
        pos, psfs = [], []
        for r in (8.0, 11.0, 14.0):
            for a in np.arange(0, 360, 30):
                pos.append((star[0] + 0.5 + r * math.cos(math.radians(a)), star[1] + 0.5 + r * math.sin(math.radians(a)), 0.05 * r))
                psfs.append(np.exp(-(x ** 2 + y ** 2) / (2 * 1.5 ** 2)))
        ct = kit.ctcal(pos=np.array(pos).T, psfs=np.array(psfs))
        fs = [coron(0, False, n, star, roll, (0, 0)), coron(7, True, n, star, 0, (0, 0)), coron(8, True, n, star, 0, (0, 0))]
        dx, dy = where_is(sep + apart, where, roll)
        fs[0].data[:] += 400.0 * np.exp(-((xx - star[0] - dx) ** 2 + (yy - star[1] - dy) ** 2) / (2 * 1.5 ** 2))
        g = klip(c, data.Dataset(fs), mode="RDI", numbasis=list(modes), ct_calibration=ct, measure_klip_thrupt=True, kt_snr=200.0, cand_locs=[(sep + apart, where)],
                 kt_seps=np.array([sep]), kt_pas=np.array([0.0, 180.0]), fileprefix="c").frames[0]
        t = g.hdu_list["KL_THRU"].data
        c.expect(t.shape == (1 + len(modes), 1, 2), lambda: "throughput table of shape %s" % (t.shape,))
        for k, m in enumerate(modes):
            c.expect(abs(t[1 + k, 0, 0] - 1.0) < 0.06, lambda: "companion at separation %s angle %s, roll %s: throughput with %d modes is %s, nothing is removed" % (sep + apart, where, roll, m, t[1 + k, 0, 0]))
        c.state(key)


def defaults(c, item):
    """Separations not given: from the inner to the outer working angle (140 and 450 mas), three widths apart, in pixels of the frames' own scale; other masks and filters have none."""
    scale, roll = item
    key = "defaults/%s/%s" % item
    with c.case(key) as go:
        if not go:
            return
        n = 2 * int(450.0 / scale + 9) + 1
        star = ((n - 1) / 2.0,) * 2
        y, x = np.mgrid[:STAMP, :STAMP] - STAMP // 2
        pos, psfs = [], []
        for r in np.arange(4.0, 450 / scale + 3, 3.0):
            for a in np.arange(0, 360, 30):
                pos.append((star[0] + 0.5 + r * math.cos(math.radians(a)), star[1] + 0.5 + r * math.sin(math.radians(a)), 0.02 * r))
                psfs.append(np.exp(-(x ** 2 + y ** 2) / (2 * (1.5 * 21.8 / scale) ** 2)))
        ct = kit.ctcal(pos=np.array(pos).T, psfs=np.array(psfs))

        def go_(**over):
            fs = [coron(0, False, n, star, roll, (0, 0)), coron(7, True, n, star, 0, (0, 0)), coron(8, True, n, star, 0, (0, 0))]
            for f in fs:
                f.ext_hdr.update(dict(dict(PLTSCALE=scale, LSAMNAME="NFOV", FPAMNAME="HLC12_C2R1"), **over))
            return klip(c, data.Dataset(fs), mode="RDI", numbasis=[1], ct_calibration=ct, measure_klip_thrupt=True, kt_snr=200.0, fileprefix="d").frames[0]
        t = go_().hdu_list["KL_THRU"].data
        gap = 3 * 1.22 * 573.8e-9 / 2.36 * 206265e3 / scale
        want = []
        while 140.0 / scale + len(want) * gap < 450.0 / scale:
            want.append(140.0 / scale + len(want) * gap)
        c.expect(t.shape == (2, len(want), 2), lambda: "throughput table of shape %s for the separations %s" % (t.shape, want))
        c.same(t[0, :, 0], np.array(want), "separations", rtol=1e-6)
        # (close in, the five sources injected per separation overlap)
        c.expect(np.all(np.abs(t[1, :, 0] - 1.0)[np.array(want) > 6] < 0.06), lambda: "throughput %s, the references cannot remove anything" % t[1, :, 0])
        for over in (dict(LSAMNAME="WFOV"), dict(FPAMNAME="SPC12_R1C1"), dict(CFAMNAME="3C")):
            c.raises(lambda: go_(**over), "separations for %s" % over)
        c.state(key)


def run(c):
    big = 4 if c.thorough else 3
    ROLLS = (0.0, 90.0, 180.0, 270.0)
    items = []
    for nm in range(1, big + 1):
        for marks in itertools.product((0, 1), repeat=nm):
            ns = marks.count(0)
            if ns == 0:
                continue
            for rr in itertools.product(ROLLS, repeat=ns):
                if ns == 4 and rr[0] != 0.0:
                    continue
                it = iter(rr)
                rolls = tuple(next(it) if not m else 33.0 * (i + 1) for i, m in enumerate(marks))
                if min(nrefs([r for r, m in zip(rolls, marks) if not m], marks.count(1), expected_mode(ns, marks.count(1)))) < 1:
                    continue
                for explicit in (False, True):
                    if explicit and 0 in marks[:1] and list(marks) != sorted(marks):
                        continue
                    for n in ((9, 10, 12) if c.thorough else (9 if (nm + int(explicit)) % 2 or nm == ns else 10,)):
                        items.append((marks, rolls, explicit, n))
    c.bound(frames=big, rolls=ROLLS, numbasis=[str(x) for x in NUMBASIS], assignments=len(items))
    c.fan(items, assignments)
    S = []
    offs = [(0, 0), (1, 0), (-1, 0), (0, 2), (2, -1), (-2, -2)]
    for n in (9, 10, 12):
        for a in offs:
            for b in (offs if c.thorough else offs[:2] + [a]):
                for crop in (None,) + ((n - 4,) if n % 2 == 0 else ()):
                    S.append((n, (a, b, (0, 1)), crop))
    c.bound(star_positions=len(S))
    c.fan(sorted(set(S), key=str), stars)
    I = [(st, r, det) for st in ((20.0, 20.0), (20.5, 19.5), (18.25, 21.0)) for r in (0.0, 90.0, 33.0, -15.0) for det in ((0, 0), (482, 480))]
    c.bound(injection_grids=len(I))
    c.fan(I, injections)
    c.fan([(st, hw, cands) for st in ((10.0, 10.0), (10.5, 9.25)) for hw in (0.75, 1.5) for cands in ((), ((5.0, 40.0),), ((5.0, 40.0), (8.0, 200.0)))], noises)
    T = [(s, r, ns, det, 41, sh, None) for s in ((7.5, 10.5), (10.5, 7.5), (6.75, 13.0, 9.75)) for r in (0.0, 90.0) for ns in (1, 2) for det in ((0, 0), (480, 482)) for sh in ((0, 0), (1, -2))]
    T += [(s, 0.0, 1, (0, 0), 56, sh, 42) for s in ((7.5, 10.5), (10.5, 7.5)) for sh in ((0, 0), (3, -2))]
    c.bound(throughput_runs=len(T))
    c.fan(T, throughputs)
    c.fan([(s, r) for s in (21.8, 30.0) for r in (0.0, 90.0)], defaults)
    c.fan([(r, a) for r in (0.0, 90.0) for a in ((3, 1), (2, 1), (1, 3, 2), (3, 1, 2))], orders)
    c.fan([(r, w, a, m) for r in (0.0, 90.0, -30.0) for w in (0.0, 10.0, 180.0, 350.0) for a in (0.0, 4.0, -3.0) for m in ((1, 2), (2,))], candidates)
    c.fan([(pa, s, w, m) for pa in (0.0, 90.0, 120.0, 225.0) for s in (8.0, 11.0) for w in (2.5, 4.0) for m in ((1, 2), (2,), (2, 1))], narrowed)
