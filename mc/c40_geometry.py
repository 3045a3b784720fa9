"""C40: finding the star from satellite spots, undistorting and turning north up: synthetic scenes whose answer is known by construction, enumerated over
modes, positions, separations, guesses, frame orders, polynomials, orientations and rotation centres."""
import copy
import itertools
import math
import warnings

import numpy as np
from astropy.wcs import WCS

import corgidrp.data as data
from corgidrp import l3_to_l4, star_center
from mc import kit
from mc.c13_templates import quiet as _quiet

SIZE = {"NFOV": 53, "SPEC660": 61, "SPEC730": 61, "WFOV": 121}
SEP = {"NFOV": 6.5 * 51.46 * 0.575 / 13, "SPEC660": 6 * 51.46 * 0.730 / 13, "SPEC730": 6 * 51.46 * 0.730 / 13, "WFOV": 13 * 51.46 * 0.825 / 13}
ANG = {"NFOV": (0, 90), "WFOV": (0, 90), "SPEC660": (0,), "SPEC730": (0,)}


def quiet(fn, *a, **k):
    with _quiet():
        return fn(*a, **k)


def gauss(shape, x0, y0, sig, amp=100.0):
    y, x = np.indices(shape)
    return amp * np.exp(-((x - x0) ** 2 + (y - y0) ** 2) / 2 / sig ** 2)


def spots(shape, star, sep, angs, sig=1.3, amps=(100, 100, 100, 100)):
    o, k = np.zeros(shape), 0
    for a in angs:
        for turn in (0, math.pi):
            t = math.radians(a) + turn
            o += gauss(shape, star[0] + sep * math.cos(t), star[1] + sep * math.sin(t), sig, amps[k])
            k += 1
    return o


def sky(shape):
    """Something common to all frames that has to cancel: a gradient and a bright off-centre star."""
    y, x = np.indices(shape)
    return 5 + 0.3 * x - 0.2 * y + gauss(shape, shape[1] * 0.3, shape[0] * 0.62, 4, 900)


def frames(mode, shape, star, sep, nsci=1, nsat=1, angs=None, amps=(100,) * 4, common=True, outliers=True, order=None, base=0):
    fs = []
    bg = sky(shape) if common else np.zeros(shape)
    sp = spots(shape, star, sep, ANG[mode] if angs is None else angs, amps=amps)
    for j in range(nsci + nsat):
        img = bg + (sp if j >= nsci else 0)
        k = j if j < nsci else j - nsci
        n = nsci if j < nsci else nsat
        if outliers and n >= 3 and k == 0:               # one frame per kind ruined in a corner: the median ignores it
            img = img + gauss(shape, 20.0, 12.0, 2, 5000.0)
        f = kit.frame(shape, "L3", base + j, img=img, err=np.full(shape, 0.5 + j), dq=((np.arange(shape[0] * shape[1]).reshape(shape) + j) % 7 == 0).astype(np.uint16) * 4,
                      FSMPRFL=mode, SATSPOTS=int(j >= nsci))
        f.pri_hdr["SATSPOTS"] = int(j >= nsci)
        f.ext_hdr["FSMPRFL"] = mode
        f.filename = "CGI_%s%02d_L3_.fits" % ("sat" if j >= nsci else "sci", j)
        fs.append(f)
    return fs if order is None else [fs[i] for i in order]


FAST = {"offset": dict(nSubpixels=10, nIter=4), "separation": dict(nSubpixels=10, nIter=3)}


def check_found(c, out, ins, star, drop, tol, what=""):
    want = [f for f in ins if not (drop and f.pri_hdr["SATSPOTS"] == 1)]
    c.equal([f.filename for f in out], [f.filename for f in want], what + "the frames that stay, in order")
    for f, g in zip(out, want):
        x, y = f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"]
        c.expect(abs(x - star[0]) < tol and abs(y - star[1]) < tol, what + "star found at (%r, %r), is at %r" % (x, y, star))
        c.same(f.data, g.data, what + "pixels", exact=True)
        c.same(f.err, g.err, what + "err", exact=True)
        c.same(f.dq, g.dq, what + "dq", exact=True)
        c.equal(f.pri_hdr["SATSPOTS"], g.pri_hdr["SATSPOTS"], what + "kind")
        c.step()


def one_star(c, item):
    mode, off, guess, dsep, nsci, nsat, order, drop, full, size = item
    n = size or SIZE[mode]
    shape = (n, n) if isinstance(n, int) else n
    cen = (shape[1] // 2, shape[0] // 2)
    star = (cen[0] + off[0], cen[1] + off[1])
    with c.case("star/%s/%s/%s/%s/%s+%s/%s/%s/%s/%s" % item, mode=mode, offset=off, guess=guess, separation_error=dsep, frames=(nsci, nsat), order=order, drop=drop, full_parameters=full, shape=shape):
        fs = frames(mode, shape, star, SEP[mode] + dsep, nsci, nsat, order=order)
        ds = data.Dataset([f.copy() for f in fs])
        kw = {}
        if guess is not None:
            kw["star_coordinate_guess"] = (star[0] + guess[0], star[1] + guess[1])
        if not full:
            kw["satellite_spot_parameters"] = copy.deepcopy(FAST)
        if drop is not None:
            kw["drop_satspots_frames"] = drop
        before = copy.deepcopy(star_center.satellite_spot_parameters_defaults)
        out = quiet(l3_to_l4.find_star, ds, **kw)
        c.expect(before == star_center.satellite_spot_parameters_defaults, "the default parameters changed")
        check_found(c, out, fs, star, drop is None or drop, 0.02 if abs(dsep) < 0.3 else 0.05)
        c.state(mode, off, guess)


def star_cases(c):
    t = c.thorough
    cases = []
    offs = [(0, 0), (1.3, -2.4), (-0.5, 0.25), (2, 1)] + ([(-2.7, 2.2), (0.1, -0.1), (3, -3), (-1, 0.75)] if t else [])
    for mode in SIZE:
        for off in offs:
            cases.append((mode, off, None, 0, 1, 1, None, None, False, None))
        cases.append((mode, (0.75, -0.5), None, 0, 1, 1, None, None, True, None))           # all defaults
    for off in [(9, -7), (-6.5, 4.25)] + ([(0, 11), (-10.3, -9.6)] if t else []):                # far from the centre: the guess matters
        for guess in [(0, 0), (0.8, -0.6)] + ([(-1.5, 1.5)] if t else []):
            for mode in ("NFOV", "SPEC660"):
                cases.append((mode, off, guess, 0, 1, 1, None, None, False, None))
    for dsep in (0.4, -0.5):
        cases.append(("NFOV", (0.5, 0.5), None, dsep, 1, 1, None, False, False, None))
    cases += [("NFOV", (1, -0.5), None, 0, 3, 3, o, d, False, None)
              for o, d in [(None, True), (None, False), ((3, 0, 4, 1, 5, 2), True), ((5, 4, 3, 2, 1, 0), False)]]
    if t:
        cases += [("NFOV", (1, -0.5), None, 0, 2, 1, o, d, False, None) for o in itertools.permutations(range(3)) for d in (True, False)]
    cases += [("NFOV", (0.75, 1.5), None, 0, 1, 1, None, None, False, s) for s in ((52, 52), (53, 60), (61, 52))]
    c.bound(star_cases=len(cases))
    c.fan(cases, one_star)


def star_more(c):
    """Refusals; a median of frames; user parameters; results do not change when everything moves by whole pixels."""
    mode, n = "NFOV", 53
    fs = frames(mode, (n, n), (27, 25.5), SEP[mode], 2, 2)
    with c.case("star/refuse/kind"):
        for bad in (2, -1, "1"):
            g = [f.copy() for f in fs]
            g[1].pri_hdr["SATSPOTS"] = bad
            c.raises(lambda: quiet(l3_to_l4.find_star, data.Dataset(g)), "SATSPOTS=%r" % (bad,))
    for k in range(4):
        with c.case("star/refuse/mode/%d" % k):
            g = [f.copy() for f in fs]
            g[k].ext_hdr["FSMPRFL"] = "WFOV"
            c.raises(lambda: quiet(l3_to_l4.find_star, data.Dataset(g)), "mixed modes")
    for sec, key in (("offset", "nope"), ("nope", "nIter"), ("separation", "spotsep")):
        with c.case("star/refuse/parameter/%s.%s" % (sec, key)):
            c.raises(lambda: quiet(l3_to_l4.find_star, data.Dataset([f.copy() for f in fs]), satellite_spot_parameters={sec: {key: 1}}), "unknown parameter")
    with c.case("star/parameters"):
        # spots laid out at other angles and another separation, told by parameters
        prm = copy.deepcopy(FAST)
        for s in prm:
            prm[s].update(probeRotVecDeg=[30, 120], spotSepPix=12.0)
        g = frames(mode, (n, n), (26.75, 24.5), 12.0, 1, 1, angs=(30, 120))
        keep = copy.deepcopy(prm)
        out = quiet(l3_to_l4.find_star, data.Dataset([f.copy() for f in g]), satellite_spot_parameters=prm)
        c.equal(prm, keep, "the caller's parameters")
        check_found(c, out, g, (26.75, 24.5), True, 0.02)
    for odd in range(6):
        with c.case("star/median/%d" % odd):
            # the median of the frames of each kind counts, whichever of them is off
            g = frames(mode, (n, n), (26.5, 25), SEP[mode], 3, 3, outliers=False, amps=(100,) * 4)
            g[odd].data = frames(mode, (n, n), (24.5, 27), SEP[mode], 0, 1, outliers=False)[0].data + (odd < 3) * 7.0
            a = quiet(l3_to_l4.find_star, data.Dataset([f.copy() for f in g]), satellite_spot_parameters=copy.deepcopy(FAST))
            prm = copy.deepcopy(star_center.satellite_spot_parameters_defaults[mode])
            for s in FAST:
                prm[s].update(FAST[s])
            want, _ = star_center.star_center_from_satellite_spots(np.median([f.data for f in g[:3]], axis=0), np.median([f.data for f in g[3:]], axis=0), (26, 26), 0, prm)
            c.same([a[0].ext_hdr["STARLOCX"], a[0].ext_hdr["STARLOCY"]], want, "centre of the median frame", rtol=1e-12)
    for mode in ("NFOV", "SPEC660"):
        n = SIZE[mode]
        prm = copy.deepcopy(star_center.satellite_spot_parameters_defaults[mode])
        for s in FAST:
            prm[s].update(FAST[s])
        for sep, th, level in itertools.product((-1.0, 0.0, 0.6), (0, 30), (0, -60, -150, 40)):      # (the frames without spots may be brighter or fainter as a whole)
            with c.case("star/spots/%s/%s/%s/%s" % (mode, sep, th, level)):
                star = (n // 2 + 1.25, n // 2 - 0.5)
                im = spots((n, n), star, SEP[mode] + sep, ANG[mode])
                xy, lst = star_center.star_center_from_satellite_spots(np.zeros((n, n)), im + level, (n // 2, n // 2), th, prm)
                c.same(xy, star, "star", rtol=0, atol=0.05)
                c.equal(np.shape(lst), (2 * len(ANG[mode]), 2), "one location per spot")
                k = 0
                for a in ANG[mode]:
                    for turn in (0, math.pi):
                        ang = math.radians(a + th) + turn
                        c.same(lst[k], [1.25 + (SEP[mode] + sep) * math.cos(ang), -0.5 + (SEP[mode] + sep) * math.sin(ang)], "spot %d relative to the centre pixel" % k, rtol=0, atol=0.1)
                        k += 1
    with c.case("star/shape"):
        c.raises(lambda: star_center.star_center_from_satellite_spots(np.zeros((30, 30)), np.zeros((31, 30)), (15, 15), 0, prm), "different shapes", kinds=(TypeError, ValueError))


def helpers(c):
    for nx, ny, r, dx, dy, ns in itertools.product((12, 13), (12, 15), (1.5, 3.0), (0, 0.3, -1.75, 5.5), (0, 0.6, -2), (10, 21)):
        with c.case("circle/%d/%d/%s/%s/%s/%d" % (nx, ny, r, dx, dy, ns)):
            m = star_center.circle(nx, ny, r, dx, dy, nSubpixels=ns)
            u = (np.arange(ns) - (ns - 1) / 2) / ns
            xs = (np.arange(nx)[:, None] - nx // 2 + u[None, :]).reshape(-1) - dx
            ys = (np.arange(ny)[:, None] - ny // 2 + u[None, :]).reshape(-1) - dy
            full = ((xs[None, :] ** 2 + ys[:, None] ** 2) <= r * r * (1 + 1e-12)).reshape(ny, ns, nx, ns).sum(axis=(1, 3)) / ns ** 2
            c.expect(m.shape == (ny, nx), "shape")
            c.expect(np.max(np.abs(m - full)) <= 9 / ns ** 2, "differs from counting all sub-pixels by %r" % np.max(np.abs(m - full)))   # ties on the rim are free
            c.step()
    for a, x0, b in itertools.product((1.0, -2.0, 0.01), (0, -3.5, 14.79), (10, -4, 300)):
        for xs in (np.arange(5.0), np.arange(-4, 5) * 0.25 + 14, np.array([0, 1, 5, 2.5])):
            with c.case("optimum1/%s/%s/%s/%s" % (a, x0, b, xs[1])):
                c.same(star_center.find_optimum_1d(xs, a * (xs - x0) ** 2 + b), x0, "vertex", rtol=1e-6, atol=1e-6)
    with c.case("optimum1/refuse"):
        c.raises(lambda: star_center.find_optimum_1d(np.arange(4.0), np.arange(5.0)), "lengths")
    for a, b, cc, x0, y0 in itertools.product((1.0, -2.0), (0, 0.5, -0.7), (1.5, -1.0), (0, 2.25), (0, -1.5)):
        if a * cc < 0:
            continue
        xs, ys = np.arange(5) - 2.0, np.arange(4) * 0.5 - 1
        X, Y = np.meshgrid(xs, ys)
        z = a * (X - x0) ** 2 + b * (X - x0) * (Y - y0) + cc * (Y - y0) ** 2 + 50
        for hole in (None, (0, 0), (1, 3)):
            with c.case("optimum2/%s/%s/%s/%s/%s/%s" % (a, b, cc, x0, y0, hole)):
                m, zz = np.ones(z.shape), z.copy()
                if hole is not None:
                    m[hole] = 0
                    zz[hole] = -40.0                                                     # inside the range so that the normalisation is unaffected
                c.same(star_center.find_optimum_2d(xs, ys, zz, m), (x0, y0), "vertex", rtol=1e-6, atol=1e-6)
    with c.case("optimum2/refuse"):
        z = np.ones((4, 5))
        c.raises(lambda: star_center.find_optimum_2d(np.arange(4.0), np.arange(5.0), z, np.ones((4, 5))), "axes swapped")
        c.raises(lambda: star_center.find_optimum_2d(np.arange(5.0), np.arange(4.0), z, np.ones((5, 4))), "mask shape")


def legendre(k, v):
    return [np.ones_like(v), v, (3 * v ** 2 - 1) / 2, (5 * v ** 3 - 3 * v) / 2][k]


def polynomial(order, terms):
    """Coefficient table of a calibration: identity plus the given {(kx, ky): (cx, cy)} in pixels at 500 pixels from the centre."""
    cx = np.zeros((order + 1, order + 1))
    cy = np.zeros((order + 1, order + 1))
    cx[1, 0] += 500.0
    cy[0, 1] += 500.0
    for (i, j), (a, b) in terms.items():
        cx[i, j] += a
        cy[i, j] += b
    return np.concatenate([cx.ravel(), cy.ravel(), [order]])


def astrom(coeffs):
    ph, eh = kit.headers("L3")
    return data.AstrometricCalibration(np.concatenate([[0.0, 0.0, 21.8, 21.8, 0.0, 0.0, 0.0], coeffs]), pri_hdr=ph, ext_hdr=eh, input_dataset=data.Dataset([kit.frame((4, 4), "L2b", 0)]))


def sample(im, y, x):
    """Cubic-spline interpolation, written on the tensor of 1-D cardinal splines (natural result of an exactly interpolating cubic spline)."""
    import scipy.ndimage
    return scipy.ndimage.map_coordinates(im, [y, x])


def distort_one(c, item):
    n, order, terms, scene = item
    shape = (n, n)
    with c.case("distort/%s/%s/%s/%s" % item, size=n, order=order, terms=terms, scene=scene):
        cal = astrom(polynomial(order, dict(terms)))
        y, x = np.indices(shape)
        ims = []
        for k in range(2):
            if scene == "random":
                im = ((np.arange(n * n).reshape(shape) * (7 + k) * 7919) % 101).astype(float)
            else:
                im = gauss(shape, n // 2 + 4 - 3 * k, n // 2 - 5 + k, 2.0) + gauss(shape, n // 2 - 6, n // 2 + 4 + k, 2.0, 60)
            ims.append(im)
        fs = [kit.frame(shape, "L3", k, img=im, err=np.full(shape, 1.0 + k), dq=((x + 2 * y) % 11 == 0).astype(np.uint16)) for k, im in enumerate(ims)]
        ds = data.Dataset([f.copy() for f in fs])
        out = quiet(l3_to_l4.distortion_correction, ds, cal)
        u, v = (x - n // 2).astype(float), (y - n // 2).astype(float)
        dx, dy = np.zeros(shape), np.zeros(shape)
        for (i, j), (a, b) in terms:
            P = legendre(i, u) * legendre(j, v) / 500.0 ** (i + j)
            dx += a * P
            dy += b * P
        whole = all((i, j) == (0, 0) and float(a).is_integer() and float(b).is_integer() for (i, j), (a, b) in terms)
        for k, im in enumerate(ims):
            got = out[k].data
            if whole:
                want = np.zeros(shape)
                sx, sy = x - dx.astype(int), y - dy.astype(int)
                ok = (sx >= 0) & (sx < n) & (sy >= 0) & (sy < n)
                want[ok] = im[sy[ok], sx[ok]]
                c.same(got, want, "shifted by whole pixels, frame %d" % k, rtol=1e-9, atol=1e-8)
            elif scene == "stars":
                want = np.zeros(shape)
                for (cx, cy, A) in ((n // 2 + 4 - 3 * k, n // 2 - 5 + k, 100.0), (n // 2 - 6, n // 2 + 4 + k, 60.0)):
                    want += A * np.exp(-((x - dx - cx) ** 2 + (y - dy - cy) ** 2) / 8.0)
                inner = (slice(4, -4), slice(4, -4))
                c.expect(np.max(np.abs(got - want)[inner]) < 0.25, "resampled scene differs by %r, frame %d" % (np.max(np.abs(got - want)[inner]), k))
            c.same(out[k].err, fs[k].err, "err", exact=True)
            c.same(out[k].dq, fs[k].dq, "dq", exact=True)
            c.step()


def distortion(c):
    cases = []
    for n in (24, 25):
        for order in (1, 2, 3):
            cases.append((n, order, (), "random"))
            for a, b in itertools.product((0, 1, -3), repeat=2):
                cases.append((n, order, (((0, 0), (a, b)),), "random"))
            for i, j in itertools.product(range(order + 1), repeat=2):
                s = 40.0 * 10.0 ** (i + j - 1) if (i, j) != (0, 0) else 0.7
                for a, b in ((s, 0), (0, s), (-s, s / 2)):
                    cases.append((n, order, (((i, j), (a, b)),), "stars"))
        cases.append((n, 3, (((0, 0), (0.5, -1.25)), ((1, 0), (20.0, -30.0)), ((2, 1), (4e3, 2e3)), ((0, 3), (-3e4, 1e4))), "stars"))
    c.bound(distortion_cases=len(cases))
    c.fan(cases, distort_one)


def turned(ang, px=0.0218 / 3600, parity=-1):
    """CD matrix of an image whose north is `ang` degrees counter-clockwise of up, with east left."""
    t = math.radians(ang)
    e, nn = (-math.cos(t), -math.sin(t)), (-math.sin(t), math.cos(t))                    # directions of east and north on the image
    # intermediate coordinates (east, north) of a pixel offset (dx, dy)
    return np.array([[e[0], e[1]], [nn[0], nn[1]]]) * px


def north_one(c, item):
    ang, shape, cen, ref, layers = item
    with c.case("north/%s/%s/%s/%s/%s" % item, north_angle=ang, shape=shape, centre=cen, reference=ref, error_layers=layers):
        ny, nx = shape
        star = (nx * 0.45, ny * 0.55)
        rot = {"im_center": ((nx - 1) // 2, (ny - 1) // 2), "starloc": star}.get(cen, cen)
        src = [(rot[0] + 6.0, rot[1] + 1.0), (rot[0] - 4.0, rot[1] - 5.0)]
        ims = [sum(gauss(shape, sx, sy, 1.8, 100.0 - 40 * i) for i, (sx, sy) in enumerate(src)), gauss(shape, rot[0] + 3, rot[1] - 6, 1.8, 50)]
        y, x = np.indices(shape)
        cd = turned(ang)
        crpix = {"centre": (rot[0] + 1.0, rot[1] + 1.0), "off": (rot[0] + 4.5, rot[1] - 2.0)}[ref]
        fs = []
        for k, im in enumerate(ims):
            err = np.array([gauss(shape, rot[0] - 5 + l, rot[1] + 3, 1.8, 10.0 + l + k) for l in range(layers)])
            dq = np.where(((x // 3 + y // 3) % 3) == 0, 4, 0).astype(np.uint16) + np.where((x - rot[0]) ** 2 + (y - rot[1] - 5) ** 2 < 9, 64, 0).astype(np.uint16)
            f = kit.frame(shape, "L3", k, img=im, err=err[0], dq=dq)
            if layers > 1:
                f.err = err
                for l in range(layers):
                    f.err_hdr["LAYER_%d" % (l + 1)] = "term%d" % l
            a2 = ang + 20 * k
            cd = turned(a2)
            f.ext_hdr.update(CTYPE1="RA---TAN", CTYPE2="DEC--TAN", CRVAL1=80.0, CRVAL2=-30.0, CRPIX1=crpix[0], CRPIX2=crpix[1], CUNIT1="deg", CUNIT2="deg",
                             CD1_1=cd[0, 0], CD1_2=cd[0, 1], CD2_1=cd[1, 0], CD2_2=cd[1, 1], STARLOCX=star[0], STARLOCY=star[1])
            for key in ("PC1_1", "PC1_2", "PC2_1", "PC2_2", "CDELT1", "CDELT2"):
                if key in f.ext_hdr:
                    del f.ext_hdr[key]
            fs.append(f)
        out = quiet(l3_to_l4.northup, data.Dataset([f.copy() for f in fs]), rot_center=cen)
        for k in range(2):
            t = math.radians(-(ang + 20 * k))                                             # the image turns so that north points up
            ct, st = math.cos(t), math.sin(t)

            def fwd(p):
                return (rot[0] + ct * (p[0] - rot[0]) - st * (p[1] - rot[1]), rot[1] + st * (p[0] - rot[0]) + ct * (p[1] - rot[1]))
            xin = rot[0] + ct * (x - rot[0]) + st * (y - rot[1])
            yin = rot[1] - st * (x - rot[0]) + ct * (y - rot[1])
            good = (xin > 3) & (xin < nx - 4) & (yin > 3) & (yin < ny - 4)
            want = np.zeros(shape)
            for (sx, sy), A in (zip(src, (100.0, 60.0)) if k == 0 else [((rot[0] + 3, rot[1] - 6), 50.0)]):
                p = fwd((sx, sy))
                want += gauss(shape, p[0], p[1], 1.8, A)
            c.expect(np.nanmax(np.abs(out[k].data - want)[good]) < 0.6, "frame %d: rotated scene differs by %r" % (k, np.nanmax(np.abs(out[k].data - want)[good])))
            for l in range(layers):
                p = fwd((rot[0] - 5 + l, rot[1] + 3))
                w = gauss(shape, p[0], p[1], 1.8, 10.0 + l + k)
                c.expect(np.nanmax(np.abs(out[k].err[l] - w)[good]) < 0.1, "frame %d: error layer %d differs by %r" % (k, l, np.nanmax(np.abs(out[k].err[l] - w)[good])))
            # flags: every flagged output pixel's source (nearest pixel, ties free) carries it and the other way round
            fx, fy = np.abs(xin - np.floor(xin) - 0.5), np.abs(yin - np.floor(yin) - 0.5)
            ins = (np.rint(xin) >= 0) & (np.rint(xin) < nx) & (np.rint(yin) >= 0) & (np.rint(yin) < ny) & (fx > 1e-6) & (fy > 1e-6)
            w = np.zeros(shape, fs[k].dq.dtype)
            w[ins] = fs[k].dq[np.rint(yin[ins]).astype(int), np.rint(xin[ins]).astype(int)]
            c.same(out[k].dq[ins], w[ins], "frame %d: flags" % k, exact=True)
            h = out[k].ext_hdr
            cdn = np.array([[h["CD1_1"], h["CD1_2"]], [h["CD2_1"], h["CD2_2"]]])
            c.same(cdn, turned(0), "frame %d: north is up and east is left in the header" % k, rtol=1e-9, atol=1e-16)
            w0, w1 = WCS(fs[k].ext_hdr), WCS(h)
            pts = [rot, (rot[0] + 7, rot[1] - 3), star]
            for p in pts:
                a = w0.pixel_to_world_values(*p)
                b = w1.pixel_to_world_values(*fwd(p))
                c.same([float(v) for v in b], [float(v) for v in a], "frame %d: sky position of what was at %r" % (k, p), rtol=0, atol=1e-9)
            c.same([h["STARLOCX"], h["STARLOCY"]], fwd(star), "frame %d: star location" % k, rtol=0, atol=1e-6)
            c.step()
        c.state(ang, shape, cen)


def north(c):
    angs = [0, 30, 45, 90, 135, 180, -90, -150, 270, 13.7] + ([k * 15.0 for k in range(24)] if c.thorough else [])
    shapes = [(31, 31), (30, 30), (28, 34)]
    cases = []
    for ang in angs:
        for shape in shapes:
            for cen in ("im_center", "starloc", (15.5, 12.0)):
                for ref in ("centre", "off"):
                    cases.append((ang, shape, cen, ref, 1 + (ang == 30)))
    c.bound(north_cases=len(cases))
    c.fan(cases, north_one)


def roll_one(c, item):
    roll, shape = item
    with c.case("roll/%s/%s" % item):
        ny, nx = shape
        rot = ((nx - 1) // 2, (ny - 1) // 2)
        fs = []
        for k in range(2):
            f = kit.frame(shape, "L3", k, img=gauss(shape, rot[0] + 5, rot[1] + 2, 1.8), err=np.ones(shape), dq=np.zeros(shape, np.uint16))
            f.pri_hdr["ROLL"] = roll + 25 * k
            fs.append(f)
        out = quiet(l3_to_l4.northup, data.Dataset([f.copy() for f in fs]), use_wcs=False)
        y, x = np.indices(shape)
        for k in range(2):
            t = math.radians(roll + 25 * k)
            p = (rot[0] + math.cos(t) * 5 - math.sin(t) * 2, rot[1] + math.sin(t) * 5 + math.cos(t) * 2)
            good = np.hypot(x - rot[0], y - rot[1]) < min(shape) / 2 - 4
            c.expect(np.nanmax(np.abs(out[k].data - gauss(shape, p[0], p[1], 1.8))[good]) < 0.6, "frame %d not turned by its own roll angle counter-clockwise" % k)
            c.step()


def run(c):
    warnings.simplefilter("ignore")
    helpers(c)
    distortion(c)
    north(c)
    c.fan([(r, s) for r in (0, 30, 90, -45, 180) for s in ((31, 31), (28, 34))], roll_one)
    star_more(c)
    star_cases(c)
