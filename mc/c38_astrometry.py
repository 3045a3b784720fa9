"""C38: boresight calibration on exactly known star fields over a grid of orientations, plate scales, pointings, dithers and catalogue orders;
the conversions between pixels and sky polar coordinates on complete grids."""
import itertools
import math
import os
import re
import warnings

import numpy as np
from astropy.table import Table

import corgidrp.data as data
from corgidrp import astrom
from mc import kit
from mc.c13_templates import quiet

# no two triangles of bright stars are similar; the (faint) target is in the middle
POS = [(40.3, -25.2), (-33.4, 37.1), (-50.2, -44.3), (22.4, 61.3), (63.2, 30.1), (-62.3, 8.4), (8.1, -66.2), (0.0, 0.0)]
LAYOUTS = {"eight": POS, "turned": [(-y, x) for x, y in POS], "upper": [(x, abs(y)) for x, y in POS if (x, y) != (-33.4, 37.1)],
           "fainter first": POS[::-1][1:] + POS[-1:]}


def sky(dx, dy, ra0, dec0, scale, north):
    """Right ascension and declination seen (dx, dy) pixels from the pixel that points at (ra0, dec0): east is counterclockwise from north, and north
    is turned by the north angle (tangent-plane projection)."""
    t, k = math.radians(north), scale / 3.6e6
    xi, eta = math.radians(k * (-math.cos(t) * dx + math.sin(t) * dy)), math.radians(k * (math.sin(t) * dx + math.cos(t) * dy))
    d0 = math.radians(dec0)
    den = math.cos(d0) - eta * math.sin(d0)
    return (ra0 + math.degrees(math.atan2(xi, den))) % 360.0, math.degrees(math.atan2(math.sin(d0) + eta * math.cos(d0), math.hypot(xi, den)))


def catalogue(path, stars, mags, order):
    with open(path, "w") as f:
        f.write("RA,DEC,VMAG\n")
        for i in order:
            f.write("%.12f,%.12f,%.3f\n" % (stars[i][0], stars[i][1], mags[i]))


def frame(layout, ra, dec, k=0, n=200, shift=(0.0, 0.0), peak=30.0):
    y, x = np.mgrid[:n, :n]
    c = (n - 1) // 2
    img = np.zeros((n, n))
    for i, (dx, dy) in enumerate(layout):
        img += peak * 10 ** (-0.08 * i) * np.exp(-((x - c - dx - shift[0]) ** 2 + (y - c - dy - shift[1]) ** 2) / (2 * 1.3 ** 2))
    f = kit.frame((n, n), "L2b", k, img=img, RA=ra, DEC=dec)
    f.filename = "CGI_%d_L2b_.fits" % k
    return f


def turn(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


def calibrate(c, frames, path, **kw):
    c.step()
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return astrom.boresight_calibration(data.Dataset(frames), field_path=path, **kw)


_tmp = {}


def tmp(c, name):
    if "d" not in _tmp:
        _tmp["d"] = c.newdir("astrom")
    return os.path.join(_tmp["d"], name)


def field_of(pointings, layout, scale, north):
    """Sky positions and magnitudes of the stars of all pointings (each shows the same layout around itself)."""
    stars, mags = [], []
    for ra, dec in pointings:
        for i, (dx, dy) in enumerate(layout):
            stars.append(sky(dx, dy, ra, dec, scale, north))
            mags.append(15.0 + 0.2 * i)
    return stars, mags


def check(c, got, want, msg, pos_tol=2e-8):
    scale, north, ra, dec = want
    c.expect(abs(got.platescale[0] - scale) < 1e-4 * scale and abs(got.platescale[1] - scale) < 1e-4 * scale, lambda: "%s: plate scale %s mas instead of %s" % (msg, got.platescale, scale))
    c.expect(turn(got.northangle, north) < 2e-3, lambda: "%s: north angle %s degrees instead of %s" % (msg, got.northangle, north))
    k = math.cos(math.radians(dec))
    c.expect(turn(got.boresight[0], ra) * k < pos_tol and abs(got.boresight[1] - dec) < pos_tol,
             lambda: "%s: the centre of the image points at (%.9f, %.9f), found (%.9f, %.9f)" % (msg, ra, dec, got.boresight[0], got.boresight[1]))


def orientation(c, item):
    name, north, scale, ra, dec, order = item
    key = "field/%s/%s/%s/%s/%s/%s" % item
    with c.case(key) as go:
        if not go:
            return
        layout = LAYOUTS[name]
        stars, mags = field_of([(ra, dec)], layout, scale, north)
        idx = {"given": range(len(stars)), "reversed": range(len(stars))[::-1], "mixed": sorted(range(len(stars)), key=lambda i: (i * 5) % 8)}[order]
        p = tmp(c, "field.csv")
        catalogue(p, stars, mags, idx)
        got = calibrate(c, [frame(layout, ra, dec)], p, find_threshold=len(layout), platescale_guess=scale * 1.02)
        msg = "stars %r, north angle %s, %s mas per pixel, pointing (%s, %s), catalogue %s" % item
        check(c, got, (scale, north, ra, dec), msg)
        c.expect(abs(got.avg_offset[0]) < 2e-7 and abs(got.avg_offset[1]) < 2e-8, lambda: "%s: offsets %s where there are none" % (msg, got.avg_offset))
        c.state(key)
        c.outcome("north", north, dec)


def pointing(c, item):
    """The telescope points elsewhere than the header says: all stars are displaced in the image."""
    north, dec, shift, matched = item
    key = "offset/%s/%s/%s/%s" % (north, dec, shift, matched)
    with c.case(key) as go:
        if not go:
            return
        ra, scale = 80.5, 21.8
        stars, mags = field_of([(ra, dec)], POS, scale, north)
        p = tmp(c, "field.csv")
        catalogue(p, stars, mags, range(len(stars)))
        kw = dict(find_threshold=len(POS))
        if matched:
            mid = (200 - 1) // 2
            kw["field_matches"] = [table(POS, stars, (mid + shift[0], mid + shift[1]))]
        got = calibrate(c, [frame(POS, ra, dec, shift=shift)], p, **kw)
        want = sky(-shift[0], -shift[1], ra, dec, scale, north)
        msg = "north angle %s, declination %s, stars displaced by %s pixels" % (north, dec, shift)
        tol = 2e-8 + 0.04 * math.hypot(*shift) * scale / 3.6e6          # (the north angle is measured about the middle of the image)
        k = math.cos(math.radians(dec))
        c.state(key)
        c.expect(turn(got.boresight[0], want[0]) * k < tol and abs(got.boresight[1] - want[1]) < tol, lambda: "%s: the middle of the image is at (%.7f, %.7f), found (%.7f, %.7f)" % (msg, want[0], want[1], got.boresight[0], got.boresight[1]))
        c.expect(turn(got.avg_offset[0], ra - want[0]) * k < tol and abs(got.avg_offset[1] - (dec - want[1])) < tol, lambda: "%s: mean offset (%.7f, %.7f) instead of (%.7f, %.7f)" % (msg, got.avg_offset[0], got.avg_offset[1], ra - want[0], dec - want[1]))
        c.outcome("offset", shift)


def table(layout, stars, mid):
    return Table({"x": [mid[0] + dx for dx, dy in layout], "y": [mid[1] + dy for dx, dy in layout], "RA": [s[0] for s in stars], "DEC": [s[1] for s in stars]})


def dithers(c, item):
    """Several pointings in one dataset, each frame with its own coordinates; star lists found or given in each of the documented ways."""
    pointings, norths, how = item
    key = "frames/%s/%s/%s" % (pointings, norths, how)
    with c.case(key) as go:
        if not go:
            return
        scale, dec0 = 21.8, 20.0
        pts = [(150.0 + 0.05 * a, dec0 + 0.05 * b) for a, b in pointings]
        stars, mags, per = [], [], []
        for pt, th in zip(pts, norths):
            s, m = field_of([pt], POS, scale, th)
            per.append(s)
            stars += s
            mags += m
        p = tmp(c, "field.csv")
        catalogue(p, stars, mags, range(len(stars)))
        kw = dict(find_threshold=len(POS))
        mid = (200 - 1) // 2
        tabs = [table(POS, s, (mid, mid)) for s in per]
        if how == "tables":
            kw["field_matches"] = tabs
        elif how == "files":
            kw["field_matches"] = []
            for i, t in enumerate(tabs):
                t.write(tmp(c, "m%d.csv" % i), format="ascii.csv", overwrite=True)
                kw["field_matches"].append(tmp(c, "m%d.csv" % i))
        elif how == "one file":
            tabs[0].write(tmp(c, "m.csv"), format="ascii.csv", overwrite=True)
            kw["field_matches"] = tmp(c, "m.csv")
        elif how == "one table":
            kw["field_matches"] = [tabs[0]]
        if how != "found":
            p = tmp(c, "none.csv")          # (a catalogue that does not show these stars)
            catalogue(p, [sky(5 * i - 20, 3 * i * i - 40, pts[0][0], dec0, scale, 0.0) for i in range(6)], [15 + i for i in range(6)], range(6))
        fs = [frame(POS, pt[0], pt[1], k) for k, pt in enumerate(pts)]
        before = [kit.snap(f) for f in fs]
        got = calibrate(c, fs, p, **kw)
        msg = "pointings %s, north angles %s, stars %s" % (pointings, norths, how)
        mean = math.degrees(math.atan2(sum(math.sin(math.radians(t)) for t in norths), sum(math.cos(math.radians(t)) for t in norths)))
        check(c, got, (scale, mean, pts[0][0], pts[0][1]), msg)
        for i, pt in enumerate(pts):
            at, more = got.ext_hdr.get("F%dPOS" % i), got.ext_hdr.comments["F%dPOS" % i] if "F%dPOS" % i in got.ext_hdr else ""
            v = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", "%s %s" % (at, more))[:2]]          # (astropy keeps the second value of the pair as the comment)
            c.expect(len(v) == 2 and abs(v[0] - pt[0]) < 2e-6 and abs(v[1] - pt[1]) < 2e-6, lambda: "%s: position recorded for frame %d is %s, it points at %s" % (msg, i, at, pt))
        c.expect(sorted(str(got.ext_hdr["FILE%d" % i]) for i in range(got.ext_hdr["DRPNFILE"])) == sorted(f.filename for f in fs), lambda: "%s: inputs in the header" % msg)
        c.state(key)
        c.outcome("frames", how, len(fs))
        c.expect(not kit.diff(before, [kit.snap(f) for f in fs]), lambda: "%s: the input frames were changed: %s" % (msg, kit.diff(before, [kit.snap(f) for f in fs])))


def combined(c, item):
    """Frames averaged in groups before the measurement: each shows only some of the stars."""
    groups, size, north = item
    key = "combine/%d/%d/%s" % (groups, size, north)
    with c.case(key) as go:
        if not go:
            return
        ra, dec, scale = 150.0, 20.0, 21.8
        stars, mags = field_of([(ra, dec)], POS, scale, north)
        p = tmp(c, "field.csv")
        catalogue(p, stars, mags, range(len(stars)))
        fs = []
        for g in range(groups):
            for s in range(size):
                f = frame(POS, ra, dec, g * size + s)
                parts = [POS[i] if i % size == s else None for i in range(len(POS))]
                y, x = np.mgrid[:200, :200]
                f.data[:] = sum(30.0 * size * 10 ** (-0.08 * i) * np.exp(-((x - 99 - q[0]) ** 2 + (y - 99 - q[1]) ** 2) / (2 * 1.3 ** 2)) for i, q in enumerate(parts) if q)
                fs.append(f)
        got = calibrate(c, fs, p, find_threshold=len(POS), frames_to_combine=size)
        check(c, got, (scale, north, ra, dec), "%d groups of %d frames, north angle %s" % (groups, size, north))
        c.expect([("F%dPOS" % i) in got.ext_hdr for i in range(groups + 1)] == [True] * groups + [False], lambda: "positions recorded for other than the %d groups" % groups)
        names = sorted(str(v) for k, v in got.ext_hdr.items() if k.startswith("FILE") and k[4:].isdigit())
        c.equal(names, sorted(f.filename for f in fs), "frames the calibration was made from")
        c.state(key)


def geometry(c, big):
    g = range(-big, big + 1)
    with c.case("geometry/angles") as go:
        if go:
            for dx, dy in itertools.product(g, g):
                if (dx, dy) == (0, 0):
                    continue
                for x0, y0 in ((0.0, 0.0), (5.5, -3.25)):
                    c.step()
                    with np.errstate(divide="ignore"):
                        a = astrom.angle_between((np.float64(x0), np.float64(y0)), (np.float64(x0 + dx), np.float64(y0 + dy)))
                    want = math.degrees(math.atan2(-dx, dy))
                    c.expect(turn(a, want) < 1e-9 and 0 <= a <= 360, lambda: "direction from (%s, %s) to an offset of (%s, %s): %s instead of %s degrees from north" % (x0, y0, dx, dy, a, want % 360))
                    sep = math.hypot(dx, dy)
                    ddx, ddy = astrom.seppa2dxdy(sep, a)
                    c.expect(abs(ddx - dx) < 1e-9 and abs(ddy - dy) < 1e-9, lambda: "offset of separation %s, angle %s: %s instead of %s" % (sep, a, (ddx, ddy), (dx, dy)))
                    xx, yy = astrom.seppa2xy(sep, a, x0, y0)
                    c.expect(abs(xx - x0 - dx) < 1e-9 and abs(yy - y0 - dy) < 1e-9, lambda: "position of separation %s, angle %s about (%s, %s): %s" % (sep, a, x0, y0, (xx, yy)))
            c.state("angles")
    with c.case("geometry/arrays") as go:
        if go:
            s, p = np.array([1.0, 2.0, 5.0, 0.0]), np.array([0.0, 90.0, 200.0, 10.0])
            c.step()
            one = np.array([astrom.seppa2dxdy(a, b) for a, b in zip(s, p)]).T
            c.expect(np.array_equal(astrom.seppa2dxdy(s, p), one) and np.allclose(astrom.seppa2xy(s, p, 3.0, 4.0), one + [[3.0], [4.0]], atol=1e-12), "arrays of positions differ from the single ones")
    with c.case("geometry/distance") as go:
        if go:
            pol = [(s, p) for s in (0.0, 1.0, 2.5, 7.0) for p in range(-90, 400, 35)]
            for a, b in itertools.product(pol, pol):
                c.step()
                ax, ay = -a[0] * math.sin(math.radians(a[1])), a[0] * math.cos(math.radians(a[1]))
                bx, by = -b[0] * math.sin(math.radians(b[1])), b[0] * math.cos(math.radians(b[1]))
                want = math.hypot(ax - bx, ay - by)
                with np.errstate(invalid="ignore"):
                    d = astrom.get_polar_dist(a, b)
                c.expect(abs(d - want) < 1e-6 or (want < 1e-6 and math.isnan(d)), lambda: "distance of %s and %s: %s instead of %s" % (a, b, d, want))
            c.state("distance")
    for ny, nx in itertools.product(range(1, big + 1), repeat=2):
        with c.case("geometry/mask/%dx%d" % (ny, nx)) as go:
            if not go:
                continue
            for r in (0.0, 0.5, 1.0, 1.5, 2.3, 3.0):
                for cen in (None, (0, 0), (1.0, 2.0), ((ny - 1) / 2.0, (nx - 1) / 2.0)):
                    if cen is None and ny != nx:
                        continue                # (the default centre is documented for square images)
                    c.step()
                    m = astrom.create_circular_mask((ny, nx), center=cen, r=r)
                    cx, cy = ((nx - 1) / 2.0, (ny - 1) / 2.0) if cen is None else cen
                    want = np.array([[math.hypot(x - cx, y - cy) <= r for x in range(nx)] for y in range(ny)])
                    c.expect(np.array_equal(m, want), lambda: "circle of radius %s about %s in %dx%d" % (r, cen, ny, nx))
            c.state("mask", ny, nx)
    for n in range(0, big + 3):
        with c.case("geometry/pairs/%d" % n) as go:
            if go:
                for r in (2, 3):
                    c.step()
                    got = [tuple(int(i) for i in t) for t in astrom.compute_combinations(range(n), r=r)]
                    c.expect(got == list(itertools.combinations(range(n), r)), lambda: "groups of %d out of %d: %s" % (r, n, got))


def finding(c, item):
    """Every isolated star is found once, brightest first, wherever it is in the image (images need not be square)."""
    ny, nx, pos = item
    key = "find/%dx%d/%s" % (ny, nx, pos)
    with c.case(key) as go:
        if not go:
            return
        y, x = np.mgrid[:ny, :nx]
        img = np.zeros((ny, nx))
        for i, (px, py) in enumerate(pos):
            img += (30 - 4 * i) * np.exp(-((x - px) ** 2 + (y - py) ** 2) / (2 * 1.3 ** 2))
        c.step()
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = astrom.find_source_locations(img, threshold=len(pos))
        got = [(float(a), float(b)) for a, b in zip(t["x"], t["y"])]
        c.state(key)
        c.expect(len(got) == len(pos) and all(abs(a - p[0]) < 1e-3 and abs(b - p[1]) < 1e-3 for (a, b), p in zip(got, pos)), lambda: "stars at %s in %dx%d: found %s" % (pos, ny, nx, got))


MID = 511  # the Roman CGI distortion fit uses the centre of the 1024 x 1024 imaging area
TRUE = [(0.0, 0.0)] + [(a + 7 * math.sin(1.7 * i), b + 9 * math.cos(2.3 * i)) for i, (a, b) in enumerate(((a, b) for a in (-430, -215, 0, 215, 430) for b in (-430, -215, 0, 215, 430) if (a, b) != (0, 0)), 1)]
SHAPES = {"none": {}, "quadratic": {("x", 2, 0): 4.0, ("x", 1, 1): -2.0, ("y", 0, 2): 3.0, ("y", 1, 1): 1.5}, "turning": {("x", 0, 2): 3.0, ("y", 2, 0): -3.0, ("y", 1, 1): 2.0},
          "cubic": {("x", 3, 0): 1.5, ("x", 1, 2): -2.0, ("y", 0, 3): 2.0, ("y", 2, 1): 2.0, ("x", 2, 0): -2.0}}


def terms(shape, order):
    """Legendre coefficients (per 500 pixels) of an exactly known distortion."""
    cx, cy = np.zeros((order + 1, order + 1)), np.zeros((order + 1, order + 1))
    cx[1, 0] = cy[0, 1] = 500.0
    for (axis, i, j), v in SHAPES[shape].items():
        (cx if axis == "x" else cy)[i, j] = v
    return cx, cy


def corrected(p, cx, cy):
    """Undistorted place (in pixels from the centre) of what the detector sees at p."""
    order = cx.shape[0] - 1
    t = np.add.outer(np.arange(order + 1), np.arange(order + 1))
    return np.array([np.polynomial.legendre.legval2d(p[0], p[1], m / 500.0 ** t) for m in (cx, cy)])


def seen(place, cx, cy):
    """Detector place of what is undistorted at `place` relative to the centre (Newton iterations)."""
    zero, p = corrected((0.0, 0.0), cx, cy), np.array(place, dtype=float)
    for _ in range(50):
        d = corrected(p, cx, cy) - zero - place
        p = p - d
        if np.abs(d).max() < 1e-12:
            break
    return p


def exposure(layout, cx, cy, k, ra, dec, n=1024):
    """Frame of the stars at these undistorted places, and where they are on the detector (the first one, the target, is the faintest)."""
    det = [seen(t, cx, cy) for t in layout]
    y, x = np.mgrid[:n, :n]
    img = np.zeros((n, n))
    for i, (a, b) in enumerate(det):
        a, b = a + MID, b + MID
        x0, y0 = max(int(a) - 15, 0), max(int(b) - 15, 0)
        box = (slice(y0, y0 + 31), slice(x0, x0 + 31))
        img[box] += 300 * 10 ** (-0.01 * (i or len(layout))) * np.exp(-((x[box] - a) ** 2 + (y[box] - b) ** 2) / (2 * 1.3 ** 2))
    f = kit.frame((n, n), "L2b", k, img=img, RA=ra, DEC=dec)
    f.filename = "CGI_%d_L2b_.fits" % k
    return f, det


def distortion(c, item):
    """A star field with an exactly known distortion: the corrected places of the stars are their sky offsets in the calibration's plate scale and
    north angle, whatever the orientation, the order of the catalogue, the number of frames and whether the target itself is in the catalogue; and
    distortion_correction with that calibration brings the stars there."""
    shape, order, north, centre, err, how = item
    key = "distortion/%s/order=%d/north=%g/centre=%s/err=%s/%s" % (shape, order, north, centre, err, how)
    with c.case(key) as go:
        if not go:
            return
        scale = 21.8
        cx, cy = terms(shape, 3)
        frames, tabs, places = [], [], []
        for k in range(1 if how in ("given", "reversed") else 2):
            other = k and how == "two"
            ra, dec = (80.9, -29.0) if other else (80.5, -30.0)
            layout = [(-b, a) for a, b in TRUE] if other else TRUE
            f, det = exposure(layout, cx, cy, k, ra, dec)
            stars = [(ra, dec)] + [sky(a, b, ra, dec, scale, north) for a, b in layout[1:]]
            rows = [i for i in range(len(TRUE)) if centre or i]
            if how == "reversed":
                rows = rows[::-1]
            frames.append(f)
            tabs.append(Table({"x": [MID + det[i][0] for i in rows], "y": [MID + det[i][1] for i in rows], "RA": [stars[i][0] for i in rows], "DEC": [stars[i][1] for i in rows]}))
            places += [(k, d, t) for d, t in zip(det, layout)]
        kw = {} if err is None else {"position_error": err}
        if how == "combined":
            tabs, kw["frames_to_combine"] = tabs[:1], 2
        cal = calibrate(c, frames, tmp(c, "unused.csv"), field_matches=tabs, find_distortion=True, fitorder=order, **kw)
        co = np.asarray(cal.distortion_coeffs, dtype=float)
        m = (order + 1) ** 2
        c.expect(co.shape == (2 * m + 1,) and co[-1] == order and np.isfinite(co).all(), lambda: "coefficients %s" % (co,))
        gx, gy = co[:m].reshape(order + 1, -1), co[m:2 * m].reshape(order + 1, -1)
        c.expect(abs(gx[0, 0]) < 5 and abs(gy[0, 0]) < 5, lambda: "the fit moves the whole image by (%s, %s) pixels" % (gx[0, 0], gy[0, 0]))
        # the sky offsets in the calibration's own scale and orientation
        zero, k, th = corrected((0.0, 0.0), gx, gy), cal.platescale[0] / scale, math.radians(cal.northangle - north)
        want = [np.array([math.cos(th) * a + math.sin(th) * b, -math.sin(th) * a + math.cos(th) * b]) / k for _, _, (a, b) in places]
        worst = max(np.abs(corrected(d, gx, gy) - zero - w).max() for (_, d, _), w in zip(places, want))
        c.state(key)
        c.expect(abs(k - 1) < 0.01 and abs(th) < 0.01, lambda: "plate scale %s (true: %s), north angle %s" % (cal.platescale, scale, cal.northangle))
        c.expect(worst < 2e-3, lambda: "corrected places differ from the sky by up to %.4f pixels" % worst)
        from corgidrp import l3_to_l4
        c.step()
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = l3_to_l4.distortion_correction(data.Dataset(frames[:1]), cal)[0].data
        got = []
        for (_, _, _), (a, b) in zip(places[:len(TRUE)], want):
            x0, y0 = max(int(round(MID + a)) - 12, 0), max(int(round(MID + b)) - 12, 0)
            sub = out[y0:y0 + 25, x0:x0 + 25]
            yy, xx = np.mgrid[y0:y0 + sub.shape[0], x0:x0 + sub.shape[1]]
            got.append(((sub * xx).sum() / sub.sum(), (sub * yy).sum() / sub.sum()))
        off = max(max(abs(g[0] - got[0][0] - w[0]), abs(g[1] - got[0][1] - w[1])) for g, w in zip(got, want))
        c.expect(off < 0.25, lambda: "distortion_correction leaves the stars up to %.3f pixels off" % off)


def run(c):
    geometry(c, 7 if c.thorough else 5)
    norths = list(range(-180, 180, 5 if c.thorough else 15))
    items = []
    for i, th in enumerate(norths):
        for j, name in enumerate(sorted(LAYOUTS)):
            for k, dec in enumerate((0.0, 30.0, -69.5, 80.0)):
                if c.thorough or (i + j + k) % 4 == 0:
                    items.append((name, th + 0.0, (21.8, 20.0, 24.5)[(i + k) % 3], (80.5, 250.0, 170.25)[(i + j) % 3], dec, ("given", "reversed", "mixed")[(i + 2 * j + k) % 3]))
    items += [("eight", th + 0.0, s, 80.5, -69.5, "given") for th in (0, 45, -135) for s in (10.0, 15.0, 40.0)]
    c.fan(items, orientation)
    shifts = [(0.0, 0.0), (3.0, 0.0), (0.0, 3.0), (-2.0, 1.5)] if not c.thorough else list(itertools.product((-3.0, -1.5, 0.0, 2.0), repeat=2))
    c.fan([(th, dec, s, m) for th in (0.0, 30.0, 90.0, 160.0, -60.0, -120.0) for dec in (0.0, -69.5) for s in shifts for m in (False, True)], pointing)
    arr = [((0, 0),), ((0, 0), (1, 0)), ((1, 1), (0, 0)), ((0, 0), (0, 1), (-1, 0))]
    items = []
    for pts in arr:
        for norths in ((20.0,), (-60.0,), (179.0, -179.0, 179.0), (10.0, 12.0, 14.0)):
            ths = tuple(norths[i % len(norths)] for i in range(len(pts)))
            for how in ("found", "tables", "files", "one file", "one table"):
                if how.startswith("one") and len(set(pts)) > 1:
                    continue
                items.append((pts, ths, how))
    items += [(((0, 0), (0, 0)), (20.0, 20.0), h) for h in ("one file", "one table")]
    c.fan(list(dict.fromkeys(items)), dithers)
    c.fan([(g, s, th) for g in (1, 2, 3) for s in (1, 2, 3) for th in (20.0, -100.0)], combined)
    spots = [(12.0, 15.3), (40.4, 9.0), (30.2, 38.1)]
    items = []
    for ny, nx in ((50, 50), (50, 64), (64, 50), (51, 77)):
        for p in itertools.permutations(spots):
            items.append((ny, nx, p))
        for e in ((4.0, 20.0), (20.0, 4.0), (nx - 5.0, 20.0), (20.0, ny - 5.0), (4.0, 4.0), (nx - 5.0, 4.0), (4.0, ny - 5.0), (nx - 5.0, ny - 5.0)):
            items.append((ny, nx, (e, (28.0, 25.0))))
            items.append((ny, nx, ((28.0, 25.0), e)))
    c.fan(items, finding)
    items = [("none", 3, 0.0, True, 0.05, "given"), ("quadratic", 3, 30.0, True, None, "given"), ("quadratic", 3, -110.0, False, 0.05, "reversed"), ("turning", 3, 160.0, True, 0.05, "two"),
             ("cubic", 3, 75.0, False, None, "given"), ("quadratic", 2, 120.0, True, 0.05, "given"), ("turning", 2, -60.0, False, None, "combined")]
    if c.thorough:
        items += [(s, o, th, ctr, e, h) for s in SHAPES for o in (2, 3) for th in (0.0, 45.0, 90.0, -135.0) for ctr in (False, True) for e in (None, 0.05) for h in ("given", "reversed") if not (s == "cubic" and o == 2)]
        items += [(s, 3, th, ctr, e, h) for s in SHAPES for th in (20.0, -100.0) for ctr in (False, True) for e in (None, 0.05) for h in ("two", "combined")]
    c.fan(list(dict.fromkeys(items)), distortion)
