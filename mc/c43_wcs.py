"""C43: world coordinates: every orientation x roll x frame shape x pointing x offset against the tangent-plane projection written from scratch, and whole
chains calibration -> world coordinates -> catalogue, with the calibration measured by the pipeline from the same scene."""
import itertools
import math
import warnings

import numpy as np
from astropy.wcs import WCS

import corgidrp.data as data
from corgidrp import l2b_to_l3, l3_to_l4
from mc import kit
from mc.c13_templates import quiet
from mc.c38_astrometry import LAYOUTS, calibrate, catalogue, field_of, frame, sky, tmp, turn

WRITTEN = {"CD1_1", "CD1_2", "CD2_1", "CD2_2", "CRPIX1", "CRPIX2", "CTYPE1", "CTYPE2", "CDELT1", "CDELT2", "CRVAL1", "CRVAL2", "PLTSCALE"}


def cal(north, scale, offset):
    sx, sy = scale if isinstance(scale, tuple) else (scale, scale)
    return kit.astrom(values=[10.0, 20.0, sx, sy, north, offset[0], offset[1]] + [0.1] * 36 + [3.0])


def plain(f):
    """All header cards but those the step writes."""
    return {k: f.ext_hdr[k] for k in f.ext_hdr if k not in WRITTEN and k not in ("HISTORY", "COMMENT", "", "DRPCTIME", "DRPVERSN")}


def away(a, b):
    """Angle between two sky positions in degrees."""
    (ra, da), (rb, db) = [tuple(math.radians(v) for v in p) for p in (a, b)]
    s = math.sin((da - db) / 2) ** 2 + math.cos(da) * math.cos(db) * math.sin((ra - rb) / 2) ** 2
    return math.degrees(2 * math.asin(min(1.0, math.sqrt(s))))


def one(c, item):
    north, scale, offset, shape, rolls, points = item
    with c.case("wcs/%s/%s/%s/%s/%s/%s" % item) as go:
        if not go:
            return
        frames = []
        for i, (roll, (ra, dec)) in enumerate(zip(rolls, points)):
            f = kit.frame(shape, "L2b", i)
            f.pri_hdr["ROLL"], f.pri_hdr["RA"], f.pri_hdr["DEC"] = roll, ra, dec
            frames.append(f)
        ds = data.Dataset(frames)
        before = kit.snap_ds(ds)
        old = [plain(f) for f in frames]
        out = l2b_to_l3.create_wcs(ds, cal(north, scale, offset))
        c.step()
        c.state("wcs", item)
        c.equal(len(out), len(frames), "frames")
        sx, sy = scale if isinstance(scale, tuple) else (scale, scale)
        mid = ((shape[1] - 1) // 2, (shape[0] - 1) // 2)
        for i, f in enumerate(out):
            h, t = f.ext_hdr, math.radians(north + rolls[i])
            ra, dec = points[i][0] - offset[0], points[i][1] - offset[1]
            msg = "frame %d (roll %s) with north angle %s" % (i, rolls[i], north)
            want = {"CD1_1": -math.cos(t) * sx / 3.6e6, "CD1_2": math.sin(t) * sx / 3.6e6, "CD2_1": math.sin(t) * sy / 3.6e6, "CD2_2": math.cos(t) * sy / 3.6e6,
                    "CRPIX1": mid[0], "CRPIX2": mid[1], "CRVAL1": ra, "CRVAL2": dec, "CDELT1": sx / 3.6e6, "CDELT2": sy / 3.6e6, "PLTSCALE": (sx + sy) / 2}
            for k, w in want.items():
                c.expect(k in h and abs(h[k] - w) <= 1e-12 * max(1.0, abs(w)) * (1e-3 if k.startswith("CD") else 1), lambda: "%s: %s is %s instead of %s" % (msg, k, h.get(k), w))
            c.equal((h["CTYPE1"], h["CTYPE2"]), ("RA---TAN", "DEC--TAN"), msg + ": projection")
            now = plain(f)
            c.equal({k: (now.get(k), old[i].get(k)) for k in {**now, **old[i]} if now.get(k) != old[i].get(k)}, {}, msg + ": other header entries changed")
            c.same(f.data, before["all_data"][i], msg + ": pixels", exact=True)
            c.same(f.err, before["all_err"][i], msg + ": uncertainties", exact=True)
            c.same(f.dq, before["all_dq"][i], msg + ": flags", exact=True)
            if sx != sy:
                continue
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                w = WCS(h)
            for dx, dy in ((0, 0), (3, 0), (0, 3), (-2, 1), (mid[0], -mid[1])):
                p = [float(v) for v in w.wcs_pix2world(mid[0] + dx, mid[1] + dy, 1)]
                c.expect(away(p, sky(dx, dy, ra, dec, sx, north + rolls[i])) < 1e-11, lambda: "%s: the sky %s pixels from the middle is at %s" % (msg, (dx, dy), p))
        c.outcome("turn", round((north + rolls[0]) % 360, 3))


def origin(c):
    """The reference pixel as every reader of FITS headers counts it (the first pixel is number 1)."""
    with c.case("reference-pixel-count") as go:
        if go:
            f = kit.frame((9, 11), "L2b", 0)
            f.pri_hdr["ROLL"], f.pri_hdr["RA"], f.pri_hdr["DEC"] = 0.0, 80.0, 10.0
            out = l2b_to_l3.create_wcs(data.Dataset([f]), cal(0.0, 20.0, (0.0, 0.0)))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                x, y = WCS(out[0].ext_hdr).wcs_world2pix(80.0, 10.0, 0)
            c.step()
            c.expect(abs(x - 5) < 1e-6 and abs(y - 4) < 1e-6, lambda: "the pointing is at pixel (%.3f, %.3f) counted from zero by a FITS reader, the middle is (5, 4)" % (x, y))


def chain(c, item):
    """The calibration is measured from the scene; the world coordinates of every frame of the scene then give the catalogue back at the stars."""
    layout, north, scale, dec, shift, rolls, turned = item
    with c.case("chain/%s/%s/%s/%s/%s/%s/%s" % item) as go:
        if not go:
            return
        stars0, ra = LAYOUTS[layout], 80.5
        stars, mags = field_of([(ra, dec)], stars0, scale, north)
        p = tmp(c, "chain.csv")
        catalogue(p, stars, mags, range(len(stars)))
        got = calibrate(c, [frame(stars0, ra, dec, shift=shift)], p, find_threshold=len(stars0), platescale_guess=scale * 1.02)
        frames = []
        for i, roll in enumerate(rolls):                       # the same field seen with the telescope rolled
            t = math.radians(roll)
            lay = [(dx * math.cos(t) + dy * math.sin(t), -dx * math.sin(t) + dy * math.cos(t)) for dx, dy in stars0] if shift == (0.0, 0.0) else stars0
            f = frame(lay, ra, dec, k=i, shift=shift)
            f.pri_hdr["ROLL"] = roll
            frames.append((f, lay))
        ds = data.Dataset([f for f, _ in frames])
        out = l2b_to_l3.create_wcs(ds, got)
        c.step()
        mid = 99
        for i, (f, lay) in enumerate(frames):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                w = WCS(out[i].ext_hdr)
            for (dx, dy), s in zip(lay, stars):
                x, y = w.wcs_world2pix(s[0], s[1], 1)
                c.expect(math.hypot(x - mid - dx - shift[0], y - mid - dy - shift[1]) < 0.06,
                         lambda: "north angle %s, roll %s: the star at pixel (%.2f, %.2f) is expected at (%.2f, %.2f)" % (north, rolls[i], mid + dx + shift[0], mid + dy + shift[1], x, y))
        c.state("chain", item)
        if turned:
            for f in out:                                      # as FITS counts pixels (see origin())
                f.ext_hdr["CRPIX1"] += 1
                f.ext_hdr["CRPIX2"] += 1
            with quiet():
                up = l3_to_l4.northup(out)
            for i in range(len(frames)):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    w = WCS(up[i].ext_hdr)
                c.step()
                for k, s in enumerate(stars):
                    x, y = (float(v) for v in w.wcs_world2pix(s[0], s[1], 0))
                    if math.hypot(x - mid, y - mid) > 80 or k > 4:
                        continue
                    a, b = int(round(x)), int(round(y))
                    win = up[i].data[b - 4:b + 5, a - 4:a + 5]
                    yy, xx = np.mgrid[b - 4:b + 5, a - 4:a + 5]
                    cx, cy = float((win * xx).sum() / win.sum()), float((win * yy).sum() / win.sum())
                    c.expect(math.hypot(cx - x, cy - y) < 0.15, lambda: "north angle %s, roll %s, turned north up: the star expected at (%.2f, %.2f) is at (%.2f, %.2f)" % (north, rolls[i], x, y, cx, cy))
                    e, n = sky(x - mid, y - mid, ra, dec, scale, 0.0)
                    c.expect(shift != (0.0, 0.0) or away((e, n), s) < 0.2 * scale / 3.6e6, "turned north up: north is not up or east not left")


def run(c):
    warnings.simplefilter("ignore")
    norths = tuple(range(-180, 181, 15)) if c.thorough else (-180, -120, -45, 0, 20, 90, 135)
    items = []
    rollsets = [(0.0, 0.0, 0.0), (15.0, -15.0, 0.0), (-26.0, 11.0, 180.0), (90.0, 0.0, 45.0)]
    pointsets = [((80.5, -69.5), (80.5, -69.5), (80.5, -69.5)), ((80.5, 30.0), (10.25, -60.0), (300.0, 0.0)), ((1e-4, 89.0), (359.99, -89.0), (180.0, 45.0))]
    for north in norths:
        for s, scale in enumerate((21.8, 10.0, (21.5, 22.5))):
            for o, offset in enumerate(((0.0, 0.0), (0.001, 0.002), (-0.0004, 1e-5))):
                for g, shape in enumerate(((9, 9), (8, 10), (11, 6))):
                    for a, (rolls, points) in enumerate(itertools.product(rollsets, pointsets)):
                        if c.thorough or (s + o + g + a) % 3 == 0:
                            items.append((north + 0.0, scale, offset, shape, rolls, points))
    c.bound(world_cases=len(items))
    c.fan(items, one)
    origin(c)
    items = []
    for th in (-150.0, -90.0, -20.0, 0.0, 45.0, 100.0, 179.0) + ((-60.0, 20.0, 135.0) if c.thorough else ()):
        for name in ("eight", "turned") if not c.thorough else sorted(LAYOUTS):
            for dec in (0.0, -69.5, 60.0):
                items.append((name, th, 21.8, dec, (0.0, 0.0), (0.0, 15.0, -11.0), dec == 0.0 or c.thorough))
        items.append(("eight", th, 21.8, 0.0, (2.0, -1.5), (0.0,), False))
        items.append(("eight", th, 21.8, -69.5, (-1.0, 2.5), (0.0,), False))
    c.bound(chains=len(items))
    c.fan(items, chain)
