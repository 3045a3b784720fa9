"""C46: rastered discs of uniform brightness seen through a detector whose pixels respond differently: every raster of a menu, frame order, grouping, brightness,
field of view and padding; the flat must be the detector's response wherever a disc has been, one outside the field of view and undefined in the rest of it."""
import itertools
import math
import warnings

import numpy as np

import corgidrp.data as data
from corgidrp import flat
from mc import kit

RASTERS = {"one": [(0, 0)], "two": [(-5, 0), (5, 0)], "column": [(0, -6), (0, 5)], "square": [(-5, -5), (-5, 5), (5, -5), (5, 5)],
           "apart": [(-11, -8), (9, 10)], "cross": [(0, 0), (-8, 0), (8, 0), (0, -8), (0, 8), (3, 3)], "nine": [(x, y) for x in (-8, 0, 8) for y in (-8, 0, 8)]}


def response(n, seed=0):
    """Every pixel within 4 % of one, neighbours unrelated."""
    return 1.0 + 0.04 * np.random.RandomState(11 + seed).uniform(-1, 1, size=(n, n))


def scene(n, centres, R, bright, f, sky=0.0, **kw):
    y, x = np.mgrid[:n, :n]
    frames = []
    for k, (cx, cy) in enumerate(centres):
        disc = np.hypot(x - cx - 0.5, y - cy - 0.5) <= R
        frames.append(kit.frame((n, n), "L2a", k, img=f * (disc * float(bright[k]) + sky), dq=np.zeros((n, n), np.uint16), **kw))
        frames[-1].filename = "CGI_0200001001001001001_20240305T10%02d000_L2a.fits" % k
    return data.Dataset(frames)


def judge(c, got, f, n, centres, rad, npix, pad, msg):
    a = got.data
    c.equal(a.shape, (n + 2 * pad, n + 2 * pad), "%s: shape" % msg)
    c.equal(got.err.shape, (1,) + a.shape, "%s: shape of the uncertainty" % msg)
    y, x = np.mgrid[:a.shape[0], :a.shape[1]] - pad
    far = np.hypot(x - n / 2, y - n / 2) > npix
    framed = (x < 0) | (y < 0) | (x >= n) | (y >= n)
    c.expect((a[far | framed] == 1).all(), lambda: "%s: not one outside the field of view" % msg)
    d = np.min([np.hypot(x - cx, y - cy) for cx, cy in centres], axis=0)
    inside = ~far & ~framed
    seen, unseen = inside & (d < rad - 0.01), inside & (d >= rad + 0.01)
    c.expect(np.isnan(a[unseen]).all(), lambda: "%s: %d pixels no disc has covered have a value, first (x, y) = %s" % (msg, (~np.isnan(a[unseen])).sum(), np.argwhere(unseen & ~np.isnan(a))[0][::-1] - pad))
    want = np.ones(a.shape)
    want[pad:pad + n, pad:pad + n] = f
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bad = seen & ~(np.abs(a - want) < 0.014)
    c.expect(not bad.any(), lambda: "%s: pixel (x, y) = %s responds with %.4f, the flat has %.4f (%d of %d pixels)"
             % ((msg, tuple(np.argwhere(bad)[0][::-1] - pad)) + (want[tuple(np.argwhere(bad)[0])], a[tuple(np.argwhere(bad)[0])]) + (bad.sum(), seen.sum())))
    c.outcome(int(seen.sum()), int(unseen.sum()))


def small(c, item):
    name, order, groups, npix, pad, sky, n, base = item
    with c.case("raster/%s/%s/%s/%d/%s/%s/%d/%s" % item) as go:
        if not go:
            return
        offs = RASTERS[name]
        offs = offs[::-1] if order == "back" else offs[1:] + offs[:1] if order == "turned" else offs
        centres = [(n // 2 + base[0] + x, n // 2 + base[1] + y) for x, y in offs]
        per = len(offs) // groups
        bright = [100.0 * (1 + 2 * (k // per)) for k in range(len(offs))]
        f = response(n, len(offs))
        ds = scene(n, centres, 19.0, bright, f, TARGET="Neptune", CFAMNAME="1F")
        kw = dict(up_radius=12, planet_rad=7, n_pix=npix, N=groups)
        kw.update(dict(sky_annulus_rin=None, sky_annulus_rout=None) if sky == "none" else dict(sky_annulus_rin=3, sky_annulus_rout=4.5))
        if pad is not None:
            kw["n_pad"] = pad
        c.step()
        got = flat.create_onsky_flatfield(ds, **kw)
        c.state(item)
        judge(c, got, f, n, centres, 7, npix, (1024 - n) // 2 if pad is None else pad, "raster %s (%s), %d groups" % (name, order, groups))


def bright_sky(c):
    """A bright uniform sky around (and behind) a planet in the middle of every frame does not dilute the response."""
    for n, sky, k in itertools.product((90, 96), (0.0, 20.0, 100.0), (1, 2, 3)):
        with c.case("sky/%d/%s/%d" % (n, sky, k)) as go:
            if not go:
                continue
            f = response(n, k)
            m = n // 2 - 1                                                                  # (the disc is centred exactly like the frame)
            ds = scene(n, [(m, m)] * k, 19.0, [100.0] * k, f, TARGET="neptune", CFAMNAME="1F")
            for g in ds.frames:
                g.data[:] += sky                                                            # (light that has not passed the pixels' response)
            c.step()
            got = flat.create_onsky_flatfield(ds, up_radius=12, planet_rad=7, n_pix=30, n_pad=0, sky_annulus_rin=3, sky_annulus_rout=4.5)
            c.state("sky", n, sky, k)
            judge(c, got, f, n, [(m, m)], 7, 30, 0, "sky of %s" % sky)
            # a narrow annulus that starts just outside the planet; four stars in it
            for out, star in ((3.5, 0.0), (4.5, 5e4)):
                ds = scene(n, [(m, m)] * k, 19.0, [100.0] * k, f, TARGET="neptune", CFAMNAME="1F")
                for g in ds.frames:
                    g.data[:] += sky
                    for y, x in ((m, m - 23), (m, m + 23), (m - 23, m), (m + 23, m)):
                        g.data[y, x] += star
                        g.data[y, x + 1] += star
                        g.data[y, x - 1] += star
                before = [g.data.copy() for g in ds.frames]
                c.step()
                got = flat.create_onsky_flatfield(ds, up_radius=12, planet_rad=7, n_pix=30, n_pad=0, sky_annulus_rin=3, sky_annulus_rout=out)
                c.state("annulus", n, sky, k, out)
                judge(c, got, f, n, [(m, m)], 7, 30, 0, "sky of %s to %s radii, stars of %s" % (sky, out, star))
                c.expect(all(np.array_equal(a, g.data) for a, g in zip(before, ds.frames)), "the frames were changed")


def overlap(c, item):
    """Where two discs overlap, the flat is the mean of what the two frames say; elsewhere each frame speaks for itself."""
    off, n, flip = item
    with c.case("overlap/%s/%d/%d" % item) as go:
        if not go:
            return
        offs = [(-off[0], -off[1]), off][::-1 if flip else 1]
        centres = [(n // 2 + x, n // 2 + y) for x, y in offs]
        y, x = np.mgrid[:n, :n]
        fs = [response(n, 5), response(n, 6)]
        frames = [kit.frame((n, n), "L2a", k, img=fs[k] * (np.hypot(x - cx - 0.5, y - cy - 0.5) <= 19.0) * 100.0, dq=np.zeros((n, n), np.uint16), TARGET="Neptune", CFAMNAME="1F")
                  for k, (cx, cy) in enumerate(centres)]
        c.step()
        got = flat.create_onsky_flatfield(data.Dataset(frames), up_radius=12, planet_rad=7, n_pix=22, n_pad=0, N=2, sky_annulus_rin=None, sky_annulus_rout=None)
        c.state(item)
        on = [np.hypot(x - cx, y - cy) < 7 - 0.01 for cx, cy in centres]
        off_ = [np.hypot(x - cx, y - cy) >= 7 + 0.01 for cx, cy in centres]
        f = np.where(on[0] & on[1], (fs[0] + fs[1]) / 2, np.where(on[0], fs[0], fs[1]))
        c.expect((on[0] & on[1]).sum() > 10, "no overlap")
        d = np.abs(got.data - f)
        bad = ((on[0] & (on[1] | off_[1])) | (on[1] & off_[0])) & ~(d < 0.014)
        c.expect(not bad.any(), lambda: "discs at %s: pixel (x, y) = %s is %.4f, should be %.4f (frames: %.4f, %.4f)" % ((centres, tuple(np.argwhere(bad)[0][::-1])) + tuple(a[tuple(np.argwhere(bad)[0])] for a in (got.data, f, fs[0], fs[1]))))


def full(c, item):
    """Radii and band from the headers or the arguments, as documented (Neptune 50 pixels, Uranus 65)."""
    planet, band, how, npix = item
    with c.case("planet/%s/%s/%s/%s" % item) as go:
        if not go:
            return
        n, rad = 420, {"neptune": 50, "uranus": 65}[planet.lower()]
        f = response(n, 3)
        offs = [(-20, -20), (22, -18), (-17, 21), (18, 19)]
        centres = [(210 + x, 210 + y) for x, y in offs]
        ds = scene(n, centres, 1.45 * (rad + 5), [500.0] * 4, f, TARGET=planet if how == "header" else "Jupiter", CFAMNAME=band if how == "header" else "3F")
        kw = {} if how == "header" else dict(planet=planet, band=band)
        if npix is not None:
            kw["n_pix"] = npix
        c.step()
        got = flat.create_onsky_flatfield(ds, up_radius=rad + 5, **kw)
        c.state(item)
        judge(c, got, f, n, centres, rad, 44 if npix is None else npix, 302, "%s, band %s from the %s" % (planet, band, how))


def simple(c):
    """The plain master flat: mean and standard error of the mean of each pixel."""
    vals = (0.5, 1.0, 1.75, -2.0)
    for k in (1, 2, 3, 4):
        combos = list(itertools.product(vals, repeat=k))
        w = 16
        combos += [combos[0]] * (-len(combos) % w)
        a = np.array(combos).reshape(len(combos) // w, w, k)
        with c.case("mean/%d" % k) as go:
            if not go:
                continue
            for hole in (False, True):
                frames = [kit.frame(a.shape[:2], "L2b", i, img=a[:, :, i].copy()) for i in range(k)]
                if hole and k > 1:
                    frames[0].data[0, 3] = np.nan
                c.step()
                got = flat.create_flatfield(data.Dataset(frames))
                c.state("mean", k, hole)
                c.equal(got.err.shape, (1,) + a.shape[:2], "shape of the uncertainty")
                for p in np.ndindex(*a.shape[:2]):
                    v = [float(g.data[p]) for g in frames]
                    good = [x for x in v if not math.isnan(x)]
                    m = math.fsum(good) / len(good)
                    c.expect(abs(got.data[p] - m) < 1e-9, lambda: "samples %s: mean %r" % (v, got.data[p]))
                    if len(good) == k:
                        e = math.sqrt(math.fsum((x - m) ** 2 for x in v) / k) / math.sqrt(k)
                        c.expect(abs(got.err[0][p] - e) < 1e-9, lambda: "samples %s: standard error of the mean %r instead of %r" % (v, got.err[0][p], e))


def run(c):
    c.assume("discs of uniform brightness that fill the cut-out around them, of the same brightness within a group; half-size of the cut-out five pixels more than the radius used, as in the documented "
             "defaults; sky only around centred planets; frames of even size; response within 4 % of one, recovered to 1.4 %")
    items = []
    for name, offs in RASTERS.items():
        for order in ("forth", "back", "turned"):
            if order != "forth" and len(offs) < 2:
                continue
            for groups in (1, 2, 3):
                if len(offs) % groups:
                    continue
                for npix, pad, sky, n, base in itertools.product((14, 22), (0, 3, None), ("none", "annulus"), (90, 96), ((0, 0), (4, -6))):
                    if not c.thorough and (npix == 22) + (pad == 3) + 2 * (pad is None) + (sky == "none") + (n == 96) + (base != (0, 0)) > (3 if order == "forth" else 1):
                        continue
                    items.append((name, order, groups, npix, pad, sky, n, base))
    c.bound(rasters=len(RASTERS), runs=len(items), groups="1-3", frames="1-9")
    c.fan(items, small)
    bright_sky(c)
    c.fan([(o, n, fl) for o in ((3, 0), (0, 4), (-2, 3), (4, 4)) for n in (90, 96) for fl in (0, 1)], overlap)
    c.fan([(p, b, h, x) for p in ("Neptune", "URANUS") for b in ("1F", "4F") for h in ("header", "argument") for x in (None, 165)], full)
    simple(c)
