"""C30: every order of small calibration sets x all mask movements x query positions over the whole measured region and outside it;
every order of small core-throughput observations (pupil frames anywhere)."""
import itertools
import os
import re
from math import atan2, ceil, cos, hypot, log10, pi, radians, sin

import numpy as np
import astropy.io.fits as fits

import corgidrp.data as data
from corgidrp import corethroughput as ctm
from corgidrp import klip_fm
from mc import kit
from mc.c31_photometry import CURVES, FILTERS, star

# two geometries: a fan of radial spikes, and scattered points
FAN = [(r, a) for r in (4.0, 7.0, 10.0) for a in (10.0, 50.0, 100.0)]
FAN2 = [(r, a) for r in (3.0, 5.0) for a in (-100.0, -20.0, 60.0)]
FEW = [(4.0, 20.0), (4.0, 80.0), (7.0, 20.0), (7.0, 80.0)]
SETS = {"fan": FAN, "fan2": FAN2, "few": FEW}

STAR = (20.0, 22.0)
MATS = {"default": None, "general": np.array([[[0.5, 0.25], [-0.125, 1.0]], [[-1.0, 0.5], [0.25, 2.0]]])}
# mask moved between the throughput and the coronagraphic observation: (fpam, fsam)
MOVES = [((0., 0.), (0., 0.)), ((2., 0.), (0., 0.)), ((0., -3.), (5., 0.)), ((1., 4.), (-2., 7.))]


def fsc(name):
    return data.FpamFsamCal([]) if MATS[name] is None else data.FpamFsamCal(MATS[name])


def matrices(name):
    return np.array([[[0., 0.12285012], [-0.12285012, 0.]], [[0., -0.09509319], [-0.09509319, 0.]]]) if MATS[name] is None else MATS[name]


def model_ct(r, az):
    return 0.2 + 0.03 * r + 0.001 * az


def model_ctlog(r, az):
    return 0.2 + 0.3 * log10(r) + 0.001 * az


def scene(points, mat, move, model=model_ct):
    """(calibration, coronagraphic dataset, mask matrices): points are relative to the mask during the throughput observation."""
    cf, cs = (6.0, 3.0), (30.0, 13.0)
    m = matrices(mat)
    centre = np.array(STAR) + m[0] @ np.array(move[0])
    xy = [(centre[0] + r * cos(radians(a)), centre[1] + r * sin(radians(a))) for r, a in points]
    ct = [model(r, a) for r, a in points]
    pos = np.array([[p[0] for p in xy], [p[1] for p in xy], ct])
    psfs = np.array([np.arange(9.0).reshape(3, 3) + 100 * r + a for r, a in points])
    cal = kit.ctcal(pos=pos, psfs=psfs, fpam=(cf[0] + move[0][0], cf[1] + move[0][1]), fsam=(cs[0] + move[1][0], cs[1] + move[1][1]))
    f = kit.frame((4, 4), "L3", 0, STARLOCX=STAR[0], STARLOCY=STAR[1], FPAM_H=cf[0], FPAM_V=cf[1], FSAM_H=cs[0], FSAM_V=cs[1])
    g = kit.frame((4, 4), "L3", 1, STARLOCX=STAR[0], STARLOCY=STAR[1], FPAM_H=cf[0], FPAM_V=cf[1], FSAM_H=cs[0], FSAM_V=cs[1])
    return cal, data.Dataset([f, g]), m


def psf_of(r, a):
    return np.arange(9.0).reshape(3, 3) + 100 * r + a


def orders_of(points, thorough):
    if len(points) <= 4:
        return list(itertools.permutations(points))
    n = len(points)
    rot = [points[k:] + points[:k] for k in range(n)]
    rot += [r[::-1] for r in rot]
    rot += [points[k::3] + points[(k + 1) % 3::3] + points[(k + 2) % 3::3] for k in range(3)]
    return rot


def dang(a, b):
    d = abs(a - b) % 360
    return min(d, 360 - d)


def query_psf(points, thorough):
    """Query positions with their unambiguous nearest point: within half a pixel of one measured radius, angles clearly nearer."""
    rs, azs = sorted({p[0] for p in points}), sorted({p[1] for p in points})
    for r0 in rs:
        for dr in (0.0, 0.25, -0.25, 0.45, -0.45) + ((0.125, -0.375, 0.48, -0.48) if thorough else ()):
            r = r0 + dr
            if r < rs[0] or r > rs[-1]:
                continue
            for az in range(int(azs[0]) - 30, int(azs[-1]) + 31, 5 if thorough else 10):
                best = sorted(azs, key=lambda a: abs(a - az))
                if abs(best[0] - az) + 3.0 > abs(best[1] - az):
                    continue        # half-way: either neighbour may be used
                if not (-170 < az < 170):
                    continue
                yield r, float(az), (r0, best[0])


def part_psf(c, item):
    sname, mat, move, k, n = item
    points = SETS[sname]
    for i, order in enumerate(orders_of(points, c.thorough)):
        if i % n != k:
            continue
        cal, cor, m = scene(order, mat, move)
        qs = list(query_psf(points, c.thorough))
        with c.case("psf/%s/%s/%s/%d" % (sname, mat, move, i)) as go:
            if not go:
                continue
            c.state("psf", sname, mat, move, i)
            x = np.array([r * cos(radians(a)) for r, a, _ in qs])
            y = np.array([r * sin(radians(a)) for r, a, _ in qs])
            # (rounding must not push the border radii out of the region)
            rr = np.hypot(x, y)
            rs = [p[0] for p in points]
            x = np.where(rr < min(rs) + 1e-9, x * (1 + 1e-9), np.where(rr > max(rs) - 1e-9, x * (1 - 1e-9), x))
            y = np.where(rr < min(rs) + 1e-9, y * (1 + 1e-9), np.where(rr > max(rs) - 1e-9, y * (1 - 1e-9), y))
            got, gx, gy = cal.GetPSF(x, y, cor, fsc(mat))
            c.step(len(qs))
            c.expect(len(got) == len(qs), lambda: "%d point-spread functions for %d positions" % (len(got), len(qs)))
            c.same(gx, x, "x of the positions")
            c.same(gy, y, "y of the positions")
            for g, (r, a, best) in zip(got, qs):
                c.same(g, psf_of(*best), "point-spread function at radius %g, angle %g (nearest: radius %g, angle %g)" % (r, a, best[0], best[1]))
            # one position at a time, in every accepted form, and outside positions dropped or refused
            for r, a, best in qs[:: max(1, len(qs) // 6)]:
                r_ = min(max(r, min(rs) * (1 + 1e-9)), max(rs) * (1 - 1e-9))
                px, py = r_ * cos(radians(a)), r_ * sin(radians(a))
                for ax, ay in ((px, py), ([px], [py]), (np.array([px]), np.array([py]))):
                    c.step()
                    c.same(cal.GetPSF(float(ax) if not isinstance(ax, (list, np.ndarray)) else ax, float(ay) if not isinstance(ay, (list, np.ndarray)) else ay, cor, fsc(mat))[0][0],
                           psf_of(*best), "single position")
                for scale in (min(rs) * 0.9 / r, max(rs) * 1.1 / r):
                    c.step(2)
                    c.raises(lambda: cal.GetPSF(px * scale, py * scale, cor, fsc(mat)), "a position outside the measured radii (GetPSF)")
                    c.raises(lambda: cal.InterpolateCT(px * scale, py * scale, cor, fsc(mat)), "a position outside the measured radii (InterpolateCT)")
                    o, ox, oy = cal.GetPSF(np.array([px * scale, px]), np.array([py * scale, py]), cor, fsc(mat))
                    c.expect(len(o) == 1 and len(ox) == 1 and abs(ox[0] - px) < 1e-9 and abs(oy[0] - py) < 1e-9, "an outside position was kept, or an inside one dropped")
            c.raises(lambda: cal.GetPSF(x[:2], y[:1], cor, fsc(mat)), "different numbers of x and y")
            c.raises(lambda: cal.InterpolateCT(x[:2], y[:1], cor, fsc(mat)), "different numbers of x and y")
            c.raises(lambda: cal.GetPSF(x[:1], y[:1], cor, fsc(mat), method="best"), "an unknown method")
            c.outcome(sname, i)
    # the two situations where the nearest point is not used (known findings)
    if k == 0 and (sname, mat, move) == ("fan", "default", MOVES[0]):
        for key, pts, (r, a), best in (("psf/near-radius", [(4.0, 20.0), (4.4, 22.0), (9.0, 20.0), (1.0, 20.0)], (4.4, 20.0), (4.4, 22.0)),
                                       ("psf/across-the-cut", [(4.0, 175.0), (4.0, -90.0), (9.0, 20.0), (1.0, 20.0)], (4.0, -170.0), (4.0, 175.0))):
            with c.case(key) as go:
                if go:
                    cal, cor, m = scene(pts, mat, move)
                    got = cal.GetPSF(r * cos(radians(a)), r * sin(radians(a)), cor, fsc(mat))
                    c.step()
                    c.same(got[0][0], psf_of(*best), "point-spread function nearest to radius %g, angle %g" % (r, a))


def part_ct(c, item):
    sname, mat, move, logr, k, n = item
    points = SETS[sname]
    model = model_ctlog if logr else model_ct
    rs, azs = sorted({p[0] for p in points}), sorted({p[1] for p in points})
    span = azs[-1] - azs[0]
    for i, order in enumerate(orders_of(points, c.thorough)):
        if i % n != k:
            continue
        cal, cor, m = scene(order, mat, move, model)
        with c.case("ct/%s/%s/%s/%d/%d" % (sname, mat, move, logr, i)) as go:
            if not go:
                continue
            c.state("ct", sname, mat, move, logr, i)
            a, b = cal.GetCTFPMPosition(cor, fsc(mat))
            c.step()
            c.same(a, np.array(STAR) + m[0] @ np.array(move[0]), "centre of the focal-plane mask", rtol=1e-9)
            c.same(b, np.array(STAR) + m[1] @ np.array(move[1]), "centre of the field stop", rtol=1e-9)
            # at every measured position (slightly inside: the measured radii themselves are the border)
            cx, cy = np.array(STAR) + m[0] @ np.array(move[0])
            for j, (r, az) in enumerate(order):
                px, py = cal.ct_excam[0, j] - cx, cal.ct_excam[1, j] - cy
                rr = hypot(px, py)
                s = 1 + 1e-7 if r == rs[0] else 1 - 1e-7 if r == rs[-1] else 1.0
                da = 1e-7 if az == azs[0] else -1e-7 if az == azs[-1] else 0.0
                qx, qy = s * rr * cos(radians(az + da)), s * rr * sin(radians(az + da))
                got = cal.InterpolateCT(qx, qy, cor, fsc(mat), logr=bool(logr))
                c.step()
                c.expect(got.shape == (3, 1) and abs(got[0, 0] - cal.ct_excam[2, j]) < 1e-5, lambda: "throughput %s at the measured position radius %g, angle %g: measured %r" % (got[0], r, az, cal.ct_excam[2, j]))
                c.same(got[1:, 0], np.array([qx, qy]), "position")
            # over the whole region: the calibration is linear in (log) radius and angle, and so is the interpolation
            q = [(r, az) for r in np.linspace(rs[0] + 0.01, rs[-1] - 0.01, 9 if c.thorough else 5) for az in np.linspace(azs[0] + 0.01, azs[-1] - 0.01, 13 if c.thorough else 7)]
            q += [(rs[0] * 0.5, azs[0] + 5), (rs[-1] * 1.5, azs[0] + 5)]      # dropped
            ext = [(r, azs[-1] + d) for r in (rs[0] + 0.5, rs[-1] - 0.5) for d in (7.0, 23.0)] + [(rs[0] + 0.5, azs[0] - 11.0)]
            q = q[::2] + ext + q[1::2]
            x, y = np.array([r * cos(radians(az)) for r, az in q]), np.array([r * sin(radians(az)) for r, az in q])
            got = cal.InterpolateCT(x.copy(), y.copy(), cor, fsc(mat), logr=bool(logr))
            c.step(len(q))
            keep = [j for j, (r, az) in enumerate(q) if rs[0] <= r <= rs[-1]]
            want = []
            for j in keep:
                r, az = q[j]
                rel = np.degrees(atan2(y[j], x[j])) - azs[0]
                if rel < 0 or rel > span:
                    rel = rel % span
                want.append(model(r, rel + azs[0]))
            c.expect(got.shape == (3, len(keep)), lambda: "%s values for %d positions inside the region" % (got.shape, len(keep)))
            c.same(got[0], np.array(want), "interpolated throughput", rtol=1e-6)
            c.same(got[1], x[keep], "x of the positions")
            c.same(got[2], y[keep], "y of the positions")
            # maps
            d = c.newdir("map")
            path = os.path.join(d, "map.csv")
            t = np.array([x, y])
            for save in (False, True):
                mp = ctm.CreateCTMap(cor, fsc(mat), cal, target_pix=t, logr=bool(logr), filepath=path, save=save)
                c.step()
                c.same(mp, np.array([x[keep], y[keep], want]), "throughput map", rtol=1e-6)
                c.equal(os.path.exists(path), save, "map file written")
            c.same(np.loadtxt(path, delimiter=","), mp, "saved map", rtol=1e-9)
            mp = ctm.CreateCTMap(cor, fsc(mat), cal, x_range=[0.5, rs[-1]], y_range=[0.5, rs[-1] - 1], n_gridx=4, n_gridy=3, logr=bool(logr))
            c.step()
            for px, py, v in mp.T:
                rel = np.degrees(atan2(py, px)) - azs[0]
                rel = rel % span if (rel < 0 or rel > span) else rel
                c.expect(abs(v - model(hypot(px, py), rel + azs[0])) < 1e-6, lambda: "map value %r at (%g, %g)" % (v, px, py))
            grid = [(gx, gy) for gy in np.linspace(0.5, rs[-1] - 1, 3) for gx in np.linspace(0.5, rs[-1], 4) if rs[0] <= hypot(gx, gy) <= rs[-1]]
            c.same(mp[:2].T, np.array(grid), "grid of the map")
            c.outcome(sname, logr, i)


def part_limits(c, item):
    for bad in (-0.01, 1.01):
        for j in range(len(FEW)):
            with c.case("ct/limits/%g/%d" % (bad, j)) as go:
                if not go:
                    continue
                cal, cor, m = scene(FEW, "default", MOVES[0])
                cal.ct_excam[2, j] = bad
                r, az = FEW[j]
                r += 1e-6 if r == 4 else -1e-6
                az += 1e-6 if az == 20 else -1e-6
                c.state("limits", bad, j)
                c.step()
                c.raises(lambda: cal.InterpolateCT(r * cos(radians(az)), r * sin(radians(az)), cor, fsc("default")), "throughput outside 0..1")
    # no throughput at all, or nearly all of it
    for v in (0.0, 0.999):
        with c.case("ct/all/%g" % v) as go:
            if go:
                cal, cor, m = scene(FEW, "default", MOVES[0])
                cal.ct_excam[2] = v
                q = [(r, a) for r in (4.5, 5.0, 6.5) for a in (25.0, 50.0, 75.0)]
                x, y = np.array([r * cos(radians(a)) for r, a in q]), np.array([r * sin(radians(a)) for r, a in q])
                got = cal.InterpolateCT(x, y, cor, fsc("default"))
                c.state("limit", v)
                c.step()
                c.expect(got.shape == (3, len(q)), lambda: "%s values for %d positions with throughput %g" % (got.shape, len(q), v))
                c.same(got, np.array([np.full(len(q), v), x, y]), "throughput %g everywhere" % v)
    # nearest in separation / in position, science frames cropped or not
    for order in itertools.permutations(range(4)):
        pts = [(30.0, 20.0), (25.5, 22.0), (20.0, 29.0), (26.0, 26.0)]
        pts = [pts[i] for i in order]
        for dp in (None, (4.0, -2.0)):
            with c.case("ct/one-d/%s/%s" % (order, dp)) as go:
                if not go:
                    continue
                pos = np.array([[p[0] for p in pts], [p[1] for p in pts], [0.1 * (i + 1) for i in range(4)]])
                cal = kit.ctcal(pos=pos, psfs=np.array([np.full((3, 3), 10. * i) for i in range(4)]))
                f = kit.frame((4, 4), "L4", 0, STARLOCX=20.0, STARLOCY=20.0, **({} if dp is None else dict(DETPIX0X=dp[0], DETPIX0Y=dp[1])))
                cx, cy = 20.5 + (dp or (0, 0))[0], 20.5 + (dp or (0, 0))[1]
                seps = np.arange(0.25, 13.0, 0.125)
                ds = [hypot(p[0] - cx, p[1] - cy) for p in pts]
                gaps = [sorted(abs(d - s) for d in ds)[:2] for s in seps]
                seps = seps[[g[1] - g[0] > 1e-6 for g in gaps]]
                got = ctm.get_1d_ct(cal, f, seps)
                c.state("1d", order, dp)
                c.step()
                want = []
                for s in seps:
                    dist = [abs(hypot(p[0] - cx, p[1] - cy) - s) for p in pts]
                    want.append(0.1 * (dist.index(min(dist)) + 1))
                c.same(got, np.array([seps, want]), "throughput against separation")
                for dx, dy in itertools.product((-2.0, 0.0, 5.25, 10.0), (-1.0, 1.5, 6.0, 9.0)):
                    dist = [hypot(p[0] - 0.5 - cx - dx, p[1] - 0.5 - cy - dy) for p in pts]
                    if sorted(dist)[1] - sorted(dist)[0] < 1e-6:
                        continue
                    c.step()
                    c.same(klip_fm.get_closest_psf(cal, cx, cy, dx, dy), cal.data[dist.index(min(dist))], "closest point-spread function")


# --- the calibration itself
def observation(flt, npup, noff):
    """Frames of one throughput observation: (frame, None | (position, throughput numerator))."""
    out = []
    spots = [(20, 22), (25, 19), (22, 27), (18, 18)]
    for i in range(npup):
        img = np.zeros((44, 44))
        img[10:30, 12:32] = 50.0 + 10 * i
        img[5::7, ::3] -= 1.5 + i        # (background-subtracted: noise below zero)
        out.append((kit.frame(None, "L3", 20 + i, img=img, CFAMNAME=flt, DPAMNAME="PUPIL", LSAMNAME="OPEN", FSAMNAME="OPEN", FPAMNAME="OPEN_12",
                              FPAM_H=6.0, FPAM_V=3.0, FSAM_H=30.0, FSAM_V=13.0), None))
    for i in range(noff):
        f = star(i, 1000.0 * (i + 1), spots[i], flt, size=44, FPAMNAME="HLC12_C2R1", FPAM_H=6.0, FPAM_V=3.0, FSAM_H=30.0, FSAM_V=13.0)
        f.dq[spots[i][1] + 1, spots[i][0]] = 4 * (i + 1)
        out.append((f, (spots[i], f.data[f.data >= f.data.max() / 2].sum())))
    return out


def lens_ratio(flt):
    _, w, t = FILTERS[flt]
    lens = [np.loadtxt(os.path.join(CURVES, n), delimiter=",", unpack=True) for n in ("imaging_lens_v0.txt", "pupil_lens_v0.txt")]
    a, b = [np.sum(np.interp(w / 10, v[0] / 10, v[1]) * t) for v in lens]
    return a / b


def part_build(c, item):
    flt, npup, noff, perms = item
    obs = observation(flt, npup, noff)
    norm = np.mean([f.data.sum() for f, o in obs if o is None]) * lens_ratio(flt)
    half = int(ceil(3 * (FILTERS[flt][1] / 10).mean() * 1e-9 / 2.36 * 180 / pi * 3600e3 / 21.8))
    for p in perms:
        with c.case("build/%s/%d%d/%s" % (flt, npup, noff, "".join(map(str, p)))) as go:
            if not go:
                continue
            c.state("build", flt, npup, noff, p)
            fs = [obs[i][0].copy() for i in p]
            off = [obs[i] for i in p if obs[i][1] is not None]
            cal = ctm.generate_ct_cal(data.Dataset(fs))
            c.step()
            c.expect(cal.ct_excam.shape == (3, len(off)), lambda: "%s entries for %d off-axis frames" % (cal.ct_excam.shape, len(off)))
            c.expect(cal.data.shape == (len(off), 2 * half + 1, 2 * half + 1), lambda: "cut-outs %s" % (cal.data.shape,))
            for j, (f, ((x, y), num)) in enumerate(off):
                c.expect(abs(cal.ct_excam[0, j] - x) < 1e-3 and abs(cal.ct_excam[1, j] - y) < 1e-3, lambda: "position %s of frame %d, should be %s" % (cal.ct_excam[:2, j], j, (x, y)))
                c.expect(abs(cal.ct_excam[2, j] - num / norm) < 1e-9, lambda: "throughput %r of frame %d, should be %r" % (cal.ct_excam[2, j], j, num / norm))
                cut = (slice(y - half, y + half + 1), slice(x - half, x + half + 1))
                c.same(cal.data[j], f.data[cut], "cut-out of frame %d" % j, exact=True)
                c.same(cal.dq[j], f.dq[cut], "flags of the cut-out of frame %d" % j, exact=True)
            c.same(np.array(cal.ct_fpam), np.array([6.0, 3.0]), "mask position")
            c.same(np.array(cal.ct_fsam), np.array([30.0, 13.0]), "field-stop position")
            got = [cal.ext_hdr[k] for k in cal.ext_hdr if re.fullmatch(r"FILE\d+", k)]
            c.equal(got, [f.filename for f in fs], "parents")
            px, ct = ctm.estimate_psf_pix_and_ct(data.Dataset(fs))
            c.step()
            c.same(np.asarray(px).T, cal.ct_excam[:2], "positions alone")
            c.same(ct, cal.ct_excam[2], "throughputs alone")
    # a second, fainter source beside the star: only the box asked for around the brightest pixel counts
    with c.case("build/%s/%d%d/box" % (flt, npup, noff)) as go:
        if go:
            fs = [f.copy() for f, o in obs]
            spots = [o[0] for f, o in obs if o is not None]
            off = [f for f, (_, o) in zip(fs, obs) if o is not None]
            for f, (x, y) in zip(off, spots):
                f.data[y, x + 4] += 0.3 * f.data[y, x]
                f.data[y - 2, x] += 0.1 * f.data[y, x]
            for r in (1, 2, None, 3, 4, 5):
                px, _ = ctm.estimate_psf_pix_and_ct(data.Dataset(fs), **({} if r is None else dict(roi_radius=r)))
                cal = ctm.generate_ct_cal(data.Dataset(fs), **({} if r is None else dict(roi_radius=r)))
                c.step(2)
                h = 3 if r is None else r
                want = []
                for f, (x, y) in zip(off, spots):
                    box = f.data[y - h:y + h + 1, x - h:x + h + 1]
                    want.append((x + (box.sum(axis=0) * np.arange(-h, h + 1)).sum() / box.sum(), y + (box.sum(axis=1) * np.arange(-h, h + 1)).sum() / box.sum()))
                c.same(np.asarray(px), np.array(want), "positions with a box of %s pixels" % r, rtol=1e-9)
                c.same(cal.ct_excam[:2].T, np.array(want), "positions in the calibration, box of %s pixels" % r, rtol=1e-9)
    with c.case("build/%s/%d%d/refuse" % (flt, npup, noff)) as go:
        if go:
            fs = [f for f, o in obs]
            for i in range(len(fs)):
                g = [f.copy() for f in fs]
                g[i].ext_hdr["CFAMNAME"] = "2A"
                c.step()
                c.raises(lambda: ctm.generate_ct_cal(data.Dataset(g)), "frames with different filters")
                c.raises(lambda: ctm.estimate_psf_pix_and_ct(data.Dataset(g)), "frames with different filters (positions and throughputs)")
            c.raises(lambda: ctm.generate_ct_cal(data.Dataset([f.copy() for f, o in obs if o is None])), "pupil frames alone")
            c.raises(lambda: ctm.generate_ct_cal(data.Dataset([f.copy() for f, o in obs if o is not None])), "no pupil frame")
            for key, val in (("DPAMNAME", "IMAGING"), ("LSAMNAME", "NFOV"), ("FSAMNAME", "R1C1"), ("FPAMNAME", "OPEN_34")):
                if npup == 1:
                    g = [f.copy() for f in fs]
                    g[0].ext_hdr[key] = val
                    c.step()
                    c.raises(lambda: ctm.estimate_psf_pix_and_ct(data.Dataset(g)), "no frame with all four pupil settings")
                # (one of the four settings on a star frame does not make it a pupil frame)
                g = [f.copy() for f in fs]
                last = g[-1].ext_hdr
                last[key] = {"DPAMNAME": "PUPIL", "FPAMNAME": "OPEN_12"}.get(key, "OPEN")
                px, ct = ctm.estimate_psf_pix_and_ct(data.Dataset(g))
                c.step()
                c.same(np.asarray(ct), np.array([o[1] / norm for f, o in obs if o is not None]), "throughputs with one pupil setting on a star frame")


def dispatch(c, item):
    {"psf": part_psf, "ct": part_ct, "limits": part_limits, "build": part_build}[item[0]](c, item[1])


def run(c):
    work = []
    for s, m, mv in itertools.product(SETS, MATS, MOVES if c.thorough else (MOVES[0], MOVES[3])):
        n = 4
        work += [("psf", (s, m, mv, k, n)) for k in range(n)]
        work += [("ct", (s, m, mv, lg, k, n)) for lg in (0, 1) for k in range(n)]
    work.append(("limits", None))
    flts = list(FILTERS) if c.thorough else ["1F", "3C", "4B"]
    for flt in flts:
        for npup, noff in ((1, 3), (2, 2)) + (((2, 3),) if c.thorough else ()):
            perms = list(itertools.permutations(range(npup + noff)))
            work += [("build", (flt, npup, noff, perms[k::2])) for k in range(2)]
    c.bound(sets={k: len(v) for k, v in SETS.items()}, matrices=list(MATS), moves=len(MOVES if c.thorough else (0, 1)), filters_built=len(flts))
    c.assume("query radii are within half a pixel of one measured radius only, and away from the angle +-180 degrees (the rest is covered by the two known findings)")
    c.fan(work, dispatch)
