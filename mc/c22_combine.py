"""C22: every good/bad pattern of up to four (thorough: six) samples per pixel x methods, against per-pixel scalar arithmetic;
every dataset length x group size for the grouping; all patterns through mean_combine and build_trad_dark."""
import itertools
import math

import numpy as np
import astropy.io.fits as fits

from mc import kit, steps
import corgidrp.data as data
from corgidrp import combine, darks


def median(xs):
    xs = sorted(xs)
    n = len(xs)
    return xs[n // 2] if n % 2 else 0.5 * (xs[n // 2 - 1] + xs[n // 2])


def reference(vals, errs, dqs, method, scale):
    """One pixel: values, uncertainties, flags of the samples -> value, uncertainty, flag (None: not specified)."""
    good = [k for k, d in enumerate(dqs) if d == 0]
    if not good:
        f = 0
        for d in dqs:
            f |= d
        return math.nan, None, f
    xs = [vals[k] for k in good]
    v = sum(xs) / len(xs) if method == "mean" else median(xs)
    e = math.sqrt(sum(errs[k] ** 2 for k in good)) / len(good)
    if method == "median":
        e *= math.sqrt(math.pi / 2)
    m = len(vals) if scale else 1
    return v * m, e * m, 0


def stack(n, flagvals, layers, rot=0):
    """n samples of one image whose pixels are all 2**n good/bad patterns (x the flag values)."""
    pats = list(itertools.product((0, 1), repeat=n))
    npx = len(pats) * len(flagvals)
    v = np.array([[100.0 + ((37 * (p + 3 * k + rot)) % 101) - 7 * k for p in range(npx)] for k in range(n)])
    e = np.array([[[1.0 + ((13 * (p + 5 * k + rot)) % 17) / 4 + lay for p in range(npx)] for lay in range(layers)] for k in range(n)])
    d = np.array([[(flagvals[p // len(pats)] << ((k + rot) % 3 if flagvals[p // len(pats)] < 256 else 0)) * pats[p % len(pats)][k] for p in range(npx)] for k in range(n)])
    return v.reshape(n, len(flagvals), -1), e.reshape(n, layers, len(flagvals), -1), d.reshape(n, len(flagvals), -1)


def compare(c, got, v, e, d, method, scale, what):
    gv, ge, gd = got
    n = v.shape[0]
    for p in np.ndindex(*v.shape[1:]):
        vals = [float(v[(k,) + p]) for k in range(n)]
        dqs = [int(d[(k,) + p]) for k in range(n)]
        for lay in range(e.shape[1]):
            errs = [float(e[(k, lay) + p]) for k in range(n)]
            wv, we, wd = reference(vals, errs, dqs, method, scale)
            g = float(gv[p])
            c.expect((math.isnan(wv) and math.isnan(g)) or abs(g - wv) <= 1e-9 * abs(wv), lambda: "%s: samples %s flags %s -> %r, reference %r" % (what, vals, dqs, g, wv))
            c.expect(int(gd[p]) == wd, lambda: "%s: flags %s -> %d, reference %d" % (what, dqs, int(gd[p]), wd))
            if we is not None:
                x = float(ge[(lay,) + p])
                c.expect(abs(x - we) <= 1e-9 * we, lambda: "%s: uncertainties %s flags %s -> %r, reference %r" % (what, errs, dqs, x, we))


def run(c):
    nmax = 6 if c.thorough else 4
    flags = [1, 2, 4, 64, 256, 32768]
    c.bound(samples="1-%d, all good/bad patterns" % nmax, flags=flags, methods="mean/median, scaled or not, 1-2 uncertainty layers",
            dataset_lengths="1-%d, every group size" % (8 if c.thorough else 6))
    c.assume("flagged samples may be undefined (NaN); undefined samples are flagged")
    jobs = list(itertools.product(range(1, nmax + 1), ("mean", "median", "MEAN"), (True, False), (1, 2), (False, True), range(3)))

    def images(c, job):
        n, method, scale, layers, nan, rot = job
        with c.case("images:" + ":".join(map(str, job))) as go:
            if not go:
                return
            v, e, d = stack(n, flags, layers, rot)
            vin, ein, din = v.copy(), e.copy(), d.astype(np.uint16)
            if nan:
                vin[d > 0] = np.nan
            got = combine.combine_images(vin, ein, din, method, scale)
            c.step()
            c.state(job)
            compare(c, got, v, e, d, method.lower(), scale, "combine_images")
            c.outcome(got[0], got[1], got[2])

    c.fan(jobs, images)

    lens = range(1, 9 if c.thorough else 7)
    gj = [(n, g, m, s, t) for n in lens for g in [None] + list(range(1, n + 2)) for m in ("mean", "median") for s in (True, False) for t in (True, False)]

    def grouping(c, job):
        n, g, method, scale, track = job
        with c.case("group:" + ":".join(map(str, job))) as go:
            if not go:
                return
            with kit.err_tracking(track):
                frames = []
                for i in range(n):
                    d = np.zeros((3, 3), dtype=np.uint16)
                    d.flat[i % 9] = 1 << i
                    d[2, 2] = 4 if i else 64
                    f = kit.frame(None, "L2b", i, img=kit.arr((3, 3), i), dq=d, EXPTIME=1.0 + i)
                    if track:
                        f.err = np.array([f.err[0], f.err[0] * 0.5 + i])
                        f.err_hdr["Layer_2"] = "t"
                    f.hdu_list.append(fits.ImageHDU(data=np.arange(2.) + i, name="X"))
                    f.hdu_names.append("X")
                    frames.append(f)
                ds = data.Dataset(frames)
                before = kit.snap_ds(ds)
                call = lambda: combine.combine_subexposures(ds, g, collapse=method, num_frames_scaling=scale)
                c.step()
                c.state(job)
                size = n if g is None else g
                if n % size:
                    c.raises(call, "%d frames in groups of %d" % (n, size), kinds=(ValueError,))
                    return
                out = call()
                c.equal(len(out), n // size, "number of combined frames")
                for k, f in enumerate(out.frames):
                    idx = list(range(k * size, (k + 1) * size))
                    compare(c, (f.data, f.err, f.dq), before["all_data"][idx], before["all_err"][idx], before["all_dq"][idx], method, scale, "group %d" % k)
                    c.same(out.all_data[k], f.data, "cube", exact=True)
                    files = [f.ext_hdr["FILE%d" % j] for j in range(f.ext_hdr["DRPNFILE"])]
                    c.equal(files, [before["frames"][j]["filename"] for j in idx], "parents of group %d" % k)
                    c.equal(f.ext_hdr["NUM_FR"], size, "number of frames")
                    c.equal([h.name for h in f.hdu_list], ["X"], "extra extensions")
                d = kit.diff(before, kit.snap_ds(ds))
                c.expect(d is None, lambda: "input modified: %s" % d)
                c.outcome(out.all_data, out.all_dq)

    c.fan(gj, grouping)
    with c.case("method") as go:
        if go:
            for m in ("sum", "", "meann"):
                c.raises(lambda: combine.combine_subexposures(kit.dataset(2), 2, collapse=m), "method %r" % m, kinds=(ValueError,))

    # the averaging used for darks: same samples, binary masks
    def averaging(c, job):
        n, rot, err, kind = job
        with c.case("mean_combine:%d:%d:%s:%s" % job) as go:
            if not go:
                return
            v, e, d = stack(n, [1], 1, rot)
            b = (d > 0).astype(int)
            vin, bin_ = v.copy(), b.copy()
            a = (list(vin), list(bin_)) if kind == "list" else (vin, bin_)
            im, bp, num, enough = darks.mean_combine(a[0], a[1], err=err)
            c.step()
            c.state("mc", job)
            low = n
            for p in np.ndindex(*v.shape[1:]):
                good = [float(v[(k,) + p]) for k in range(n) if not b[(k,) + p]]
                low = min(low, len(good))
                want = 0.0 if not good else (math.sqrt(sum(x * x for x in good) / len(good)) if err else sum(good) / len(good))
                c.expect(abs(float(im[p]) - want) <= 1e-9 * max(1, abs(want)), lambda: "mean of %s is %r" % (good, im[p]))
                c.equal((int(bp[p]), int(num[p])), (int(not good), len(good)), "mask and number of samples")
            c.equal(bool(enough), low >= n / 2, "enough samples")
            c.same(vin, v, "input images", exact=True)
            c.same(bin_, b, "input masks", exact=True)
            c.outcome(im)

    c.fan(list(itertools.product(range(1, nmax + 1), range(3), (False, True), ("list", "array"))), averaging)

    # a dark from n frames: every pixel of a full frame gets one of the patterns
    par = kit.detparams(TELRSTRT=0, TELREND=1)

    def dark(c, job):
        n, rot, full, bit = job
        with c.case("dark:%d:%d:%s:%d" % job) as go:
            if not go:
                return
            pats = list(itertools.product((0, 1), repeat=n))
            R, C = steps.FULL
            ims = np.array([kit.arr((R, C), 3 * k + rot) for k in range(n)])
            ers = np.array([1 + kit.arr((R, C), k, scale=0.1, base=0.5) for k in range(n)])
            dqs = np.array([[[pats[(r * C + q * 7 + rot) % len(pats)][k] * bit for q in range(C)] for r in range(R)] for k in range(n)])
            ds = data.Dataset([kit.frame(None, "L2a", k, img=ims[k], err=ers[k], dq=dqs[k].astype(np.uint16)) for k in range(n)])
            out = darks.build_trad_dark(ds, par, detector_regions=steps.REGIONS, full_frame=full)
            c.step()
            c.state("dark", job)
            g = steps.REGIONS["SCI"]["image"]
            r0, q0 = g["r0c0"]
            area = [(r, q) for r in range(R) for q in range(C)] if full else [(r, q) for r in range(r0, r0 + g["rows"]) for q in range(q0, q0 + g["cols"])]
            c.equal(out.data.shape, (R, C) if full else (g["rows"], g["cols"]), "shape")
            for (r, q) in area:
                o = (r, q) if full else (r - r0, q - q0)
                good = [k for k in range(n) if not dqs[k, r, q]]
                c.equal(int(out.dq[o]), 1 if not good else (256 if len(good) < n / 2 else 0), "flag of %s" % (o,))
                if r < 1:
                    continue      # telemetry row
                if not good:
                    continue
                xs = [float(ims[k, r, q]) for k in good]
                m = sum(xs) / len(xs)
                c.expect(abs(float(out.data[o]) - m) <= 1e-9 * abs(m), lambda: "pixel %s: %r, mean is %r" % (o, out.data[o], m))
                var = sum((x - m) ** 2 for x in xs) / len(xs) / len(xs)
                me2 = sum(float(ers[k, r, q]) ** 2 for k in good) / len(good)
                w = math.sqrt(var + me2)
                c.expect(abs(float(out.err[0][o]) - w) <= 1e-9 * w, lambda: "pixel %s: uncertainty %r, not %r" % (o, out.err[0][o], w))
            c.equal([out.ext_hdr["FILE%d" % j] for j in range(out.ext_hdr["DRPNFILE"])], [f.filename for f in ds.frames], "parents")
            c.outcome(out.data, out.dq)

    c.fan(list(itertools.product(range(1, nmax + 1), range(3), (False, True), (1, 4, 128, 256))), dark)
