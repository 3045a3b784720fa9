"""C25: every {below, at, above threshold} x {good, flagged} pattern of small stacks in one image, x thresholds, gains, iteration
numbers and bin sizes; every refusal; against an independent per-pixel evaluation."""
import cmath
import itertools
import math
import os

import numpy as np
import astropy.io.fits as fits

from mc import kit
import corgidrp.data as data
from corgidrp import photon_counting as pc


def eps(L, t, g):
    """Probability of a count at rate L: threshold T, gain g, to third order in L."""
    return L * (2 * g * g * (6 + L * (3 + L)) + 2 * g * L * (3 + L) * t + L * L * t * t) / (
        2 * cmath.exp(t / g) * g * g * (6 + L * (6 + L * (3 + L))))


def rate(nobs, nfr, t, g, niter):
    if nobs == 0:
        return 0.0
    x = 1 - nobs / nfr * math.exp(t / g)
    L = -math.log(x) if x > 0 else nobs / nfr
    for _ in range(niter):
        f = eps(L, t, g).real * nfr - nobs
        df = eps(L + 1e-30j, t, g).imag / 1e-30 * nfr
        L -= f / df
    return L


def spread(nobs, nfr, ups, lows, t, g, niter):
    """Uncertainty of the rate: its statistical variance (counts are binomial, carried through the cubic form of the correction), and what the pixels' own errors add."""
    L = rate(nobs, nfr, t, g, niter)
    p = complex(eps(L, t, g)).real
    a = math.exp(t / g)
    cubic = np.array([a ** 3 * (4 * g * g - 8 * g * t + 5 * t * t) / (12 * g * g * nfr ** 3), a * a * (g - t) / (2 * g * nfr ** 2), a / nfr, 0.0])
    var = nfr * p * (1 - p) * np.polyval(np.polyder(cubic), nfr * p) ** 2
    return max(rate(ups, nfr, t, g, niter) + var - L, L - rate(lows, nfr, t, g, niter) + var)


def frames(vals, flags, err=0.0, **kw):
    k = dict(ISPC=True, EMGAIN_C=5000.0, RN=100.0, BUNIT="detected electrons")
    k.update(kw)
    return data.Dataset([kit.frame(None, "L2a", i, img=v, dq=f, err=np.full(v.shape, err), **k) for i, (v, f) in enumerate(zip(vals, flags))])


def patterns(n, t):
    """n frames whose pixels run through all 6**n patterns."""
    pats = list(itertools.product([(v, q) for v in (t - 1.0, t, t + 1.0) for q in (0, 1)], repeat=n))
    w = int(math.ceil(math.sqrt(len(pats))))
    pats += [pats[0]] * (w * w - len(pats))
    vals = [np.array([p[i][0] for p in pats]).reshape(w, w) for i in range(n)]
    flags = [np.array([p[i][1] for p in pats]).reshape(w, w) for i in range(n)]
    return pats, vals, flags, w


def compare(c, got, gdq, pats, w, t, g, niter, sub=None, subdq=None, what="", gerr=None, errs=None, suberr=None):
    memo, spreads = {}, {}
    for k, p in enumerate(pats):
        r, q = k // w, k % w
        nfr = sum(1 for v, f in p if f == 0)
        nobs = sum(1 for v, f in p if f == 0 and v > t)
        d = 1 if nfr == 0 else 0
        if subdq is not None:
            d |= int(subdq[r, q])
        c.expect(int(gdq[r, q]) == d, lambda: "%s pattern %s: flag %d, should be %d" % (what, p, gdq[r, q], d))
        if nfr == 0:
            continue
        if (nobs, nfr) not in memo:
            memo[nobs, nfr] = rate(nobs, nfr, t, g, niter)
        x = memo[nobs, nfr] - (0.0 if sub is None else float(sub[r, q]))
        x = max(x, 0.0)
        c.expect(abs(float(got[r, q]) - x) <= 1e-7 * max(1.0, abs(x)), lambda: "%s pattern %s (%d of %d): %r, should be %r" % (what, p, nobs, nfr, got[r, q], x))
        if gerr is not None:
            e = 0.0 if errs is None else float(errs[r, q])
            key = nobs, nfr, sum(1 for v, f in p if f == 0 and v + e > t), sum(1 for v, f in p if f == 0 and v - e > t)
            if key not in spreads:
                spreads[key] = spread(*key[:2], *key[2:], t, g, niter)
            y = math.hypot(spreads[key], 0.0 if suberr is None else float(suberr[r, q]))
            c.expect(abs(float(gerr[r, q]) - y) <= 1e-6 * max(1.0, y), lambda: "%s pattern %s: uncertainty %r, should be %r" % (what, p, gerr[r, q], y))


def run(c):
    N = 5 if c.thorough else 4
    c.bound(stack="1..%d frames, all 6^n patterns of value (below/at/above threshold) and flag" % N, thresholds="T factor x read noise", gains=[300.0, 900.0, 5000.0], iterations=[1, 2, 3, 6],
            bins="all bin sizes for up to %d frames" % (7 if c.thorough else 5))
    menu = [(5.0, 100.0, 5000.0), (2.0, 60.0, 900.0), (4.0, 50.0, 300.0), (0.5, 1.0, 900.0)]
    jobs = [(n, m, ni, dk, bit) for n in range(1, N + 1) for m in menu for ni in ((1, 2, 3, 6) if n < 5 else (2,)) for dk in (False, True)
            for bit in ((1, 2, 32, 128, 256) if ni == 2 and n < 4 else (4,))]

    def count(c, job):
        n, (T, RN, g), niter, dk, bit = job
        with c.case("count:%d:%s:%d:%s:%d" % (n, (T, RN, g), niter, dk, bit)) as go:
            if not go:
                return
            t = T * RN
            pats, vals, flags, w = patterns(n, t)
            # Newton steps from a poor start can leave the physical range; such stacks are refused
            neg = any(rate(b, a, t, g, niter) < 0 for a in range(1, n + 1) for b in range(0, a + 1))
            errs = np.array([0.0, 0.5, 1.5])[np.arange(w * w) % 3].reshape(w, w) if n < 4 else np.zeros((w, w))
            ds = frames(vals, [f * bit for f in flags], errs, EMGAIN_C=g, RN=RN, VISTYPE="DARK" if dk else "TDEMO")
            call = lambda: pc.get_pc_mean(ds, T_factor=T, pc_ecount_max=1e9, niter=niter, inputmode="darks" if dk else "illuminated")
            c.step()
            c.state("count", job)
            if neg:
                c.raises(call, "negative rate")
                return
            out = call()
            if dk:
                c.equal(out.data.shape[0], 1, "number of master darks")
                compare(c, out.data[0], out.dq[0], pats, w, t, g, niter, what="dark", gerr=out.err[0][0], errs=errs)
                c.equal(out.ext_hdr["PC_STAT"], "photon-counted master dark", "status")
                h = out.ext_hdr
            else:
                c.equal(len(out), 1, "number of frames")
                compare(c, out.frames[0].data, out.frames[0].dq, pats, w, t, g, niter, gerr=out.frames[0].err[0], errs=errs)
                h = out.frames[0].ext_hdr
            c.equal((h["PCTHRESH"], h["NUM_FR"]), (t, n), "recorded threshold and number of frames")
            c.outcome(out.data if dk else out.all_data)

    c.fan(jobs, count)

    # bins: frame i counts in pixel i only (and every frame in the last pixel): each frame is used once, in its own bin
    def bins(c, job):
        n, b, dk = job
        with c.case("bins:%d:%s:%s" % job) as go:
            if not go:
                return
            vals = []
            for i in range(n):
                v = np.zeros((2, n))
                v[0, i] = 2000.0
                v[1, (i * 2 + 1) % n] = 2000.0
                vals.append(v)
            flags = [np.zeros((2, n), int) for _ in range(n)]
            for i in range(n):
                flags[i][1, (i + 1) % n] = 8
            ds = frames(vals, flags, VISTYPE="DARK" if dk else "TDEMO")
            out = pc.get_pc_mean(ds, bin_size=b, pc_ecount_max=1e9, inputmode="darks" if dk else "illuminated")
            c.step()
            c.state("bins", job)
            size = n if b is None else b
            res = [(out.data[j], out.dq[j]) for j in range(out.data.shape[0])] if dk else [(f.data, f.dq) for f in out.frames]
            c.equal(len(res), n // size, "number of bins")
            for j, (d, q) in enumerate(res):
                use = range(j * size, (j + 1) * size)
                for r in range(2):
                    for x in range(n):
                        good = [i for i in use if flags[i][r, x] == 0]
                        nobs = sum(vals[i][r, x] > 500 for i in good)
                        c.equal(int(q[r, x]), 0 if good else 1, "bin %d flag at (%d, %d)" % (j, r, x))
                        if good:
                            want = max(rate(int(nobs), len(good), 500.0, 5000.0, 2), 0)
                            c.expect(abs(float(d[r, x]) - want) < 1e-7, lambda: "bin %d of %d at (%d, %d): %r, should be %r" % (j, size, r, x, d[r, x], want))
            hs = [out.ext_hdr] if dk else [f.ext_hdr for f in out.frames]
            for h in hs:
                c.equal(h["NUM_FR"], size, "frames per bin")

    top = 7 if c.thorough else 5
    c.fan([(n, b, dk) for n in range(1, top + 1) for b in [None] + list(range(1, n + 1)) for dk in (False, True)], bins)
    for n in (1, 3):
        for b in (n + 1, n + 5, 0, -1, 1.5, "2", 2.0):
            with c.case("badbin:%d:%r" % (n, b)) as go:
                if go:
                    ds = frames([np.zeros((2, 2))] * n, [np.zeros((2, 2), int)] * n)
                    c.step()
                    c.state("badbin", n, b)
                    c.raises(lambda: pc.get_pc_mean(ds, bin_size=b), "bin size %r for %d frames" % (b, n))

    # dark subtraction: bins x dark slices
    def sub(c, job):
        n, b, nd, numfr, dthr, stat = job
        with c.case("dark:%d:%d:%d:%s:%s:%s" % job) as go:
            if not go:
                return
            pats, vals, flags, w = patterns(2, 500.0)
            vals = [vals[i % 2] for i in range(n)]
            flags = [flags[i % 2] for i in range(n)]
            cube = np.array([np.where((np.arange(w * w).reshape(w, w) + s) % 3 == 0, 5.0, 0.0625 * (s + 1)) for s in range(nd)])
            dq = np.array([(np.arange(w * w).reshape(w, w) + s) % 5 == 0 for s in range(nd)]).astype(np.uint16) * 4
            d = kit.dark(img=cube, err=np.array([cube * 0.1]), dq=dq, PC_STAT=stat, PCTHRESH=dthr, NUM_FR=numfr)
            ds = frames(vals, flags)
            call = lambda: pc.get_pc_mean(ds, pc_master_dark=d, bin_size=b, pc_ecount_max=1e9)
            c.step()
            c.state("dark", job)
            if stat != "photon-counted master dark" or dthr != 500.0 or numfr < b:
                c.raises(call, "unsuitable dark")
                return
            out = call()
            c.equal(len(out), n // b, "number of bins")
            for j, f in enumerate(out.frames):
                s = j % nd
                ps = [tuple((vals[i][k // w, k % w], flags[i][k // w, k % w]) for i in range(j * b, (j + 1) * b)) for k in range(w * w)]
                compare(c, f.data, f.dq, ps, w, 500.0, 5000.0, 2, cube[s], dq[s], "bin %d" % j, gerr=f.err[0], suberr=cube[s] * 0.1)

    jobs = [(n, b, nd, nf, th, st) for n in (1, 2, 4, 5) for b in (1, 2, 4) if b <= n for nd in (1, 2, 3) for nf in (b - 1, b, b + 3) for th in (500.0, 499.0, 600.0)
            for st in ("photon-counted master dark", "analog master dark")]
    c.fan(jobs, sub)

    # settings of the frames
    z = [np.zeros((2, 2))] * 3
    fl = [np.zeros((2, 2), int)] * 3
    for key, vals in (("EXPTIME", (10.0, 10.5)), ("EMGAIN_C", (5000.0, 4000.0)), ("KGAINPAR", (8.7, 8.8)), ("RN", (100.0, 101.0)), ("VISTYPE", ("TDEMO", "DARK"))):
        for ix in itertools.product((0, 1), repeat=3):
            with c.case("mixed:%s:%s" % (key, ix)) as go:
                if go:
                    ds = frames(z, fl)
                    for f, i in zip(ds.frames, ix):
                        (f.pri_hdr if key == "VISTYPE" else f.ext_hdr)[key] = vals[i]
                    c.step()
                    c.state("mixed", key, ix)
                    mode = "darks" if key == "VISTYPE" and ix[0] == 1 else "illuminated"
                    if len(set(ix)) > 1:
                        for m in ("darks", "illuminated"):
                            c.raises(lambda: pc.get_pc_mean(ds, inputmode=m), "mixed " + key)
                    else:
                        pc.get_pc_mean(ds, inputmode=mode)
    for what, kw, args, ok in (("dark as illuminated", dict(VISTYPE="DARK"), dict(), False), ("illuminated as dark", dict(), dict(inputmode="darks"), False),
                               ("dark with a dark", dict(VISTYPE="DARK"), dict(inputmode="darks", pc_master_dark=True), False),
                               ("analog frames", dict(ISPC=False), dict(), False), ("gain at the threshold", dict(EMGAIN_C=500.0), dict(), False),
                               ("gain below the threshold", dict(EMGAIN_C=499.0), dict(), False), ("gain above the threshold", dict(EMGAIN_C=500.5), dict(), True),
                               ("measured gain too low", dict(EMGAIN_M=400.0), dict(), False), ("applied gain too low", dict(EMGAIN_A=400.0), dict(), False),
                               ("measured gain high", dict(EMGAIN_C=1.0, EMGAIN_M=4000.0), dict(), True), ("no read noise", dict(RN=0.0), dict(), False),
                               ("negative read noise", dict(RN=-1.0), dict(), False), ("negative threshold", dict(), dict(T_factor=-1.0), False),
                               ("no iterations", dict(), dict(niter=0), False), ("half an iteration", dict(), dict(niter=1.5), False), ("fine", dict(), dict(), True)):
        with c.case("setting:" + what) as go:
            if go:
                ds = frames(z, fl, **kw)
                if args.get("pc_master_dark"):
                    args["pc_master_dark"] = kit.dark(img=np.zeros((1, 2, 2)), PC_STAT="photon-counted master dark", PCTHRESH=500.0, NUM_FR=10)
                c.step()
                c.state("setting", what)
                if ok:
                    pc.get_pc_mean(ds, **args)
                else:
                    c.raises(lambda: pc.get_pc_mean(ds, **args), what)
    # too bright: the limit is per pixel, frame and gain, over the pixels of interest only
    for lvl, mask, ok in ((400.0, False, True), (600.0, False, False), (600.0, True, True), (400.0, True, True)):
        for g in (5000.0, 2500.0):
            with c.case("bright:%s:%s:%s" % (lvl, mask, g)) as go:
                if go:
                    v = np.array([[lvl * 2 * g / 5000.0, 0.0], [lvl * 2 * g / 5000.0, 0.0]])
                    ds = frames([v, v], fl[:2], EMGAIN_C=g, RN=40.0)
                    p = None
                    if mask:
                        p = os.path.join(c.newdir(), "mask.fits")
                        fits.writeto(p, np.array([[1, 0], [1, 0]]))
                    call = lambda: pc.get_pc_mean(ds, mask_filepath=p)
                    c.step()
                    c.state("bright", lvl, mask, g)
                    if ok:
                        call()
                    else:
                        c.raises(call, "too bright")

    # the thresholding itself
    for t in (0.0, 1.0, 500.0):
        with c.case("threshold:%s" % t) as go:
            if go:
                v = np.array([t - 1, t, np.nextafter(t, 1e9), t + 1, -t - 1, np.nan])
                c.same(pc.photon_count(v, t), np.array([0, 0, 1, 1, 0, 0]), "counted", exact=True)
                c.step()
                c.state("threshold", t)
