"""C39: noise maps from darks that follow F + g C + g t D exactly, or with known deviations: every choice of settings from a grid, every mask pattern,
every gain keyword; the dark synthesised from the maps for the settings of each stack."""
import itertools
import math
import warnings

import numpy as np

import corgidrp.data as data
from corgidrp import darks
from mc import kit, steps
from mc.c13_templates import quiet

R, C = steps.FULL
REG = steps.REGIONS
IM_ROWS, IM_COLS = range(0, 5), range(5, 9)            # imaging area: all rows above the parallel overscan, columns between prescan and serial overscan
TEL = 0                                                # the telemetry row
PRE = (range(0, 6), range(0, 5))


def truth(kind):
    """Fixed pattern, clock-induced charge and dark current per pixel; no dark current outside the imaging area."""
    i = np.arange(R * C).reshape(R, C)
    F = 3.0 + (i * 7 % 13) * 0.5
    K = 0.02 + (i * 5 % 11) * 0.003
    D = 0.001 + (i * 3 % 7) * 0.0004
    if kind == "negative":
        F, K, D = F - 6.0, K - 0.035, D - 0.0021
    if kind == "zero":
        F, K, D = F * 0, K * 0, D * 0
    out = np.ones((R, C), bool)
    out[np.ix_(IM_ROWS, IM_COLS)] = False
    D = np.where(out, 0.0, D)
    return F, K, D


def make(settings, kind, nfr, noise, masks=None, order=None, gainkw="EMGAIN_C", off=None, errs=True):
    F, K, D = truth(kind)
    frames, n = [], 0
    for s, (g, t, k) in enumerate(settings):
        for j in range(nfr):
            img = F + g * K + g * t * D
            if off is not None:
                img = img + off * (s + 1)
            if noise:
                img = img + noise * (((np.arange(R * C).reshape(R, C) * 31 + 17 * s * s + 5 * j * (s + 2)) % 19) - 9) / 10.0
            img[TEL] = 999.0 * (s + 1)
            kw = dict(EXPTIME=t, KGAINPAR=k, EMGAIN_C=g, VISTYPE="DARK", BUNIT="detected electrons")
            if gainkw == "EMGAIN_A":
                kw.update(EMGAIN_C=round(g * 1.03 + 0.5, 3), EMGAIN_A=g)
            elif gainkw == "EMGAIN_M":
                kw.update(EMGAIN_C=round(g * 1.03 + 0.5, 3), EMGAIN_A=g * 2 + 1, EMGAIN_M=g)
            dq = np.zeros((R, C), dtype=np.uint16)
            if masks is not None:
                dq = masks(s, j)
                img = np.where(dq > 0, 5e4, img)
            f = kit.frame((R, C), "L2a", n, img=img, err=0.5 + 0.01 * ((np.arange(R * C).reshape(R, C) + 3 * n) % 10) if errs else np.zeros((R, C)), dq=dq, **kw)
            f.filename = "CGI_%03d_L2a_.fits" % n
            frames.append(f)
            n += 1
    if order is not None:
        frames = [frames[i] for i in order]
    return frames


def calibrate(c, frames):
    c.step()
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return darks.calibrate_darks_lsq(data.Dataset(frames), kit.detparams(TELRSTRT=TEL, TELREND=TEL + 1), detector_regions=REG)


def gain(h):
    if "EMGAIN_M" in h:
        return h["EMGAIN_M"]
    return h["EMGAIN_A"] if h["EMGAIN_A"] > 0 else h["EMGAIN_C"]


def oracle(frames):
    """Ordinary least squares per pixel over the means of the unflagged samples of every stack."""
    groups = {}
    for f in frames:
        h = f.ext_hdr
        groups.setdefault((h["EXPTIME"], h["EMGAIN_C"], h["KGAINPAR"]), []).append(f)
    keys = list(groups)
    M = len(keys)
    g = [gain(groups[k][0].ext_hdr) for k in keys]
    t = [k[0] for k in keys]
    X = np.array([[1.0, gi, gi * ti] for gi, ti in zip(g, t)])
    N = X.T @ X
    cov = np.linalg.inv(N)
    mean = np.zeros((M, R, C))
    few, none = np.zeros((R, C), int), np.zeros((R, C), int)
    for i, k in enumerate(keys):
        fs = groups[k]
        for y in range(R):
            for x in range(C):
                v = [float(f.data[y, x]) for f in fs if not f.dq[y, x]]
                mean[i, y, x] = math.fsum(v) / len(v) if v else 0.0
                few[y, x] += len(v) < len(fs) / 2
                none[y, x] += not v
    p = np.einsum("ij,jyx->iyx", cov @ X.T, mean)
    res = mean - np.einsum("mi,iyx->myx", X, p)
    sig2 = (res ** 2).sum(0) / (M - 3) if M > 3 else None
    dq = np.where(none >= M - 3, 1, np.where(few >= M - 3, 256, 0))
    std = [np.sqrt(sig2 * cov[j, j]) for j in range(3)]
    bo, up, low = [], [], []
    for i, k in enumerate(keys):
        wide = g[i] * std[1] + std[0] + g[i] * t[i] * std[2]          # one standard deviation of all three maps
        for to, sign in ((bo, 0), (up, 1), (low, -1)):
            to.append(np.median([res[i, y, x] + sign * wide[y, x] for y in PRE[0] for x in PRE[1] if y != TEL]) / k[2])
    bo, up, low = (float(np.mean(v)) for v in (bo, up, low))
    return dict(p=p, std=std, dq=dq, bo=bo, bo_err=max(up - bo, bo - low), M=M)


def close(a, b, tol):
    return np.abs(a - b) <= tol * (1 + np.abs(b))


def check(c, got, frames, msg, exact=None):
    w = oracle(frames)
    F, K, D = np.array(w["p"][0]), np.clip(w["p"][1], 0, None), np.clip(w["p"][2], 0, None)
    im = np.zeros((R, C), bool)
    im[np.ix_(IM_ROWS, IM_COLS)] = True
    tel = np.zeros((R, C), bool)
    tel[TEL] = True
    for name, i, want in (("fixed-pattern", 0, F), ("clock-induced-charge", 1, K), ("dark-current", 2, np.where(im, D, 0.0))):
        m = got.data[i]
        ok = np.where(tel, np.isnan(m), close(m, want, 1e-7))
        c.expect(m.shape == (R, C) and ok.all(), lambda: "%s: %s map at %s is %s instead of %s" % (msg, name, tuple(int(v) for v in np.argwhere(~ok)[0]), m[~ok][0], np.where(tel, np.nan, want)[~ok][0]))
        e = got.err[0][i]
        if i == 2:
            ok = np.where(im & ~tel, close(e, w["std"][2], 1e-6), True) & np.where(~im, e == 0, True)
        elif i == 0:
            ok = np.where(tel, True, close(e, w["std"][0], 1e-6))
        else:
            ok = np.where(tel, True, e >= w["std"][1] - 1e-9)
        c.expect(ok.all(), lambda: "%s: uncertainty of the %s map at %s is %s" % (msg, name, tuple(int(v) for v in np.argwhere(~ok)[0]), e[~ok][0]))
    if exact is not None:
        for i, tr in enumerate(exact):
            ok = tel | close(got.data[i], np.clip(tr, 0, None) if i else tr, 1e-6)
            c.expect(ok.all(), lambda: "%s: map %d is %s where the darks were made with %s" % (msg, i, got.data[i][~ok][0], tr[~ok][0]))
    for i in range(3):
        ok = got.dq[i] == w["dq"]
        c.expect(ok.all(), lambda: "%s: quality of map %d at %s is %s instead of %s" % (msg, i, tuple(int(v) for v in np.argwhere(~ok)[0]), got.dq[i][~ok][0], w["dq"][~ok][0]))
    h = got.ext_hdr
    c.expect(abs(h["B_O"] - w["bo"]) < 1e-6 * (1 + abs(w["bo"])) and got.bias_offset == h["B_O"], lambda: "%s: bias offset %s instead of %s" % (msg, h["B_O"], w["bo"]))
    c.expect(h["B_O_ERR"] >= 0 and h["B_O_UNIT"] == "DN" and h["DATATYPE"] == "DetectorNoiseMaps" and h["BUNIT"] == "Detected Electrons", lambda: "%s: header of the maps: %s" % (msg, {k: h[k] for k in ("B_O_ERR", "B_O_UNIT", "DATATYPE", "BUNIT")}))
    c.expect(all(h.get(k) is None or str(h[k]) == "" for k in ("EXPTIME", "EMGAIN_C", "KGAINPAR")), lambda: "%s: settings of one stack left in the header of the maps" % msg)


GRID = [(1.0, 2.0, 8.0), (1.0, 60.0, 8.0), (5.0, 2.0, 8.0), (5.0, 100.0, 9.0), (20.0, 10.0, 8.0), (100.0, 2.0, 8.5), (100.0, 100.0, 8.0)]


def usable(st):
    return len({s[0] for s in st}) > 1 and len({s[1] for s in st}) > 1 and np.linalg.matrix_rank(np.array([[1, g, g * t] for g, t, _ in st])) == 3


def settings(c, item):
    idx, kind, gainkw = item
    key = "settings/%s/%s/%s" % ("".join(map(str, idx)), kind, gainkw)
    with c.case(key) as go:
        if not go:
            return
        st = [GRID[i] for i in idx]
        msg = "stacks %s, %s maps, gain in %s" % (st, kind, gainkw)
        fs = make(st, kind, 1 + len(idx) % 2, 0.0, gainkw=gainkw)
        ref = make(st, kind, 1 + len(idx) % 2, 0.0, gainkw=gainkw)
        if not usable(st):
            c.raises(lambda: calibrate(c, fs), msg + ": cannot be fitted, but accepted", kinds=(darks.CalDarksLSQException,)) if (len({s[0] for s in st}) < 2 or len({s[1] for s in st}) < 2) else None
            return
        got = calibrate(c, fs)
        check(c, got, ref, msg, exact=truth(kind))
        c.state(key)
        c.outcome("settings", len(idx), kind)
        # the maps explain every stack they were made from
        if kind == "plain":
            F, K, D = truth(kind)
            for i, (g, t, k) in enumerate(st):
                one = [f for f in ref if f.ext_hdr["EXPTIME"] == t and gain(f.ext_hdr) == g]
                for full in (True, False):
                    c.step()
                    d = darks.build_synthesized_dark(data.Dataset(one), got, detector_regions=REG, full_frame=full)
                    want = one[0].data / g
                    cut = d.data[1:] if full else d.data
                    want = want[1:] if full else want[1:5, 5:9]
                    c.expect(close(cut, want, 1e-6).all(), lambda: "%s: the dark synthesised for gain %s, %s s differs from that stack by %s" % (msg, g, t, np.abs(cut - want).max()))


def noisy(c, item):
    idx, nfr, amp, order = item
    key = "noisy/%s/%d/%s/%d" % ("".join(map(str, idx)), nfr, amp, order)
    with c.case(key) as go:
        if not go:
            return
        st = [GRID[i] for i in idx]
        n = len(st) * nfr
        perm = [None, list(range(n))[::-1], [(i * 5) % n for i in range(n)] if n % 5 else None][order]
        a = (st, "plain", nfr, amp)
        got = calibrate(c, make(*a, order=perm))
        check(c, got, make(*a, order=perm), "stacks %s of %d frames with deviations %s" % (st, nfr, amp))
        zero = calibrate(c, make(*a, order=perm, errs=False))
        e1, e0 = got.err[0][1][1:], zero.err[0][1][1:]
        h = zero.ext_hdr
        w = oracle(make(*a, order=perm, errs=False))["bo_err"]
        c.expect(nfr > 1 or abs(h["B_O_ERR"] - w) < 1e-6 * (1 + w), lambda: "stacks %s: uncertainty of the bias offset %s instead of %s" % (st, h["B_O_ERR"], w))
        c.expect((e1 > e0).all(), "stacks %s: the uncertainty of the input frames does not enter that of the maps" % st)
        c.state(key)


def masked(c, item):
    """Each pixel of the frame has one of the patterns of flagged samples: how many of the frames of every stack are flagged."""
    M, nfr, rot, bit = item
    key = "masked/%d/%d/%d/%d" % item
    with c.case(key) as go:
        if not go:
            return
        st = [GRID[i] for i in (0, 3, 4, 5, 6, 1, 2)][:M]
        pats = list(itertools.product(range(nfr + 1), repeat=M))
        step = 1 + 2 * (len(pats) // (R * C) + 1)

        def mask(s, j):
            dq = np.zeros((R, C), dtype=np.uint16)
            for y in range(1, R):
                for x in range(C):
                    p = [x + 1] * M if y == 1 and x < nfr - 1 else pats[(rot * 50 + (y - 1) * C + x) % len(pats)]
                    if j < p[s]:
                        dq[y, x] = bit
            return dq
        a = (st, "plain", nfr, 0.3)
        fs, ref = make(*a, masks=mask), make(*a, masks=mask)
        got = calibrate(c, fs)
        check(c, got, ref, "%d stacks of %d frames, flag %d, pattern set %d" % (M, nfr, bit, rot))
        # a flagged sample counts as one that was not taken: same uncertainties as from the frames that are left
        for p in range(1, nfr):
            less = calibrate(c, [f for k, f in enumerate(make(*a)) if k % nfr >= p])
            for m in range(3):
                e, w = got.err[0][m, 1, p - 1], less.err[0][m, 1, p - 1]
                c.expect(abs(e - w) <= 1e-7 * (1 + abs(w)), lambda: "%d stacks of %d frames, %d of each flagged: uncertainty %s of map %d, and %s without those frames" % (M, nfr, p, e, m, w))
        c.state(key, step)
        c.outcome("masked", tuple(sorted(set(int(v) for v in np.unique(got.dq)))))


def offsets(c, item):
    """A residual bias in the prescan of some stacks."""
    idx, val = item
    key = "offset/%s/%s" % ("".join(map(str, idx)), val)
    with c.case(key) as go:
        if not go:
            return
        st = [GRID[i] for i in idx]
        off = np.zeros((R, C))
        off[:, :5] = val * (1 + np.arange(5))
        sq = [1.0, 4.0, 2.0, 7.0, 3.0, 5.0, 6.0]
        fs = make(st, "plain", 1, 0.0)
        for f, q in zip(fs, sq):
            f.data += off * q
        ref = [f.copy() for f in fs]
        check(c, calibrate(c, fs), ref, "stacks %s with prescan offsets %s" % (st, val))
        c.state(key)


def refusals(c):
    good = [GRID[i] for i in (0, 3, 4, 5, 6)]

    def bad(name, fs, kinds=(Exception,)):
        with c.case("refuse/" + name) as go:
            if go:
                c.raises(lambda: calibrate(c, fs), "darks with %s" % name, kinds=kinds)
                c.state(name)
    X = darks.CalDarksLSQException
    bad("three stacks", make(good[:3], "plain", 2, 0), (X,))
    bad("one gain", make([(5.0, t, 8.0) for t in (1.0, 2.0, 5.0, 9.0)], "plain", 1, 0), (X,))
    bad("one exposure time", make([(g, 5.0, 8.0) for g in (1.0, 2.0, 5.0, 9.0)], "plain", 1, 0), (X,))
    bad("a gain below one", make(good + [(0.5, 3.0, 8.0)], "plain", 1, 0), (X,))
    bad("a negative exposure time", make(good + [(2.0, -3.0, 8.0)], "plain", 1, 0), (X,))
    bad("a k-gain of zero", make(good + [(2.0, 3.0, 0.0)], "plain", 1, 0), (X,))
    bad("a negative k-gain", make(good + [(2.0, 3.0, -8.0)], "plain", 1, 0), (X,))
    bad("the same setting in two stacks", make(good + [(1.0, 2.0, 9.0)], "plain", 1, 0), (X,))
    for s in range(len(good)):
        fs = make(good, "plain", 2, 0)
        del fs[2 * s]
        bad("a frame missing from stack %d" % s, fs, (X,))
    with c.case("refuse/telemetry") as go:
        if go:
            for a, b in ((1, 2), (4, 6), (2, 3)):
                c.raises(lambda: darks.calibrate_darks_lsq(data.Dataset(make(good, "plain", 1, 0)), kit.detparams(TELRSTRT=a, TELREND=b), detector_regions=REG), "telemetry rows %d:%d inside the image" % (a, b), kinds=(ValueError,))
    with c.case("accept/minimum") as go:
        if go:
            fs = make([GRID[i] for i in (0, 3, 4, 5)], "plain", 1, 0)
            check(c, calibrate(c, fs), make([GRID[i] for i in (0, 3, 4, 5)], "plain", 1, 0), "four stacks")


def run(c):
    sizes = (4, 5, 6, 7)
    items = []
    for m in sizes:
        for idx in itertools.combinations(range(len(GRID)), m):
            for kind in ("plain", "negative", "zero"):
                for kw in ("EMGAIN_C", "EMGAIN_A", "EMGAIN_M"):
                    if kind == "plain" or kw == "EMGAIN_C" or c.thorough:
                        items.append((idx, kind, kw))
    c.bound(settings=GRID, stacks=sizes, truths=["plain", "negative", "zero"], gain_keywords=3)
    c.assume("rank-deficient choices of settings are not judged")
    c.fan(items, settings)
    combos = [i for m in (4, 5, 6) for i in itertools.combinations(range(len(GRID)), m) if usable([GRID[k] for k in i])]
    c.fan([(i, n, a, o) for i in combos for n in (1, 2, 3) for a in (0.05, 2.0) for o in range(3) if c.thorough or (sum(i) + n + o) % 3 == 0], noisy)
    mk = []
    for M, nfr in ((4, 1), (4, 2), (5, 1), (5, 2), (6, 1), (4, 3)) + (((5, 3), (6, 2), (7, 1)) if c.thorough else ()):
        for rot in range(-(-((nfr + 1) ** M) // 50)):
            mk.append((M, nfr, rot, (4, 32, 128, 1)[rot % 4]))
    c.bound(mask_patterns="all counts of flagged samples per stack for %s (stacks, frames)" % sorted({m[:2] for m in mk}))
    c.fan(mk, masked)
    c.fan([(i, v) for i in combos[::2] for v in (0.5, -3.0)], offsets)
    refusals(c)
