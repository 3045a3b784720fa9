"""C42: k-gain and non-linearity calibration on pupil-image sets whose response is known exactly: noise from orthogonal patterns (so that every difference of two
frames has exactly its variance), illumination in bands, all choices of sets, gains, drifts, orders and response curves of a menu."""
import itertools
import math
import os
import warnings

import numpy as np
from scipy.stats import norm as gaussian

import corgidrp.data as data
from corgidrp import calibrate_kgain as ck, calibrate_nonlin as cn
from mc import kit

FAILS = (Exception,)


def stamp(sec):
    sec = round(sec * 1000)
    return "2024-03-0%dT%02d:%02d:%02d.%03d" % (1 + sec // 86400000, sec // 3600000 % 24, sec // 60000 % 60, sec // 1000 % 60, sec % 1000)


def frame(img, gain, t, when, what, source="C", actual=None):
    pri, ext = kit.headers("L1", EMGAIN_C=gain, EXPTIME=t, DATETIME=stamp(when))
    pri["OBSNAME"] = what
    if source == "A":
        ext["EMGAIN_A"] = actual
    if source == "M":
        ext["EMGAIN_A"] = actual + 3.0
        ext["EMGAIN_M"] = actual
    f = data.Image(np.array(img, float), pri_hdr=pri, ext_hdr=ext, err=np.ones((1,) + np.shape(img)), dq=np.zeros(np.shape(img), np.uint16))
    f.filename = "CGI_0200001001001001001_%07d_L1_.fits" % int(when * 10)
    f.filedir = "x"
    return f


# ------------------------------------------------------------------ k gain
ROI = dict(rowroi1=4, rowroi2=100, colroi1=70, colroi2=174, rn_bins1=-200, rn_bins2=201, max_DN_val=13000, signal_bins_N=400)
SHAPE = (112, 180)
REG = {"SCI": {"frame_rows": 112, "frame_cols": 180, "prescan_reliable": {"rows": 110, "cols": 56, "r0c0": [1, 8]}, "image": {"rows": 96, "cols": 104, "r0c0": [4, 70]}}}
BANDS = np.array([0.62, 0.74, 0.83, 0.95, 1.04, 1.17, 1.28, 1.37])


def hadamard(n):
    h = np.array([[1]])
    while len(h) < n:
        h = np.block([[h, h], [h, -h]])
    return h


_noise = {}


def patterns():
    """Eight orthogonal +-1 patterns over every 2 rows by 8 columns of the image, and eight orthonormal, Gaussian-looking vectors over the prescan."""
    if not _noise:
        h = hadamard(16)                                                                   # (the first pattern is constant)
        _noise["roi"] = [np.tile(h[k + 1].reshape(2, 8), (48, 13)) for k in range(8)]
        n = 110 * 56
        q = gaussian.ppf((np.arange(n) + 0.5) / n)
        v = []
        for k in range(8):
            a = q[np.argsort(np.modf(np.sin(np.arange(n) * 12.9898 + 78.233 * (k + 1)) * 43758.5453)[0])]
            a = a - a.mean()
            for b in v:
                a = a - b * (a @ b) / (b @ b)
            v.append(a / math.sqrt(a @ a / (n - 1)))
        _noise["pre"] = [a.reshape(110, 56) for a in v]
    return _noise["roi"], _noise["pre"]


def kframe(level, k, rn, which, drop=None):
    """One frame of mean signal `level` DN, gain k e-/DN, read noise rn DN, noise pattern number `which` (None: none)."""
    img = np.zeros(SHAPE)
    s = np.repeat(BANDS / BANDS.mean() * level, 12)[:, None] * np.ones((96, 104))
    if which is not None:
        roi, pre = patterns()
        s = s + roi[which] * np.sqrt(s / k + rn ** 2)
        img[1:111, 8:64] = rn * pre[which]
    img[4:100, 70:174] = s
    return img


LEVELS = {"steps": [150., 420., 700., 980., 1260., 1540., 1820., 2100., 2380., 2660., 2940., 420.],
          "wide": [333., 777., 1111., 1555., 1999., 2444., 2888., 3333., 3777., 4111., 5222., 6100., 7000., 777.]}


def kset(levels, k, rn, nf, order, odd=None, source="C"):
    fr, when = [], 10.0
    for j in range(6):
        fr.append(frame(kframe(2000., k, rn, None), 1.0, 5.0, when, "MNFRAME"))
        when += 6
    for j, lv in enumerate(levels):
        kk = k if j != odd else k / 2
        for i in range(nf):
            fr.append(frame(kframe(lv, kk, rn, i % 8), 1.0, lv / 300., when, "KGAIN", source, 1.0))
            when += 1 + lv / 300
    if order == "mean last":
        fr = fr[6:] + fr[:6]
    if order == "mean between":
        fr = fr[6:9] + fr[:3] + fr[9:20] + fr[3:6] + fr[20:]
    if order == "backwards":
        fr = fr[::-1]
    if order == "sets mixed":
        blocks = [fr[6 + nf * j:6 + nf * (j + 1)] for j in range(len(levels))]
        fr = [f for b in blocks[::2] + blocks[1::2] for f in b] + fr[:6]
    return data.Dataset(fr)


KW = dict(n_cal=10, n_mean=6, min_val=800, max_val=3000, binwidth=10, make_plot=False)


def kcal(ds, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ck.calibrate_kgain(ds, detector_regions=REG, kgain_params=dict(ROI), **dict(KW, **kw))


def kgain_one(c, item):
    lname, k, rn, nf, order, odd, source = item
    with c.case("kgain/%s/%g/%g/%d/%s/%s/%s" % item) as go:
        if not go:
            return
        ds = kset(LEVELS[lname], k, rn, nf, order, odd, source)
        before = [(f.data.copy(), repr(f.pri_hdr), repr(f.ext_hdr)) for f in ds.frames]
        out = kcal(ds)
        c.step()
        c.expect(type(out) is data.KGain, "a KGain")
        tol = 0.002 * k if odd is None else 0.05 * k                                        # (an odd set shares signal bins with others)
        c.expect(abs(out.value - k) < 0.06 + tol, "k gain %r, is %g" % (out.value, k))
        c.expect(abs(out.ext_hdr["RN"] / out.value - rn) < 0.03 * rn, "read noise %r e-, is %g" % (out.ext_hdr["RN"], rn * k))
        c.expect(0 <= out.ext_hdr["RN_ERR"] < 0.3 * rn * k, "uncertainty of the read noise")
        c.equal(out.ext_hdr["RN_UNIT"], "detected electrons", "unit of the read noise")
        c.expect(0 <= out.error < 0.2 * k, "uncertainty of the gain: %r" % out.error)
        ptc = np.array(out.ptc)
        ok = ~np.isnan(ptc).any(axis=1) & (ptc[:, 0] > 50)
        c.expect(ok.sum() > len(LEVELS[lname]), "points of the photon transfer curve")
        ratio = ptc[ok, 1] ** 2 * k / ptc[ok, 0]
        if odd is None:
            # (averaged within a signal bin: noise of the mean is not the mean of the noise, within (bin width / signal)^2 / 8)
            c.expect(np.all(np.abs(ratio - 1) < 5e-3), "photon transfer curve off by %r" % np.abs(ratio - 1).max())
        lo, hi = ptc[ok, 0].min(), ptc[ok, 0].max()
        c.expect(hi > 0.9 * max(LEVELS[lname]) * 1.37 / BANDS.mean() * 0.9 and lo < min(LEVELS[lname]) * 1.4, "range of the curve %r to %r" % (lo, hi))
        for f, b in zip(ds.frames, before):
            c.same(f.data, b[0], "input pixels", exact=True)
            c.equal((repr(f.pri_hdr), repr(f.ext_hdr)), b[1:], "input headers")
        c.state("kgain", lname, k, rn, nf)


def kgain(c):
    items = []
    for lname, k, rn, nf, order, odd, source in itertools.product(LEVELS, (8.7, 2.5, 5.0), (3.0, 6.0), (5, 6, 8), ("given", "mean last", "mean between", "backwards", "sets mixed"),
                                                                (None, 2, 6), ("C", "A", "M")):
        n = (rn != 3.0) + (nf != 5) + (order != "given") + (odd is not None) + (source != "C") + (k != 8.7) + (lname != "steps")
        if n > (2 if c.thorough else 1):
            continue
        items.append((lname, k, rn, nf, order, odd, source))
    c.bound(kgain_cases=len(items))
    c.fan(items, kgain_one)
    L = LEVELS["steps"]

    def bad(name, fn):
        with c.case("kgain-refuse/" + name) as go:
            if go:
                c.raises(fn, name, kinds=FAILS)

    def edited(**kw):
        ds = kset(L, 8.7, 3.0, 5, "given")
        for i, f in enumerate(ds.frames):
            for key, fn in kw.items():
                fn(i, f)
        return ds
    bad("few sets", lambda: kcal(kset(L[:9], 8.7, 3.0, 5, "given")))
    bad("few frames per set", lambda: kcal(kset(L, 8.7, 3.0, 4, "given")))
    bad("few mean frames", lambda: kcal(kset(L, 8.7, 3.0, 5, "given"), n_mean=7))
    bad("sets of different length", lambda: kcal(data.Dataset(kset(L, 8.7, 3.0, 6, "given").frames[:-1])))
    bad("same time twice", lambda: kcal(edited(a=lambda i, f: f.ext_hdr.set("DATETIME", stamp(99)) if i in (10, 20) else None)))
    bad("two gains", lambda: kcal(edited(a=lambda i, f: f.ext_hdr.set("EMGAIN_C", 2.0) if i == 12 else None)))
    bad("mean frame with gain", lambda: kcal(edited(a=lambda i, f: f.ext_hdr.set("EMGAIN_C", 2.0) if i == 2 else None)))
    bad("gain below one", lambda: kcal(edited(a=lambda i, f: f.ext_hdr.set("EMGAIN_A", 0.5) if i == 6 else None)))
    bad("exposure time not positive", lambda: kcal(edited(a=lambda i, f: f.ext_hdr.set("EXPTIME", -1.0) if 6 <= i < 11 else None)))
    for kw in (dict(min_val=3000), dict(min_val=-1), dict(min_val=800.5), dict(max_val=0), dict(binwidth=9), dict(binwidth=801), dict(binwidth=12.5), dict(logspace_start="a")):
        bad(repr(kw), lambda: kcal(kset(L, 8.7, 3.0, 5, "given"), **kw))
    for key in ROI:
        bad("no " + key, lambda: ck.calibrate_kgain(kset(L, 8.7, 3.0, 5, "given"), detector_regions=REG, kgain_params={a: b for a, b in ROI.items() if a != key}, **KW))
    with c.case("kgain/just enough") as go:
        if go:
            c.expect(abs(kcal(kset(L, 8.7, 3.0, 5, "given"), n_cal=len(L)).value - 8.7) < 0.08, "as many sets as required")


# ------------------------------------------------------------------ non-linearity
NP = dict(rowroi1=10, rowroi2=30, colroi1=12, colroi2=32, rowback11=0, rowback12=5, rowback21=34, rowback22=40, colback11=2, colback12=38, colback21=1, colback22=36,
          min_exp_time=0, num_bins=50, min_bin=200, min_mask_factor=1.1)


def pattern():
    p = np.zeros((40, 44))
    y, x = np.indices((40, 44))
    roi = (y >= 10) & (y < 30) & (x >= 12) & (x < 32)
    bright = roi & ((y - 19.5) ** 2 + (x - 21.5) ** 2 < 80)
    p[bright] = 1 + 0.2 * np.sin(x[bright] * 0.7) * np.cos(y[bright] * 0.9)
    p[bright] /= p[bright].mean()
    return p, bright, roi


def nframe(s, b):
    p, bright, roi = pattern()
    img = s * p + b
    img[roi & ~bright] += 0.02 * s
    img[:5] += 3.0
    img[34:] -= 3.0
    return img


CURVES = {"straight": lambda x: x, "low": lambda x: x * (1 - 1.5e-6 * x), "bend": lambda x: x * (1 + 0.03 * np.sin(x / 2500.)), "steep": lambda x: x * (1 - 3.5e-5 * x),
          "strong": lambda x: x * (1 - 0.55 * np.exp(-x / 1500.))}
TIMES = {"even": [0.4 + 0.6 * i for i in range(20)], "TVAC": [0.077] + [0.77 * i for i in range(1, 20)], "geometric": [0.3 * 1.22 ** i for i in range(20)]}


def nlset(gains, tname, rep, curve, drift, per, source, back, order):
    """Frames and, per gain in the order of the commanded gains, the true signals (DN) by exposure time."""
    ts = TIMES[tname]
    fr, when = [], 3.0
    pace = 700.0 if order == "days" else 1.0                                                # a set taken over several days
    drift /= pace
    mean = []
    for j in range(5):
        mean.append(frame(nframe(2500., back), 1.0, 5.0, when, "MNFRAME"))
        when += 6
    sets, start = {}, None
    for g in gains:
        rate = 11000. / ts[-1]
        sets[g] = []
        start = when
        n = per if g == 1.0 else 1
        for t in ts + [ts[rep]]:
            for i in range(n):
                s = CURVES[curve](rate * t) * (1 + drift * (when - start))
                sets[g].append(frame(nframe(s, back + g), g, float(t), when, "KGAIN" if g == 1.0 else "NONLIN", source, 1.0 if g == 1.0 else g * 1.1))
                when += (t + 0.4) * pace
        when += 7
    frames = mean + [f for g in gains for f in sets[g]]
    if order == "mean last":
        frames = frames[5:] + frames[:5]
    if order == "interleaved":                                                              # of the gains; in order of time for each gain
        q = [list(sets[g]) for g in gains] + [mean]
        frames = []
        while any(q):
            for l in q:
                if l:
                    frames.append(l.pop(0))
    return data.Dataset(frames), np.array(ts), np.array([CURVES[curve](11000. / ts[-1] * t) for t in ts])


NKW = dict(n_cal=20, n_mean=5, norm_val=2500, min_write=800.0, max_write=10000.0, make_plot=False)


def ncal(ds, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cn.calibrate_nonlin(ds, nonlin_params=dict(NP), **dict(NKW, **kw))


def line(x, y):
    mx, my = np.mean(x), np.mean(y)
    b = np.sum((x - mx) * (y - my)) / np.sum((x - mx) ** 2)
    return b, my - b * mx


def table(ts, s, norm_val, lo, hi):
    """Reciprocal relative gain at each DN, 1 at norm_val: a straight line through the (documented) exposures, the ratio interpolated linearly."""
    b, a = line(ts, s)
    rms = math.sqrt(np.mean(((s - a - b * ts) / s) ** 2))
    sel = slice(None) if rms < 0.004 else slice(2, -2) if rms < 0.2 else slice(1, -3)
    b, a = line(ts[sel], s[sel])
    rel = s / (a + b * ts)

    def at(v):
        i = min(max(int(np.searchsorted(s, v)) - 1, 0), len(s) - 2)
        return rel[i] + (rel[i + 1] - rel[i]) * (v - s[i]) / (s[i + 1] - s[i])
    dn = np.array([d for d in range(20, 14001, 20) if lo <= d <= hi], float)
    n = at(norm_val)
    return dn, np.array([n / at(d) for d in dn]), rms


def nonlin_one(c, item):
    gains, tname, rep, curve, drift, per, source, back, order, (nv, lo, hi) = item
    with c.case("nonlin/%s/%s/%d/%s/%g/%d/%s/%g/%s/%s" % item) as go:
        if not go:
            return
        ds, ts, s = nlset(gains, tname, rep, curve, drift, per, source, back, order)
        before = [(f.data.copy(), repr(f.pri_hdr), repr(f.ext_hdr)) for f in ds.frames]
        out = ncal(ds, norm_val=nv, min_write=lo, max_write=hi)
        c.step()
        c.expect(type(out) is data.NonLinearityCalibration, "a NonLinearityCalibration")
        dn, want, rms = table(ts, s, nv, lo, hi)
        c.equal(out.data.shape, (len(dn) + 1, len(gains) + 1), "shape")
        c.expect(np.isnan(out.data[0, 0]), "corner")
        srt = sorted(gains)
        c.same(out.data[0, 1:], np.array([g if source == "C" else 1.0 if g == 1.0 else 1.1 * g for g in srt]), "gains", rtol=1e-12)
        c.same(out.data[1:, 0], dn, "DN", exact=True)
        for j, g in enumerate(srt):
            got = out.data[1:, 1 + j]
            d = np.abs(got - want).max()
            c.expect(d < (2e-6 if drift == 0 else 1.5e-3), "gain %g: table off by %r at %r DN" % (g, d, dn[np.abs(got - want).argmax()]))
            if curve == "straight":
                c.expect(np.abs(got - 1).max() < (1e-9 if drift == 0 else 1.5e-3), "gain %g: a straight response needs no correction, has %r" % (g, np.abs(got - 1).max()))
            c.step()
        c.same(out.data[1 + int(np.searchsorted(dn, nv)), 1:], np.ones(len(gains)), "1 where it is normalised", rtol=1e-9)
        for f, b in zip(ds.frames, before):
            c.same(f.data, b[0], "input pixels", exact=True)
            c.equal((repr(f.pri_hdr), repr(f.ext_hdr)), b[1:], "input headers")
        c.state("nonlin", gains, curve, rms < 0.004, rms < 0.2)
        c.outcome(curve, rms < 0.004, rms < 0.2)


def nonlin(c):
    items = []
    ranges = [(2500, 800.0, 10000.0), (3000, 1000.0, 6000.0), (800, 790.0, 9999.0), (1500, 20.0, 14000.0)]
    for g, t, rep, cu, dr, per, so, ba, o, r in itertools.product([(1.0,), (1.0, 8.0), (20.0, 1.0, 2.5)], TIMES, (2, 1, 5), CURVES, (0.0, 2e-4, -1.5e-4), (1, 2, 5), ("C", "A", "M"), (0.0, 40.0),
                                                                ("given", "mean last", "interleaved", "days"), ranges):
        n = (g != (1.0, 8.0)) + (t != "even") + (rep != 2) + (cu != "straight") + (dr != 0) + (per != 2) + (so != "C") + (ba != 40.0) + (o != "given") + (r != ranges[0])
        if n > (3 if c.thorough else 2) or (dr and cu != "straight"):
            continue
        items.append((g, t, rep, cu, dr, per, so, ba, o, r))
    c.bound(nonlin_cases=len(items))
    c.fan(items, nonlin_one)

    def base(**kw):
        a = dict(gains=(1.0, 8.0), tname="even", rep=2, curve="straight", drift=0.0, per=2, source="C", back=40.0, order="given")
        a.update(kw)
        return nlset(**a)[0]

    def bad(name, fn):
        with c.case("nonlin-refuse/" + name) as go:
            if go:
                c.raises(fn, name, kinds=FAILS)

    def edited(fn):
        ds = base()
        for i, f in enumerate(ds.frames):
            fn(i, f)
        return ncal(ds)
    n1 = 5 + 42
    bad("few frames", lambda: ncal(base(), n_cal=22))
    bad("few mean frames", lambda: ncal(base(), n_mean=6))
    for kw in (dict(norm_val=2510), dict(norm_val=0), dict(norm_val=-20), dict(norm_val=780), dict(norm_val=10020), dict(min_write=10000.0), dict(min_write=-1.0), dict(rms_low_limit=0.2), dict(rms_low_limit=-0.1),
               dict(lowess_frac="a"), dict(pfit_low_cutoff1="a"), dict(pfit_upp_cutoff2=None)):
        bad(repr(kw), lambda: ncal(base(), **kw))
    for key in NP:
        bad("no " + key, lambda: cn.calibrate_nonlin(base(), nonlin_params={a: b for a, b in NP.items() if a != key}, **NKW))
    bad("same time twice", lambda: edited(lambda i, f: f.ext_hdr.set("DATETIME", stamp(5000)) if i in (n1 + 20, n1 + 19) else None))
    bad("not in order of time", lambda: edited(lambda i, f: f.ext_hdr.set("DATETIME", stamp(5000)) if i == n1 + 3 else None))
    bad("nothing repeated", lambda: edited(lambda i, f: f.ext_hdr.set("EXPTIME", 77.0) if i == len(base()) - 1 else None))
    bad("gain below one", lambda: edited(lambda i, f: f.ext_hdr.set("EMGAIN_A", 0.5) if i >= n1 else None))
    bad("commanded gain below one", lambda: edited(lambda i, f: f.ext_hdr.set("EMGAIN_C", 0.9) if i >= n1 else None))
    bad("exposure time not positive", lambda: edited(lambda i, f: f.ext_hdr.set("EXPTIME", 0.0) if i == 7 else None))
    bad("another kind of frame", lambda: edited(lambda i, f: f.pri_hdr.set("OBSNAME", "DARK") if i == 9 else None))
    bad("mean frame with gain", lambda: edited(lambda i, f: f.ext_hdr.set("EMGAIN_C", 8.0) if i == 2 else None))
    bad("mean frames of two times", lambda: edited(lambda i, f: f.ext_hdr.set("EXPTIME", 6.0) if i == 2 else None))
    with c.case("nonlin/just enough") as go:
        if go:
            c.same(ncal(base(), n_cal=21).data[1:, 1], np.ones(461), "as many frames as required")


def plots(c):
    """Diagnostic plots are written where they were asked for and change nothing else."""
    L = LEVELS["steps"]
    gset = lambda: nlset((1.0, 8.0), "even", 2, "straight", 0.0, 2, "C", 40.0, "given")[0]
    for name, fn in (("kgain", lambda **k: kcal(kset(L, 8.7, 3.0, 5, "given"), **k)), ("nonlin", lambda **k: ncal(gset(), **k))):
        for verbose in (False, True):
            with c.case("plots/%s/%s" % (name, verbose)) as go:
                if not go:
                    continue
                d = c.newdir("plots")
                here = sorted(os.listdir("."))
                out, ref = fn(make_plot=True, plot_outdir=os.path.join(d, "figures"), show_plot=False, verbose=verbose), fn()
                c.step(2)
                c.same(out.data, ref.data, name + " with plots", exact=True)
                c.same(out.err, ref.err, name + " with plots: uncertainties", exact=True)
                if name == "kgain":
                    c.same(out.ptc, ref.ptc, "photon transfer curve with plots", exact=True)
                c.expect(sorted(os.listdir(d)) == ["figures"] and len(os.listdir(os.path.join(d, "figures"))) > 2, lambda: "%s: figures in %s" % (name, sorted(os.listdir(d))))
                c.equal(sorted(os.listdir(".")), here, "files in the working directory")
                c.state("plots", name)


def run(c):
    warnings.simplefilter("ignore")
    kgain(c)
    nonlin(c)
    plots(c)
