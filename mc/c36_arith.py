"""C36: every frame x every pixel of small datasets with pairwise different keyword values, against scalar formulas; desmearing
is linear, so it is decided for each image height by all unit impulses (plus one dense image) pushed through the readout model."""
import itertools
import math

import numpy as np

from mc import kit
import corgidrp.data as data
from corgidrp import l2a_to_l2b, l2b_to_l3

NAN, INF = float("nan"), float("inf")
PIX = [0.0, 1.0, -3.5, 1e-9, 12345.678, 7e7, NAN, 255.0]


def build(n, shape, rot, layers=1, **perframe):
    frames = []
    npx = shape[0] * shape[1]
    for i in range(n):
        img = np.array([PIX[(j + i + rot) % len(PIX)] * (1 + 0.01 * j) for j in range(npx)]).reshape(shape)
        f = kit.frame(shape, "L2a", i, img=img, **{k: v[i] for k, v in perframe.items()})
        if layers == 2:
            f.err = np.array([f.err[0], 0.5 * f.err[0] + i])
            f.err_hdr["Layer_2"] = "term"
        f.dq[0, i % shape[1]] = 1 << i
        frames.append(f)
    return data.Dataset(frames)


def close(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-300


def pixels(c, out, ds, fn, efn, unit, dqfn=None, layer_scale=None):
    for i, f in enumerate(out.frames):
        g = ds.frames[i]
        for p in np.ndindex(*f.data.shape):
            c.expect(close(float(f.data[p]), fn(i, p, float(g.data[p]))),
                     lambda: "frame %d pixel %s: %r, formula says %r" % (i, p, f.data[p], fn(i, p, float(g.data[p]))))
            w = efn(i, p, float(g.data[p]), float(g.err[0][p]))
            c.expect(close(float(f.err[0][p]), w), lambda: "frame %d pixel %s uncertainty: %r, formula says %r" % (i, p, f.err[0][p], w))
            wd = int(g.dq[p]) | (dqfn(p) if dqfn else 0)
            c.expect(int(f.dq[p]) == wd, lambda: "frame %d pixel %s flags: %d, not %d" % (i, p, f.dq[p], wd))
            if layer_scale is not None and g.err.shape[0] > 1:
                w2 = float(g.err[1][p]) * layer_scale(i, p)
                c.expect(close(float(f.err[1][p]), w2), lambda: "frame %d pixel %s tracked term: %r, not %r" % (i, p, f.err[1][p], w2))
        if unit is not None:
            c.equal(f.ext_hdr["BUNIT"], unit, "unit of frame %d" % i)
        c.expect(f.data is not None and np.array_equal(out.all_data[i], f.data, equal_nan=True), "cube and frame %d differ" % i)
    c.outcome(out.all_data, out.all_err)


def mul(a, b):
    try:
        return a * b
    except OverflowError:
        return INF


def div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else math.copysign(INF, a)
    return a / b


def run(c):
    shapes = [(2, 4), (1, 1), (3, 3)]
    exps = [0.001, 0.5, 10.0, 333.25]
    gains = [1.0, 1.5, 2.0, 5000.0]
    c.bound(frames="1-3 (4 thorough)", shapes=str(shapes), exposure_times=exps, gains=gains,
            desmear_heights="1-12 all impulses, 33, 64" + (", 128, 1024" if c.thorough else ""))
    ns = (1, 2, 3, 4) if c.thorough else (1, 2, 3)
    jobs = []
    for n, shape, rot in itertools.product(ns, shapes, range(len(PIX)) if c.thorough else (0, 3, 6)):
        for mode in (True, False):
            jobs.append((n, shape, rot, mode))

    def one(c, job):
        n, shape, rot, mode = job
        tag = "%d:%s:%d:%s" % (n, "x".join(map(str, shape)), rot, "track" if mode else "sum")
        with kit.err_tracking(mode):
            layers = 2 if mode else 1
            for perm in itertools.permutations(range(4), n):
                ex = [exps[k] for k in perm]
                gn = [gains[k] for k in perm]
                with c.case("exptime:%s:%s" % (tag, "".join(map(str, perm)))) as go:
                    if go:
                        ds = build(n, shape, rot, layers, EXPTIME=ex)
                        out = l2b_to_l3.divide_by_exptime(ds)
                        c.step()
                        c.state("e", job, perm)
                        pixels(c, out, ds, lambda i, p, x: x / ex[i], lambda i, p, x, e: e / ex[i], "photoelectrons/s",
                               layer_scale=lambda i, p: 1 / ex[i])
                        c.equal([f.ext_hdr["EXPTIME"] for f in out.frames], ex, "exposure times")
                with c.case("emgain:%s:%s" % (tag, "".join(map(str, perm)))) as go:
                    if go:
                        ds = build(n, shape, rot, layers, EMGAIN_C=gn)
                        out = l2a_to_l2b.em_gain_division(ds)
                        c.step()
                        c.state("g", job, perm)
                        pixels(c, out, ds, lambda i, p, x: x / gn[i], lambda i, p, x, e: e / gn[i], "detected electrons",
                               layer_scale=lambda i, p: 1 / gn[i])
            for kv, ke in ((2.5, 0.25), (8.7, 0.0), (0.125, 3.0)):
                with c.case("kgain:%s:%g" % (tag, kv)) as go:
                    if go:
                        ds = build(n, shape, rot, layers)
                        kg = kit.kgain(kv, ke)
                        out = l2a_to_l2b.convert_to_electrons(ds, kg)
                        c.step()
                        c.state("k", job, kv)
                        pixels(c, out, ds, lambda i, p, x: x * kv, lambda i, p, x, e: math.sqrt((e * kv) ** 2 + (x * ke) ** 2),
                               "detected EM electrons", layer_scale=lambda i, p: kv)
                        for f in out.frames:
                            c.equal((f.ext_hdr["KGAINPAR"], f.ext_hdr["RN"], f.ext_hdr["RN_ERR"]), (kv, 3.0, 0.1), "recorded gain and read noise")
                            c.expect(close(float(f.ext_hdr["KGAIN_ER"]), ke), "recorded gain uncertainty")
            for zero in (False, True):
                with c.case("flat:%s:%d" % (tag, zero)) as go:
                    if go:
                        fimg = 0.5 + np.arange(shape[0] * shape[1]).reshape(shape) / 7.0
                        if zero:
                            fimg[-1, -1] = 0.0
                        ferr = 0.01 + np.arange(shape[0] * shape[1]).reshape(shape) / 90.0
                        fl = kit.flat(shape, img=fimg, err=ferr)
                        ds = build(n, shape, rot, layers)
                        out = l2a_to_l2b.flat_division(ds, fl)
                        c.step()
                        c.state("f", job, zero)

                        def err(i, p, x, e):
                            a, b = div(e, float(fimg[p])), div(x * float(ferr[p]), float(fimg[p]) ** 2)
                            return math.sqrt(a * a + b * b) if a == a and b == b else NAN
                        pixels(c, out, ds, lambda i, p, x: div(x, float(fimg[p])), err, None,
                               dqfn=lambda p: 4 if fimg[p] == 0 else 0, layer_scale=lambda i, p: div(1.0, float(fimg[p])) if fimg[p] else INF)

    c.fan(jobs, one)

    heights = list(range(1, 13)) + [33, 64] + ([17, 100, 128, 1024] if c.thorough else [])
    times = [(0.125, 10.0), (0.5, 0.5), (223e-6, 100.0), (2.0, 0.25)]
    hj = [(h, t) for h in heights for t in times if h <= 128 or t == times[2]]

    def smear(c, job):
        h, (t, T) = job
        if h <= 12:
            ims = np.concatenate([np.eye(h), [np.arange(1.0, h + 1)]])     # columns of one frame: every unit impulse, and a ramp
        else:
            ims = np.array([np.eye(h)[k] for k in (0, 1, h // 2, h - 1)] + [np.arange(1.0, h + 1), 5 + np.sin(np.arange(h))])
        with c.case("desmear:%d:%g/%g" % (h, t, T)) as go:
            if not go:
                return
            D = ims.T.copy()                                     # rows x columns
            # two frames with different exposure times, so that a mix-up of frames is visible; each gets its own smear
            T2 = T * 3
            frames = []
            for i, TT in enumerate((T, T2)):
                S = D + (t / TT) * np.cumsum(D, axis=0)
                f = kit.frame(None, "L2a", i, img=S * (i + 1), EXPTIME=TT, dq=np.full(S.shape, i + 1))
                frames.append(f)
            ds = data.Dataset(frames)
            before = kit.snap_ds(ds)
            out = l2a_to_l2b.desmear(ds, kit.detparams(ROWREADT=t))
            c.step()
            c.state("desmear", h, t, T)
            for i in range(2):
                scale = max(1.0, float(np.abs(before["all_data"][i]).max()))
                c.same(out.frames[i].data / scale, D * (i + 1) / scale, "desmeared frame %d" % i, rtol=1e-9, atol=1e-9)
                c.equal(out.frames[i].ext_hdr["DESMEAR"], True, "DESMEAR")
                c.same(out.frames[i].dq, before["all_dq"][i], "flags", exact=True)
            c.outcome(np.round(out.all_data, 6))

    c.fan(hj, smear)
