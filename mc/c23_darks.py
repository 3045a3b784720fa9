"""C23: all combinations of exposure settings on dark and frames (accepted exactly when all agree); all synthesis settings of a grid."""
import itertools
import os

import numpy as np

from mc import kit, steps
import corgidrp.data as data
from corgidrp import l2a_to_l2b, darks

T, G, K = (10.0, 10.0009765625), (1.0, 6.0), (8.7, 8.75)
TRIPLES = list(itertools.product(T, G, K))


def kw(t):
    return dict(EXPTIME=t[0], EMGAIN_C=t[1], KGAINPAR=t[2])


def run(c):
    par = kit.detparams(TELRSTRT=0, TELREND=1)
    nf = 3 if c.thorough else 2
    c.bound(triples="2 exposure times x 2 gains x 2 k-gains on the dark and every frame", frames=nf, pc_status=[None, "analog master dark", "photon-counted master dark", "other"],
            synthesis="exposure times x gain keywords x full/image x flag bits of each map")

    def apply(c, job):
        ft, dt = job
        with c.case("apply:%s:%s" % (ft, dt)) as go:
            if go:
                fr = [kit.frame((4, 4), "L2a", i, dq=(np.arange(16) * (i + 3) % 8).reshape(4, 4), **kw(t)) for i, t in enumerate(ft)]
                ds = data.Dataset(fr)
                d = kit.dark((4, 4), dq=(np.arange(16) % 3 * 16).reshape(4, 4), **kw(dt))
                c.step()
                c.state("apply", job)
                if any(t != dt for t in ft):
                    c.raises(lambda: l2a_to_l2b.dark_subtraction(ds, d), "exposure settings differ")
                    return
                out = l2a_to_l2b.dark_subtraction(ds, d)
                for i, f in enumerate(fr):
                    o = out.frames[i]
                    c.same(o.data, f.data - d.data, "data of frame %d" % i)
                    c.same(o.err[0], np.sqrt(f.err[0] ** 2 + d.err[0] ** 2), "uncertainty of frame %d" % i)
                    c.same(o.dq, f.dq.astype(int) | d.dq.astype(int), "flags of frame %d" % i, exact=True)
                    c.equal(str(o.ext_hdr["BUNIT"]).lower(), "photoelectrons", "unit")

    jobs = [(ft, dt) for ft in itertools.product(TRIPLES, repeat=2) for dt in TRIPLES]
    if c.thorough:
        jobs += [((a, b, a2), dt) for a, b in itertools.product(TRIPLES, repeat=2) for a2 in TRIPLES for dt in TRIPLES if a == dt or b == dt or a2 == dt]
    c.fan(jobs, apply)

    for st in ("analog master dark", "photon-counted master dark", "other"):
        for n in (1, 2):
            with c.case("status:%s:%d" % (st, n)) as go:
                if go:
                    ds = kit.dataset(n, (4, 4), "L2a", **kw(TRIPLES[0]))
                    d = kit.dark((4, 4), PC_STAT=st, **kw(TRIPLES[0]))
                    c.step()
                    c.state("status", st, n)
                    if st == "analog master dark":
                        l2a_to_l2b.dark_subtraction(ds, d)
                    else:
                        c.raises(lambda: l2a_to_l2b.dark_subtraction(ds, d), "status " + st)
    for name, mk in kit.CALS.items():
        if name in ("Dark", "DetectorNoiseMaps"):
            continue
        with c.case("kind:" + name) as go:
            if go:
                c.step()
                c.state("kind", name)
                c.raises(lambda: l2a_to_l2b.dark_subtraction(kit.dataset(1, (4, 4), "L2a"), mk()), "a " + name + " as dark")

    # a dark of another size is refused
    for shape in ((4, 5), (5, 4), (2, 4), (4, 2), (3, 3)):
        with c.case("shape:%s" % (shape,)) as go:
            if go:
                c.step()
                c.state("shape", shape)
                c.raises(lambda: l2a_to_l2b.dark_subtraction(kit.dataset(1, (4, 4), "L2a", **kw(TRIPLES[0])), kit.dark(shape, **kw(TRIPLES[0]))), "dark of another size")

    # building
    def build(c, ft):
        with c.case("build:%s" % (ft,)) as go:
            if go:
                fr = [kit.frame(steps.FULL, "L2a", i, VISTYPE="DARK", **kw(t)) for i, t in enumerate(ft)]
                c.step(2)
                c.state("build", ft)
                for full in (True, False):
                    call = lambda: darks.build_trad_dark(data.Dataset(fr), par, detector_regions=steps.REGIONS, full_frame=full)
                    if len(set(ft)) > 1:
                        c.raises(call, "frames of different exposure settings")
                        c.raises(lambda: darks.build_synthesized_dark(data.Dataset(fr), kit.noisemaps(steps.FULL), detector_regions=steps.REGIONS, full_frame=full), "synthesis for mixed frames")
                        c.raises(lambda: l2a_to_l2b.dark_subtraction(data.Dataset(fr), kit.noisemaps(steps.FULL), detector_regions=steps.REGIONS, outputdir="."), "synthesis for mixed frames")
                        continue
                    d = call()
                    c.equal((d.ext_hdr["EXPTIME"], d.ext_hdr["EMGAIN_C"], d.ext_hdr["KGAINPAR"]), ft[0], "settings recorded in the dark")
                    c.equal(d.ext_hdr["PC_STAT"], "analog master dark", "status of the dark")
                    mean = sum(np.where(np.arange(6)[:, None] < 1, 0.0, f.data) for f in fr) / len(fr)
                    c.same(d.data, mean if full else mean[1:5, 5:9], "mean of the frames")

    c.fan(list(itertools.product(TRIPLES, repeat=2)) + (list(itertools.product(TRIPLES, repeat=3)) if c.thorough else []), build)

    # synthesis
    gains = [(None, -1.0, 1.0), (None, -1.0, 2.0), (None, 3.0, 2.0), (None, 0.0, 2.0), (5.0, 3.0, 2.0), (None, -1.0, 1000.0)]
    times = (0.0, 0.5, 10.0, 100.0, 3600.0) if c.thorough else (0.0, 0.5, 100.0)

    def synth(c, job):
        t, (m, a, cg), full, bits, n = job
        g = m if m is not None else a if a > 0 else cg
        with c.case("synth:%s:%s:%s:%s:%d" % (t, (m, a, cg), full, bits, n)) as go:
            if not go:
                return
            F, I, D = kit.arr(steps.FULL, 3, base=-40.0), kit.arr(steps.FULL, 1, base=0.0, scale=0.01), kit.arr(steps.FULL, 2, base=0.0, scale=0.003)
            stack = np.array([F, I, D])
            err = np.array([[kit.arr(steps.FULL, 5, base=1.0, scale=0.1), kit.arr(steps.FULL, 6, base=0.1, scale=0.02), kit.arr(steps.FULL, 7, base=0.01, scale=0.03)]])
            dq = np.zeros((3,) + steps.FULL, dtype=np.uint16)
            for p in range(3):
                for k in range(60):
                    if (k >> p) & 1:
                        dq[p, k // 10, k % 10] = bits[p]
            nm = kit.noisemaps(stack=stack, err=err, dq=dq, KGAINPAR=8.7)
            nm.filename = "maps_DNM_CAL.fits"
            shape = steps.FULL if full else steps.IMG
            fr = [kit.frame(shape, "L2a", i, EXPTIME=t, EMGAIN_A=a, EMGAIN_C=cg) for i in range(n)]
            if m is not None:
                for f in fr:
                    f.ext_hdr["EMGAIN_M"] = m
            ds = data.Dataset(fr)
            cut = (lambda x: x) if full else (lambda x: x[1:5, 5:9])
            want = cut(F / g + t * D + I)
            werr = cut(np.sqrt((err[0, 0] / g) ** 2 + (t * err[0, 2]) ** 2 + err[0, 1] ** 2))
            wdq = cut(dq[0] | dq[1] | dq[2]).astype(int)
            d = darks.build_synthesized_dark(ds, nm, detector_regions=steps.REGIONS, full_frame=full)
            c.step(2)
            c.state("synth", job)
            c.same(d.data, want, "synthesised dark")
            c.same(d.err[0], werr, "uncertainty of the synthesised dark")
            c.same(d.dq.astype(int), wdq, "flags of the synthesised dark", exact=True)
            c.equal(d.ext_hdr["EXPTIME"], t, "recorded exposure time")
            c.equal(d.ext_hdr["EMGAIN_C"], g, "recorded gain")
            out = c.newdir("synth")
            res = l2a_to_l2b.dark_subtraction(ds, nm, detector_regions=steps.REGIONS, outputdir=out)
            for i, f in enumerate(fr):
                c.same(res.frames[i].data, f.data - want, "frame %d" % i)
                c.same(res.frames[i].err[0], np.sqrt(f.err[0] ** 2 + werr ** 2), "uncertainty of frame %d" % i)
                c.same(res.frames[i].dq.astype(int), f.dq.astype(int) | wdq, "flags of frame %d" % i, exact=True)
            files = os.listdir(out)
            c.equal(len(files), 1, "saved darks")
            here, cwd = c.newdir("cwd"), os.getcwd()
            try:
                os.chdir(here)
                l2a_to_l2b.dark_subtraction(ds, nm, detector_regions=steps.REGIONS)
            finally:
                os.chdir(cwd)
            c.equal(os.listdir(here), files, "darks saved in the current directory when no other is named")
            back = data.Dark(os.path.join(out, files[0]))
            c.same(back.data, want, "saved dark")
            c.outcome(d.data)
            if g == cg:
                again = l2a_to_l2b.dark_subtraction(ds, back, detector_regions=steps.REGIONS)
                c.same(again.all_data, res.all_data, "subtraction of the saved dark")
                for other in (dict(EXPTIME=t + 1), dict(EMGAIN_C=cg + 1), dict(KGAINPAR=9.0)):
                    ds2 = data.Dataset([kit.frame(shape, "L2a", 0, **dict(dict(EXPTIME=t, EMGAIN_A=a, EMGAIN_C=cg), **other))])
                    c.raises(lambda: l2a_to_l2b.dark_subtraction(ds2, back, detector_regions=steps.REGIONS), "saved dark for %s" % other)

    bits = [(1, 2, 4), (256, 1, 1), (4, 4, 128)]
    c.fan([j for j in itertools.product(times, gains, (True, False), bits if c.thorough else bits[:2], (1, 2))], synth)

    # refusals
    def refuse(name, nm, ds):
        with c.case("refuse:" + name) as go:
            if go:
                c.step()
                c.state("refuse", name)
                for full in (True, False):
                    c.raises(lambda: darks.build_synthesized_dark(ds, nm, detector_regions=steps.REGIONS, full_frame=full), name)

    ok = kit.dataset(1, steps.FULL, "L2a")
    for p, what in ((1, "clock-induced charge"), (2, "dark current")):
        for k in range(60):
            s = kit.arr((3,) + steps.FULL, 0)
            s[p, k // 10, k % 10] = -1e-6
            refuse("negative %s at %d" % (what, k), kit.noisemaps(stack=s), ok)
    for g in (0.0, 0.5, 0.999):
        refuse("gain %s" % g, kit.noisemaps(steps.FULL), kit.dataset(1, steps.FULL, "L2a", EMGAIN_C=g))
    for shape in ((6, 9), (5, 10), (4, 4), (7, 10), (6, 11)):
        refuse("maps of size %s" % (shape,), kit.noisemaps(shape), ok)
    for shape in ((6, 9), (5, 10), (3, 4), (4, 5), (10, 6)):
        with c.case("refuse:frames %s" % (shape,)) as go:
            if go:
                c.step()
                c.raises(lambda: l2a_to_l2b.dark_subtraction(kit.dataset(1, shape, "L2a"), kit.noisemaps(steps.FULL), detector_regions=steps.REGIONS, outputdir="."), "frames of size %s" % (shape,))
