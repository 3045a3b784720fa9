"""C18: every combination of the three gain keywords on each frame of multi-frame datasets x every gain-dependent step, against
the formula of the step evaluated at the gain the precedence rule gives."""
import itertools
import math

import numpy as np

from mc import kit, steps
from mc.c26_nonlin import reference as relgain
import corgidrp.data as data
from corgidrp import l1_to_l2a, l2a_to_l2b, darks, photon_counting

TABLE = [[math.nan, 0.5, 1., 2., 6., 30.], [10., 0.9, 1.0, 1.1, 1.3, 1.7], [500., 1.2, 1.15, 0.8, 0.7, 0.5]]
M = [None, 1.0, 3.0]
A = [-1.0, 0.0, 0.5, 4.0]
C = [1.0, 6.0]


def gain(k):
    m, a, cc = k
    return m if m is not None else a if a > 0 else cc


def cube(i):
    """Counts around every saturation level a gain of the menu gives."""
    lv = sorted({50.0 * g for g in (0.5, 1.0, 3.0, 4.0, 6.0, 8.0, 2.0)})
    v = [x for a in lv for x in (a - 1 - i, a, a + 0.5)] + [0.0, 7.0 + i, 33.0]
    return np.array(v).reshape(4, 6)


def frames(keys, **kw):
    out = []
    for i, (m, a, cc) in enumerate(keys):
        f = kit.frame(None, "L2a", i, img=cube(i), EMGAIN_A=a, EMGAIN_C=cc, **kw)
        if m is not None:
            f.ext_hdr["EMGAIN_M"] = m
        elif "EMGAIN_M" in f.ext_hdr:
            del f.ext_hdr["EMGAIN_M"]
        out.append(f)
    return data.Dataset(out)


def cosmic(c, keys, ds):
    p = kit.detparams(FWC_PP_E=100.0, FWC_EM_E=1000.0, KGAINPAR=1.0)
    out = l1_to_l2a.detect_cosmic_rays(ds, p, None, sat_thresh=0.5, plat_thresh=0.5)
    for i, k in enumerate(keys):
        lim = 0.5 * min(100.0 * gain(k), 1000.0)
        c.same((out.frames[i].dq & 32) != 0, cube(i) >= lim, "frame %d, gain %s: saturated pixels" % (i, gain(k)), exact=True)


def nonlin(c, keys, ds):
    out = l1_to_l2a.correct_nonlinearity(ds, kit.nonlin(table=TABLE))
    for i, k in enumerate(keys):
        want = [[x * relgain(TABLE, gain(k), x) for x in row] for row in cube(i).tolist()]
        c.same(out.frames[i].data, np.array(want), "frame %d, gain %s: corrected counts" % (i, gain(k)))


def noise(c, keys, ds):
    out = l2a_to_l2b.add_photon_noise(ds)
    for i, k in enumerate(keys):
        f = 2.0 if gain(k) > 1 else 1.0
        c.same(out.frames[i].err[0], np.sqrt(ds.frames[i].err[0] ** 2 + f * cube(i)), "frame %d, gain %s: uncertainty" % (i, gain(k)))


def divide(c, keys, ds):
    old = [f.err.copy() for f in ds.frames]
    out = l2a_to_l2b.em_gain_division(ds)
    for i, k in enumerate(keys):
        c.same(out.frames[i].data, cube(i) / gain(k), "frame %d, gain %s: data" % (i, gain(k)))
        c.same(out.frames[i].err[0], old[i][0] / gain(k), "frame %d, gain %s: uncertainty" % (i, gain(k)))


def linear_chain(c, keys, ds):
    """Two gain-dependent steps after another (neither may disturb the gain the next one uses)."""
    a = l1_to_l2a.correct_nonlinearity(ds, kit.nonlin(table=TABLE))
    b = l2a_to_l2b.em_gain_division(l2a_to_l2b.add_photon_noise(a))
    for i, k in enumerate(keys):
        want = [[x * relgain(TABLE, gain(k), x) / gain(k) for x in row] for row in cube(i).tolist()]
        c.same(b.frames[i].data, np.array(want), "frame %d, gain %s: data" % (i, gain(k)))
    c.step(2)


STEPS = dict(detect_cosmic_rays=cosmic, correct_nonlinearity=nonlin, add_photon_noise=noise, em_gain_division=divide, chain=linear_chain)


def run(c):
    K = list(itertools.product(M, A, C))
    n = 3 if c.thorough else 2
    c.bound(measured=["absent"] + M[1:], applied=A, commanded=C, frames=n, steps=list(STEPS) + ["build_synthesized_dark", "dark_subtraction", "get_pc_mean", "get_pc_mean dark"])
    jobs = [(s, ks) for s in STEPS for ks in itertools.product(K, repeat=n)] + [(s, (k,)) for s in STEPS for k in K]
    if c.thorough:
        jobs += [(s, ks) for s in STEPS for ks in itertools.product(K, repeat=2)]

    def one(c, job):
        s, keys = job
        with c.case("%s:%s" % (s, keys)) as go:
            if go:
                ds = frames(keys)
                STEPS[s](c, keys, ds)
                c.step()
                c.state(s, keys)
                c.outcome(s, [gain(k) for k in keys])

    c.fan(jobs, one)

    def uniform(c, k):
        g = gain(k)
        m, a, cc = k
        for t in (2.0, 5.5):
            with c.case("dark:%s:%s" % (k, t)) as go:
                if go:
                    nm = kit.noisemaps(steps.FULL)
                    F, I, D = (nm.data[j].copy() for j in range(3))
                    ds = steps.start(steps.FULL, "L2a", n=2, EMGAIN_A=a, EMGAIN_C=cc, EXPTIME=t)
                    if m is not None:
                        for f in ds.frames:
                            f.ext_hdr["EMGAIN_M"] = m
                    c.step(2)
                    c.state("dark", k, t)
                    if g < 1:
                        c.raises(lambda: darks.build_synthesized_dark(ds, nm, detector_regions=steps.REGIONS, full_frame=True), "gain below 1")
                        continue
                    d = darks.build_synthesized_dark(ds, nm, detector_regions=steps.REGIONS, full_frame=True)
                    c.same(d.data, F / g + t * D + I, "dark for gain %s" % g)
                    out = l2a_to_l2b.dark_subtraction(ds, nm, detector_regions=steps.REGIONS, outputdir=c.newdir())
                    for i in range(2):
                        c.same(out.frames[i].data, ds.frames[i].data - (F / g + t * D + I), "subtracted dark for gain %s" % g)
                    c.outcome("dark", g, t)
        for dark in (False, True):
            with c.case("pc:%s:%s" % (k, "dark" if dark else "sci")) as go:
                if go:
                    kw = dict(ISPC=True, EMGAIN_A=a, EMGAIN_C=cc, RN=0.0625, VISTYPE="DARK" if dark else "TDEMO")
                    ds = data.Dataset([kit.frame((3, 3), "L2a", i, img=np.where((np.arange(9).reshape(3, 3) + i) % 6 < 1, 40.0, 0.0), dq=np.zeros((3, 3), int),
                                                 err=np.zeros((3, 3)), **kw) for i in range(6)])
                    if m is not None:
                        for f in ds.frames:
                            f.ext_hdr["EMGAIN_M"] = m
                    got = photon_counting.get_pc_mean(ds, T_factor=1., pc_ecount_max=1e9, safemode=False, niter=12, inputmode="darks" if dark else "illuminated")
                    got = got.data[0] if dark else got.frames[0].data
                    n = [[sum((3 * r + q + i) % 6 < 1 for i in range(6)) for q in range(3)] for r in range(3)]
                    th = 0.0625
                    for r in range(3):
                        for q in range(3):
                            x = float(got[r, q])
                            # the rate reproduces the counted fraction (to third order in the rate), for the right gain only
                            eps = x * (2 * g * g * (6 + x * (3 + x)) + 2 * g * x * (3 + x) * th + x * x * th * th) / (
                                2 * math.exp(th / g) * g * g * (6 + x * (6 + x * (3 + x))))
                            c.expect(abs(eps * 6 - n[r][q]) < 1e-6, lambda: "(%d, %d): rate %r gives a count of %r for gain %s, counted %d" % (r, q, x, eps * 6, g, n[r][q]))
                    c.step()
                    c.state("pc", k, dark)
                    c.outcome("pc", g)

    c.fan(K, uniform)
