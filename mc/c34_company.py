"""C34: every ordered selection of the frames of small mixed datasets through every step that works frame by frame (and chains of two of them),
against each frame processed alone; every order of the frames (within their groups) through every operation that merges frames."""
import itertools
import warnings

import numpy as np

import corgidrp.data as data
from corgidrp import combine, darks, flat, fluxcal, l3_to_l4, l4_to_tda, photon_counting
from mc import chains, kit, ops, steps
from mc.c13_templates import quiet

MERGE = ("combine_subexposures", "combine_subexposures_median", "get_pc_mean")

# one keyword differing between the frames at a time, and all at once
VARY = {
    "same": {},
    "exptime": dict(EXPTIME=[10., 20., 5., 2.5]),
    "gain": dict(EMGAIN_C=[1., 2., 5., 8.]),
    "applied": dict(EMGAIN_A=[-1., 2., 5., -1.]),
    "kgain": dict(KGAINPAR=[8.7, 8.0, 7.0, 6.5]),
    "roll": dict(ROLL=[15., 30., -10., 200.]),
    "star": dict(STARLOCX=[1.5, 1.25, 2.5, 1.75]),
    "starpix": dict(STARLOCX=[1.5, 1.25, 2.0, 1.75], STARLOCY=[1.5, 2.25, 1.0, 0.5]),
    "quality": dict(OVEREXP=[False, True, False, True], Z2VAR=[0.0, 2.0, 30.0, 0.5], Z3VAR=[4.0, 0.0, 1.0, 30.0], Z2RES=[0.0, 3.0, 0.5, 1.0]),
    "unit": dict(BUNIT=["DN", "photoelectron", "electron/s", "DN"]),
    "pointing": dict(RA=[80.5, 81.0, 79.0, 10.0], DEC=[-69.5, -69.0, -60.0, 5.0], FSMX=[0.0, 1.5, -2.0, 3.0], FSMY=[1.0, 0.0, 2.0, -1.0]),
    "target": dict(TARGET=["A", "B", "C", "D"], OBSNUM=[0, 1, 2, 3], VISNUM=["000", "001", "002", "003"]),
    "time": dict(DATETIME=["2024-01-01T11:00:00.000", "2024-01-01T10:00:00.000", "2024-03-01T11:00:00.000", "2023-01-01T11:00:00.000"]),
}
VARY["all"] = {k: v for n, d in VARY.items() if n not in ("starpix",) for k, v in d.items()}


def starts(n):
    return {
        "L1full": lambda: steps.start(steps.FULL, "L1", n=n, layers=1),
        "L2aImg": lambda: steps.start(steps.IMG, "L2a", n=n, layers=2),
        "L2aFull": lambda: steps.start(steps.FULL, "L2a", n=n, layers=1),
        "L2bImg": lambda: chains.wcs(steps.start(steps.IMG, "L2b", n=n, layers=2)),
        "L3Img": lambda: chains.wcs(steps.start(steps.IMG, "L3", n=n, layers=2, BUNIT="electron/s")),
        "L4Img": lambda: chains.wcs(steps.start(steps.IMG, "L4", n=n, layers=1, BUNIT="electron/s")),
    }


def build(mk, vary):
    ds = mk()
    for i, f in enumerate(ds.frames):
        for k, vals in VARY[vary].items():
            (f.pri_hdr if k in f.pri_hdr else f.ext_hdr)[k] = vals[i]
        # a pixel that only this frame has: very bright, negative, flagged, not a number
        f.data[1, 1 + i % 3] = (4000.0, -500.0, 2500.0, 1000.0)[i]
        f.dq[2, i % 4] = (1, 32, 4, 128)[i]
        f.dq[3, 3] = (8, 0, 64, 2)[i]      # (where the flat is zero)
        f.err[0][3, i % 4] = 7.0 + i
    return ds


def view(f):
    s = kit.snap(f)
    for k in ("ext", "pri"):
        s[k] = [x for x in s[k] if x[0] not in ("HISTORY",)]
    return s


def run_step(s, env, frames, alone=False):
    """The resulting frames, [] when a frame-selecting step leaves none, None when the step does not accept these frames."""
    ds = data.Dataset([f.copy() for f in frames])
    if not s.enabled(ds):
        return None
    if s.name == "dark_subtraction_synth" and len({f.ext_hdr["EMGAIN_A"] for f in ds.frames}) > 1:
        return None         # (documented: all frames with the same EM gain)
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return list(s(ds, env).frames)
    except Exception:
        if s.may_refuse:
            return []
        if alone or s.name == "frame_select_mark":      # (which refuses when every frame is bad)
            return None
        raise


def selections(n):
    return [p for k in range(2, n + 1) for p in itertools.permutations(range(n), k)]


def frame_wise(c, item):
    sname, vary, step, n, track = item
    key = "frames/%s/%s/%s/%s" % ("track" if track else "sum", sname, vary, step)
    if c.only is not None and not c.only.startswith(key):
        return
    S = steps.by_name()
    s = S[step]
    with kit.err_tracking(track):
        env = box(c)
        full = build(starts(n)[sname], vary).frames
        alone = [run_step(s, env, [f], True) for f in full]
        if any(a is None for a in alone):
            return
        with c.case(key) as go:
            if not go:
                return
            want = [[view(f) for f in a] for a in alone]
            c.step(n)
            for p in selections(n):
                got = run_step(s, env, [full[i] for i in p])
                if got is None:
                    continue        # (this mixture is outside what the step accepts)
                c.step()
                c.state(key, p)
                ref = [w for i in p for w in want[i]]
                c.expect(len(got) == len(ref), lambda: "%s of frames %s: %d frames, but %d one by one" % (step, p, len(got), len(ref)))
                for k, (g, w) in enumerate(zip(got, ref)):
                    d = kit.diff(w, view(g), rtol=1e-12)
                    c.expect(d is None, lambda: "%s: frame %d of %s differs from the same frame processed alone (left): %s" % (step, k, p, d))
                c.outcome(key, len(got))
            # two steps in a row, all frames in order and reversed
            for s2 in S.values():
                if s2.name in MERGE or not c_depth(c, s2, vary, track):
                    continue
                for p in (tuple(range(n)), tuple(range(n))[::-1]):
                    one = run_step(s, env, [full[i] for i in p])
                    if not one:
                        continue
                    ref = []
                    for f in one:
                        r = run_step(s2, env, [f], True)
                        ref = None if ref is None or r is None else ref + r
                    if ref is None:
                        continue
                    two = run_step(s2, env, one)
                    if two is None:
                        continue
                    c.step()
                    c.state(key, s2.name, p)
                    d = kit.diff([view(f) for f in ref], [view(f) for f in two], rtol=1e-12)
                    c.expect(d is None, lambda: "%s after %s (frames %s): differs from each frame alone (left): %s" % (s2.name, step, p, d))


def c_depth(c, s2, vary, track):
    return vary == "all" and track or (c.thorough and vary in ("same", "all"))


_box = {}


def box(c):
    if "env" not in _box:
        _box["env"] = steps.Env(c.newdir("out"))
    return _box["env"]


# --- operations that merge frames
def arrays(r, drop=()):
    out = {}
    for k, f in enumerate(r.frames if isinstance(r, data.Dataset) else [r]):
        out[k] = dict(data=np.array(f.data), err=np.array(f.err), dq=np.array(f.dq), parents=sorted(str(v) for a, v in f.ext_hdr.items() if a.startswith("FILE") and a[4:].isdigit()))
    return out


def merges(c):
    """name -> (frames, groups of positions that may be reordered among themselves, may the groups be reordered, call)"""
    R = steps.REGIONS
    M = {}

    def frames(shape, n, level, **kw):
        out = []
        for i in range(n):
            f = kit.frame(shape, level, i, img=kit.arr(shape, i, scale=0.3), dq=steps._dq(shape, (1, i % 3), 4 << i), **kw)
            f.dq[2, 2] = 1
            f.dq[0, 1] = 2 if i < 2 else 0
            out.append(f)
        return out

    n = 4
    for col in ("mean", "median"):
        for scale in (True, False):
            M["combine_%s_%s" % (col, scale)] = (frames((4, 4), n, "L2b"), [range(n)], False, lambda d, col=col, scale=scale: combine.combine_subexposures(d, collapse=col, num_frames_scaling=scale))
            M["combine_groups_%s_%s" % (col, scale)] = (frames((4, 4), n, "L2b"), [range(0, 2), range(2, 4)], True,
                                                        lambda d, col=col, scale=scale: combine.combine_subexposures(d, 2, collapse=col, num_frames_scaling=scale))

    def pc(seed=0, **kw):
        ds = ops.pc_frames(n, seed, **kw)
        for i, f in enumerate(ds.frames):
            f.dq[:] = 0
            f.dq[1, i % 3] = 4
            f.dq[2, 2] = 1
        return list(ds.frames)
    kw = dict(T_factor=5.0, pc_ecount_max=1e9, safemode=False)
    M["pc_mean"] = (pc(), [range(n)], False, lambda d: photon_counting.get_pc_mean(d, **kw))
    M["pc_mean_bins"] = (pc(), [range(0, 2), range(2, 4)], True, lambda d: photon_counting.get_pc_mean(d, bin_size=2, **kw))
    M["pc_mean_darks"] = (pc(VISTYPE="DARK"), [range(n)], False, lambda d: photon_counting.get_pc_mean(d, inputmode="darks", **kw))
    dark = photon_counting.get_pc_mean(ops.pc_frames(4, 2, VISTYPE="DARK"), inputmode="darks", **kw)
    M["pc_mean_dark"] = (pc(), [range(n)], False, lambda d: photon_counting.get_pc_mean(d, dark, **kw))
    par = kit.detparams(TELRSTRT=0, TELREND=1)
    for full in (True, False):
        M["trad_dark_%s" % full] = (frames(steps.FULL, n, "L2a", VISTYPE="DARK"), [range(n)], False, lambda d, full=full: darks.build_trad_dark(d, par, detector_regions=R, full_frame=full))
    M["flatfield"] = (frames((4, 4), n, "L2b"), [range(n)], False, flat.create_flatfield)
    stack = list(ops.noise_stack().frames)
    for i, f in enumerate(stack):
        f.dq[2, 6 + i % 3] = 4
    M["noise_maps"] = (stack, [range(6)], False, lambda d: darks.calibrate_darks_lsq(d, par, detector_regions=R))
    two = []
    for i, f in enumerate(ops.noise_stack().frames):
        for k in range(2):
            g = f.copy()
            g.data = f.data + kit.arr(steps.FULL, 3 * k + i, base=0.0, scale=0.02)
            g.filename = "CGI_%d%d_L2a_.fits" % (i, k)
            two.append(g)
    M["noise_maps_stacks"] = (two, [range(2 * i, 2 * i + 2) for i in range(6)], True, lambda d: darks.calibrate_darks_lsq(d, par, detector_regions=R))
    return M


def group_orders(groups, reorder, limit):
    """Every order within the groups (and of the groups), at most `limit` of them taken evenly when there are more."""
    gs = [list(g) for g in groups]
    outer = list(itertools.permutations(range(len(gs)))) if reorder else [tuple(range(len(gs)))]
    total = len(outer)
    for g in gs:
        for k in range(2, len(g) + 1):
            total *= k
    if total <= limit:
        for o in outer:
            for inner in itertools.product(*[list(itertools.permutations(gs[k])) for k in o]):
                yield [i for part in inner for i in part], o
        return
    # all transpositions, rotations and the reverse instead (they generate every order)
    flat_ = [i for g in gs for i in g]
    seen = set()
    for a, b in itertools.combinations(range(len(gs)), 2):
        if reorder:
            o = list(range(len(gs)))
            o[a], o[b] = o[b], o[a]
            yield [i for k in o for i in gs[k]], tuple(o)
    for k, g in enumerate(gs):
        for a, b in itertools.combinations(range(len(g)), 2):
            h = list(g)
            h[a], h[b] = h[b], h[a]
            yield [i for j, x in enumerate(gs) for i in (h if j == k else x)], tuple(range(len(gs)))
        yield [i for j, x in enumerate(gs) for i in (g[::-1] if j == k else x)], tuple(range(len(gs)))
    if reorder:
        for k in range(1, len(gs)):
            o = list(range(k, len(gs))) + list(range(k))
            yield [i for j in o for i in gs[j]], tuple(o)
        yield flat_[::-1], tuple(range(len(gs)))[::-1]


def merged(c, item):
    name, track = item
    with kit.err_tracking(track):
        fs, groups, reorder, call = merges(c)[name]
        key = "merge/%s/%s" % ("track" if track else "sum", name)
        with c.case(key) as go:
            if not go:
                return

            def do(order):
                with quiet(), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    c.step()
                    return arrays(call(data.Dataset([fs[i].copy() for i in order])))
            ref = do(range(len(fs)))
            for order, o in group_orders(groups, reorder, 720 if c.thorough else 120):
                got = do(order)
                c.state(key, order)
                if len(ref) > 1:        # one result per group
                    want = {k: ref[g] for k, g in enumerate(o)}
                else:
                    want = ref
                d = kit.diff(want, got, rtol=1e-9)
                c.expect(d is None, lambda: "%s: frames in the order %s give a different result (right): %s" % (name, order, d))
            c.outcome(key)


def analysis(c):
    """Flux-ratio noise of every frame of a dataset, against the frame alone (different throughputs per frame)."""
    def make(k):
        ds, nd, star = ops.subtracted()
        f = ds.frames[0]
        f.filename = "CGI_%d_L4_.fits" % k
        f.data = f.data * (1 + k) + 3 * k
        kl, ct = f.hdu_list["KL_THRU"], f.hdu_list["CT_THRU"]
        seps = np.array([[5., 8., 12., 15.], [6., 8., 10., 12.], [4., 9., 11., 16.]][k])
        kl.data[0] = seps[:, None]
        kl.data[1:, :, 0] *= (1 - 0.2 * k)
        kl.data[1:, :, 1] += 0.25 * k
        ct.data[0] = seps
        f.ext_hdr["PLTSCALE"] = 21.8 + k
        s = star.frames[0]
        s.data = s.data * (1 + k)
        s.data = np.roll(s.data, (k, -2 * k), (0, 1))
        s.filename = "CGI_star%d.fits" % k
        return f, s, nd
    opts = {"plain": {}, "seps": dict(requested_separations=np.array([7.0, 9.0])), "half": dict(halfwidth=0.75)}
    for oname, o in opts.items():
        with c.case("noise-curve/" + oname) as go:
            if not go:
                continue
            alone = []
            for k in range(3):
                f, s, nd = make(k)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    alone.append(l4_to_tda.compute_flux_ratio_noise(data.Dataset([f]), nd, data.Dataset([s]), **o).frames[0])
            for p in selections(3):
                parts = [make(k) for k in p]
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = l4_to_tda.compute_flux_ratio_noise(data.Dataset([x[0] for x in parts]), parts[0][2], data.Dataset([x[1] for x in parts]), **o)
                c.step()
                c.state("noise-curve", oname, p)
                for k, g in zip(p, got.frames):
                    d = kit.diff(view(alone[k]), view(g), rtol=1e-9)
                    c.expect(d is None, lambda: "flux ratio noise: frame %d of %s differs from the frame alone (left): %s" % (k, p, d))
            c.outcome("noise-curve", oname)


def run(c):
    n = 4 if c.thorough else 3
    S = [s.name for s in steps.all_steps() if s.name not in MERGE]
    items = [(a, v, s, n, t) for a in starts(n) for v in VARY for s in S for t in (True, False) if t or v == "all" or c.thorough]
    c.bound(frames=n, ordered_selections=len(selections(n)), steps=len(S), varied_keywords=sorted(VARY), start_datasets=sorted(starts(n)))
    c.assume("one colour correction per dataset (documented for determine_color_cor); mixtures that a step refuses or does not accept are left out")
    c.fan(items, frame_wise)
    M = list(merges(c))
    c.bound(merging_operations=len(M))
    c.fan([(m, t) for m in M for t in (True, False)], merged)
    if c.only is None or c.only.startswith("noise-curve"):
        analysis(c)
