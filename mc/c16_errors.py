"""C16: every chain of steps, in both tracking modes, with an independently computed uncertainty (every layer and its name)
after every step; rotations by quarter turns; add_error_term / rescale_error on images of two and three dimensions."""
import itertools

import numpy as np

from mc import kit, chains, steps
from mc.core import Bad
import corgidrp
import corgidrp.data as data
from corgidrp import l3_to_l4

LEAVES = {"detect_cosmic_rays", "detect_cosmic_rays_full", "correct_nonlinearity", "correct_nonlinearity_none", "update_to_l2a", "update_to_l2b",
          "update_to_l3", "update_to_l4", "update_to_l4_noct", "update_to_tda", "cti_correction", "correct_bad_pixels", "desmear", "create_wcs",
          "flag_nans", "frame_select", "frame_select_mark", "distortion_correction"}


def gain(h):
    h = dict(h)
    if "EMGAIN_M" in h:
        return h["EMGAIN_M"]
    return h["EMGAIN_A"] if h["EMGAIN_A"] > 0 else h["EMGAIN_C"]


def names(f, layers):
    h = dict((k, v) for k, v in f["errh"] if k.startswith("LAYER"))
    return [h.get("LAYER_%d" % (k + 1)) for k in range(1, layers)]


def expected(n, env, before, i, out):
    """(scaled layers, own term, its name) of output frame i, or None when this monitor has no formula."""
    f = before["frames"][i]
    E, D, H = f["err"].astype(float), f["data"].astype(float), f["ext"]
    one = np.ones(D.shape)
    if n in LEAVES:
        return E, None, None
    if n.startswith("prescan_biassub"):
        bo_err = 0.0 if n.endswith("imaging") else env.noise.ext_hdr["B_O_ERR"]
        pre = D[:, 1:4]
        row = np.sqrt(np.array([np.std(r) for r in pre]) ** 2 / 3 + bo_err ** 2)
        e = row[:, None] * one
        if not n.endswith("full"):
            first = 0 if n.endswith("imaging") else 1      # the imaging area includes the shielded row before the image
            E, e = E[:, first:5, 5:9], e[first:5, 5:9]
        return E, e, "prescan_bias_sub"
    if n == "add_photon_noise":
        return E, np.sqrt(D) * (np.sqrt(2.0) if gain(H) > 1 else 1.0), "photnoise_error"
    if n == "dark_subtraction":
        return E, env.dark.err[0], "dark_error"
    if n == "dark_subtraction_full":
        return E, env.fulldark.err[0], "dark_error"
    if n == "dark_subtraction_synth":
        h = dict(H)
        e = env.noise.err[0]
        e = np.sqrt((e[0] / gain(H)) ** 2 + (h["EXPTIME"] * e[2]) ** 2 + e[1] ** 2)
        return E, e if D.shape == steps.FULL else e[1:5, 5:9], "dark_error"
    if n == "flat_division":
        return E / env.flat.data, D * env.flat.err[0] / env.flat.data ** 2, "FlatField_error"
    if n == "convert_to_electrons":
        return E * env.kgain.data.ravel()[0], D * env.kgain.err.ravel()[0], "kgain_error"
    if n == "em_gain_division":
        return E / gain(H), None, None
    if n == "divide_by_exptime":
        return E / dict(H)["EXPTIME"], None, None
    if n == "convert_to_flux":
        return E * env.flux.data.ravel()[0], D * env.flux.err.ravel()[0], "fluxcal_error"
    if n == "nan_flags":
        return E, np.where(f["dq"] >= 1, np.nan, 0.0), "DQ flagged"
    if n in ("crop", "crop_star"):
        h, w = out.data.shape
        return E[:, 2 - h // 2:2 - h // 2 + h, 2 - w // 2:2 - w // 2 + w], None, None
    if n.startswith("combine"):
        m = len(before["frames"])
        g = 1 if m % 2 else 2
        idx = list(range(m)) if n.endswith("median") else list(range(i * g, i * g + g))
        fr = [before["frames"][j] for j in idx]
        if any(x["err"].shape != E.shape for x in fr):
            return None
        good = np.array([x["dq"] == 0 for x in fr])
        S = np.array([np.where(g_, x["err"].astype(float) ** 2, 0.0) for g_, x in zip(good, fr)])
        und = np.array([np.isnan(x["err"]) for x in fr])
        if und.any():
            return None              # undefined uncertainties of unflagged samples: see C22
        k = good.sum(axis=0)
        r = np.where(k > 0, np.sqrt(S.sum(axis=0)) / np.maximum(k, 1), np.nan)
        if n.endswith("median"):
            r = r * np.sqrt(np.pi / 2)
        else:
            r = r * len(idx)
        return r, None, None
    return None


def match(n, before, i, out):
    if n == "frame_select":
        nm = [f["filename"] for f in before["frames"]]
        return nm.index(out.filename) if len(set(nm)) == len(nm) else None
    return i


def on_step(c, env, s, ds, before, trace):
    with np.errstate(all="ignore"):
        out = s(ds, env)
        n = s.name
        track = corgidrp.track_individual_errors
        for i, o in enumerate(out.frames):
            k = match(n, before, i, o)
            if k is None:
                continue
            if n.startswith("northup"):
                f = before["frames"][k]
                if o.err.shape != f["err"].shape:
                    raise Bad("%s: %d uncertainty layers, expected %d" % (n, o.err.shape[0], f["err"].shape[0]))
                old, new = names(f, o.err.shape[0]), names(kit.snap(o), o.err.shape[0])
                if old != new:
                    raise Bad("%s: layers %s became %s" % (n, old, new))
                continue
            if n == "get_pc_mean":
                continue
            exp = expected(n, env, before, k, o)
            if exp is None:
                continue
            E, e, name = exp
            src = before["frames"][0 if n.endswith("median") else (k * (1 if len(before["frames"]) % 2 else 2) if n.startswith("combine") else k)]
            want_names = names(src, E.shape[0])
            E = E.copy()
            if e is not None:
                E[0] = np.sqrt(E[0] ** 2 + e ** 2)
                if track:
                    E = np.append(E, [e], axis=0)
                    want_names.append(name)
            c.same(o.err, E, "%s: uncertainty of frame %d" % (n, i), rtol=1e-9)
            c.same(out.all_err[i], E, "%s: uncertainty cube" % n, rtol=1e-9)
            if track:
                c.equal(names(kit.snap(o), E.shape[0]), want_names, "%s: layers" % n)
            c.equal(o.err_hdr.get("LAYER_1", "combined_error") if E.shape[0] > 1 or e is not None else "combined_error", "combined_error", "first layer")
    return out


def varied(ds):
    """Every frame its own exposure time, gain and undefined/large/negative pixels."""
    for j, f in enumerate(ds.frames):
        f.ext_hdr["EXPTIME"] = 10.0 - 3 * j
        f.ext_hdr["EMGAIN_C"] = 1.0 + 2 * j
        if j == 1:
            f.ext_hdr["EMGAIN_A"] = 5.0
        f.data[2, 2 + j] = -40.0
        f.data[3, 1 + j] = 9000.0
    return ds


def turns(c, n):
    for arg, (cx, cy) in [("im_center", ((n - 1) // 2,) * 2), ("starloc", (1, 2)), ([n / 2 - 0.5] * 2, (n / 2 - 0.5,) * 2)]:
        for q, layers, track in itertools.product(range(4), (1, 3), (False, True)):
            if layers > 1 and not track:
                continue
            with c.case("turn/%d/%s/%d/%d/%s" % (n, arg, q, layers, track)) as go:
                if not go:
                    continue
                with kit.err_tracking(track):
                    frames = []
                    for i in range(2):
                        f = kit.frame((n, n), "L3", i, ROLL=90.0 * (q + i), STARLOCX=1, STARLOCY=2)
                        f.err = np.array([kit.arr((n, n), 50 + i + 7 * j, base=1.0, scale=0.1) for j in range(layers)])
                        for j in range(1, layers):
                            f.err_hdr["Layer_%d" % (j + 1)] = "term%d" % j
                        frames.append(f)
                    d = data.Dataset(frames)
                    c.step()
                    o = l3_to_l4.northup(d, use_wcs=False, rot_center=arg)
                    for i, (f, g) in enumerate(zip(d, o)):
                        c.equal(g.err.shape, f.err.shape, "layers")
                        for k in range(layers):
                            want = turned(f.err[k], q + i, cx, cy)
                            ok = ~np.isnan(g.err[k]) & ~np.isnan(want)
                            c.expect(ok.sum() >= (n - 3) ** 2, "the turned uncertainties are undefined")
                            c.same(g.err[k][ok], want[ok], "uncertainty layer %d" % k, rtol=1e-6)
                        c.state("turn", n, q, layers, g.err)


def turned(a, quarter, cx, cy):
    out = np.full(a.shape, np.nan)
    for y in range(a.shape[0]):
        for x in range(a.shape[1]):
            dx, dy = x - cx, y - cy
            for _ in range(quarter % 4):
                dx, dy = -dy, dx
            X, Y = int(round(dx + cx)), int(round(dy + cy))
            if 0 <= X < a.shape[1] and 0 <= Y < a.shape[0]:
                out[Y, X] = a[y, x]
    return out


def terms(c):
    """All words over {add, scale} up to length 4 on images and datasets, both modes."""
    for shape, track, word in itertools.product(((2, 3), (2, 2, 3)), (False, True), itertools.chain(*(itertools.product("asASc", repeat=k) for k in range(1, 6 if c.thorough else 5)))):
        if len(shape) == 3 and ("s" in word or "S" in word):
            continue
        with c.case("terms/%s/%s/%s" % (shape, track, "".join(word))) as go:
            if not go:
                continue
            with kit.err_tracking(track):
                imgs = [kit.frame(None, "L2a", i, img=kit.arr(shape, i)) for i in range(2)]
                ds = data.Dataset(imgs)
                R = [[f.err.copy(), []] for f in ds]
                for j, w in enumerate(word):
                    t = kit.arr(shape, j, base=0.5, scale=0.1)
                    c.step()
                    if w == "a":                  # one frame only
                        ds.frames[1].add_error_term(t, "t%d" % j)
                        ds = data.Dataset([f.copy() for f in ds]) if len({f.err.shape for f in ds}) == 1 else None
                        which = [(1, t)]
                        if ds is None:
                            break
                    elif w == "A":
                        ds.add_error_term(np.array([t, 2 * t]) if len(shape) == 2 else np.array([t, 2 * t]), "t%d" % j)
                        which = [(0, t), (1, 2 * t)]
                    elif w == "s":
                        ds.frames[0].rescale_error(t, "s%d" % j)
                        R[0][0] = R[0][0] * t
                        ds = data.Dataset([f.copy() for f in ds])
                        which = []
                    elif w == "S":
                        ds.rescale_error(np.array([t, 3 * t]), "s%d" % j)
                        R[0][0], R[1][0] = R[0][0] * t, R[1][0] * (3 * t)
                        which = []
                    else:
                        ds.add_error_term(t, "t%d" % j) if len(shape) == 2 else ds.add_error_term(np.array([t, t]), "t%d" % j)
                        which = [(0, t), (1, t)]
                    for i, e in which:
                        x = R[i][0].copy()
                        x[0] = np.sqrt(x[0] ** 2 + e ** 2)
                        R[i] = [np.append(x, [e], axis=0) if track else x, R[i][1] + ["t%d" % j]]
                    for i, f in enumerate(ds):
                        c.same(f.err, R[i][0], "uncertainty of frame %d" % i)
                        c.same(ds.all_err[i], R[i][0], "uncertainty cube")
                        if track:
                            c.equal([f.err_hdr.get("Layer_%d" % (k + 2)) for k in range(len(R[i][1]))], R[i][1], "layer names")
                    c.state("terms", shape, track, word[:j + 1])


def run(c):
    depth = 3 if c.thorough else 2
    chains.explore(c, on_step, depth, modes=(False, True), which=None)
    chains.explore(c, on_step, depth if c.thorough else 1, modes=(True,) if not c.thorough else (True, False), prep=varied, tag="varied",
                   which=("L2aImg", "L2bImg", "L1full", "L3Img"))
    for n in (4, 5) if not c.thorough else (4, 5, 6, 7):
        turns(c, n)
    terms(c)
    c.bound(words="add and rescale operations up to length %d" % (5 if c.thorough else 4))
