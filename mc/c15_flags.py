"""C15: every chain of steps over datasets in which each data-quality bit is set on its own pixel; a monitor with an
independently written expectation of the flags follows every step.  Rotation and cropping: every pixel x every bit x quarter
turns / windows.  PSF subtraction (keeps the pixel grid) with every bit."""
import numpy as np

from mc import kit, chains, steps
from mc.core import Bad
import corgidrp.data as data
from corgidrp import l3_to_l4, l1_to_l2a

SAT, CR, NONLIN, DEADFLAT, REPLACED, UNDEF = 32, 128, 64, 4, 2, 1


def dense(ds):
    """Pixel k of frame j has bit (k+j) % 16, except every fifth pixel, which is unflagged."""
    for j, f in enumerate(ds.frames):
        k = np.arange(f.dq.size).reshape(f.dq.shape)
        f.dq[:] = np.where(k % 5 == 3, 0, 1 << ((k + j) % 16)).astype(f.dq.dtype)
    return ds


def sparse(ds):
    for j, f in enumerate(ds.frames):
        f.dq[:] = 0
        f.dq[(1 + j) % f.dq.shape[0], -1 - j] = 32768 >> j
        f.dq[2, -3] = 256
    return ds


def rotated(dq, quarter, cx, cy):
    """dq turned by quarter turns counterclockwise (x right, y up) about (cx, cy)."""
    out = np.zeros_like(dq)
    for y in range(dq.shape[0]):
        for x in range(dq.shape[1]):
            dx, dy = x - cx, y - cy
            for _ in range(quarter % 4):
                dx, dy = -dy, dx
            X, Y = int(round(dx + cx)), int(round(dy + cy))
            if 0 <= X < dq.shape[1] and 0 <= Y < dq.shape[0]:
                out[Y, X] = dq[y, x]
    return out


def groups_of(name, ds, out):
    n = len(ds)
    if name == "combine_subexposures":
        g = 1 if n % 2 else 2
        return [list(range(i, i + g)) for i in range(0, n, g)]
    return [list(range(n))]


def on_step(c, env, s, ds, before, trace):
    out = s(ds, env)
    n = s.name
    ins = [f["dq"] for f in before["frames"]]
    outs = [f.dq for f in out.frames]
    src = [f["data"] for f in before["frames"]]
    must, may = [], []                     # bits that must be set / bits that may be set, per output frame
    if n.startswith("combine") or n == "get_pc_mean":
        for g in groups_of(n, ds, out):
            d = np.array([ins[i] for i in g])
            allbits = np.bitwise_or.reduce(d, axis=0)
            blocked = np.all(d > 0, axis=0) | np.all(np.isnan([src[i] for i in g]), axis=0)
            if n == "get_pc_mean":
                must.append(np.where(np.all(d > 0, axis=0), -1, 0))    # flagged, with whichever bit
                may.append(np.where(np.all(d > 0, axis=0), 0xffff, 0))
            else:
                must.append(np.where(np.all(d > 0, axis=0), allbits, 0))
                may.append(np.where(blocked, allbits, allbits & np.where(np.any((d == 0) & ~np.isnan([src[i] for i in g]), axis=0), 0, 0xffff)))
    elif n in ("prescan_biassub", "prescan_biassub_imaging"):
        r, k = steps.REGIONS["SCI"]["image"]["r0c0"]
        must = [d[0 if n.endswith("imaging") else r:r + 4, k:k + 4] for d in ins]
    elif n in ("crop", "crop_star"):
        h, w = outs[0].shape
        H, W = ins[0].shape
        y, x = (2 - h // 2, 2 - w // 2)
        must = [d[y:y + h, x:x + w] for d in ins]
    elif n.startswith("northup"):
        must = None                      # turned by an arbitrary angle: see the quarter-turn cases
    elif n.startswith("frame_select") and len(outs) != len(ins):
        names = [f["filename"] for f in before["frames"]]
        if len(set(names)) != len(names):
            must = None
        else:
            must = [ins[names.index(f.filename)] for f in out.frames]
    elif n == "distortion_correction":
        must = None                      # resamples the pixels
    else:
        must = [d.copy() for d in ins]
    if must is None:
        return out
    if not may:
        may = [m.copy() for m in must]
    add = None
    if n == "dark_subtraction":
        add = env.dark.dq
    elif n == "dark_subtraction_full":
        add = env.fulldark.dq
    elif n == "dark_subtraction_synth":
        full = np.bitwise_or.reduce(env.noise.dq, axis=0)
        r, k = steps.REGIONS["SCI"]["image"]["r0c0"]
        add = full if outs[0].shape == steps.FULL else full[r:r + 4, k:k + 4]
    elif n == "flat_division":
        add = np.where(env.flat.data == 0, DEADFLAT, 0)
    if add is not None:
        must = [m | add.astype(m.dtype) for m in must]
        may = [m.copy() for m in must]
        if n == "flat_division":         # carrying the flat's own flags over is allowed as well
            may = [m | env.flat.dq.astype(m.dtype) for m in may]
    if n == "correct_bad_pixels":
        b = env.bp.data.astype(np.uint16)
        must = [m | b | np.where((m | b) != 0, REPLACED, 0).astype(np.uint16) for m in must]
        may = [m.copy() for m in must]
    free = {"detect_cosmic_rays": SAT | CR, "detect_cosmic_rays_full": SAT | CR, "correct_nonlinearity": NONLIN,
            "correct_nonlinearity_none": NONLIN, "flag_nans": UNDEF}.get(n, 0)
    if len(must) != len(outs):
        raise Bad("%s: %d frames, expected %d" % (n, len(outs), len(must)))
    for i, (o, m, y) in enumerate(zip(outs, must, may)):
        o = o.astype(np.int64)
        if o.shape != m.shape:
            raise Bad("%s: flags of shape %s, expected %s" % (n, o.shape, m.shape))
        m, y = m.astype(np.int64), y.astype(np.int64)
        anyb = m < 0
        lost = (m & ~o != 0) & ~anyb | (anyb & (o == 0))
        if lost.any():
            ix = tuple(int(v) for v in np.argwhere(lost)[0])
            raise Bad("%s: frame %d pixel %s has flags %d, expected at least %d" % (n, i, ix, o[ix], m[ix]))
        extra = o & ~(y | free)
        if n == "get_pc_mean":
            extra = np.where(y == 0, o, 0)
        if extra.any():
            ix = tuple(int(v) for v in np.argwhere(extra)[0])
            raise Bad("%s: frame %d pixel %s has flags %d, expected at most %d" % (n, i, ix, o[ix], (y | free)[ix]))
    return out


def turns(c, n):
    """Quarter turns about pixel centres and pixel corners; flags and pixels must land together."""
    cens = [("im_center", ((n - 1) // 2,) * 2), ((n / 2 - 0.5, n / 2 - 0.5),) * 2, ((n / 2, n / 2),) * 2, ((1, 2),) * 2, ((1.5, 0.5),) * 2]
    for arg, (cx, cy) in cens:
        for q in range(4):
            for use_wcs in (False, True):
                key = "turn/%d/%s/%d/%s" % (n, (cx, cy), q, use_wcs)
                with c.case(key) as go:
                    if not go:
                        continue
                    frames = []
                    for i in range(2):
                        dq = (1 << ((np.arange(n * n) + 5 * i) % 16)).reshape(n, n).astype(np.uint16)
                        img = kit.arr((n, n), i)
                        f = kit.frame(None, "L3", i, img=img, dq=dq, ROLL=90.0 * q)
                        a = -np.radians(90.0 * q)
                        for k, v in dict(CRPIX1=2.0, CRPIX2=2.0, CRVAL1=80.5, CRVAL2=-69.5, CTYPE1="RA---TAN", CTYPE2="DEC--TAN",
                                         CD1_1=-6e-6 * np.cos(a), CD1_2=-6e-6 * np.sin(a), CD2_1=-6e-6 * np.sin(a), CD2_2=6e-6 * np.cos(a)).items():
                            f.ext_hdr[k] = v
                        frames.append(f)
                    d = data.Dataset(frames)
                    c.step()
                    o = l3_to_l4.northup(d, use_wcs=use_wcs, rot_center=arg if isinstance(arg, str) else list(arg))
                    sign = q
                    if use_wcs:         # the angle the code takes from the WCS (either sense is the same question for the flags)
                        roll = -np.rad2deg(np.arctan2(-frames[0].ext_hdr["CD1_2"], frames[0].ext_hdr["CD2_2"]))
                        sign = int(round(roll / 90.0)) % 4
                    for f, g in zip(d, o):
                        want = rotated(f.dq, sign, cx, cy)
                        wpix = rotated(f.data, sign, cx, cy)
                        c.same(g.dq, want, "flags after the turn", exact=True)
                        inside = ~np.isnan(g.data) & (wpix != 0)
                        c.same(g.data[inside], wpix[inside], "pixels after the turn", rtol=1e-6)
                        c.state(key, g.dq)


def run(c):
    depth = 3 if c.thorough else 2
    real = dict(chains.starts(c.thorough))
    chains.explore(c, on_step, depth, modes=(False,), prep=dense, tag="dense")
    chains.explore(c, on_step, 2 if c.thorough else 1, modes=(True,), prep=sparse, tag="sparse")
    for n in ((3, 4, 5, 6, 7, 8) if c.thorough else (4, 5)):
        turns(c, n)
    c.bound(flag_patterns="every bit of 16 on its own pixel, different between frames; and three isolated flags", starts=sorted(real),
            turns="0,90,180,270 degrees about pixel centres and corners")
    c.assume("distortion correction resamples the pixels without moving the flags; it is only required not to be a grid-keeping step")
