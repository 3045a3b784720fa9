"""C27: every centre (on a quarter-pixel grid, inside and outside) x every size on small frames, per-frame star positions, world coordinates
in either header, 2-D and 3-D frames, and every crop of every crop."""
import itertools
import math

import numpy as np

from mc import kit
import corgidrp.data as data
from corgidrp import l3_to_l4


def make(shape, n, layers=2, cube=0, where="ext", stars=None, detpix=None):
    frames = []
    for i in range(n):
        sh = ((cube,) if cube else ()) + shape
        img = (np.arange(int(np.prod(sh))) + 1000.0 * i).reshape(sh)
        dq = (np.arange(img.size) % 251 + i).reshape(sh).astype(np.uint16)
        f = kit.frame(None, "L3", i, img=img, dq=dq, err=(img + 0.25))
        if layers > 1:
            f.err = np.array([img + 0.25 + 0.125 * k for k in range(layers)])
            for k in range(1, layers):
                f.err_hdr["Layer_%d" % (k + 1)] = "term%d" % k
        h = f.ext_hdr if where == "ext" else f.pri_hdr
        if where:
            for k, v in dict(CRPIX1=2.25 + i, CRPIX2=-3.5 - i, CRVAL1=80.5, CRVAL2=-69.5, CTYPE1="RA---TAN", CTYPE2="DEC--TAN", CD1_1=-6e-6, CD1_2=1e-6 * i, CD2_1=0.0, CD2_2=6e-6).items():
                h[k] = v
        if stars is not None:
            f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"] = stars[i]
        if detpix is not None:
            f.ext_hdr["DETPIX0X"], f.ext_hdr["DETPIX0Y"] = detpix
        frames.append(f)
    return data.Dataset(frames)


def candidates(x):
    """Pixel corners nearest to x (two on a tie)."""
    lo = math.floor(x - 0.5) + 0.5
    d = x - lo
    return [lo] if d < 0.5 else [lo + 1] if d > 0.5 else [lo, lo + 1]


def starts(x, size, full):
    """Possible first indices of the window, None: it does not fit."""
    out = set()
    for m in candidates(x):
        a = int(m + 0.5) - size // 2
        out.add(a if a >= 0 and a + size <= full else None)
    return out


def check(c, f, o, x1, y1, sx, sy):
    cut = (Ellipsis, slice(y1, y1 + sy), slice(x1, x1 + sx))
    c.same(o.data, f.data[cut], "pixels", exact=True)
    c.same(o.err, f.err[cut], "uncertainties", exact=True)
    c.same(o.dq, f.dq[cut], "flags", exact=True)
    for h, g, n in ((f.ext_hdr, o.ext_hdr, "image"), (f.pri_hdr, o.pri_hdr, "primary")):
        for k, s in (("CRPIX1", x1), ("CRPIX2", y1), ("STARLOCX", x1), ("STARLOCY", y1)):
            if k in h:
                c.expect(abs(g[k] - (h[k] - s)) < 1e-9, lambda: "%s of the %s header: %r, should be %r" % (k, n, g[k], h[k] - s))
            else:
                c.expect(k not in g, "%s appeared in the %s header" % (k, n))
        for k in ("CRVAL1", "CRVAL2", "CTYPE1", "CTYPE2", "CD1_1", "CD1_2", "CD2_1", "CD2_2"):
            if k in h:
                c.equal(g.get(k), h[k], k)
    c.equal((o.ext_hdr["DETPIX0X"], o.ext_hdr["DETPIX0Y"]), (f.ext_hdr.get("DETPIX0X", 0) + x1, f.ext_hdr.get("DETPIX0Y", 0) + y1), "recorded window corner")
    c.equal((o.ext_hdr["NAXIS1"], o.ext_hdr["NAXIS2"]), (sx, sy), "recorded size")
    c.equal((o.filename, o.filedir), (f.filename, f.filedir), "file name and directory")


def crop(c, ds, size, center, key, arg_size=None, arg_center=None, raw=False):
    """One call with its oracle.  center: one per frame."""
    shape = ds.frames[0].data.shape[-2:]
    for i, f in enumerate(ds.frames):
        f.filedir = "night%d" % i
    poss = []
    for (cx, cy) in center:
        poss.append((starts(cx, size[0], shape[1]), starts(cy, size[1], shape[0])))
    must_fail = any(None in xs and len(xs) == 1 or None in ys and len(ys) == 1 for xs, ys in poss)
    may_fail = any(None in xs or None in ys for xs, ys in poss)
    call = lambda: l3_to_l4.crop(ds, sizexy=arg_size, centerxy=arg_center)
    c.step()
    if must_fail:
        c.raises(call, "window outside the frame")
        return None
    try:
        out = call()
    except Exception:
        if may_fail:
            return None
        raise
    c.equal(len(out), len(ds), "number of frames")
    for i, (f, o) in enumerate(zip(ds.frames, out.frames)):
        sx, sy = size
        c.equal(o.data.shape[-2:], (sy, sx), "size of frame %d" % i)
        ramp = int(o.data.ravel()[0] - f.data.ravel()[0])
        y1, x1 = divmod(ramp, shape[1])
        xs, ys = poss[i]
        c.expect(x1 in xs and y1 in ys, lambda: "frame %d: window starts at (%d, %d), should be %s x %s for centre %s" % (i, x1, y1, sorted(map(str, xs)), sorted(map(str, ys)), center[i]))
        check(c, f, o, x1, y1, sx, sy)
    return out


def run(c):
    shapes = [(6, 6), (5, 8), (7, 4)]
    c.bound(shapes=shapes, centres="all points of a half-pixel grid (thorough: quarter-pixel) from 1.5 pixels outside to 1.5 pixels outside", sizes="all even sizes up to the frame size plus 2, odd sizes refused",
            frames="1-3, each with its own star position", second_crop="every centre and size on the result")
    step = 0.25 if c.thorough else 0.5
    jobs = []
    for sh in shapes:
        for sx in range(2, sh[1] + 3, 2):
            for sy in range(2, sh[0] + 3, 2):
                jobs.append((sh, sx, sy))

    def centres(sh):
        xs = [-1.5 + step * k for k in range(int((sh[1] + 2) / step) + 1)]
        ys = [-1.5 + step * k for k in range(int((sh[0] + 2) / step) + 1)]
        return xs, ys

    def one(c, job):
        sh, sx, sy = job
        xs, ys = centres(sh)
        xs = xs + [1.3, 2.71]
        for cx in xs:
            for n, cy in enumerate(ys):
                if not c.thorough and (cx % 1 != 0.5 or cy % 1 != 0.5) and n % 3:
                    continue
                with c.case("center:%s:%d:%d:%s:%s" % (sh, sx, sy, cx, cy)) as go:
                    if go:
                        where = ("ext", "pri", None)[n % 3]
                        ds = make(sh, 1 + n % 2, layers=1 + n % 3, cube=2 if n % 5 == 4 else 0, where=where,
                                  stars=[(1.0, 2.0), (3.25, 0.5)] if n % 2 else None, detpix=(7, 11) if n % 4 == 1 else None)
                        c.state("center", job, cx, cy)
                        with kit.err_tracking(n % 3 > 0):
                            crop(c, ds, (sx, sy), [(cx, cy)] * len(ds), None, [sx, sy] if n % 2 else (sx, sy), [cx, cy] if n % 2 else (cx, cy))

    c.fan(jobs, one)

    # star positions, one per frame
    def star(c, job):
        sh, size = job
        xs, ys = centres(sh)
        pts = [(x, y) for x in xs[3:-3:2 if c.thorough else 3] + [2.2, 2.8] for y in ys[3:-3:2 if c.thorough else 3]]
        for a, b in itertools.product(pts, repeat=2):
            with c.case("stars:%s:%d:%s:%s" % (sh, size, a, b)) as go:
                if go:
                    ds = make(sh, 2, layers=1, stars=[a, b])
                    c.state("stars", job, a, b)
                    crop(c, ds, (size, size), [a, b], None, size, None)

    c.fan([((6, 6), 2), ((5, 8), 4)] if c.thorough else [((6, 6), 2)], star)

    # scalar centre
    for v in (1.5, 2.5, 2.0, 3.75, 0.0, 5.5):
        with c.case("scalar:%s" % v) as go:
            if go:
                c.state("scalar", v)
                crop(c, make((6, 6), 1, layers=1), (2, 2), [(v, v)], None, 2, v)

    # every crop of a crop
    def twice(c, job):
        x, y, s = job
        with c.case("twice:%s:%s:%d" % job) as go:
            if not go:
                return
            ds = make((8, 8), 2, layers=1, stars=[(3.5, 3.5), (4.5, 2.5)])
            a = l3_to_l4.crop(ds, sizexy=s, centerxy=[x, y])
            for cx in (0.5, 1.5, 2.5, 3.5):
                for cy in (0.5, 1.5, 2.5):
                    if starts(cx, 2, s) == {None} or starts(cy, 2, s) == {None}:
                        continue
                    b = l3_to_l4.crop(a, sizexy=2, centerxy=[cx, cy])
                    c.step(2)
                    c.state("twice", job, cx, cy)
                    x1, y1 = int(x + 0.5) - s // 2 + int(cx + 0.5) - 1, int(y + 0.5) - s // 2 + int(cy + 0.5) - 1
                    for f, o in zip(ds.frames, b.frames):
                        check(c, f, o, x1, y1, 2, 2)

    c.fan([(x, y, s) for s in (4, 6) for x in (2.5, 3.5, 4.5) for y in (2.5, 3.5, 4.5) if x + s / 2 <= 7.5 and x - s / 2 >= -0.5 and y + s / 2 <= 7.5 and y - s / 2 >= -0.5], twice)

    # refusals: odd sizes, no default
    for s in (1, 3, 5, [3, 4], [4, 3], (2, 1)):
        with c.case("odd:%s" % (s,)) as go:
            if go:
                c.step()
                c.state("odd", s)
                c.raises(lambda: l3_to_l4.crop(make((6, 6), 1), sizexy=s, centerxy=[2.5, 2.5]), "odd size")
    with c.case("nostar") as go:
        if go:
            c.step()
            c.raises(lambda: l3_to_l4.crop(make((6, 6), 1), sizexy=2), "no centre")
    # the default size of the narrow field of view
    for lsam in ("NFOV", "SPEC", "WFOV"):
        for sx, sy in ((29.5, 29.5), (33.5, 30.5), (28.5, 30.5), (34.5, 36.0)):
            with c.case("default:%s:%s,%s" % (lsam, sx, sy)) as go:
                if go:
                    ds = make((66, 64), 1, layers=1, stars=[(sx, sy)])
                    ds.frames[0].ext_hdr["LSAMNAME"] = lsam
                    c.state("default", lsam, sx, sy)
                    if lsam != "NFOV":
                        c.step()
                        c.raises(lambda: l3_to_l4.crop(ds), "no default size")
                    else:
                        crop(c, ds, (60, 60), [(sx, sy)], None)
