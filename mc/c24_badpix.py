"""C24: all flag bits x all pixels for the correction; all threshold relations for the map, against direct definitions."""
import itertools
import math

import numpy as np

from mc import kit
import corgidrp.data as data
from corgidrp import bad_pixel_calibration as bpc, l2a_to_l2b


def hot(img, th):
    xs = [float(x) for x in np.ravel(img)]
    m = sum(xs) / len(xs)
    s = math.sqrt(sum((x - m) ** 2 for x in xs) / len(xs))
    return m + th * s


def dead(img, frac, width):
    R, C = img.shape
    out = {}
    for r in range(R):
        for q in range(C):
            lo = -(width // 2)
            box = [float(img[a, b]) for a in range(r + lo, r + lo + width) for b in range(q + lo, q + lo + width)
                   if 0 <= a < R and 0 <= b < C]
            out[r, q] = frac * sum(box) / len(box)
    return out


def margin(a, b):
    """-1/0/1: clearly below, too close to call in floating point, clearly above."""
    return 0 if abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-12) else (1 if a > b else -1)


def run(c):
    bits = range(16)
    c.bound(bits=16, correction="all pairs (frame flag bit, map flag bit) at the same and at different pixels, 1-3 frames",
            map="all 3^6 relations of six pixels x thresholds x box widths")
    # 1. correction
    shape = (2, 3)

    def correct(c, job):
        n, fb, mb, pos = job
        with c.case("correct:%d:%s:%s:%d" % job) as go:
            if not go:
                return
            frames = []
            for i in range(n):
                dq = np.zeros(shape, dtype=np.uint16)
                if fb is not None:
                    dq.flat[(pos + i) % 6] = 1 << fb
                    dq.flat[(pos + i + 2) % 6] |= 1 << ((fb + 5) % 16)
                frames.append(kit.frame(None, "L2a", i, img=kit.arr(shape, i), dq=dq))
            bp = np.zeros(shape, dtype=np.uint16)
            if mb is not None:
                bp.flat[0] = 1 << mb
                bp.flat[3] = 3 << mb if mb < 15 else 1 << mb
            m = kit.bpmap(shape, img=bp)
            ds = data.Dataset(frames)
            before = kit.snap_ds(ds)
            out = l2a_to_l2b.correct_bad_pixels(ds, m)
            c.step()
            c.state(job)
            for i in range(n):
                for p in range(6):
                    old = int(before["all_dq"][i].flat[p])
                    fl = old | int(bp.flat[p])
                    v, x = float(out.frames[i].data.flat[p]), float(before["all_data"][i].flat[p])
                    if fl:
                        c.expect(math.isnan(v), lambda: "frame %d pixel %d has flags %d and was not blanked" % (i, p, fl))
                    else:
                        c.expect(v == x, lambda: "frame %d pixel %d is good and was changed from %r to %r" % (i, p, x, v))
                    c.equal(int(out.frames[i].dq.flat[p]), (fl | 2) if fl else 0, "flags of frame %d pixel %d" % (i, p))
                c.same(out.frames[i].err, before["frames"][i]["err"], "uncertainties", exact=True)
                c.equal(kit.hdr(out.frames[i].ext_hdr)[:-1], before["frames"][i]["ext"], "keywords")
            c.same(m.data, bp, "the map", exact=True)
            c.outcome(np.isnan(out.all_data), out.all_dq)

    jobs = [(1, a, b, p) for a in [None] + list(bits) for b in [None] + list(bits) for p in (range(6) if c.thorough else (0, 4))]
    jobs += [(n, a, b, p) for n in (2, 3) for a in (None, 0, 1, 8, 15) for b in (None, 2, 7, 15) for p in range(6)]
    c.fan(jobs, correct)

    # 2. the map: three levels on six pixels of the dark / the flat
    def bmap(c, job):
        which, lev, th, frac, width = job
        with c.case("map:%s:%s:%g:%g:%d" % (which, "".join(map(str, lev)), th, frac, width)) as go:
            if not go:
                return
            dimg, fimg = np.full((3, 4), 1.0) + np.arange(12).reshape(3, 4) / 100, np.full((3, 4), 1.0) + np.arange(12).reshape(3, 4) / 1000
            at = [(0, 0), (0, 3), (1, 1), (1, 2), (2, 0), (2, 3)]
            for (r, q), l in zip(at, lev):
                if which in ("dark", "both"):
                    dimg[r, q] = (1.0, 3.0, 40.0)[l]
                if which == "flat":
                    fimg[r, q] = (1.0, 0.75, 0.1)[l]
            if which == "both":     # every pixel of the dark meets every level of the flat
                for (r, q), l in zip(at, lev[1:] + lev[:1]):
                    fimg[r, q] = (1.0, 0.75, 0.1)[l]
            ddq = np.zeros((3, 4), dtype=np.uint16)
            ddq[0, 1] = 1
            dk, fl = kit.dark((3, 4), img=dimg, dq=ddq), kit.flat((3, 4), img=fimg)
            out = bpc.create_bad_pixel_map(None, dk, fl, dthresh=th, ffrac=frac, fwidth=width)
            c.step()
            c.state(job)
            h, d = hot(dimg, th), dead(fimg, frac, width)
            for p in np.ndindex(3, 4):
                g = int(out.data[p])
                a, b = margin(float(dimg[p]), h), margin(float(fimg[p]), d[p])
                if a:
                    c.equal(g & 8, 8 if a > 0 else 0, "hot flag of %s" % (p,))
                if b:
                    c.equal(g & 4, 4 if b < 0 else 0, "dead flag of %s" % (p,))
                c.equal(g & ~12, 0, "other flags of %s" % (p,))
            c.equal([out.ext_hdr["FILE%d" % j] for j in range(out.ext_hdr["DRPNFILE"])][:1], [dk.filename], "first parent")
            c.same(dk.data, dimg, "the dark", exact=True)
            c.same(fl.data, fimg, "the flat", exact=True)
            c.outcome(out.data)

    levs = list(itertools.product(range(3), repeat=6))
    if not c.thorough:
        levs = [l for l in levs if l[4] in (0, 2) and l[5] in (0, 1)]
    jobs = [("dark", l, th, 0.5, 3) for l in levs for th in ((0.5, 2.0) if not c.thorough else (0.0, 0.5, 1.0, 2.0, 5.0))]
    jobs += [("flat", l, 5.0, f, w) for l in levs for f, w in (((0.8, 3), (0.5, 4)) if not c.thorough else itertools.product((0.8, 0.5, 0.95), (1, 2, 3, 4, 5, 32)))]
    jobs += [("flat", l, 5.0, 0.8, w) for l in levs[::9] for w in (1, 2, 5, 32)]
    jobs += [("both", l, th, 0.8, 3) for l in levs for th in ((0.5, 2.0) if c.thorough else (0.5,))]
    c.fan(list(dict.fromkeys(jobs)), bmap)
