"""C20: all small detector geometries of a grid x readout types x crop settings, on integer counts, against per-row medians;
slicing and embedding of every area of every geometry (and of the flight geometry)."""
import itertools
import math
import statistics

import numpy as np

from mc import kit
import corgidrp.data as data
from corgidrp import detector, l1_to_l2a

TYPES = ["SCI", "ENG", "ENG_EM", "ENG_CONV"]


def geometry(rows, below, above, pre, npre, right, serial, par, prow):
    """A detector: image rows/cols inside; prescan left or (right) on the other side; parallel overscan rows on top."""
    im_c, im_r = 3, rows
    frame_rows = below + im_r + above + par
    if right:
        c_ser, c_img, c_pre = 0, serial, serial + im_c
    else:
        c_pre, c_img, c_ser = 0, pre, pre + im_c
    st = 1 if npre < pre else 0
    return dict(frame_rows=frame_rows, frame_cols=pre + im_c + serial,
                image=dict(rows=im_r, cols=im_c, r0c0=[below, c_img]),
                prescan=dict(rows=frame_rows - prow, cols=pre, r0c0=[prow, c_pre], col_start=c_pre + st, col_end=c_pre + st + npre),
                prescan_reliable=dict(rows=frame_rows, cols=npre, r0c0=[0, c_pre + st]),
                parallel_overscan=dict(rows=par, cols=im_c, r0c0=[frame_rows - par, c_img]),
                serial_overscan=dict(rows=frame_rows, cols=serial, r0c0=[0, c_ser]))


def geometries(thorough):
    out = []
    for rows, below, above, pre, npre, right, serial, par in itertools.product((1, 3), (0, 2), (0, 1), (3, 5) if thorough else (4,), (1, 2, 3), (False, True), (1, 2), (1, 2)):
        if npre <= pre:
            out.append((rows, below, above, pre, npre, right, serial, par, 0))
            if below and rows == 3:
                out.append((rows, below, above, pre, npre, right, serial, par, 1))
    return out


def area(g, key):
    if key == "imaging":
        p = g["parallel_overscan"]
        return 0, g["frame_rows"] - p["rows"], g["image"]["r0c0"][1], g["frame_cols"] - g["prescan"]["cols"] - g["serial_overscan"]["cols"]
    a = g[key]
    return a["r0c0"][0], a["rows"], a["r0c0"][1], a["cols"]


def counts(g, i):
    R, C = g["frame_rows"], g["frame_cols"]
    return np.array([[1000 + 17 * r + (29 * q * (r + 1 + i)) % 61 + 100 * i for q in range(C)] for r in range(R)])


def run(c):
    G = geometries(c.thorough)
    c.bound(geometries=len(G), readout_types=TYPES, crop_modes=["image", "imaging area", "full frame"], frames="2 (one or two readout types)",
            offsets=[None, 0.5, -3.25])
    jobs = []
    for k, g in enumerate(G):
        for t in TYPES if (c.thorough or k % 5 == 0) else [TYPES[k % 4]]:
            for mode in ("image", "imaging", "full"):
                if mode != "image" and g[-1]:
                    continue      # a prescan that does not cover the requested rows
                for off in (None, 0.5, -3.25) if c.thorough else ((None, 0.5)[k % 2], -3.25):
                    jobs.append((g, t, mode, off))

    def one(c, job):
        gp, t, mode, off = job
        with c.case("%s:%s:%s:%s" % ("-".join(str(int(x)) for x in gp), t, mode, off)) as go:
            if not go:
                return
            g = geometry(*gp)
            # the other types have another (same-sized) layout, so that using the wrong one is visible
            other = geometry(*gp)
            other["image"] = dict(other["image"], r0c0=[gp[-1], other["image"]["r0c0"][1]])
            other["prescan"] = dict(other["prescan"], col_start=other["prescan"]["r0c0"][1], col_end=other["prescan"]["r0c0"][1] + other["prescan"]["cols"])
            t2 = TYPES[(TYPES.index(t) + 1) % 4]
            regions = {x: (g if x == t else other) for x in TYPES}
            frames = []
            for i, tt in enumerate((t, t2)):
                im = counts(g, i)
                dq = np.zeros(im.shape, dtype=np.uint16)
                dq[:] = (np.arange(im.size) % 16).reshape(im.shape)
                f = kit.frame(None, "L1", i, img=im.astype(np.uint16) if i == 0 and mode == "image" else im.astype(float), dq=dq, ARRTYPE=tt,
                              err=0.25 + (np.arange(im.size) % 7).reshape(im.shape) / 8)
                frames.append(f)
            ds = data.Dataset(frames)
            before = kit.snap_ds(ds)
            nm = kit.noisemaps((2, 2), bo=off, bo_err=0.75) if off is not None else None
            out = l1_to_l2a.prescan_biassub(ds, nm, return_full_frame=mode == "full", detector_regions=regions, use_imaging_area=mode == "imaging")
            c.step()
            c.state(job)
            for i, tt in enumerate((t, t2)):
                gg = regions[tt]
                r0, R, q0, C = (0, gg["frame_rows"], 0, gg["frame_cols"]) if mode == "full" else area(gg, mode)
                old = before["frames"][i]
                f = out.frames[i]
                c.equal(f.data.shape, (R, C), "frame %d size" % i)
                bias = [h for h in f.hdu_list if h.name == "BIAS"]
                c.equal(len(bias), 1, "BIAS extension")
                for r in range(R):
                    st, en = gg["prescan"]["col_start"], gg["prescan"]["col_end"]
                    vals = [float(x) for x in old["data"][r0 + r, st:en]]
                    b = statistics.median(vals) - (off or 0)
                    se = statistics.pstdev(vals) / math.sqrt(len(vals))
                    se = math.sqrt(se ** 2 + ((0.75 if off is not None else 0.0) ** 2))
                    c.expect(abs(float(bias[0].data[r]) - b) < 1e-3, lambda: "recorded bias of row %d: %r, not %r" % (r, bias[0].data[r], b))
                    for q in range(C):
                        x = float(old["data"][r0 + r, q0 + q]) - b
                        c.expect(abs(float(f.data[r, q]) - x) < 1e-9, lambda: "frame %d (%d, %d): %r, not %r" % (i, r, q, f.data[r, q], x))
                        e = math.sqrt(float(old["err"][0, r0 + r, q0 + q]) ** 2 + se ** 2)
                        c.expect(abs(float(f.err[0, r, q]) - e) < 1e-9, lambda: "frame %d uncertainty (%d, %d): %r, not %r" % (i, r, q, f.err[0, r, q], e))
                        c.expect(int(f.dq[r, q]) == int(old["dq"][r0 + r, q0 + q]), "frame %d flags (%d, %d)" % (i, r, q))
                c.equal((f.ext_hdr["NAXIS1"], f.ext_hdr["NAXIS2"]), (C, R), "recorded size")
            c.outcome(out.all_data)

    # different image placement between the two types must not change the size of the result
    c.fan([j for j in jobs], one)

    def refuse(c, gp):
        g = geometry(*gp)
        regions = {x: g for x in TYPES}
        R, C = g["frame_rows"], g["frame_cols"]
        for dr, dc in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (C - R, R - C)):
            if R + dr < 1 or (dr, dc) == (0, 0):
                continue
            for mode in (dict(), dict(return_full_frame=True), dict(use_imaging_area=True)):
                with c.case("size:%s:%d,%d:%s" % ("-".join(str(int(x)) for x in gp), dr, dc, "".join(mode))) as go:
                    if go:
                        ds = kit.dataset(1, (R + dr, C + dc), "L1")
                        c.step()
                        c.state("size", gp, dr, dc, mode)
                        c.raises(lambda: l1_to_l2a.prescan_biassub(ds, None, detector_regions=regions, **mode), "a frame of another size")
        # areas: slicing and embedding are inverse
        fr = np.arange(R * C, dtype=float).reshape(R, C)
        for key in ("image", "prescan", "parallel_overscan", "serial_overscan", "prescan_reliable"):
            with c.case("area:%s:%s" % ("-".join(str(int(x)) for x in gp), key)) as go:
                if not go:
                    continue
                r0, nr, q0, nc = area(g, key)
                cut = detector.slice_section(fr, "ENG", key, regions)
                c.step(3)
                c.state("area", gp, key)
                c.same(cut, fr[r0:r0 + nr, q0:q0 + nc], "area", exact=True)
                for pad in (0, -7.5):
                    back = detector.embed(cut, "ENG", key, pad, regions)
                    want = np.full((R, C), float(pad))
                    want[r0:r0 + nr, q0:q0 + nc] = cut
                    c.same(back, want, "embedded area", exact=True)
                    c.same(detector.slice_section(back, "ENG", key, regions), cut, "cut out again", exact=True)
                for bad in ((nr + 1, nc), (nr, nc + 1), (nr + 2, nc + 2)):
                    if 1 not in bad:
                        c.raises(lambda: detector.embed(np.zeros(bad), "ENG", key, 0, regions), "embedding %s" % (bad,))
        with c.case("area:%s:imaging" % "-".join(str(int(x)) for x in gp)) as go:
            if go:
                r0, nr, q0, nc = area(g, "imaging")
                c.equal(tuple(detector.imaging_area_geom("ENG", regions)[:2]), (nr, nc), "size of the imaging area")
                c.same(detector.imaging_slice("ENG", fr, regions), fr[r0:r0 + nr, q0:q0 + nc], "imaging area", exact=True)
                c.step(2)

    c.fan(G if c.thorough else G[::3], refuse)

    # the flight geometry: areas are where the table says, disjoint, and the imaging area holds the image area
    def flight(c, t):
        for key in detector.detector_areas[t]:
            if not isinstance(detector.detector_areas[t][key], dict):
                continue
            with c.case("flight:%s:%s" % (t, key)) as go:
                if go:
                    a = detector.detector_areas[t]
                    R, C = a["frame_rows"], a["frame_cols"]
                    fr = np.arange(R * C, dtype=np.float64).reshape(R, C)
                    r0, nr, q0, nc = area(a, key)
                    c.step(2)
                    c.state("flight", t, key)
                    cut = detector.slice_section(fr, t, key)
                    c.equal(cut.shape, (nr, nc), "whole area lies in the frame")
                    c.equal((detector.unpack_geom(t, key)[:2], tuple(detector.unpack_geom(t, key)[2])), ((nr, nc), (r0, q0)), "geometry of the area")
                    c.equal((cut[0, 0], cut[-1, -1]), (r0 * C + q0, (r0 + nr - 1) * C + q0 + nc - 1.0), "corners")
                    back = detector.embed(cut, t, key, -1)
                    c.expect(np.array_equal(back[r0:r0 + nr, q0:q0 + nc], cut) and (back == -1).sum() == R * C - cut.size, "embedding")
        with c.case("flight:%s:imaging" % t) as go:
            if go:
                a = detector.detector_areas[t]
                nr, nc, (r0, q0) = detector.imaging_area_geom(t)
                c.step()
                box = lambda k: (area(a, k)[0], area(a, k)[0] + area(a, k)[1], area(a, k)[2], area(a, k)[2] + area(a, k)[3])
                im = (r0, r0 + nr, q0, q0 + nc)
                i = box("image")
                c.expect(im[0] <= i[0] and i[1] <= im[1] and im[2] <= i[2] and i[3] <= im[3], lambda: "imaging area %s does not hold the image area %s" % (im, i))
                for k in ("prescan", "serial_overscan", "parallel_overscan"):
                    b = box(k)
                    c.expect(min(im[1], b[1]) <= max(im[0], b[0]) or min(im[3], b[3]) <= max(im[2], b[2]), lambda: "imaging area %s overlaps %s %s" % (im, k, b))
                p = a["prescan"]
                c.expect(p["r0c0"][1] <= p["col_start"] < p["col_end"] <= p["r0c0"][1] + p["cols"], "reliable columns lie in the prescan")

    c.fan(TYPES, flight)

    # the flight geometry end to end: the frame is removed of its own bias for every readout type
    def full(c, t):
        with c.case("flight-bias:" + t) as go:
            if go:
                a = detector.detector_areas[t]
                R, C = a["frame_rows"], a["frame_cols"]
                b = (np.arange(R) % 97 + 300.0)[:, None]
                fr = np.full((R, C), 1000.0) + b
                f = data.Image(fr, *kit.headers("L1", ARRTYPE=t))
                f.filename = "x_L1_.fits"
                out = l1_to_l2a.prescan_biassub(data.Dataset([f]), None)
                c.step()
                c.state("flight-bias", t)
                c.equal(out.frames[0].data.shape, (a["image"]["rows"], a["image"]["cols"]), "image area")
                c.expect(np.all(np.abs(out.frames[0].data) < 1e-9), "constant rows are not reduced to zero")

    c.fan(TYPES, full)
