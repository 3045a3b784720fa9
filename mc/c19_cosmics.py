"""C19: every {low, plateau, saturated} pattern of a row, at every kind of position, with box/tail/filter parameters and both modes;
every pair of hits of a menu; every saturation level around every frame's own one."""
import itertools

import numpy as np

from mc import kit
import corgidrp.data as data
from corgidrp import detector, l1_to_l2a

FREE = object()
# detector: FWC 1000 DN in the gain register, 300 DN per unit gain in the image area (k-gain 2)
KG, PP, EM, SAT, PLAT = 2.0, 600.0, 2000.0, 0.75, 0.5
LOW = (100.0, 300.0, 470.0)
LEVEL = {0: None, 1: 600.0, 2: 800.0}
GAINS = (1.0, 2.0, 100.0)
REG = {"SCI": dict(frame_rows=6, frame_cols=10, image=dict(rows=4, cols=4, r0c0=[1, 5])),
       "ENG": dict(frame_rows=6, frame_cols=10, image=dict(rows=3, cols=5, r0c0=[2, 3])),
       "ENG_EM": dict(frame_rows=6, frame_cols=10, image=dict(rows=4, cols=4, r0c0=[1, 5])),
       "ENG_CONV": dict(frame_rows=6, frame_cols=10, image=dict(rows=4, cols=4, r0c0=[1, 5]))}


def heads(row, filt):
    out = []
    i = 0
    while i < len(row):
        if row[i] >= PLAT * EM / KG:
            j = i
            while j < len(row) and row[j] >= PLAT * EM / KG:
                j += 1
            run = [x >= SAT * EM / KG for x in row[i:j]]
            if filt == 1 and any(run) or filt > 1 and all(run) and len(run) >= filt:
                out.append(i)
            i = j
        else:
            i += 1
    return out


def reference(im, box, tail, filt, mode, arr):
    """Set of flagged pixels, and of pixels the description leaves open (border of the image area in full-frame mode)."""
    R, Q = im.shape
    hit, free = set(), set()
    if mode == "full":
        a = REG[arr]["image"]
        r0, q0, r1, q1 = a["r0c0"][0], a["r0c0"][1], a["r0c0"][0] + a["rows"], a["r0c0"][1] + a["cols"]
    else:
        r0, q0, r1, q1 = 0, 0, R, Q
    for r in range(r0, r1):
        for h in heads(im[r].tolist(), filt):
            if not q0 <= h < q1:
                continue
            for k in range(h, h + filt + tail + 1):
                if k < Q:
                    hit.add((r, k))
                elif mode == "full" and r + k // Q < R:
                    (free if k == h + filt + tail else hit).add((r + k // Q, k % Q))
            for x in range(r - box, r + box + 1):
                for y in range(h - box, h + box + 1):
                    if r0 <= x < r1 and q0 <= y < q1:
                        hit.add((x, y))
                    elif r0 <= x <= r1 and q0 <= y <= q1:
                        free.add((x, y))
    return hit, free - hit


def background(R, Q):
    return np.array([[LOW[(r + q) % 3] for q in range(Q)] for r in range(R)])


def place(hits, R, Q):
    """hits: (row, first column, pattern)"""
    im = background(R, Q)
    for r, q, pat in hits:
        for k, p in enumerate(pat):
            if LEVEL[p]:
                im[r, q + k] = LEVEL[p]
    return im


def check(c, ims, box, tail, filt, mode, arrs, own_kgain):
    frames = []
    for i, im in enumerate(ims):
        dq = ((np.arange(im.size) * 7 + i) % 16).reshape(im.shape).astype(np.uint16)
        frames.append(kit.frame(None, "L1", i, img=im, dq=dq, ARRTYPE=arrs[i], EMGAIN_C=GAINS[i % 3]))
    ds = data.Dataset(frames)
    p = kit.detparams(FWC_PP_E=PP, FWC_EM_E=EM, KGAINPAR=3.0 if own_kgain else KG)
    out = l1_to_l2a.detect_cosmic_rays(ds, p, kit.kgain(KG) if own_kgain else None, sat_thresh=SAT, plat_thresh=PLAT, cosm_filter=filt,
                                       cosm_box=box, cosm_tail=tail, mode=mode, detector_regions=REG)
    for i, im in enumerate(ims):
        lim = SAT * min(GAINS[i % 3] * PP, EM) / KG
        hit, free = reference(im, box, tail, filt, mode, arrs[i])
        got = out.frames[i].dq.astype(int)
        for r in range(im.shape[0]):
            for q in range(im.shape[1]):
                w = (int(ds.frames[i].dq[r, q]) | (32 if im[r, q] >= lim else 0) | (128 if (r, q) in hit else 0))
                g = int(got[r, q])
                if (r, q) in free:
                    w, g = w & ~128, g & ~128
                c.expect(g == w, lambda: "frame %d (gain %s, %s) pixel (%d, %d): flags %d, should be %d; row %s" % (i, GAINS[i % 3], arrs[i], r, q, g, w, im[r].tolist()))
        c.same(out.frames[i].data, im, "pixels of frame %d" % i, exact=True)
    c.step()
    c.outcome(out.all_dq)


def run(c):
    W = 6
    pats = list(itertools.product((0, 1, 2), repeat=W))
    rows = (0, 2, 4)
    boxes = (0, 1, 2, 3)
    tails = (0, 1, 3, 8)
    if c.thorough:
        rows, boxes, tails = range(5), range(6), range(9)
    c.bound(row_patterns="all 3^%d over low/plateau/saturated in image mode, all 3^7 ending at the frame edge in full mode" % W, rows=list(rows), boxes=list(boxes), tails=list(tails),
            filters=[1, 2], frame="5x%d (image mode), 6x10 (full mode)" % W, frames_per_dataset=27)
    jobs = []
    for r in rows:
        for n, b in enumerate(boxes):
            for m, t in enumerate(tails):
                if c.thorough or (n + m + r) % 3 == 0:
                    jobs.append(("image", r, b, t, 1))
    # longer plateaus required: runs of saturated pixels away from the border of the row
    for r in rows:
        for f in (2,):
            for b, t in ((0, 0), (1, 2), (2, 5)):
                jobs.append(("image", r, b, t, f))
    for r in range(6) if c.thorough else (1, 3, 4):
        for b, t in ((0, 0), (1, 3), (2, 7), (3, 13), (1, 24)) if c.thorough else ((1, 3), (2, 13)):
            jobs.append(("full", r, b, t, 1))

    def one(c, job):
        mode, r, b, t, f = job
        if mode == "image":
            if f == 1:
                ims = [place([(r, 0, p)], 5, W) for p in pats]
            else:
                ims = [place([(r, 1, p)], 5, W + 2) for p in itertools.product((0, 2), repeat=W)]
            arrs = ["SCI"] * len(ims)
        else:
            ims, arrs = [], []
            todo = itertools.product((0, 1, 2), repeat=7)
            if not c.thorough:
                todo = [p for k, p in enumerate(todo) if p.count(1) <= 2]
            for k, p in enumerate(todo):
                im = place([(r, 3, p)], 6, 10)
                arr = ("SCI", "ENG")[k % 2]
                a = REG[arr]["image"]
                if any(h == a["r0c0"][1] + a["cols"] for h in heads(im[r].tolist(), 1)) or r == a["r0c0"][0] + a["rows"]:
                    continue
                ims.append(im)
                arrs.append(arr)
        for k in range(0, len(ims), 27):
            with c.case("%s:row%d:box%d:tail%d:filter%d:%d" % (mode, r, b, t, f, k)) as go:
                if go:
                    check(c, ims[k:k + 27], b, t, f, mode, arrs[k:k + 27], k % 2 == 0)
                    for j in range(k, min(k + 27, len(ims))):
                        c.state(mode, r, b, t, f, j)

    c.fan(jobs, one)

    # two and three hits per frame (overlapping boxes and tails), several rows
    hits = [(r, q, p) for r in range(4) for q in range(5) for p in ((2,), (2, 1), (1, 2))]
    combos = list(itertools.combinations(hits, 2)) + (list(itertools.combinations([h for h in hits if len(h[2]) == 1], 3)) if c.thorough else [])
    blocks = [combos[k:k + 30] for k in range(0, len(combos), 30)]

    def multi(c, n):
        for b, t in ((1, 1), (2, 4), (0, 2)) if c.thorough else ((1, 2),):
            with c.case("hits:%d:box%d:tail%d" % (n, b, t)) as go:
                if go:
                    ims = [place(h, 4, 6) for h in blocks[n]]
                    check(c, ims, b, t, 1, "image", ["SCI"] * len(ims), n % 2 == 0)
                    for h in blocks[n]:
                        c.state("hits", h, b, t)

    c.fan(range(len(blocks)), multi)

    # cubes of two and three frames handed over at once (every pair and triple of a menu of single hits): each frame as if it were alone
    menu = [None] + [(r, q, (2,)) for r in (1, 2, 4) for q in (5, 7, 8)]

    def cube(c, job):
        mode, b, t, n = job
        with c.case("cube:%s:box%d:tail%d:%d" % job) as go:
            if go:
                for hs in itertools.product(menu, repeat=n):
                    ims = np.array([place([h] if h else [], 6, 10) for h in hs])
                    before = ims.copy()
                    got = detector.flag_cosmics(ims, EM / KG, SAT, PLAT, 1, b, t, mode=mode, detector_regions=REG, arrtype="SCI")
                    c.step()
                    c.state("cube", job, hs)
                    c.same(ims, before, "the cube", exact=True)
                    for i, im in enumerate(ims):
                        hit, free = reference(im, b, t, 1, mode, "SCI")
                        bad = [p for p in np.ndindex(*im.shape) if p not in free and bool(got[i][p]) != (p in hit)]
                        c.expect(not bad, lambda: "frame %d of a cube with hits %s: pixels %s are flagged wrongly" % (i, hs, bad[:5]))

    c.fan([(m, b, t, n) for m in ("image", "full") for b, t in ((0, 3), (1, 6), (2, 13)) for n in ((2, 3) if c.thorough else (2,))], cube)

    # saturation level: k-gain, gain and both full wells on either side of each other
    def level(c, job):
        kg, g, pp, em, th = job
        with c.case("level:%s:%s:%s:%s:%s" % job) as go:
            if go:
                lim = th * min(g * pp, em) / kg
                im = np.array([[lim - 0.5, lim], [lim + 0.5, lim / 2], [0.0, lim - 0.03125]])
                other = 3.0 * g
                lim2 = th * min(other * pp, em) / kg
                ds = data.Dataset([kit.frame(None, "L1", 0, img=im, EMGAIN_C=g), kit.frame(None, "L1", 1, img=im + lim2 - lim, EMGAIN_C=other)])
                p = kit.detparams(FWC_PP_E=pp, FWC_EM_E=em, KGAINPAR=5.0)
                out = l1_to_l2a.detect_cosmic_rays(ds, p, kit.kgain(kg), sat_thresh=th, plat_thresh=0.99, cosm_box=0, cosm_tail=0)
                c.step()
                c.state("level", job)
                for i, (x, l) in enumerate(((im, lim), (im + lim2 - lim, lim2))):
                    c.same((out.frames[i].dq & 32) != 0, x >= l, "saturation flags of frame %d" % i, exact=True)

    c.fan(list(itertools.product((0.5, 2.0, 8.0), (1.0, 2.0, 64.0), (64.0, 1024.0), (512.0, 4096.0), (0.5, 0.75, 1.0))), level)
