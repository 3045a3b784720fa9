"""C26: every table of a menu x counts on / between / outside its nodes x gains on / between / outside its nodes."""
import itertools
import math

import numpy as np

from mc import kit
import corgidrp.data as data
from corgidrp import detector, l1_to_l2a

TABLES = {
    "2x2": [[math.nan, 1., 10.], [10., 0.9, 1.1], [20., 1.2, 0.8]],
    "ones": [[math.nan, 1., 10.], [10., 1.0, 1.0], [20., 1.0, 1.0]],
    "4x3": [[math.nan, 1., 10., 100.], [1., 0.90, 0.95, 0.99], [1000., 0.91, 0.96, 1.0], [2000., 0.95, 1.00, 1.01], [3000., 1.0, 1.01, 1.06]],
    "uneven": [[math.nan, 1., 1.5, 100., 5000.], [-5., 1.5, 1.0, 0.5, 1.0], [0., 1.25, 0.75, 1.0, 2.0], [7., 0.5, 1.5, 1.125, 0.25]],
    "many": [[math.nan, 2., 3.]] + [[float(10 * k * k), 1.0 + 0.01 * k * (-1) ** k, 1.0 - 0.02 * k] for k in range(8)],
}


def lerp(xs, ys, x):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for a in range(len(xs) - 1):
        if xs[a] <= x <= xs[a + 1]:
            t = (x - xs[a]) / (xs[a + 1] - xs[a])
            return ys[a] * (1 - t) + ys[a + 1] * t


def reference(t, g, x):
    if math.isnan(x):
        return math.nan
    gains = t[0][1:]
    counts = [r[0] for r in t[1:]]
    return lerp(counts, [lerp(gains, r[1:], g) for r in t[1:]], x)


def around(nodes):
    out = [nodes[0] - abs(nodes[0]) - 3, nodes[0] - 1e-6]
    for a, b in zip(nodes, nodes[1:]):
        out += [a, a + (b - a) * 0.25, (a + b) / 2, a + (b - a) * 0.875]
    return out + [nodes[-1], nodes[-1] + 1e-6, nodes[-1] * 3 + 11]


def run(c):
    c.bound(tables=sorted(TABLES), counts="nodes, 3 points in every interval, 4 points outside, NaN", gains="the same per frame", frames="1-3 with different gains")
    for name, t in TABLES.items():
        nl = kit.nonlin(table=t)
        counts = around([r[0] for r in t[1:]]) + [math.nan]
        gains = [g for g in around(t[0][1:]) if g > 0]
        for g in gains:
            with c.case("curve:%s:%.7g" % (name, g)) as go:
                if not go:
                    continue
                for order in (counts, counts[::-1]):
                    fr = np.array(order, dtype=float).reshape(1, -1)
                    got = detector.get_relgains(fr, g, nl)
                    c.step()
                    c.state(name, g, order)
                    c.same(got, np.array([[reference(t, g, x) for x in order]]), "relative gain", rtol=1e-9)
                    c.outcome(np.round(got, 9))
        # the step: every pair / triple of frame gains, thresholds on and around the values
        for gs in itertools.product(gains[::3], repeat=2 if not c.thorough else 3):
            for thr in (math.inf, counts[5], counts[5] - 1e-6, 0.0):
                with c.case("step:%s:%s:%.7g" % (name, "/".join("%.7g" % g for g in gs), thr)) as go:
                    if not go:
                        continue
                    frames = []
                    for i, g in enumerate(gs):
                        img = np.roll(np.array(counts), i).reshape(1, -1)
                        dq = np.array([[(1 << ((j + i) % 16)) if j % 2 else 0 for j in range(img.size)]])
                        frames.append(kit.frame(None, "L1", i, img=img, dq=dq, EMGAIN_C=g))
                    ds = data.Dataset(frames)
                    before = kit.snap_ds(ds)
                    out = l1_to_l2a.correct_nonlinearity(ds, nl, threshold=thr)
                    c.step()
                    c.state(name, gs, thr)
                    for i, f in enumerate(out.frames):
                        old = before["frames"][i]["data"]
                        want = np.array([[x * reference(t, gs[i], x) for x in old[0]]])
                        c.same(f.data, want, "frame %d" % i, rtol=1e-9)
                        wdq = [[int(d) | (64 if x > thr else 0) for x, d in zip(old[0], before["frames"][i]["dq"][0])]]
                        c.same(f.dq, np.array(wdq), "flags of frame %d" % i, exact=True)
                    c.same(out.all_data, np.array([f.data for f in out.frames]), "cube", exact=True)
                    c.outcome(np.round(out.all_data, 8), out.all_dq)
    # no table: no correction, flags still set
    with c.case("none") as go:
        if go:
            ds = kit.dataset(2, (2, 2), "L1")
            out = l1_to_l2a.correct_nonlinearity(ds, None, threshold=100.0)
            c.step()
            c.same(out.all_data, ds.all_data, "pixels without a table", exact=True)
            c.same(out.all_dq, np.where(ds.all_data > 100.0, 64, 0), "flags", exact=True)
    # malformed tables are refused
    base = np.array(TABLES["4x3"])
    bad = {}
    for a, b in itertools.permutations(range(1, 4), 2):
        m = base.copy(); m[0, a] = m[0, b]; bad["gain%d=%d" % (a, b)] = m
    for a, b in itertools.permutations(range(1, 5), 2):
        m = base.copy(); m[a, 0] = m[b, 0]; bad["count%d=%d" % (a, b)] = m
    for perm in list(itertools.permutations([1., 10., 100.]))[1:]:
        m = base.copy(); m[0, 1:] = perm; bad["gains%s" % (perm,)] = m
    for perm in list(itertools.permutations([1., 1000., 2000., 3000.]))[1:]:
        m = base.copy(); m[1:, 0] = perm; bad["counts%s" % (perm,)] = m
    for col in (1, 2, 3):
        for off, w in ((-0.5, "below"), (0.5, "above")):
            m = base.copy(); m[1:, col] += off; bad["%s%d" % (w, col)] = m
    for k, m in bad.items():
        with c.case("malformed:" + k) as go:
            if go:
                c.step()
                c.state("bad", k)
                ds = kit.dataset(1, (2, 2), "L1")
                before = kit.snap_ds(ds)
                c.raises(lambda: l1_to_l2a.correct_nonlinearity(ds, kit.nonlin(table=m)), "table " + k)
                c.expect(kit.diff(before, kit.snap_ds(ds)) is None, "the refused dataset was modified")
