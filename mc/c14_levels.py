"""C14: all level vectors x all level updates; all chains of level updates; all chains of all steps with a monitor on the level."""
import itertools

import numpy as np

from mc import kit, steps, chains
import corgidrp.data as data
from corgidrp import l1_to_l2a, l2a_to_l2b, l2b_to_l3, l3_to_l4, l4_to_tda

ORDER = ["L1", "L2a", "L2b", "L3", "L4", "TDA"]
TAG = {"L1": "_L1_", "L2a": "_L2a", "L2b": "_L2b", "L3": "_L3_", "L4": "_L4_", "TDA": "_TDA_"}
OTHER = ["", "L2", "CAL", "l1", "L2A", "L5"]


def updates():
    fl, ct = kit.fluxfac(), kit.ctcal()
    fl.filename, ct.filename = "f_ABF_CAL.fits", "c_CTP_CAL.fits"
    return {"L1": [("l2a", l1_to_l2a.update_to_l2a)], "L2a": [("l2b", l2a_to_l2b.update_to_l2b)], "L2b": [("l3", l2b_to_l3.update_to_l3)],
            "L3": [("l4", lambda d: l3_to_l4.update_to_l4(d, ct, fl)), ("l4noct", lambda d: l3_to_l4.update_to_l4(d, None, fl))],
            "L4": [("tda", l4_to_tda.update_to_tda)]}


NAMES = ["CGI_0200001_20240101T1200000%s.fits", "CGI_0200001_20240101T1200000%s_suffix.fits", "dir%s.fits", "x%s1.fits"]


def make(levels, k=0, tracked=False):
    fr = []
    for i, lv in enumerate(levels):
        f = kit.frame((2, 3), "L1", i, dq=np.arange(6).reshape(2, 3) * (i + 1))
        f.ext_hdr["DATALVL"] = lv
        f.filename = NAMES[(k + i) % len(NAMES)] % TAG.get(lv, "_NONE_")
        if tracked:
            f.add_error_term(np.full((2, 3), 2.0), "t")
        fr.append(f)
    return data.Dataset(fr)


def on_update(c, f, lv, ds):
    """One update with its oracle; the result, or None when it had to be (and was) refused."""
    before = kit.snap_ds(ds)
    levels = [x.ext_hdr["DATALVL"] for x in ds.frames]
    c.step()
    if any(x != lv for x in levels):
        c.raises(lambda: f(ds), "levels %s" % levels)
        d = kit.diff(before, kit.snap_ds(ds))
        c.expect(d is None, lambda: "a refused update changed the dataset: %s" % d)
        return None
    out = f(ds)
    nxt = ORDER[ORDER.index(lv) + 1]
    d = kit.diff(before, kit.snap_ds(ds))
    c.expect(d is None, lambda: "the update changed its input: %s" % d)
    c.equal(len(out), len(ds), "number of frames")
    for a, b in zip(ds.frames, out.frames):
        c.equal(b.ext_hdr["DATALVL"], nxt, "new level")
        c.equal(b.filename, a.filename.replace(TAG[lv], TAG[nxt]), "new file name")
        for n in ("data", "err", "dq"):
            c.same(getattr(b, n), getattr(a, n), n, exact=True)
    c.same(out.all_data, ds.all_data, "cube", exact=True)
    return out


def run(c):
    U = updates()
    nf = 3
    c.bound(levels=ORDER + OTHER, frames="1..%d" % nf, file_names=len(NAMES), update_chain_depth=6)
    allupd = [(lv, n, f) for lv in U for n, f in U[lv]]

    def vec(c, levels):
        for lv, n, f in allupd:
            with c.case("update:%s:%s" % (n, levels)) as go:
                if go:
                    with kit.err_tracking(len(levels) % 2 == 0):
                        c.state(n, levels)
                        on_update(c, f, lv, make(levels, len(n), len(levels) % 2 == 0))

    V = [v for k in (1, 2, 3) for v in itertools.product(ORDER + (OTHER if k < 3 or c.thorough else OTHER[:1]), repeat=k)]
    c.fan(V, vec)

    # all chains of updates
    def walk(c, ds, trace):
        for lv, n, f in allupd:
            key = "chain:" + "/".join(trace + [n])
            out = None
            with c.case(key) as go:
                if go:
                    c.state(key)
                    out = on_update(c, f, lv, ds)
                elif c.only is not None and c.only.startswith(key):
                    out = f(ds)
            if out is not None and len(trace) < 7:
                walk(c, out, trace + [n])

    for lv in ORDER:
        for k in range(len(NAMES)):
            walk(c, make([lv, lv], k), [lv + str(k)])

    # every other step leaves the level alone
    def on_step(c, env, s, ds, before, trace):
        out = s(ds, env)
        was = [f.ext_hdr["DATALVL"] for f in ds.frames]
        now = [f.ext_hdr["DATALVL"] for f in out.frames]
        if s.name.startswith("update_to"):
            c.equal(now, [ORDER[ORDER.index(x) + 1] for x in was], "levels after " + s.name)
        else:
            c.expect(set(now) == set(was), lambda: "%s changed the level: %s to %s" % (s.name, was, now))
        return out

    chains.explore(c, on_step, depth=3 if c.thorough else 2, modes=(False, True) if c.thorough else (False,))
