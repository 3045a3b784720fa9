"""Bounded exploration of all chains of processing steps, with a monitor called around every step.

explore(c, on_step) enumerates, depth first, every program s1;s2;...;sd over the step alphabet that is enabled on each start
dataset.  A dataset state that was already expanded with at least as much remaining depth is not expanded again
(canonical state: the full snapshot of the dataset).  on_step(c, env, step, dataset, before, trace) is the monitor; `before` is the dataset's snapshot; it returns the result.
"""
import numpy as np

from mc import kit, steps
from mc.core import Bad, digest


def starts(thorough=False):
    """name -> builder of the datasets programs start from."""
    S = {
        "L1full": lambda: steps.start(steps.FULL, "L1", n=2, layers=1),
        "L2aImg": lambda: steps.start(steps.IMG, "L2a", n=2, layers=2),
        "L2bImg": lambda: wcs(steps.start(steps.IMG, "L2b", n=2, layers=2)),
        "L3Img": lambda: wcs(steps.start(steps.IMG, "L3", n=2, layers=1, BUNIT="electron/s")),
        "L4Img": lambda: wcs(steps.start(steps.IMG, "L4", n=1, layers=2, BUNIT="electron/s")),
        "PCImg": lambda: pc(),
    }
    if thorough:
        S["L1full3"] = lambda: steps.start(steps.FULL, "L1", n=3, layers=2)
        S["L2aFull"] = lambda: steps.start(steps.FULL, "L2a", n=2, layers=2)
        S["L2aOne"] = lambda: steps.start(steps.IMG, "L2a", n=1, layers=1)
    return S


def wcs(ds):
    for i, f in enumerate(ds.frames):
        a = np.radians(20.0 + 5 * i)
        for k, v in dict(CRPIX1=2.0, CRPIX2=2.0, CRVAL1=80.5, CRVAL2=-69.5, CTYPE1="RA---TAN", CTYPE2="DEC--TAN",
                         CD1_1=-6e-6 * np.cos(a), CD1_2=6e-6 * np.sin(a), CD2_1=6e-6 * np.sin(a), CD2_2=6e-6 * np.cos(a),
                         PLTSCALE=21.8).items():
            f.ext_hdr[k] = v
    return ds


def pc():
    ds = steps.start(steps.IMG, "L2a", n=4, layers=1, ISPC=True, EMGAIN_C=5000.0, RN=100.0, BUNIT="detected electrons")
    for i, f in enumerate(ds.frames):
        f.data[:] = np.where((np.arange(16).reshape(4, 4) * 3 + i) % 5 == 0, 2000.0, 0.0)
    return ds


def explore(c, on_step, depth, only_steps=None, modes=(True, False), which=None, prep=None, tag=None):
    def head(mode):
        return ("track" if mode else "sum") + ("" if tag is None else "-" + tag)

    table = [s for s in steps.all_steps() if only_steps is None or s.name in only_steps]
    first = []
    for mode in modes:
        for name, make in starts(c.thorough).items():
            if which is not None and name not in which:
                continue
            with kit.err_tracking(mode):
                ds = make() if prep is None else prep(make())
                first += [(mode, name, s.name) for s in table if s.enabled(ds)]
    c.bound(chain_depth=depth, step_alphabet=len(table), start_datasets=sorted({f[1] for f in first}),
            tracking_modes=[str(m) for m in modes])
    env_box = {}

    def one(c, item):
        mode, sname, fname = item
        if c.only is not None and not c.only.startswith("%s/%s/%s" % (head(mode), sname, fname)):
            return
        with kit.err_tracking(mode):
            if "env" not in env_box:
                env_box["env"] = steps.Env(c.newdir("out"))
            env = env_box["env"]
            ds = starts(c.thorough)[sname]()
            if prep is not None:
                ds = prep(ds)
            seen = {}
            walk(c, env, ds, [s for s in table if s.name == fname], depth, [head(mode), sname], seen,
                 kit.snap_ds(ds))

    def walk(c, env, ds, todo, left, trace, seen, snap):
        for s in todo:
            if not s.enabled(ds):
                continue
            tr = trace + [s.name]
            key = "/".join(tr)
            if c.only is not None and not (c.only == key or c.only.startswith(key + "/")):
                continue
            # every program works on its own copy made outside the code under test's own bookkeeping
            out = None
            if c.only is None or c.only == key:
                with c.case(key, program=tr[2:]) as go:
                    if go:
                        c.step()
                        try:
                            out = on_step(c, env, s, ds, snap, tr)
                        except Bad:
                            raise
                        except Exception:
                            if not s.may_refuse:
                                raise
            else:
                out = s(ds, env)
            if out is None:
                continue
            osnap = kit.snap_ds(out)
            d = digest(osnap)
            c.state(d)
            c.outcome(d)
            if left > 1 and (d not in seen or seen[d] < left - 1):
                seen[d] = left - 1
                walk(c, env, out, table, left - 1, tr, seen, osnap)

    c.fan(first, one)
