"""C29: every ordered pair of public operations back to back, in long histories (an Eulerian circuit of the complete graph over the
operations), with the caller scribbling over everything it passed in and got back after each call; each result is compared with the
result of the same operation in a fresh process."""
import copy
import json
import os
import pickle
import traceback

import numpy as np
import astropy.io.fits as fits

import corgidrp
import corgidrp.data as data
from mc import kit, ops, steps
from mc.c13_templates import quiet
from mc.core import digest


def scribble(x, depth=0):
    """What a caller is free to do with its own objects."""
    if depth > 6 or x is None:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fiu":
            x[...] = 77
        elif x.flags.writeable and x.dtype.kind == "b":
            x[...] = ~x
    elif isinstance(x, fits.Header):
        for k in ("EXPTIME", "EMGAIN_C", "KGAINPAR", "DATALVL", "CFAMNAME", "STARLOCX"):
            if k in x:
                x[k] = "scribbled"
        x["SCRIBBLE"] = True
        x["HISTORY"] = "scribbled"
    elif isinstance(x, data.Dataset):
        for f in x.frames:
            scribble(f, depth + 1)
        x.frames[:] = [None] * len(x.frames)
    elif isinstance(x, data.Image):
        for n in ("data", "err", "dq", "pri_hdr", "ext_hdr", "err_hdr", "dq_hdr", "params", "ptc", "ptc_hdr", "hdu_names"):
            scribble(getattr(x, n, None), depth + 1)
        for h in getattr(x, "hdu_list", []):
            scribble(h.data, depth + 1)
            scribble(h.header, depth + 1)
        x.filename = "scribbled.fits"
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (int, float, str, bool)):
                x[k] = 77
            else:
                scribble(x[k], depth + 1)
        x["scribble"] = 1
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, (int, float, str, bool)):
                x[i] = 77
            else:
                scribble(y, depth + 1)
        x.append(77)
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, depth + 1)
    elif isinstance(x, steps.Env):
        for p in x.products().values():
            scribble(p, depth + 1)


def run_op(op):
    """(inputs, result or the error)"""
    i = op.make()
    try:
        with quiet():
            return i, op.call(i)
    except Exception as e:
        return i, "%s: %s" % (type(e).__name__, e)


def options(i):
    """The plain options and tables among the inputs."""
    return {k: kit.snap_any(v) for k, v in i.items() if isinstance(v, (dict, list, tuple, np.ndarray, str, int, float))}


def fresh(op):
    """(result in a fresh process, options before, options after)"""
    before = options(op.make())
    i, r = run_op(op)
    return observed(r), before, options(i)


def observed(r):
    return kit.snap_any(r)


def settings():
    """The package's own settings and constants that an operation has no business changing."""
    from corgidrp import walker, star_center, detector, calibrate_kgain, calibrate_nonlin, fluxcal, caldb, data
    constants = {(m.__name__, n): getattr(m, n, None) for m, n in ((calibrate_kgain, "kgain_params_default"), (calibrate_nonlin, "nonlin_params_default"),
                 (fluxcal, "calspec_names"), (caldb, "column_dtypes"))}
    constants["labels"] = {k.__name__: v for k, v in getattr(caldb, "labels", {}).items()}
    constants["datatypes"] = {k: v.__name__ for k, v in getattr(data, "datatypes", {}).items()}
    constants["steps"] = {k: getattr(v, "__name__", "") for k, v in getattr(walker, "all_steps", {}).items()}
    return copy.deepcopy(dict(constants=constants, track=corgidrp.track_individual_errors, skip=corgidrp.skip_missing_cal_steps, jit=corgidrp.jit_calib_id, areas=detector.detector_areas,
                              spots=star_center.satellite_spot_parameters_defaults, err=np.geterr(), env=dict(os.environ), cwd=os.getcwd()))


def euler(n):
    """A circuit over the complete directed graph with loops on n nodes that uses every edge once (Hierholzer)."""
    nxt = [0] * n
    stack, path = [0], []
    while stack:
        v = stack[-1]
        if nxt[v] < n:
            # spread the targets, so that neighbouring pieces see different operations
            t = (v + 1 + nxt[v]) % n
            nxt[v] += 1
            stack.append(t)
        else:
            path.append(stack.pop())
    return path[::-1]


def in_fork(fn):
    """fn() in a child of this process (which stays as it is); its result is sent back."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("error", traceback.format_exc())
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        kind, out = pickle.load(f)
    os.waitpid(pid, 0)
    if kind == "error":
        raise RuntimeError(out)
    return out


def history(T, base, seq, first=0):
    """Run the operations in order; the first disagreement (position, message) or None."""
    before = settings()
    for k, n in enumerate(seq):
        op = T[n]
        i, r = run_op(op)
        if k >= first:
            d = kit.diff(base[n], observed(r), rtol=1e-9)
            if d is None and not (isinstance(r, str) and isinstance(base[n], str)):
                now = settings()
                d = kit.diff(before, now, "the package's settings")
            if d:
                return k, "%s gives a different result after %s: %s" % (op.name, " > ".join(T[m].name for m in seq[max(0, k - 3):k]), d)
        scribble(i)
        scribble(r)
    return None


def run(c):
    w = ops.World(c.newdir("world"))
    T = ops.table(w)
    light = [n for n, o in enumerate(T) if not o.heavy and not o.slow]
    slow = [n for n, o in enumerate(T) if o.slow]
    heavy = [n for n, o in enumerate(T) if o.heavy]
    with ph31_offline(w):
        base = baselines(c, w, T)
        bad = [(T[n].name, b) for n, b in base.items() if isinstance(b, str) and ": " in b]
        for name, b in bad:
            with c.case("fresh/" + name) as go:
                if go:
                    c.expect(False, "the operation fails in a fresh process: " + b)
        for n in base:
            c.state(T[n].name, base[n])
            c.outcome(base[n])
        pieces = []
        circuit = euler(len(light))
        circuit = [light[k] for k in circuit]
        size = 300
        for k in range(0, len(circuit) - 1, size):
            pieces.append(("circuit%d" % (k // size), circuit[k:k + size + 1]))
        # slow operations: before and after a history of everything, and next to their own family
        for n in slow + heavy:
            fam = [m for m in light + (slow if c.thorough or T[n].slow else []) if T[m].family == T[n].family and m != n]
            seq = [n]
            if T[n].heavy and not c.thorough:
                seq = list(light) + [n] + light[::5] + [n]
            else:
                for m in fam:
                    seq += [m, n]
                seq += light + [n]
            pieces.append(("around-" + T[n].name, seq))
            pieces.append(("after-" + T[n].name, [n] + light))
        if c.thorough:
            for n in slow:
                for k in range(0, len(light), 30):
                    seq = []
                    for m in light[k:k + 30]:
                        seq += [m, n]
                    pieces.append(("pairs-%s-%d" % (T[n].name, k), seq))
            rev = circuit[::-1]
            for k in range(0, len(rev) - 1, size):
                pieces.append(("reversed%d" % (k // size), rev[k:k + size + 1]))
        c.bound(operations=len(T), slow_operations=len(slow), heavy_operations=len(heavy), ordered_pairs_of_light_operations=len(light) ** 2, histories=len(pieces),
                longest_history=max(len(s) for _, s in pieces))
        c.assume("the caller scribbles only over what it passed in and what it got back; the download folder and the file system are as they were")
        # longest first: balanced over the workers
        cost = lambda s: sum(40 if T[n].heavy else 10 if T[n].slow else 1 for n in s)
        order = sorted(pieces, key=lambda p: -cost(p[1]))

        def one(c, p):
            name, seq = p
            if c.only is not None and c.only != name and not c.only.startswith(name + "/"):
                return
            c.step(len(seq))
            bad = in_fork(lambda: history(T, base, seq))
            if bad is None:
                with c.case(name, history=[T[n].name for n in seq[:12]], length=len(seq)) as go:
                    if go:
                        for a, b in zip(seq, seq[1:]):
                            c.state("pair", a, b)
                return
            k, msg = bad
            # is the pair alone enough?
            short = in_fork(lambda: history(T, base, seq[max(0, k - 1):k + 1]))
            with c.case("%s/%d" % (name, k) if c.only is None else c.only, history=[T[n].name for n in seq[max(0, k - 6):k + 1]], alone=short is not None) as go:
                c.expect(False, (short or bad)[1])

        c.fan(order, one)


def baselines(c, w, T):
    """Each operation in its own fresh process."""
    def one(c, n):
        with open(os.path.join(w.where, "base%d" % n), "wb") as f:
            pickle.dump(in_fork(lambda: fresh(T[n])), f)
        c.step()
    c.fan(sorted(range(len(T)), key=lambda n: -(2 * T[n].heavy + T[n].slow)), one)
    out = {}
    for n in range(len(T)):
        with open(os.path.join(w.where, "base%d" % n), "rb") as f:
            out[n], before, after = pickle.load(f)
        with c.case("options/" + T[n].name) as go:
            if go and T[n].name != "combine_images":        # (which works in place on slices cut out for it)
                d = kit.diff(before, after)
                c.expect(d is None, lambda: "%s changes the options it was given: %s" % (T[n].name, d))
    return out


def ph31_offline(w):
    return ops.ph31.offline(w.archive)
