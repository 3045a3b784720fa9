"""C02: every sequence of dataset operations over a pool of datasets (the original and what was derived from it); after every
operation every dataset of the pool is probed: its frames and its cubes agree, and an edit on either side is seen on the other.
The same probe runs after every step of every chain of processing steps."""
import itertools

import numpy as np

from mc import kit, steps, chains
from mc.core import Bad
import corgidrp.data as data

CUBES = (("all_data", "data"), ("all_err", "err"), ("all_dq", "dq"))


def probe(c, ds, what):
    for cn, fn in CUBES:
        cube = getattr(ds, cn)
        if len(cube) != len(ds.frames):
            raise Bad("%s: %s has %d entries for %d frames" % (what, cn, len(cube), len(ds.frames)))
        for i, f in enumerate(ds.frames):
            a = getattr(f, fn)
            if a.shape != cube[i].shape:
                raise Bad("%s: frame %d %s has shape %s, the cube %s" % (what, i, fn, a.shape, cube[i].shape))
            if not np.array_equal(a, cube[i], equal_nan=a.dtype.kind == "f"):
                raise Bad("%s: frame %d %s differs from the cube" % (what, i, fn))
            if a.size == 0:
                continue
            for ix in (tuple(0 for _ in a.shape), tuple(s - 1 for s in a.shape)):
                old = a[ix].copy()
                new = old + 1 if old == old else 1.0
                a[ix] = new
                if not cube[i][ix] == a[ix] or not getattr(ds, cn)[(i,) + ix] == a[ix]:
                    a[ix] = old
                    raise Bad("%s: an edit of frame %d %s is not seen in the cube" % (what, i, fn))
                for j, g in enumerate(ds.frames):
                    if j != i and np.shares_memory(getattr(g, fn), a):
                        raise Bad("%s: frames %d and %d share their %s" % (what, i, j, fn))
                a[ix] = old
                cube[(i,) + ix] = new
                if not getattr(f, fn)[ix] == new:
                    cube[(i,) + ix] = old
                    raise Bad("%s: an edit of the cube is not seen in frame %d %s" % (what, i, fn))
                cube[(i,) + ix] = old


# --- reference: a dataset is a list of [data, err, dq, id]
def ref(ds):
    return [[f.data.copy(), f.err.copy(), f.dq.copy(), f.ext_hdr["EXPTIME"], f.filename] for f in ds.frames]


def op_copy(ds, r, tr):
    return ds.copy(), [[x.copy() if isinstance(x, np.ndarray) else x for x in f] for f in r]


def op_lightcopy(ds, r, tr):
    return ds.copy(copy_data=False), [[x.copy() if isinstance(x, np.ndarray) else x for x in f] for f in r]


def sub(ix):
    def op(ds, r, tr):
        k = list(range(len(r)))
        sel = k[ix] if isinstance(ix, slice) else [k[j] for j in ix]
        return ds[ix if isinstance(ix, slice) else list(ix)], [list(r[j]) for j in sel]
    return op


def op_mask(ds, r, tr):
    m = np.array([i % 2 == 0 for i in range(len(r))])
    return ds[m], [list(r[i]) for i in range(len(r)) if m[i]]


def op_split(ds, r, tr):
    parts, vals = ds.split_dataset(exthdr_keywords=["EXPTIME"])
    return list(zip(parts, [[list(f) for f in r if f[3] == v] for v in vals])), None


def op_iter(ds, r, tr):
    for i, f in enumerate(ds):
        assert f is ds[i]
    return None, None


def op_newdata(ds, r, tr):
    ds.update_after_processing_step("x", new_all_data=ds.all_data * 2 + 1)
    for f in r:
        f[0] = f[0] * 2 + 1
    return None, None


def op_newdq(ds, r, tr):
    ds.update_after_processing_step("x", new_all_dq=ds.all_dq | 8, header_entries={"BUNIT": "x"})
    for f in r:
        f[2] = f[2] | 8
    return None, None


def op_newerr(ds, r, tr):
    ds.update_after_processing_step("x", new_all_err=ds.all_err + 1)
    for f in r:
        f[1] = f[1] + 1
    return None, None


def op_newerr_layers(ds, r, tr):
    ds.update_after_processing_step("x", new_all_err=np.concatenate([ds.all_err, ds.all_err[:, :1]], axis=1))
    for f in r:
        f[1] = np.concatenate([f[1], f[1][:1]])
    return None, None


def op_all(ds, r, tr):
    ds.update_after_processing_step("x", new_all_data=ds.all_data + 3, new_all_err=ds.all_err * 2, new_all_dq=ds.all_dq ^ 1)
    for f in r:
        f[0], f[1], f[2] = f[0] + 3, f[1] * 2, f[2] ^ 1
    return None, None


def added(f, e, tr):
    err = f[1].copy()
    err[0] = np.sqrt(err[0] ** 2 + e ** 2)
    f[1] = np.append(err, [e], axis=0) if tr else err


def op_term(ds, r, tr):
    e = ds.frames[0].data * 0 + 2.0
    ds.add_error_term(e, "t")
    for f in r:
        added(f, e, tr)
    return None, None


def op_terms(ds, r, tr):
    e = np.array([f[0] * 0 + 1.0 + i for i, f in enumerate(r)])
    ds.add_error_term(e, "t")
    for f, x in zip(r, e):
        added(f, x, tr)
    return None, None


def op_scale(ds, r, tr):
    if r[0][0].ndim != 2:
        return None, None
    ds.rescale_error(np.full(r[0][0].shape, 0.5), "s")
    for f in r:
        f[1] = f[1] * 0.5
    return None, None


def op_scales(ds, r, tr):
    if r[0][0].ndim != 2:
        return None, None
    ds.rescale_error(np.array([np.full(r[0][0].shape, 2.0 ** i) for i in range(len(r))]), "s")
    for i, f in enumerate(r):
        f[1] = f[1] * 2.0 ** i
    return None, None


def op_masked(ds, r, tr):
    m = ds[0].get_masked_data()
    m += 5          # a masked array made from the pixels: an edit goes to the pixels or to nobody, but cube and frame agree
    for i in range(1):
        r[i][0] = ds[0].data.copy()
    return None, None


OPS = dict(copy=op_copy, lightcopy=op_lightcopy, head=sub(slice(0, 2)), tail=sub(slice(1, None)), every2=sub(slice(None, None, 2)), reverse=sub(slice(None, None, -1)),
           last=sub((-1,)), swap=sub((1, 0)), mask=op_mask, split=op_split, iterate=op_iter, new_data=op_newdata, new_dq=op_newdq, new_err=op_newerr,
           new_err_layers=op_newerr_layers, new_all=op_all, add_term=op_term, add_terms=op_terms, rescale=op_scale, rescales=op_scales)
MUT = {"new_data", "new_dq", "new_err", "new_err_layers", "new_all", "add_term", "add_terms", "rescale", "rescales"}


LAST = ("new_data", "new_err_layers", "add_term", "rescales", "head")        # last operations of depth-3 programs in the quick tier


def build(cfg):
    n, nd, tracked, dt = cfg
    fr = []
    for i in range(n):
        shape = (2, 3) if nd == 2 else (2, 2, 3)
        img = kit.arr(shape, i).astype(dt)
        f = kit.frame(None, "L2a", i, img=img, dq=(np.arange(img.size) % 5).reshape(shape).astype(np.uint16), EXPTIME=float(i % 2))
        fr.append(f)
    return data.Dataset(fr)


def run(c):
    depth = 3
    cfgs = [(3, 2, False, float), (3, 2, True, float), (3, 3, False, float), (2, 2, True, float), (1, 2, True, float), (3, 2, False, "uint16")]
    c.bound(depth=depth, operations=list(OPS), pool="original and up to %d derived datasets" % depth, datasets=[str(x) for x in cfgs])
    jobs = [(cfg, a) for cfg in cfgs for a in OPS]

    def enabled(name, ds):
        n = len(ds)
        return not (name == "swap" and n < 2 or name == "tail" and n < 2)

    def execute(c, cfg, prog):
        """Runs a program; returns the size of the pool."""
        with kit.err_tracking(cfg[2]):
            ds = build(cfg)
            pool = [(ds, ref(ds))]
            for step, (name, k) in enumerate(prog):
                k = k % len(pool)
                ds, r = pool[k]
                if not enabled(name, ds):
                    return 0
                out, r2 = OPS[name](ds, r, cfg[2])
                c.step()
                if isinstance(out, list):
                    pool += out
                elif out is not None:
                    pool.append((out, r2))
                shares = name in MUT
                for j, (d, rr) in enumerate(pool):
                    what = "after %s, dataset %d" % (prog[:step + 1], j)
                    probe(c, d, what)
                    if j == k or not shares:
                        # the values of the dataset operated on (others may share pixels with it, as slices do)
                        if len(d.frames) != len(rr):
                            raise Bad("%s: %d frames, should be %d" % (what, len(d.frames), len(rr)))
                        for f, x in zip(d.frames, rr):
                            for v, w, n in ((f.data, x[0], "pixels"), (f.err, x[1], "uncertainties"), (f.dq, x[2], "flags")):
                                if v.shape != w.shape or not np.allclose(v.astype(float), w.astype(float)):
                                    raise Bad("%s: wrong %s" % (what, n))
                            if f.filename != x[4]:
                                raise Bad("%s: frames out of order" % what)
                    else:
                        pool[j] = (d, [[f.data.copy(), f.err.copy(), f.dq.copy(), f.ext_hdr["EXPTIME"], f.filename] for f in d.frames])
            return len(pool)

    def explore(c, job):
        cfg, first = job
        main = cfg == cfgs[1]
        todo = [[(first, 0)]]
        for d in range(1, depth + 1):
            nxt = []
            for prog in todo:
                key = "%s:%s" % ("-".join(str(x) if not isinstance(x, type) else "float" for x in cfg), "/".join("%s@%d" % p for p in prog))
                n = 0
                with c.case(key, program=prog) as go:
                    if go:
                        c.state(key)
                        n = execute(c, cfg, prog)
                if c.only is not None and c.only.startswith(key):
                    n = 2
                if n and d < depth:
                    # continue on the original and on the newest derived dataset
                    last = len(prog) == depth - 1
                    for name in OPS:
                        if last and not c.thorough and (not main or prog[0][0] in MUT or name not in LAST or prog[1][0] in ("iterate", "every2", "reverse", "tail", "last")):
                            continue
                        for k in {0, n - 1}:
                            if last and not c.thorough and name not in MUT and k:
                                continue
                            nxt.append(prog + [(name, k)])
            todo = nxt

    c.fan(sorted(jobs, key=lambda j: str(j)), explore)

    def on_step(c, env, s, ds, before, trace):
        out = s(ds, env)
        probe(c, out, "result of " + s.name)
        probe(c, ds, "input of " + s.name)
        return out

    chains.explore(c, on_step, depth=2 if c.thorough else 1, modes=(False, True) if c.thorough else (True,))
