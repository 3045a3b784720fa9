"""C01: every chain of steps over small datasets; nothing that was passed to a step may change, ever."""
import numpy as np

import corgidrp.data as data
from mc import kit, chains, ops, steps
from mc.c13_templates import quiet
from mc.c29_history import scribble


def frame_parts(f):
    yield "pixels", f.data
    yield "uncertainties", f.err
    yield "flags", f.dq
    for n in ("pri_hdr", "ext_hdr", "err_hdr", "dq_hdr"):
        yield n, getattr(f, n)


def shared(ins, outs):
    """Something writable that both an input and the output hold on to."""
    for a in ins:
        pa = list(frame_parts(a))
        for b in outs:
            for (n, x), (_, y) in zip(pa, frame_parts(b)):
                if isinstance(x, np.ndarray):
                    if np.may_share_memory(x, y) and np.shares_memory(x, y):
                        return n
                elif x is y:
                    return n
    return None


def on_step(c, env, s, ds, before, trace):
    if not hasattr(env, "snaps"):
        env.snaps = {k: kit.snap(v) for k, v in env.products().items()}
    out = s(ds, env)
    d = kit.diff(before, kit.snap_ds(ds))
    c.expect(d is None, lambda: "%s modified its input dataset: %s" % (s.name, d))
    for k, v in env.products().items():
        now = kit.snap(v)
        d = kit.diff(env.snaps[k], now)
        env.snaps[k] = now
        c.expect(d is None, lambda: "%s modified the calibration product %s: %s" % (s.name, k, d))
    n = shared(list(ds.frames) + list(env.products().values()), list(out.frames))
    c.expect(n is None, lambda: "%s: the result shares its %s with an input" % (s.name, n))
    return out


def objects(x, depth=0):
    """The frames and calibration products inside an input or a result."""
    if isinstance(x, data.Dataset):
        yield from x.frames
    elif isinstance(x, data.Image):
        yield x
    elif isinstance(x, steps.Env):
        yield from x.products().values()
    elif isinstance(x, dict) and depth < 4:
        for y in x.values():
            yield from objects(y, depth + 1)
    elif isinstance(x, (list, tuple)) and depth < 4:
        for y in x:
            yield from objects(y, depth + 1)


def snap(i):
    return {k: ({n: kit.snap(p) for n, p in v.products().items()} if isinstance(v, steps.Env) else kit.snap_any(v)) for k, v in i.items()}


HELPERS = ("combine_images",     # works in place on bare slices that its caller cuts out for it
           "fpamfsam_default")   # the product itself is handed back


def builders(c):
    """Every other operation (calibration builders, photometry, throughput, registration, subtraction, analysis), once per tracking setting and
    once more after its result was overwritten."""
    w = ops.World(c.newdir("world"))
    with ops.ph31.offline(w.archive):
        T = [o for o in ops.table(w) if o.family not in ("data", "geometry") and o.name not in HELPERS and (c.thorough or not o.heavy)]

        def one(c, it):
            o, track = it
            with c.case("op/%s/%s" % ("track" if track else "sum", o.name)) as go:
                if not go:
                    return
                with kit.err_tracking(track):
                    i = o.make()
                    before = snap(i)
                    with quiet():
                        r = o.call(i)
                    c.step()
                    c.state(o.name, track, before)
                    c.outcome(o.name)
                    d = kit.diff(before, snap(i))
                    c.expect(d is None, lambda: "%s modified an input: %s" % (o.name, d))
                    n = shared(list(objects(i)), list(objects(r)))
                    c.expect(n is None, lambda: "%s: the result shares its %s with an input" % (o.name, n))
                    # what the caller then does to the result does not reach the inputs either
                    scribble(r)
                    d = kit.diff(before, snap(i))
                    c.expect(d is None, lambda: "%s: overwriting its result changes an input: %s" % (o.name, d))

        c.bound(operations=len(T))
        c.fan([(o, t) for o in sorted(T, key=lambda o: -(2 * o.heavy + o.slow)) for t in (True, False)], one)


def run(c):
    if c.only is None or not c.only.startswith("op/"):
        chains.explore(c, on_step, depth=3 if c.thorough else 2)
    if c.only is None or c.only.startswith("op/"):
        builders(c)
