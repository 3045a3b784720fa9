"""C07: every registration order of every small set of calibration files x every kind x every frame, against a linear scan of the set."""
import itertools
import os

from astropy.time import Time

from mc import kit
import corgidrp.data as data
from corgidrp import caldb as cdb

T = ["2023-06-01T00:00:00", "2024-01-01T11:59:59.500", "2024-01-01T12:00:00.250", "2024-06-01T00:00:00", "2031-02-03T04:05:06.789"]
C = ["2024-07-01T00:00:00", "2024-07-01T00:00:01", "2024-07-02T00:00:00", "2025-01-01T00:00:00.5", "2022-01-01T00:00:00"]


def put(obj, d, name, t, ctime, exp):
    eh = obj.ext_hdr
    eh["SCTSRT"], eh["DRPCTIME"], eh["EXPTIME"] = t, ctime, exp
    obj.filename, obj.filedir = name, d
    obj.save(filedir=d, filename=name)
    return obj


class Entry:
    def __init__(self, key, obj):
        self.key, self.obj, self.cls, self.path = key, obj, type(obj), os.path.abspath(os.path.join(obj.filedir, obj.filename))
        self.note()

    def note(self):
        h = self.obj.ext_hdr
        self.t, self.c, self.exp = Time(h["SCTSRT"]).mjd, Time(h["DRPCTIME"]).mjd, float(h["EXPTIME"])


def best(entries, frame, cls):
    """The set of acceptable answers (several only if exactly equally close)."""
    opt = [e for e in entries if e.cls is cls]
    if frame is None:
        key = lambda e: -e.c
    else:
        if cls is data.Dark:
            opt = [e for e in opt if e.exp == float(frame.ext_hdr["EXPTIME"])]
        t = Time(frame.ext_hdr["SCTSRT"]).mjd
        key = lambda e: abs(e.t - t)
    if not opt:
        return set()
    m = min(map(key, opt))
    return {e.path for e in opt if key(e) == m}


def ask(c, db, frame, cls, entries, what, to_disk=True):
    want = best(entries, frame, cls)
    c.step()
    try:
        got = db.get_calib(frame, cls, to_disk=to_disk)
    except ValueError:
        got = None
    if not want:
        c.expect(got is None, lambda: "%s: %s returned, nothing qualifies" % (what, got.filename))
        c.outcome("refused")
        return
    c.expect(got is not None, lambda: "%s: refused, but %s qualifies" % (what, sorted(want)))
    c.expect(type(got) is cls, lambda: "%s: a %s was returned" % (what, type(got).__name__))
    p = os.path.abspath(os.path.join(got.filedir, got.filename))
    c.expect(p in want, lambda: "%s: %s returned, best match is %s" % (what, os.path.basename(p), sorted(map(os.path.basename, want))))
    c.outcome(os.path.basename(p))


def frames():
    F = {}
    for n, (t, e) in dict(mid=(T[2], 10.0), early=("2020-01-01T00:00:00", 10.0), late=("2035-01-01T00:00:00", 10.0), long=(T[1], 20.0), odd=(T[2], 7.0 / 3),
                          between=("2024-01-01T11:59:59.9", 10.0)).items():
        f = kit.frame((4, 4), "L2a", 1)
        f.ext_hdr["SCTSRT"], f.ext_hdr["EXPTIME"] = t, e
        f.ext_hdr["DATETIME"] = "2026-01-01T00:00:00"      # not the time that counts
        F[n] = f
    return F


def run(c):
    nset = 4 if c.thorough else 3
    c.bound(entries_registered=nset, registration_orders="all", frames=6, kinds=len(kit.CALS))
    c.assume("products exactly equally close in time (or created at the same time) are all acceptable")
    d = c.newdir("cal")
    menu = [Entry(k, put(mk(), d, k + ".fits", t, ct, e)) for k, mk, t, ct, e in [
        ("dkA", kit.dark, T[0], C[2], 10.0), ("dkB", kit.dark, T[3], C[0], 10.0), ("dkC", kit.dark, T[2], C[3], 20.0),
        ("dkD", lambda: kit.dark(n=4), T[1], C[4], 10.0), ("dkO", kit.dark, T[4], C[1], 7.0 / 3),
        ("kgA", kit.kgain, T[1], C[1], 10.0), ("kgB", kit.kgain, T[2], C[0], 20.0), ("flA", kit.flat, T[2], C[3], 10.0)]]
    F = frames()
    queries = [(fn, cls) for fn in (None, *F) for cls in (data.Dark, data.KGain, data.FlatField)]
    quick_q = [(None, data.Dark), ("mid", data.Dark), ("early", data.Dark), ("late", data.KGain), ("odd", data.Dark), ("long", data.Dark), ("mid", data.KGain),
               ("between", data.Dark), (None, data.KGain), (None, data.FlatField), ("mid", data.FlatField), ("late", data.Dark)]

    def one(c, perm):
        name = "+".join(e.key for e in perm) or "empty"
        with c.case("order:" + name) as go:
            if not go:
                return
            p = os.path.join(c.newdir("db"), "c.csv")
            db = cdb.CalDB(filepath=p)
            for e in perm:
                db.create_entry(e.obj)
                c.step()
            c.state("order", [e.key for e in perm])
            for fn, cls in (queries if c.thorough else quick_q):
                ask(c, db, F.get(fn), cls, perm, "%s for %s" % (cls.__name__, fn))

    perms = [p for n in range(nset + 1) for p in itertools.permutations(menu, n)]
    c.fan(perms, one)

    # every kind: its own entries are chosen whatever better-timed products of the other kinds are registered before and after
    def kind(c, k):
        with c.case("kind:" + k) as go:
            if not go:
                return
            d = c.newdir("kd")
            mk = kit.CALS[k]
            mine = [Entry("m%d" % i, put(mk(), d, "%s_%d.fits" % (k, i), T[i * 4 % 5], C[i], 10.0)) for i in range(3)]
            others = [Entry(o, put(kit.CALS[o](), d, "other_%s.fits" % o, T[2], "2029-01-01T00:00:00", 10.0)) for o in kit.CALS if o != k]
            for order in (mine + others, others + mine, mine[::-1] + others, others[:6] + mine + others[6:]):
                p = os.path.join(c.newdir("db"), "c.csv")
                db = cdb.CalDB(filepath=p)
                have = []
                for e in order:
                    db.create_entry(e.obj, to_disk=False)
                    have.append(e)
                    c.step()
                c.state("kind", k, [e.key for e in order])
                for fn in ("mid", "early", "late", None):
                    ask(c, db, F.get(fn), mine[0].cls, have, "%s for %s" % (k, fn), to_disk=False)
                db.save()
                h2 = cdb.CalDB(filepath=p)
                for fn in ("mid", "early", "late", "long", None):
                    ask(c, h2, F.get(fn), mine[0].cls, have, "%s for %s" % (k, fn))
                for e in mine:
                    h2.remove_entry(e.obj)
                have = [e for e in have if e not in mine]
                for fn in ("mid", None):
                    ask(c, h2, F.get(fn), mine[0].cls, have, "%s for %s after removal" % (k, fn))

    c.fan(kit.CALS, kind)

    # a lookup sees what other handles did (or, asked not to read the disk, only its own memory); replaced entries count with their new values
    def hist(c, ops):
        with c.case("hist:" + "/".join("%s%s%d" % o for o in ops)) as go:
            if not go:
                return
            p = os.path.join(c.newdir("db"), "c.csv")
            hs = [cdb.CalDB(filepath=p), cdb.CalDB(filepath=p)]
            E = {e.key: e for e in menu}
            disk, mem = [], [[], []]

            def upd(lst, e):
                return [x for x in lst if x.path != e.path] + [e]

            for what, k, h in ops:
                c.step()
                if what == "add":
                    hs[h].create_entry(E[k].obj)
                    disk = upd(disk, E[k])
                    mem[h] = list(disk)
                elif what == "mem":
                    hs[h].create_entry(E[k].obj, to_disk=False)
                    mem[h] = upd(mem[h], E[k])
                elif what == "del":
                    if E[k] in disk:
                        hs[h].remove_entry(E[k].obj)
                        disk = [x for x in disk if x is not E[k]]
                    mem[h] = list(disk) if E[k] in mem[h] or True else mem[h]
                    if hs[h] is not None:
                        hs[h].load()
                for h2 in (0, 1):
                    ask(c, hs[h2], F["mid"], data.Dark, mem[h2], "memory of handle %d" % h2, to_disk=False)
                    ask(c, hs[h2], None, data.Dark, mem[h2], "memory of handle %d, newest" % h2, to_disk=False)
                c.state("hist", sorted(e.key for e in disk), [sorted(e.key for e in m) for m in mem])
            for h2 in (0, 1):
                ask(c, hs[h2], F["mid"], data.Dark, disk, "disk through handle %d" % h2)
                ask(c, hs[h2], F["long"], data.Dark, disk, "disk through handle %d" % h2)

    alpha = [("add", "dkA", 0), ("add", "dkB", 1), ("mem", "dkD", 0), ("add", "dkC", 1), ("del", "dkA", 1), ("del", "dkB", 0), ("mem", "dkC", 0)]
    c.fan(itertools.product(alpha, repeat=3 if c.thorough else 2), hist)

    # replacing a registered file (same path) by one with another time, exposure or kind
    def repl(c, item):
        a, b = item
        with c.case("replace:%s->%s" % (a, b)) as go:
            if not go:
                return
            d = c.newdir("rp")
            V = dict(near=(kit.dark, T[2], C[0], 10.0), far=(kit.dark, T[4], C[3], 10.0), longer=(kit.dark, T[2], C[0], 20.0), kind=(kit.kgain, T[2], C[4], 10.0))
            p = os.path.join(c.newdir("db"), "c.csv")
            db = cdb.CalDB(filepath=p)
            fix = Entry("fix", put(kit.dark(n=3), d, "fix.fits", T[0], C[2], 10.0))
            db.create_entry(fix.obj)
            for v in (a, b):
                mk, t, ct, e = V[v]
                x = Entry("x", put(mk(), d, "x.fits", t, ct, e))
                db.create_entry(x.obj)
                c.step()
                for fn in ("mid", "late", "long", None):
                    for cls in (data.Dark, data.KGain):
                        ask(c, db, F.get(fn), cls, [fix, x], "%s for %s" % (cls.__name__, fn))
            c.state("replace", a, b)

    c.fan(itertools.product(["near", "far", "longer", "kind"], repeat=2), repl)

    # exposure times that nearly agree are different ones; every double survives the file
    close = [10.0, 10.001, 10.0000001, 9.9999999999, 7.0 / 3, 2.333, 2.3333333, 0.1 + 0.2, 0.3, 120.1, 120.10000000000001, 1e-6, 1.0000001e-6, 1.9, 1.05, 1.0500000000000003]

    def near(c, i):
        with c.case("near:%r" % close[i]) as go:
            if not go:
                return
            d = c.newdir("nr")
            E = [Entry("e%d" % j, put(kit.dark(), d, "n%d.fits" % j, T[(i + j) % 5], C[j % 5], close[j])) for j in range(len(close))]
            f = kit.frame((4, 4), "L2a", 1)
            f.ext_hdr["SCTSRT"], f.ext_hdr["EXPTIME"] = T[2], close[i]
            for have in (E, E[:i] + E[i + 1:], E[::-1], [E[i]], []):
                p = os.path.join(c.newdir("db"), "c.csv")
                db = cdb.CalDB(filepath=p)
                for e in have:
                    db.create_entry(e.obj, to_disk=False)
                db.save()
                c.state("near", i, [e.key for e in have])
                ask(c, db, f, data.Dark, have, "dark", to_disk=False)
                ask(c, cdb.CalDB(filepath=p), f, data.Dark, have, "dark read back")

    c.fan(range(len(close)), near)
