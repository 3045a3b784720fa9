"""C06: explicit-state BFS over operation histories of CalDB handles sharing one file, against a dict reference."""
import collections
import copy
import csv
import os
import shutil

import numpy as np
from astropy.time import Time

from mc import kit
from corgidrp import caldb as cdb

KIND = dict(Dark="Dark", FlatField="FlatField", NonLinearityCalibration="NonLinearityCalibration", KGain="KGain",
            BadPixelMap="BadPixelMap", DetectorNoiseMaps="DetectorNoiseMaps", DetectorParams="DetectorParams",
            AstrometricCalibration="AstrometricCalibration", TrapCalibration="TrapCalibration",
            FluxcalFactor="FluxcalFactor", FpamFsamCal="FpamFsamCal",
            CoreThroughputCalibration="CoreThroughputCalibration", NDFilterSweetSpotDataset="NDFilterSweetSpot")


def expected_row(e):
    """The values of an entry, computed independently of the database code."""
    eh = e.ext_hdr
    shape = e.data.shape
    return dict([
        ("Filepath", os.path.abspath(os.path.join(e.filedir, e.filename))), ("Type", KIND[type(e).__name__]),
        ("MJD", Time(eh["SCTSRT"]).mjd), ("EXPTIME", float(eh["EXPTIME"])), ("Files Used", int(eh.get("DRPNFILE", 0))),
        ("Date Created", Time(eh["DRPCTIME"]).mjd if "DRPCTIME" in eh else -1.0), ("Hash", e.get_hash()),
        ("DRPVERSN", eh.get("DRPVERSN", "")), ("OBSNUM", int(e.pri_hdr["OBSNUM"])), ("NAXIS1", shape[-1]),
        ("NAXIS2", shape[-2] if len(shape) > 1 else 0), ("OPMODE", eh["OPMODE"]), ("EMGAIN_C", float(eh["EMGAIN_C"])),
        ("EXCAMT", float(eh["EXCAMT"]))])


def read_rows(path):
    with open(path, newline="") as f:
        return list(csv.DictReader(f))


def same_value(got, want):
    if isinstance(want, str):
        return got == want or (want == "" and got in ("", "nan"))
    try:
        return bool(np.isclose(float(got), float(want), rtol=1e-13, atol=1e-9))
    except ValueError:
        return False


def check_rows(c, rows, ref, what):
    c.expect(len(rows) == len(ref), lambda: "%s holds %d rows, reference has %d: %s" % (
        what, len(rows), len(ref), [r["Filepath"] for r in rows]))
    seen = set()
    for r in rows:
        fp = r["Filepath"]
        c.expect(fp in ref and fp not in seen, lambda: "%s: row for %r is %s" % (what, fp, "duplicated" if fp in seen else "unexpected"))
        seen.add(fp)
        for k, want in ref[fp].items():
            c.expect(k in r and same_value(r[k], want), lambda: "%s: %s of %s is %r, latest addition had %r" % (
                what, k, os.path.basename(fp), r.get(k), want))


class World:
    def __init__(self, c, n_handles):
        self.c = c
        self.dir = c.newdir("db")
        self.path = os.path.join(self.dir, "caldb.csv")
        self.probe = os.path.join(c.scratch, "probe.csv")
        self.handles = [cdb.CalDB(filepath=self.path) for _ in range(n_handles)]

    def dump(self):
        with open(self.path, "rb") as f:
            return f.read(), [copy.deepcopy(h) for h in self.handles]

    def restore(self, d):
        with open(self.path, "wb") as f:
            f.write(d[0])
        self.handles = [copy.deepcopy(h) for h in d[1]]

    def mem_rows(self, i):
        h = copy.deepcopy(self.handles[i])
        h.filepath = self.probe
        h.save()
        return read_rows(self.probe)


def run(c):
    c.bound(handles=2, entries=3 if not c.thorough else 5, depth="until no new state")
    c.assume("rows are compared as a set: the order of rows in the file is not part of the property")
    d = c.newdir("cal")
    sub = os.path.join(d, "sub")
    os.mkdir(sub)

    def put(obj, name, filedir=d):
        obj.filename, obj.filedir = name, filedir
        return obj

    rel = os.path.relpath(d, os.getcwd())
    e = collections.OrderedDict()
    e["a"] = put(kit.dark(n=0, EXPTIME=5.0), "p1.fits")
    e["a2"] = put(kit.kgain(n=3, SCTSRT="2025-03-01T00:00:00.5", EXPTIME=0.25, EMGAIN_C=3.5, EXCAMT=41.5, OPMODE="none"), "p1.fits", rel)
    e["b"] = put(kit.flat(n=5, OBSNUM=7, SCTSRT="2023-01-01T00:00:00", EMGAIN_C=2.0, OPMODE="x"), "p2.fits")
    e["s"] = put(kit.dark(n=9, EXPTIME=5.0, SCTSRT="2022-01-01T00:00:00"), "p1.fits", sub)   # same name, other directory
    if c.thorough:
        e["m"] = put(kit.noisemaps(n=6), "p3.fits")
    if not c.thorough:
        del e["s"]
    exp = {k: expected_row(v) for k, v in e.items()}
    key = {k: exp[k]["Filepath"] for k in e}
    ops = [("reload", 0, None, None), ("flush", 0, None, None), ("open", 0, None, None), ("reload", 1, None, None)]
    for k in e:
        for disk in (True, False):
            ops.append(("add", 0, k, disk))
            if k != "a2":          # removal is by path: a2 has the path of a
                ops.append(("remove", 0, k, disk))
    ops += [("add", 1, "b", True), ("add", 1, "a2", True), ("remove", 1, "a", True)]
    if c.thorough:
        ops += [("flush", 1, None, None), ("add", 1, "s", False), ("remove", 1, "b", False), ("add", 1, "a", False)]
    # reference: disk and each handle's memory, as maps path -> entry key
    def ref_apply(state, op):
        disk, mems = dict(state[0]), [dict(m) for m in state[1]]
        kind, i, k, to_disk = op
        refused = False
        if kind in ("reload", "open"):
            mems[i] = dict(disk)
        elif kind == "flush":
            disk = dict(mems[i])
        else:
            if to_disk:
                mems[i] = dict(disk)
            if kind == "add":
                mems[i][key[k]] = k
            elif key[k] in mems[i]:
                del mems[i][key[k]]
            else:
                refused = True
            if to_disk and not refused:
                disk = dict(mems[i])
        return (disk, mems), refused

    def canon(s):
        return (sorted(s[0].items()), [sorted(m.items()) for m in s[1]])

    # 1. the reference model's whole reachable state graph (breadth first: shortest history to every state)
    init = ({}, [{}, {}])
    hists = {c_key(canon(init)): (init, [])}
    queue = collections.deque([(init, [])])
    while queue:
        st, hist = queue.popleft()
        for op in ops:
            nxt, _ = ref_apply(st, op)
            k = c_key(canon(nxt))
            if k not in hists:
                hists[k] = (nxt, hist + [op])
                queue.append(hists[k])
    c.bound(model_states=len(hists), max_history_length=max(len(h) for _, h in hists.values()), operations=len(ops))

    # 2. every state's history is replayed on real handles; then every operation is executed from it and compared
    def do(c, w, op):
        hd = w.handles[op[1]]
        c.step()
        try:
            if op[0] == "reload":
                hd.load()
            elif op[0] == "flush":
                hd.save()
            elif op[0] == "open":
                w.handles[op[1]] = cdb.CalDB(filepath=w.path)
            elif op[0] == "add":
                hd.create_entry(e[op[2]], to_disk=op[3])
            else:
                hd.remove_entry(e[op[2]], to_disk=op[3])
            return False
        except ValueError:
            if op[0] != "remove":
                raise
            return True

    def name(h):
        return "/".join("%s%d%s%s" % (o[0], o[1], ":" + o[2] if o[2] else "", "" if o[3] in (None, True) else "(mem)") for o in h)

    def expand(c, item):
        st, hist = item
        if c.only is not None and not c.only.startswith(name(hist)):
            return
        c.state(canon(st))
        w = World(c, 2)
        for op in hist:
            do(c, w, op)
        dump = w.dump()
        for op in ops:
            with c.case(name(hist + [op]), history=hist + [op]) as go:
                if not go:
                    continue
                nxt, refused = ref_apply(st, op)
                w.restore(dump)
                c.equal(do(c, w, op), refused, "removal refused")
                rows = read_rows(w.path)
                c.outcome(sorted(r["Filepath"] for r in rows), refused)
                check_rows(c, rows, {p: exp[k] for p, k in nxt[0].items()}, "disk")
                check_rows(c, w.mem_rows(op[1]), {p: exp[k] for p, k in nxt[1][op[1]].items()}, "handle")

    c.fan(hists.values(), expand)

    # every kind of product gives a row with its own values, and re-adding any kind over any other replaces it
    kinds = list(kit.CALS)

    def replace(c, ab):
        a, b = ab
        with c.case("replace:%s->%s" % (a, b)) as go:
            if not go:
                return
            p = os.path.join(c.newdir("db"), "c.csv")
            h = cdb.CalDB(filepath=p)
            other = put(kit.dark(n=2), "other.fits")
            x, y = put(kit.CALS[a](), "k.fits"), put(kit.CALS[b](), "k.fits")
            for obj in (other, x, y):
                h.create_entry(obj)
                c.step()
            c.state("replace", a, b)
            check_rows(c, read_rows(p), {r["Filepath"]: r for r in (expected_row(other), expected_row(y))}, "disk")
            h2 = cdb.CalDB(filepath=p)
            h2.remove_entry(y)
            c.step(2)
            check_rows(c, read_rows(p), {r["Filepath"]: r for r in (expected_row(other),)}, "disk after removal")
            h.load()
            c.step()
            h.save()
            check_rows(c, read_rows(p), {r["Filepath"]: r for r in (expected_row(other),)}, "disk after reload")

    c.fan([(a, b) for i, a in enumerate(kinds) for j, b in enumerate(kinds)
           if c.thorough or b in (kinds[(i + 1) % len(kinds)], "KGain")], replace)
    shutil.rmtree(d, ignore_errors=True)


def c_key(x):
    return repr(x)
