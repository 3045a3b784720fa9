"""C37: every assignment of a value menu to up to four frames, every keyword subset; groups against a direct partition."""
import itertools

import numpy as np

from mc import kit
import corgidrp.data as data

UNDEF = None
MENUS = {
    "int": [1, 2, 10, -1],
    "str": ["A", "B", "10", ""],
    "float": [0.1, 10.0, 9.5, 1e-7],
    "bool": [True, False],
    "mixed": [3, "3", 2.5, True],
    "undef": [1.5, None, 3.5],
}


def norm(v):
    return (type(v).__name__ if isinstance(v, (str, type(None))) or str(v) == "" else "num", v)


def key_of(f, pk, ek):
    out = []
    for k in pk:
        out.append(f.pri_hdr[k])
    for k in ek:
        out.append(f.ext_hdr[k])
    return out


def agree(a, b):
    return all((isinstance(x, str) == isinstance(y, str)) and x == y for x, y in zip(a, b))


def build(vals):
    frames = []
    for i, (p, e, g) in enumerate(vals):
        f = kit.frame((2, 3), "L2a", i, dq=np.full((2, 3), i), EXPTIME=float(i + 1))
        f.pri_hdr["VISTYPE"] = p
        f.ext_hdr["CFAMNAME"] = e
        f.ext_hdr["GRP"] = g
        frames.append(f)
    return data.Dataset(frames)


def check(c, ds, pk, ek):
    before = kit.snap_ds(ds)
    keys = [key_of(f, pk or [], ek or []) for f in ds.frames]
    parts = []
    for i, k in enumerate(keys):
        for p in parts:
            if agree(keys[p[0]], k):
                p.append(i)
                break
        else:
            parts.append([i])
    subs, values = ds.split_dataset(prihdr_keywords=pk, exthdr_keywords=ek)
    c.step()
    c.equal(len(subs), len(parts), "number of groups")
    c.equal(len(values), len(subs), "number of reported values")
    names = [f.filename for f in ds.frames]
    got = {}
    for s, v in zip(subs, values):
        idx = [names.index(f.filename) for f in s.frames]
        c.expect(idx in parts, lambda: "group %s is not one of %s" % (idx, parts))
        c.expect(tuple(idx) not in got, "group repeated")
        got[tuple(idx)] = v
        want = keys[idx[0]]
        have = [v] if len(want) == 1 else list(v)
        if len(want) == 1 and isinstance(v, (tuple, list)):
            have = list(v)
        c.expect(len(have) == len(want) and agree(have, want), lambda: "reported values %r, frames have %r" % (v, want))
        for j, i in enumerate(idx):
            c.same(s.frames[j].data, before["frames"][i]["data"], "pixels of frame %d" % i, exact=True)
            d = kit.diff(before["frames"][i], kit.snap(s.frames[j]))
            c.expect(d is None, lambda: "frame %d in its group differs: %s" % (i, d))
        c.same(s.all_data, before["all_data"][idx], "group cube", exact=True)
        c.same(s.all_dq, before["all_dq"][idx], "group flags", exact=True)
        c.same(s.all_err, before["all_err"][idx], "group uncertainties", exact=True)
    d = kit.diff(before, kit.snap_ds(ds))
    c.expect(d is None, lambda: "splitting modified the dataset: %s" % d)
    c.outcome(sorted(got), len(values))


def run(c):
    nmax = 4 if c.thorough else 3
    jobs = []
    for name, menu in MENUS.items():
        for n in range(1, (5 if c.thorough or name == "int" else 4)):
            for vals in itertools.product(range(len(menu)), repeat=n):
                jobs.append(("one", name, vals))
    two = MENUS["int"][:2]
    for n in range(1, nmax + 1):
        for v in itertools.product(itertools.product(range(2), range(2), range(2)), repeat=n):
            jobs.append(("two", "int", v))
    c.bound(frames=4, value_menus=sorted(MENUS), keyword_subsets="one primary / one extension keyword; primary+extension+extension combinations")

    def one(c, job):
        kind, name, vals = job
        menu = MENUS[name]
        if kind == "one":
            v = [menu[i] for i in vals]
            with c.case("%s:%s" % (name, "".join(map(str, vals)))) as go:
                if go:
                    ds = build([(x, x, 0) for x in v])
                    c.state(kind, name, vals)
                    check(c, ds, ["VISTYPE"], None)
                    check(c, ds, None, ["CFAMNAME"])
                    check(c, ds, ["VISTYPE"], ["CFAMNAME"])
        else:
            key = "three:" + ",".join("".join(map(str, x)) for x in vals)
            with c.case(key) as go:
                if go:
                    ds = build([("PQ"[a], "xy"[b], two[g]) for a, b, g in vals])
                    c.state(kind, vals)
                    check(c, ds, ["VISTYPE"], ["CFAMNAME", "GRP"])
                    check(c, ds, None, ["GRP", "CFAMNAME"])
                    check(c, ds, ["OBSNAME", "VISTYPE"], [])

    c.fan(jobs, one)
    with c.case("refused") as go:
        if go:
            ds = build([("P", "x", 0), ("Q", "x", 0)])
            c.raises(lambda: ds.split_dataset(), "no keyword", kinds=(ValueError,))
            c.raises(lambda: ds.split_dataset(prihdr_keywords=["NOSUCHKW"]), "unknown keyword", kinds=(KeyError,))
            c.step(2)
