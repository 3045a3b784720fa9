"""C08: every small directory tree x every listing order x what was registered before, against the list of calibration files put there."""
import contextlib
import itertools
import os
import shutil

import numpy as np
import astropy.io.fits as fits

from mc import kit
from mc.c06_caldb_map import check_rows, expected_row, read_rows
from corgidrp import ops as drp_ops
from corgidrp import caldb as cdb


class _Scan:
    def __init__(self, it, key):
        self.l = sorted(it, key=lambda e: key(e.name))
        it.close()
        self.i = iter(self.l)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.i)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


@contextlib.contextmanager
def listing(order):
    """Every way of listing a directory returns the names in the given order (the file system promises none)."""
    def key(n):
        n = n.decode() if isinstance(n, bytes) else n
        return (order.index(n), n) if n in order else (len(order), n)
    rs, rl = os.scandir, os.listdir
    os.scandir = lambda *a: _Scan(rs(*a), key)
    os.listdir = lambda *a: sorted(rl(*a), key=key)
    try:
        yield
    finally:
        os.scandir, os.listdir = rs, rl


def put(obj, d, name):
    obj.filename, obj.filedir = name, d
    obj.save(filedir=d, filename=name)
    return obj


def junk():
    """Things that are not calibration products: (name, writer)."""
    def science(p):
        put(kit.frame((4, 4), "L1", 3), *os.path.split(p))

    def sci_typed(p):
        f = kit.frame((4, 4), "L2b", 3)
        f.ext_hdr["DATATYPE"] = "Image"
        put(f, *os.path.split(p))

    def foreign(p):
        fits.PrimaryHDU(np.zeros((3, 3))).writeto(p)

    def foreign2(p):
        fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns([fits.Column("A", "E", array=np.zeros(2))])]).writeto(p)

    def unknown(p):
        h = fits.ImageHDU(np.zeros((3, 3)))
        h.header["DATATYPE"] = "Spectrum"
        fits.HDUList([fits.PrimaryHDU(), h]).writeto(p)

    def half(p):
        k = put(kit.kgain(), os.path.dirname(p), os.path.basename(p))
        with open(p, "r+b") as f:
            f.truncate(1000)
        return k and None

    def empty(p):
        open(p, "w").close()

    def text(p):
        with open(p, "w") as f:
            f.write("SIMPLE = no\n")

    def directory(p):
        os.mkdir(p)

    def other_ext(p):
        put(kit.dark(), os.path.dirname(p), "tmp.fits")
        os.rename(os.path.join(os.path.dirname(p), "tmp.fits"), p)

    return [("science_L1_.fits", science), ("typed_L2b.fits", sci_typed), ("foreign.fits", foreign), ("foreign2.fits", foreign2), ("unknown.fits", unknown),
            ("half.fits", half), ("empty.fits", empty), ("text.fits", text), ("dir.fits", directory), ("dark_DRK_CAL.fits.bak", other_ext), ("list.csv", text),
            ("darkfits", other_ext), ("cube.fits", lambda p: put(kit.frame(None, "L2a", 1, img=kit.arr((2, 3, 4))), *os.path.split(p)))]


def run(c):
    c.assume("calibration products are the files named *.fits that the package itself can load as one of its calibration kinds")
    c.bound(kinds=len(kit.CALS), junk=len(junk()), files_per_tree="up to 4 (all listing orders)", depth_of_subdirectories=2)
    kinds = list(kit.CALS)
    J = dict(junk())

    turn = [0]

    def scan(db, d, *a, **k):
        c.step()
        turn[0] += 1
        if not a and not k and turn[0] % 2:      # the operations front end
            got = drp_ops.step_2_load_cal(db, d)
            c.expect(got is db, "loading calibrations hands back another database")
        else:
            db.scan_dir_for_new_entries(d, *a, **k)

    def compare(c, path, products, what):
        check_rows(c, read_rows(path), {r["Filepath"]: r for r in map(expected_row, products)}, what)

    # 1. one product of each kind next to each other thing, in every order of listing
    def order(c, item):
        names, perm = item
        with c.case("order:%s:%s" % ("+".join(names), "".join(map(str, perm)))) as go:
            if not go:
                return
            d = c.newdir("t")
            prods, files = [], []
            for i, n in enumerate(names):
                fn = "%s_%d.fits" % (n, i) if n in kit.CALS else n
                files.append(fn)
                if n in kit.CALS:
                    prods.append(put(kit.CALS[n](), d, fn))
                else:
                    J[n](os.path.join(d, fn))
            p = os.path.join(c.newdir("db"), "c.csv")
            db = cdb.CalDB(filepath=p)
            with listing([files[i] for i in perm]):
                scan(db, d)
                compare(c, p, prods, "first scan")
                scan(db, d)
            compare(c, p, prods, "second scan")
            c.state("order", names, perm)
            c.outcome(len(prods))
            shutil.rmtree(d)

    items = []
    for k in kinds:
        for j in J:
            items += [((k, j), p) for p in itertools.permutations(range(2))]
    for i in range(len(kinds)):
        three = (kinds[i], kinds[(i + 1) % len(kinds)], list(J)[i % len(J)])
        items += [(three, p) for p in itertools.permutations(range(3))]
    four = ("Dark", "science_L1_.fits", "half.fits", "KGain")
    items += [(four, p) for p in itertools.permutations(range(4))]
    if c.thorough:
        for a, b in itertools.product(kinds, repeat=2):
            for j in list(J)[:8]:
                items += [((a, j, b), p) for p in itertools.permutations(range(3))]
    c.fan(items, order)

    # 2. trees: where the products lie, with and without subdirectories, from several states of the database
    def tree(c, item):
        places, sub, before, disk, spell = item
        with c.case("tree:%s:%s:%s:%s:%s" % ("+".join(places) or "none", "sub" if sub else "top", before, "disk" if disk else "mem", spell)) as go:
            if not go:
                return
            d = c.newdir("t")
            os.makedirs(os.path.join(d, "a", "b"))
            os.makedirs(os.path.join(d, "z"))
            prods = []
            for i, pl in enumerate(places):
                dd = os.path.join(d, pl) if pl != "." else d
                prods.append((pl, put(kit.CALS[kinds[(3 * i + len(pl)) % len(kinds)]](), dd, "cal.fits" if i < 2 else "cal%d.fits" % i)))
                J["science_L1_.fits"](os.path.join(dd, "sci_L1_.fits"))
            p = os.path.join(c.newdir("db"), "c.csv")
            db = cdb.CalDB(filepath=p)
            keep = []
            other = c.newdir("o")
            if before == "other":          # a product elsewhere, even one that is gone from the disk by now
                keep = [put(kit.dark(n=5), other, "cal.fits"), put(kit.kgain(n=4), other, "gone.fits")]
                for k in keep:
                    db.create_entry(k)
                os.remove(os.path.join(other, "gone.fits"))
            elif before == "some" and prods:
                db.create_entry(prods[0][1])
                if prods[0][0] != "." and not sub:
                    keep = [prods[0][1]]
            want = keep + [o for pl, o in prods if (sub or pl == ".") and not any(o is k for k in keep)]
            arg = {"abs": d, "slash": d + os.sep, "rel": os.path.relpath(d), "dot": os.path.join(d, "z", "..")}[spell]
            n0 = read_rows(p)
            scan(db, arg, look_in_subfolders=sub, to_disk=disk) if not (sub and disk) else scan(db, arg)
            if not disk:
                c.equal(read_rows(p), n0, "disk after a scan into memory")
                db.save()
            compare(c, p, want, "scan")
            scan(db, arg, sub, disk)
            if not disk:
                db.save()
            compare(c, p, want, "second scan")
            c.state("tree", places, sub, before, disk, spell)
            shutil.rmtree(d)
            shutil.rmtree(other)

    pl = [".", "a", "a/b", "z"]
    c.fan(itertools.product([s for n in range(4) for s in itertools.combinations(pl, n)], (True, False), ("new", "other", "some"), (True, False),
                            ("abs", "slash", "rel", "dot") if c.thorough else ("abs", "rel")), tree)

    # 3. files replaced on disk between scans: new contents of the same kind, another kind, or no calibration any more
    def replace(c, item):
        a, b, handle = item
        with c.case("replace:%s->%s:%s" % (a, b, handle)) as go:
            if not go:
                return
            d = c.newdir("t")
            p = os.path.join(c.newdir("db"), "c.csv")
            db = cdb.CalDB(filepath=p)
            fixed = put(kit.flat(n=2), d, "flat.fits")
            first = put(kit.CALS[a](), d, "x.fits")
            scan(db, d)
            second = kit.CALS[b](EXPTIME=77.0, OBSNUM=9, SCTSRT="2025-05-05T00:00:00", EMGAIN_C=4.0) if b not in ("DetectorParams", "FpamFsamCal") else kit.CALS[b](date="2025-05-05T00:00:00")
            os.remove(os.path.join(d, "x.fits"))
            put(second, d, "x.fits")
            if handle == "new":
                db = cdb.CalDB(filepath=p)
            scan(db, d)
            compare(c, p, [fixed, second], "scan after the file was replaced")
            c.state("replace", a, b, handle)
            shutil.rmtree(d)
            del first

    c.fan([(a, b, h) for a in kinds for b in kinds for h in ("same", "new") if c.thorough or h == "same"], replace)
