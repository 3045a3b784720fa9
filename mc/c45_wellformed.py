"""C45: every combination of well- and ill-formed parts of the products, histories of refused and accepted dataset operations, the
argument checks on an alphabet of values."""
import fractions
import itertools
import os

import numpy as np
import astropy.io.fits as fits

import corgidrp.check as check
import corgidrp.data as data
from mc import kit

SHAPES = [(2, 3), (1, 1), (3, 3), (2, 2, 3)]


def block(shape, seed, kind=float):
    a = kit.arr(shape, seed, base=1.0, scale=0.25)
    return a.astype(kind) if kind is not float else a


def errs(s):
    """name -> (array, layers or None when it does not fit)"""
    o = {"none": (None, 1), "plain": (block(s, 2), 1), "one": (block((1,) + s, 3), 1), "three": (block((3,) + s, 4), 3),
         "two-axes": (block((1, 1) + s, 5), None), "two-axes2": (block((2, 1) + s, 5), None), "long": (block(s[:-1] + (s[-1] + 1,), 6), None),
         "tall": (block((s[0] + 1,) + s[1:], 6), None), "line": (block(s[1:], 7), None), "layers-long": (block((2,) + s[:-1] + (s[-1] + 2,), 8), None)}
    if s[::-1] != s:
        o["turned"] = (block(s[::-1], 9), None)
    return o


def dqs(s):
    o = {"none": (None, True), "fits": (block(s, 3, np.uint16), True), "layer": (block((1,) + s, 4, np.uint16), False),
         "long": (block(s[:-1] + (s[-1] + 1,), 6, np.uint16), False), "line": (block(s[1:], 7, np.uint16), False)}
    if s[::-1] != s:
        o["turned"] = (block(s[::-1], 9, np.uint16), False)
    return o


def extras(names):
    return fits.HDUList([fits.ImageHDU(data=np.arange(3.) + i, name=n) for i, n in enumerate(names)])


def cp(x):
    return None if x is None else x.copy()


def frozen(c, pairs, what):
    for n, a, b in pairs:
        d = kit.diff(kit.snap_any(a), kit.snap_any(b))
        c.expect(d is None, lambda: "%s changed the %s: %s" % (what, n, d))


def raw_images(c, it):
    s, track = it
    with kit.err_tracking(track):
        for (en, (e, layers)), (qn, (q, qok)), (p, x), ext in itertools.product(errs(s).items(), dqs(s).items(), ((1, 1), (0, 1), (1, 0), (0, 0)), ((), ("AUX", "MORE"))):
            key = "raw:%s:%d:%s:%s:%d%d:%d" % ("x".join(map(str, s)), track, en, qn, p, x, len(ext))
            with c.case(key) as go:
                if not go:
                    continue
                pri, exh = kit.headers("L2a")
                img, e1, q1 = block(s, 1), cp(e), cp(q)
                d0, p0, x0 = img.copy(), pri.copy(), exh.copy()
                eh = fits.Header([("LAYER_2", "a"), ("LAYER_3", "b")]) if len(ext) else None
                c.step()
                c.state(key)
                mk = lambda: data.Image(img, pri_hdr=pri if p else None, ext_hdr=exh if x else None, err=e1, dq=q1, err_hdr=eh, input_hdulist=extras(ext) if ext else None)
                if not (p and x and qok and layers is not None):
                    c.raises(mk, "an image of %s pixels, %s uncertainties, %s flags, headers %d%d" % (s, en, qn, p, x))
                    frozen(c, (("pixels", d0, img), ("uncertainties", e, e1), ("flags", q, q1), ("primary header", p0, pri), ("header", x0, exh)), "a refused image")
                    continue
                f = mk()
                c.same(f.data, d0, "pixels", exact=True)
                want = np.zeros((1,) + s) if e is None else e.reshape((layers,) + s)
                c.same(f.err, want if track else want[:1], "uncertainties", exact=True)
                c.same(f.dq, np.zeros(s) if q is None else q, "flags", exact=True)
                c.equal([h.name for h in f.hdu_list], list(ext), "extensions")
                c.equal(list(f.hdu_names), ["ERR", "DQ"] + list(ext), "names of the extensions")
                c.equal((f.pri_hdr["ORIGIN"], f.err_hdr["EXTNAME"], f.dq_hdr["EXTNAME"], bool(f.err_hdr["TRK_ERRS"])), ("DRP", "ERR", "DQ", track), "keywords")
                if eh is not None and layers == 3:
                    c.equal("LAYER_2" in f.err_hdr, track, "names of the layers")
                c.raises(lambda: f.save(filedir=c.scratch), "saving without a file name")
                c.outcome(f.err, f.dq)


def disk_images(c, it):
    """Files with every subset of the standard extensions, opened with replacements for some of their parts."""
    s, track = it
    d = c.newdir("disk")
    with kit.err_tracking(track):
        for fe, fq, fx in itertools.product(("none", "plain", "one", "three", "unnamed"), (0, 1), ((), ("AUX",))):
            path = os.path.join(d, "in.fits")
            pri, exh = kit.headers("L2a")
            hl = [fits.PrimaryHDU(header=pri), fits.ImageHDU(block(s, 1), header=exh)]
            if fq:
                hl.append(fits.ImageHDU(block(s, 5, np.uint16), name="DQ"))
            hl += [fits.ImageHDU(np.arange(4.), name=n) for n in fx]
            ferr = None
            if fe != "none":
                ferr = {"plain": block(s, 2), "one": block((1,) + s, 3), "three": block((3,) + s, 4), "unnamed": block((3,) + s, 4)}[fe]
                hl.insert(2, fits.ImageHDU(ferr, name="ERR", header=fits.Header([("LAYER_2", "a"), ("LAYER_3", "b")] if fe == "three" else [])))
            fits.HDUList(hl).writeto(path, overwrite=True)
            raw = open(path, "rb").read()
            for (en, (e, layers)), (qn, (q, qok)), ext in itertools.product(errs(s).items(), dqs(s).items(), ((), ("NEW", "MORE"))):
                key = "file:%s:%d:%s%d%d:%s:%s:%d" % ("x".join(map(str, s)), track, fe, fq, len(fx), en, qn, len(ext))
                with c.case(key) as go:
                    if not go:
                        continue
                    c.step()
                    c.state(key)
                    e1, q1 = cp(e), cp(q)
                    mk = lambda: data.Image(path, err=e1, dq=q1, input_hdulist=extras(ext) if ext else None)
                    if not (qok and layers is not None):
                        c.raises(mk, "a file of %s pixels with %s uncertainties and %s flags instead" % (s, en, qn))
                        frozen(c, (("uncertainties", e, e1), ("flags", q, q1)), "a refused image")
                        c.expect(open(path, "rb").read() == raw, "the file was changed")
                        continue
                    f = mk()
                    c.same(f.data, block(s, 1), "pixels", exact=True)
                    if e is not None:
                        want = e.reshape((layers,) + s)
                    elif ferr is not None:
                        want = ferr if ferr.ndim > len(s) else ferr[None]
                    else:
                        want = np.zeros((1,) + s)
                    want = want if track else want[:1]
                    c.same(f.err, want, "uncertainties", exact=True)
                    wq = q if q is not None else (block(s, 5, np.uint16) if fq else np.zeros(s))
                    c.same(f.dq, wq, "flags", exact=True)
                    left = list(ext or fx)
                    c.equal([h.name for h in f.hdu_list], left, "further extensions")
                    for n in left + ["ERR", "DQ"]:
                        c.raises(lambda: f.add_extension_hdu(n, data=np.arange(2.)), "a second extension %s" % n)
                    f.add_extension_hdu("FRESH", data=np.arange(2.))
                    f.save(filedir=d, filename="out.fits")
                    with fits.open(os.path.join(d, "out.fits")) as h:
                        c.equal(sorted(x.name for x in h[2:]), sorted(["ERR", "DQ", "FRESH"] + left), "extensions on disk")
                    g = data.Image(os.path.join(d, "out.fits"))
                    c.same(g.err, want, "uncertainties read back", exact=True)
                    c.same(g.dq, wq, "flags read back", exact=True)
                    c.expect(open(path, "rb").read() == raw, "the file was changed")
                    c.outcome(f.err, f.dq, left)


# ---- operations of a dataset: name -> (call, effect on the reference or None when it must be refused)
class Ref:
    def __init__(self, ds):
        self.d, self.e, self.q = ds.all_data.copy(), ds.all_err.copy(), ds.all_dq.copy()
        self.hist = [list(map(str, f.ext_hdr["HISTORY"])) for f in ds.frames]
        self.unit = [f.ext_hdr["BUNIT"] for f in ds.frames]


def operations(n, s, quick_menu=False):
    N = (n,) + s
    news = {"none": (None, 1), "fits": (block(N, 21), 1), "more": (block((n + 1,) + s, 22), 0), "long": (block(N[:-1] + (N[-1] + 1,), 23), 0), "frame": (block(s, 24), 0)}
    newe = {"none": (None, 1), "one": (block((n, 1) + s, 31), 1), "three": (block((n, 3) + s, 32), 1), "no-layer": (block(N, 33), 0),
            "more": (block((n + 1, 1) + s, 34), 0), "long": (block((n, 1) + s[:-1] + (s[-1] + 1,), 35), 0), "axes": (block((n, 1, 1) + s, 36), 0)}
    if len(s) == 3:
        newe["planes"] = (block((n, 1, s[0] + 1) + s[1:], 37), 0)
    newq = {"none": (None, 1), "fits": (block(N, 41, np.uint16), 1), "more": (block((n + 1,) + s, 42, np.uint16), 0), "long": (block(N[:-1] + (N[-1] + 1,), 43, np.uint16), 0)}
    out = {}

    def upd(a, e, q, h):
        def call(ds, tag):
            ds.update_after_processing_step(tag, new_all_data=cp(a), new_all_err=cp(e), new_all_dq=cp(q), header_entries={"BUNIT": "u" + tag} if h else None)

        def eff(r, tag, track):
            if a is not None:
                r.d = a.copy()
            if e is not None:
                r.e = e.copy()
            if q is not None:
                r.q = q.copy()
            for i in range(n):
                r.hist[i].append(tag)
                if h:
                    r.unit[i] = "u" + tag
        return call, eff
    for (an, (a, ao)), (en, (e, eo)), (qn, (q, qo)) in itertools.product(news.items(), newe.items(), newq.items()):
        call, eff = upd(a, e, q, an == "fits")
        out["update-%s-%s-%s" % (an, en, qn)] = (call, eff if ao and eo and qo else None)
    terms = {"frame": (block(s, 51), 1), "dataset": (block(N, 52), 2), "less": (block((n - 1,) + s, 53), 0), "more": (block((n + 1,) + s, 54), 0),
             "long": (block(s[:-1] + (s[-1] + 1,), 55), 0), "dataset-long": (block(N[:-1] + (N[-1] + 1,), 56), 0), "line": (block(s[1:], 57), 0),
             "axes": (block((n, 1) + s, 58), 0)}
    for tn, (t, k) in terms.items():
        def call(ds, tag, t=t):
            ds.add_error_term(t.copy(), tag)

        def eff(r, tag, track, t=t, k=k):
            tt = t if k == 2 else np.array([t] * n)
            r.e = r.e.copy()
            r.e[:, 0] = np.sqrt(r.e[:, 0] ** 2 + tt ** 2)
            if track:
                r.e = np.concatenate([r.e, tt[:, None]], axis=1)
        out["term-%s" % tn] = (call, eff if k else None)

        def call(ds, tag, t=t):
            ds.rescale_error(t.copy(), tag)

        def eff(r, tag, track, t=t, k=k):
            r.e = r.e * (t if k == 1 else t[:, None])
        out["rescale-%s" % tn] = (call, eff if k and len(s) == 2 else None)
    return out


def settled(c, ds, r, what):
    c.same(ds.all_data, r.d, what + ": pixels", rtol=1e-12)
    c.same(ds.all_err, r.e, what + ": uncertainties", rtol=1e-12)
    c.same(ds.all_dq, r.q, what + ": flags", exact=True)
    for i, f in enumerate(ds.frames):
        for n, a, b in (("pixels", f.data, ds.all_data[i]), ("uncertainties", f.err, ds.all_err[i]), ("flags", f.dq, ds.all_dq[i])):
            c.same(a, b, "%s: %s of frame %d" % (what, n, i), exact=True)
            c.expect(np.shares_memory(a, b), lambda: "%s: %s of frame %d are not those of the dataset any more" % (what, n, i))
        c.equal(list(map(str, f.ext_hdr["HISTORY"])), r.hist[i], "%s: history of frame %d" % (what, i))
        c.equal(f.ext_hdr["BUNIT"], r.unit[i], "%s: unit of frame %d" % (what, i))


def histories(c, it):
    n, s, track, first, depth3 = it
    O = operations(n, s)
    menu = ["update-fits-three-fits", "update-none-one-none", "term-frame", "term-dataset", "update-long-none-none", "update-fits-one-more", "term-more"]
    if len(s) == 2:
        menu.append("rescale-dataset")
    ok1 = O[first][1] is not None
    seconds = [None] + (list(O) if depth3 or first in menu else menu)
    with kit.err_tracking(track):
        for sec in seconds:
            key = "ops:%d:%s:%d:%s%s" % (n, "x".join(map(str, s)), track, first, ":" + sec if sec else "")
            with c.case(key) as go:
                if not go:
                    continue
                ds = data.Dataset([kit.frame(s, "L2a", i, err=block((2,) + s if track else s, 60 + i), dq=block(s, 70 + i, np.uint16)) for i in range(n)])
                r = Ref(ds)
                for k, name in enumerate([first] + ([sec] if sec else [])):
                    call, eff = O[name]
                    c.step()
                    c.state(n, s, track, first, sec if k else None)
                    if eff is None:
                        before = kit.snap_ds(ds)
                        c.raises(lambda: call(ds, "op%d" % k), name)
                        dd = kit.diff(before, kit.snap_ds(ds))
                        c.expect(dd is None, lambda: "%s was refused and yet changed the dataset: %s" % (name, dd))
                    else:
                        call(ds, "op%d" % k)
                        eff(r, "op%d" % k, track)
                    settled(c, ds, r, "after %s" % name)
                c.outcome(ds.all_data, ds.all_err, ds.all_dq)


def collections(c, it):
    """Datasets of frames of every pair / triple of shapes."""
    menu = {"a": ((2, 3), 1), "b": ((2, 3), 1), "A": ((2, 3), 2), "t": ((3, 2), 1), "l": ((2, 4), 1), "c": ((1, 2, 3), 1), "s": ((3,), 1)}
    with kit.err_tracking(True):
        for n in (0, 1, 2, 3):
            for w in itertools.product(menu, repeat=n):
                with c.case("collect:%s" % ("".join(w) or "empty")) as go:
                    if not go:
                        continue
                    fs = []
                    for i, k in enumerate(w):
                        s, L = menu[k]
                        fs.append(kit.frame(s, "L2a", i, err=block((L,) + s, i)))
                    own = [(f.data, f.err, f.dq) for f in fs]
                    snaps = [kit.snap(f) for f in fs]
                    c.step()
                    c.state(w)
                    if n == 0 or len({menu[k] for k in w}) > 1:
                        c.raises(lambda: data.Dataset(fs), "a dataset of frames %s" % (w,))
                        for f, o in zip(fs, own):
                            c.expect(f.data is o[0] and f.err is o[1] and f.dq is o[2], "a refused dataset took its frames' arrays away")
                    else:
                        ds = data.Dataset(fs)
                        c.equal(len(ds), n, "frames")
                        settled(c, ds, Ref(ds), "dataset")
                        c.outcome(ds.all_err)
                    for i, f in enumerate(fs):
                        d = kit.diff(snaps[i], kit.snap(f))
                        c.expect(d is None, lambda: "frame %d changed: %s" % (i, d))


# ---- calibration products
def table():
    """kind -> (function of (array, pri, ext, parents) , input frames needed (always / or recorded in the header / no),
                {label: (array, fits?)}, keywords without which it is refused)"""
    nan = np.nan
    nl = np.array([[nan, 1., 10.], [1., .9, .95], [1000., .91, .96]])
    simple = lambda cls: (lambda a, p, x, par: cls(a, pri_hdr=p, ext_hdr=x, input_dataset=par))
    any2d = {"square": (block((3, 3), 1), 1), "oblong": (block((2, 5), 2), 1)}
    one = {"one": (block((1, 1), 3), 1), "flat": (block((1,), 3), 0), "column": (block((2, 1), 3), 0), "row": (block((1, 2), 3), 0),
           "cube": (block((1, 1, 1), 3), 0), "four": (block((2, 2), 3), 0)}
    nlt = {"3x3": (nl, 1), "2x2": (nl[:2, :2], 1), "2x3": (nl[:2], 1), "3x2": (nl[:, :2], 1), "row": (nl[:1], 0), "column": (nl[:, :1], 0), "flat": (nl[0], 0),
           "one": (nl[:1, :1], 0), "corner-0": (np.where(np.isnan(nl), 0., nl), 0), "corner-inf": (np.where(np.isnan(nl), np.inf, nl), 0),
           "nan-elsewhere": (nl[::-1].copy(), 0)}
    dn = {"maps": (block((3, 2, 4), 1), 1), "two": (block((2, 2, 4), 1), 0), "four": (block((4, 2, 4), 1), 0), "plane": (block((3, 4), 1), 0),
          "axes": (block((3, 1, 2, 4), 1), 0), "axes2": (block((1, 3, 2, 4), 1), 0)}
    nd = {"rows": (block((4, 3), 1), 1), "one-row": (block((1, 3), 1), 1), "three": (block((3, 3), 1), 1), "turned": (block((3, 4), 1), 0), "two": (block((4, 2), 1), 0),
          "flat": (block((3,), 1), 0), "cube": (block((1, 4, 3), 1), 0)}
    return {
        "Dark": (simple(data.Dark), "recorded", any2d, ()),
        "FlatField": (simple(data.FlatField), "always", any2d, ()),
        "NonLinearityCalibration": (simple(data.NonLinearityCalibration), "always", nlt, ()),
        "KGain": (simple(data.KGain), "recorded", one, ()),
        "BadPixelMap": (simple(data.BadPixelMap), "recorded", {k: (v[0].astype(np.uint16), 1) for k, v in any2d.items()}, ()),
        "DetectorNoiseMaps": (simple(data.DetectorNoiseMaps), "recorded", dn, ("B_O", "B_O_ERR")),
        "AstrometricCalibration": (simple(data.AstrometricCalibration), "always", {"values": (block((44,), 1), 1), "list": (list(range(44)), 0)}, ()),
        "TrapCalibration": (simple(data.TrapCalibration), "always", {"rows": (block((3, 10), 1), 1), "one-row": (block((1, 10), 1), 1)}, ()),
        "FluxcalFactor": (simple(data.FluxcalFactor), "recorded", one, ("FPAMNAME+FSAMNAME", "CFAMNAME")),
        "NDFilterSweetSpotDataset": (simple(data.NDFilterSweetSpotDataset), "no", nd, ()),
    }


def calibrations(c, it):
    kind, track = it
    make, need, arrays, kws = table()[kind]
    d = c.newdir("cal")
    with kit.err_tracking(track):
        for (an, (a, fit)), par, rec, missing in itertools.product(arrays.items(), (1, 0), (0, 1), ("",) + kws):
            key = "cal:%s:%d:%s:%d%d:%s" % (kind, track, an, par, rec, missing)
            with c.case(key) as go:
                if not go:
                    continue
                c.step()
                c.state(key)
                pri, ext = kit.cal_headers(B_O=0.5, B_O_ERR=0.125)
                for k in missing.split("+"):
                    if k:
                        del ext[k]
                if rec:
                    ext["DRPNFILE"], ext["FILE0"] = 1, "CGI_earlier_L1_.fits"
                ds = kit.parents() if par else None
                before = kit.snap_ds(ds) if par else None
                val = a.copy() if isinstance(a, np.ndarray) else list(a)
                good = fit and not missing and (par or need == "no" or (need == "recorded" and rec))
                if not good:
                    c.raises(lambda: make(val, pri, ext, ds), "%s of %s (input frames %d, recorded %d, without %s)" % (kind, an, par, rec, missing or "nothing"))
                    c.expect(kit.diff(kit.snap_any(a), kit.snap_any(val)) is None, "a refused product changed the array it was given")
                else:
                    p = make(val, pri, ext, ds)
                    c.expect(type(p).__name__ == kind, "a %s" % type(p).__name__)
                    c.same(p.data, a, "contents", exact=True)
                    c.equal((p.ext_hdr["DATATYPE"], p.ext_hdr["DATALVL"]), (kind, "CAL"), "kind and level")
                    c.expect(p.filename == "" or p.filename.endswith("_CAL.fits") or not par, lambda: "file name %r" % p.filename)
                    c.outcome(kind, p.data)
                if par:
                    dd = kit.diff(before, kit.snap_ds(ds))
                    c.expect(dd is None, lambda: "the input frames changed: %s" % dd)
        # the same, out of files
        for an, (a, fit) in arrays.items():
            if not isinstance(a, np.ndarray):
                continue
            for strip in ("", "DATATYPE") + tuple(k for k in kws):
                key = "calfile:%s:%d:%s:%s" % (kind, track, an, strip)
                with c.case(key) as go:
                    if not go:
                        continue
                    c.step(2)
                    c.state(key)
                    p = kit.CALS[kind]()
                    p.save(filedir=d, filename="p.fits")
                    path = os.path.join(d, "p.fits")
                    with fits.open(path) as h:
                        keep = [x.copy() for x in h]
                    hd = keep[1].header
                    for k in strip.split("+"):
                        if k:
                            del hd[k]
                    keep[1] = fits.ImageHDU(a.copy(), header=hd)
                    for x in keep[2:]:
                        if x.name == "ERR":
                            x.data = np.zeros((1,) + a.shape)
                        elif x.name == "DQ":
                            x.data = np.zeros(a.shape, dtype=np.uint16)
                    fits.HDUList(keep).writeto(path, overwrite=True)
                    raw = open(path, "rb").read()
                    cls = getattr(data, kind)
                    if fit and not strip:
                        for q in (cls(path), data.autoload(path)):
                            c.expect(type(q).__name__ == kind, "read as a %s" % type(q).__name__)
                            c.same(q.data, a, "contents of the file", exact=True)
                    else:
                        c.raises(lambda: cls(path), "a %s file with %s, without %s" % (kind, an, strip or "nothing"))
                        if strip != "DATATYPE":
                            c.raises(lambda: data.autoload(path), "a %s file with %s, without %s (autoload)" % (kind, an, strip or "nothing"))
                        elif a.ndim == 2:
                            c.equal(type(data.autoload(path)).__name__, "Image", "kind of a plain two-dimensional file")
                        else:
                            c.raises(lambda: data.autoload(path), "a file of no known kind that is no image")
                    c.expect(open(path, "rb").read() == raw, "the file was changed")


def special(c, it):
    """Kinds made in their own ways: matrices, parameters, core throughput."""
    good = np.arange(8.).reshape(2, 2, 2)
    mats = {"fits": (good, 1), "flat": (np.arange(8.), 0), "2x4": (np.arange(8.).reshape(2, 4), 0), "1x2x2": (good[:1], 0), "2x2x3": (np.arange(12.).reshape(2, 2, 3), 0),
            "4x2": (np.arange(8.).reshape(4, 2), 0), "axes": (good[None], 0), "list": (good.tolist(), 0), "empty": ([], 2), "dict": ({"a": 1}, 0), "tuple": ((1, 2), 0)}
    for n, (v, ok) in mats.items():
        with c.case("matrices:%s" % n) as go:
            if go:
                c.step()
                c.state("m", n)
                dflt = data.FpamFsamCal.default_trans.copy()
                if ok:
                    p = data.FpamFsamCal(v.copy() if ok == 1 else [])
                    c.same(p.data, v if ok == 1 else dflt, "matrices", exact=True)
                    c.equal(p.ext_hdr["DATATYPE"], "FpamFsamCal", "kind")
                    p.data[:] = -1.
                    c.same(data.FpamFsamCal([]).data, dflt, "the default matrices of the next product", exact=True)
                else:
                    c.raises(lambda: data.FpamFsamCal(v), "matrices %s" % n)
    base = dict(data.DetectorParams.default_values)
    pars = {"empty": ({}, 1), "one": ({"KGAINPAR": 3.25}, 1), "all": ({k: (v if v is None else v * 2) for k, v in base.items()}, 1), "list": ([1], 0), "none": (None, 0),
            "array": (np.zeros((1, 1)), 0), "number": (3, 0)}
    for n, (v, ok) in pars.items():
        with c.case("parameters:%s" % n) as go:
            if go:
                c.step()
                c.state("p", n)
                if ok:
                    v0 = dict(v)
                    p = data.DetectorParams(v)
                    c.equal(dict(p.params), dict(base, **v0), "parameters")
                    c.equal(v, v0, "the dictionary given")
                    c.equal(data.DetectorParams.default_values, base, "the default values")
                else:
                    c.raises(lambda: data.DetectorParams(v), "parameters of a %s" % n)
    # core throughput
    cube, pos = block((3, 3, 3), 1), np.array([[10., 12., 14.], [10., 13., 9.], [0.2, 0.4, 0.6]])
    names = ("CTEXCAM", "CTFPAM", "CTFSAM")
    hdus = {"fits": (names, 1), "more": (names + ("AUX",), 1), "none": ((), 0), "two": (names[:2], 0), "one": (names[:1], 0), "other": (("CTEXCAM", "CTFPAM", "AUX"), 0)}
    for w in itertools.permutations(names):
        if w != names:
            hdus["-".join(w)] = (w, 0)
    shapes = {"fits": (cube, pos, 1), "plane": (cube[0], pos, 0), "axes": (cube[None], pos, 0), "two-rows": (cube, pos[:2], 0), "four-rows": (cube, np.vstack([pos, pos[:1]]), 0),
              "fewer-positions": (cube, pos[:, :2], 0), "fewer-psfs": (cube[:2], pos, 0), "one": (cube[:1], pos[:, :1], 1)}
    for (hn, (w, hok)), (sn, (cb, ps, sok)), ex, par in itertools.product(hdus.items(), shapes.items(), ("PSFCUBE", "SCI"), (1, 0)):
        with c.case("throughput:%s:%s:%s:%d" % (hn, sn, ex, par)) as go:
            if go:
                c.step()
                c.state("ct", hn, sn, ex, par)
                pri, ext = kit.cal_headers(EXTNAME=ex)
                hl = [fits.ImageHDU(data=ps.copy() if n == "CTEXCAM" else np.array([1., 2.]), name=n) for n in w]
                mk = lambda: data.CoreThroughputCalibration(cb.copy(), pri_hdr=pri, ext_hdr=ext, input_hdulist=hl, input_dataset=kit.parents() if par else None)
                if hok and sok and par and ex == "PSFCUBE":
                    p = mk()
                    c.same(p.data, cb, "PSFs", exact=True)
                    c.same(p.ct_excam, ps, "positions", exact=True)
                    c.same(p.ct_fpam, [1., 2.], "FPAM", exact=True)
                    c.same(p.ct_fsam, [1., 2.], "FSAM", exact=True)
                else:
                    c.raises(mk, "core throughput of %s extensions, %s arrays, %s, input frames %d" % (hn, sn, ex, par))


# ---- argument checks
class Own(Exception):
    pass


class Number(int):
    pass


def values():
    """(name, value, scalar number?, real?, integer?, sign, array shape or None, array of real numbers?)"""
    V = []

    def sc(name, v, real=True, integer=False, sign=None):
        V.append((name, v, dict(scalar=True, real=real, integer=integer, sign=sign)))
    for k in (-2, -1, 0, 1, 7):
        sg = (k > 0) - (k < 0)
        sc("int%d" % k, k, integer=True, sign=sg)
        sc("float%d" % k, float(k), sign=sg)
        for t in (np.int64, np.int8, np.uint16):
            if k >= 0 or t is not np.uint16:
                sc("%s%d" % (t.__name__, k), t(k), integer=True, sign=sg)
        for t in (np.float32, np.float64):
            sc("%s%d" % (t.__name__, k), t(k), sign=sg)
    sc("sub", Number(4), integer=True, sign=1)
    sc("half", 0.5, sign=1)
    sc("-half", -0.5, sign=-1)
    sc("tiny", 5e-324, sign=1)
    sc("-tiny", -5e-324, sign=-1)
    sc("big", 10 ** 30, integer=True, sign=1)
    sc("inf", float("inf"), sign=1)
    sc("-inf", -float("inf"), sign=-1)
    sc("fraction", fractions.Fraction(1, 3), sign=1)
    sc("complex", 1 + 2j, real=False)
    sc("complex-real", 1 + 0j, real=False)
    sc("complex128", np.complex128(3), real=False)
    for n, v in (("none", None), ("text", "3"), ("empty", ""), ("bytes", b"3"), ("list", [1, 2]), ("list2", [[1, 2], [3, 4]]), ("tuple", (1.5, 2.5, 3.5)), ("ragged-free", [[1.5]]), ("dict", {}),
                 ("dict1", {"a": 1}), ("set", {1}), ("true", True), ("false", False), ("object", object()), ("type", int), ("texts", ["a", "b"]), ("mixed", [1, "a"]), ("nones", [None, None]),
                 ("emptylist", [])):
        V.append((n, v, dict(scalar=False)))
    for sh in ((), (0,), (1,), (3,), (2, 2), (2, 3), (1, 1), (0, 0), (2, 2, 2), (1, 2, 3), (1, 1, 1, 1)):
        for t in ("i8", "u2", "f8", "f4", "?", "c16", "U1", "O"):
            a = np.zeros(sh, dtype=t) if t != "O" else np.full(sh, None, dtype=object)
            V.append(("%s%s" % (t, sh), a, dict(scalar=False, arr=(sh, t))))
    return V


def accepts(fn, v, d):
    """Does the documented check take the value?  None: not said."""
    name = fn.__name__
    isb = isinstance(v, bool)
    if name in ("string", "boolean", "dictionary"):
        return isinstance(v, {"string": (str, bytes), "boolean": bool, "dictionary": dict}[name])
    if name.endswith("_array"):
        if "arr" in d:
            sh, t = d["arr"]
        else:
            a = np.asarray(v)
            sh, t = a.shape, a.dtype.str.lstrip("<|>=")
        num = t[0] in "iufb?" or t == "?"
        if name == "real_array":
            return len(sh) > 0 and num
        want = {"oneD_array": 1, "twoD_array": 2, "twoD_square_array": 2, "threeD_array": 3}[name]
        if len(sh) != want or (name == "twoD_square_array" and sh[0] != sh[1]):
            return False
        return True if num or t[0] == "c" else None      # arrays of texts or objects: not said
    if isb:
        return None                                        # a bool is a number to the language: not said
    if not d["scalar"]:
        return False
    if not d["real"]:
        return False
    if "integer" in name and not d["integer"]:
        return False
    if "nonnegative" in name:
        return d["sign"] >= 0
    if "positive" in name:
        return d["sign"] > 0
    return True


def checks(c, it):
    names = ["real_positive_scalar", "real_array", "oneD_array", "twoD_array", "twoD_square_array", "threeD_array", "real_scalar", "real_nonnegative_scalar",
             "positive_scalar_integer", "nonnegative_scalar_integer", "scalar_integer", "string", "boolean", "dictionary"]
    for fname in names:
        fn = getattr(check, fname)
        for vn, v, d in values():
            for exc in (ValueError, TypeError, Own):
                with c.case("check:%s:%s:%s" % (fname, vn, exc.__name__)) as go:
                    if not go:
                        continue
                    c.step()
                    c.state(fname, vn, exc.__name__)
                    ok = accepts(fn, v, d)
                    if ok is None:
                        continue
                    if ok:
                        r = fn(v, "the name", exc)
                        if isinstance(v, np.ndarray) or not fname.endswith("_array"):
                            c.expect(r is v, lambda: "%r came back as %r" % (v, r))
                        else:
                            c.expect(isinstance(r, np.ndarray) and np.array_equal(r, np.asarray(v)), lambda: "%r came back as %r" % (v, r))
                    else:
                        e = c.raises(lambda: fn(v, "the name", exc), "%s(%r)" % (fname, v))
                        c.expect(type(e) is exc, lambda: "refused with %r, not the %s asked for" % (e, exc.__name__))
                        c.expect("the name" in str(e), lambda: "the refusal does not name the argument: %s" % e)
        for bn, vname, vexc in (("name", 3, ValueError), ("name-none", None, ValueError), ("name-list", ["a"], ValueError), ("exc-text", "a", "ValueError"), ("exc-type", "a", int),
                                ("exc-instance", "a", ValueError("x")), ("exc-none", "a", None), ("exc-base", "a", BaseException)):
            with c.case("check:%s:bad-%s" % (fname, bn)) as go:
                if go:
                    c.step()
                    good = {"string": "x", "boolean": True, "dictionary": {}, "oneD_array": [1.], "twoD_array": [[1.]], "twoD_square_array": [[1.]], "threeD_array": [[[1.]]],
                            "real_array": [1.]}.get(fname, 1)
                    e = c.raises(lambda: fn(good, vname, vexc), "%s called wrongly (%s)" % (fname, bn))
                    c.expect(isinstance(e, check.CheckException), lambda: "a wrong call gives %r" % e)


def names(c, it):
    """Extensions: all words over the names, on every way an image comes about."""
    alphabet = ("A", "B", "ERR", "DQ")
    d = c.newdir("ext")

    def routes():
        f = kit.frame((2, 3), "L2a", 0)
        yield "raw", f
        g = kit.frame((2, 3), "L2a", 0)
        g.save(filedir=d, filename="x.fits")
        yield "file", data.Image(os.path.join(d, "x.fits"))
        yield "copy", kit.frame((2, 3), "L2a", 0).copy()
        yield "header-copy", kit.frame((2, 3), "L2a", 0).copy(copy_data=False)
        pri, ext = kit.headers("L2a")
        yield "given", data.Image(block((2, 3), 1), pri_hdr=pri, ext_hdr=ext, input_hdulist=extras(["A"]))
        yield "given-file", data.Image(os.path.join(d, "x.fits"), input_hdulist=extras(["A"]))
        h = fits.HDUList([fits.PrimaryHDU(header=pri), fits.ImageHDU(block((2, 3), 1), header=ext), fits.ImageHDU(np.arange(2.), name="B")])
        h.writeto(os.path.join(d, "bare.fits"), overwrite=True)
        yield "bare-file", data.Image(os.path.join(d, "bare.fits"))
    depth = 4 if c.thorough else 3
    for w in itertools.product(alphabet, repeat=depth):
        for rn, f in routes():
            with c.case("extension:%s:%s" % (rn, "".join(x[0] for x in w))) as go:
                if not go:
                    continue
                have = [h.name for h in f.hdu_list]
                c.equal(have, {"given": ["A"], "given-file": ["A"], "bare-file": ["B"]}.get(rn, []), "extensions at first")
                for i, n in enumerate(w):
                    c.step()
                    before = kit.snap(f)
                    if n in have or n in ("ERR", "DQ"):
                        c.raises(lambda: f.add_extension_hdu(n, data=np.arange(3.)), "a second %s" % n)
                        dd = kit.diff(before, kit.snap(f))
                        c.expect(dd is None, lambda: "a refused extension changed the image: %s" % dd)
                    else:
                        f.add_extension_hdu(n, data=np.arange(3.) + i, header=fits.Header([("K", i)]))
                        have.append(n)
                    c.state(rn, w[:i + 1])
                c.equal([h.name for h in f.hdu_list], have, "extensions")
                f.save(filedir=d, filename="y.fits")
                with fits.open(os.path.join(d, "y.fits")) as h:
                    c.equal([x.name for x in h[2:]], ["ERR", "DQ"] + have, "extensions on disk")
                c.outcome(rn, have)


def folders(c, it):
    """A file given with and without its folder."""
    d = c.newdir("cwd")
    f = kit.frame((2, 3), "L2a", 4)
    f.save(filedir=d, filename="here.fits")
    os.makedirs(os.path.join(d, "sub"))
    f.save(filedir=os.path.join(d, "sub"), filename="there.fits")
    old = os.getcwd()
    try:
        os.chdir(d)
        for p, wd, wn in (("here.fits", ".", "here.fits"), ("./here.fits", ".", "here.fits"), ("sub/there.fits", "sub", "there.fits"), (os.path.join(d, "here.fits"), d, "here.fits")):
            for cls in (data.Image, lambda x: data.Dataset([x])[0], data.autoload):
                with c.case("folder:%s:%s" % (p.replace(d, "D"), getattr(cls, "__name__", "x"))) as go:
                    if go:
                        c.step()
                        g = cls(p)
                        c.equal((os.path.normpath(g.filedir), g.filename), (os.path.normpath(wd), wn), "folder and name")
                        c.expect(os.path.samefile(g.filepath, p), "its path is not the file")
                        c.same(g.data, f.data, "pixels", exact=True)
                        m = g.get_masked_data()
                        c.same(np.ma.getmaskarray(m), g.dq > 0, "mask", exact=True)
                        c.same(m.data, g.data, "masked pixels", exact=True)
                        g.dq[0, 1], g.dq[1, 2] = 1, 128
                        m = g.get_masked_data()
                        c.same(np.ma.getmaskarray(m), [[0, 1, 0], [0, 0, 1]], "mask", exact=True)
    finally:
        os.chdir(old)


def run(c):
    shapes = SHAPES if c.thorough else SHAPES[:2] + SHAPES[3:]
    jobs = [(raw_images, (s, t)) for s in shapes for t in (True, False)]
    jobs += [(disk_images, (s, t)) for s in (shapes if c.thorough else [(2, 3)]) for t in (True, False)]
    for n, s, t in itertools.product((1, 2, 3) if c.thorough else (1, 2), [(2, 3), (2, 2, 3)] if not c.thorough else [(2, 3), (2, 2), (2, 2, 3)], (True, False)):
        jobs += [(histories, (n, s, t, o, c.thorough)) for o in operations(n, s)]
    jobs += [(collections, 0), (special, 0), (checks, 0), (names, 0), (folders, 0)]
    jobs += [(calibrations, (k, t)) for k in table() for t in (True, False)]
    jobs = jobs[::-1]
    c.bound(pixel_shapes=str(shapes), parts="10-11 uncertainties x 5-6 flags x headers x extensions; 5 kinds of file x replacements", operations=len(operations(2, (2, 3))),
            depth=2, frames="1-3" if c.thorough else "1-2", check_values=len(values()), extension_words="length %d over 4 names x 7 routes" % (4 if c.thorough else 3))
    c.assume("the type of the error with which ill-formed input is refused is not judged (except in the argument checks, where it is an argument)")
    c.fan(jobs, lambda c, j: j[0](c, j[1]))
