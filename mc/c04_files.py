"""C04: every product kind x every variant of pixels, uncertainties, flags, headers and extra extensions of a menu, saved and
loaded (as its own kind and by detection), twice; and the full matrix of files x kinds for refusals."""
import itertools
import os
import warnings

import numpy as np
import astropy.io.fits as fits

from mc import kit
from mc.core import Bad
import corgidrp.data as data

STRUCT = {"SIMPLE", "XTENSION", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4", "PCOUNT", "GCOUNT", "EXTEND", "BZERO", "BSCALE",
          "EXTNAME", "TFIELDS", "INHERIT"}


def cards(h, stamps=False):
    return [(k, v) for k, v in kit.hdr(h, kit.STAMPS if not stamps else set()) if k not in STRUCT and not k.startswith(("TTYPE", "TFORM"))]


def content(o, stamps=False):
    """Everything a user would miss."""
    s = dict(kind=type(o).__name__, data=np.array(o.data), err=np.array(o.err), dq=np.array(o.dq).astype(np.uint64) if o.dq.dtype.kind != "f" else np.array(o.dq),
             pri=cards(o.pri_hdr, stamps), ext=cards(o.ext_hdr, stamps), errh=cards(o.err_hdr), dqh=cards(o.dq_hdr))
    s["extras"] = {h.name: (None if h.data is None else (np.array(h.data) if h.data.dtype.names is None else {n: np.array(h.data[n]) for n in h.data.dtype.names}),
                            cards(h.header)) for h in o.hdu_list if h.name != "PTC" and not (h.name in ("", "PRIMARY") and h.data is None)}
    for k, v in vars(o).items():
        if k in ("data", "err", "dq", "pri_hdr", "ext_hdr", "err_hdr", "dq_hdr", "hdu_list", "hdu_names", "filename", "filedir"):
            continue
        if isinstance(v, fits.Header):
            s["attr " + k] = cards(v)
        elif isinstance(v, (np.ndarray, float, int, str, bool, dict, np.generic)):
            s["attr " + k] = np.array(v) if isinstance(v, np.ndarray) else v
    for k in ("value", "error", "fluxcal_fac", "fluxcal_err", "bias_offset", "read_noise"):
        try:
            s["prop " + k] = getattr(o, k)
        except AttributeError:
            pass
    return s


# --- variants: edits of a product before it is saved
def v_plain(o):
    pass


def v_nan(o):
    o.data = o.data.astype(float)
    o.data.ravel()[-1] = np.nan
    o.err.ravel()[0] = np.nan


def v_inf(o):
    o.data.ravel()[0] = np.inf
    o.err.ravel()[-1] = np.inf


def v_extreme(o):
    o.data.ravel()[0] = 1.7976931348623157e308
    o.data.ravel()[-1] = 5e-324
    o.err.ravel()[-1] = 0.1


def v_negzero(o):
    o.data.ravel()[0] = -0.125
    o.data.ravel()[-1] = -1e9


def v_f32(o):
    o.data = o.data.astype(np.float32)
    o.err = o.err.astype(np.float32)


def v_bigendian(o):
    o.data = o.data.astype(">f8")


def v_fortran(o):
    o.data = np.asfortranarray(o.data)
    o.err = np.asfortranarray(o.err)
    o.dq = np.asfortranarray(o.dq)


def v_strided(o):
    big = np.repeat(np.repeat(o.data, 2, axis=-1), 2, axis=-2)
    o.data = big[..., ::2, ::2]


def v_i16(o):
    o.data = np.floor(o.data).astype(np.int16)


def v_u16(o):
    o.data = np.floor(o.data).astype(np.uint16) + np.uint16(40000)


def v_i32(o):
    o.data = np.floor(o.data).astype(np.int32) * 1000


def dqv(dtype, val):
    def f(o):
        o.dq = o.dq.astype(dtype)
        o.dq.ravel()[-1] = val
        o.dq.ravel()[0] = 1
    f.__name__ = "v_dq_%s_%s" % (np.dtype(dtype).name, val)
    return f


def v_hdr_values(o):
    for h in (o.pri_hdr, o.ext_hdr, o.err_hdr, o.dq_hdr):
        h["AINT"] = 12345678901
        h["ANEG"] = -7
        h["AFLOAT"] = 0.1
        h["ATINY"] = 1e-300
        h["AHUGE"] = 1.5e308
        h["ATHIRD"] = 1 / 3
        h["ATRUE"] = True
        h["AFALSE"] = False
        h["AEMPTY"] = ""
        h["AQUOTE"] = "it's"
        h["ASLASH"] = "a / b"
        h["ANUMSTR"] = "12"
        h["ATSTR"] = "T"


def v_hdr_long(o):
    for h in (o.pri_hdr, o.ext_hdr):
        h["LONGSTR"] = "x" * 150
        h["LONGC"] = ("y" * 60, "comment " * 5)
        h["HIERARCH a long keyword"] = 3
        h["HIERARCH lower"] = "z"


def v_history(o):
    for h in (o.pri_hdr, o.ext_hdr, o.err_hdr):
        for i in range(3):
            h["HISTORY"] = "entry %d" % i
        h["HISTORY"] = "entry 1"
        h["HISTORY"] = "long " * 40
        h["COMMENT"] = "remark"
        h["AFTER"] = 1
        h["HISTORY"] = "last"


def v_undefined_key(o):
    o.ext_hdr["AUNDEF"] = None


def v_ext_image(o):
    for i in range(2):
        h = fits.ImageHDU(data=np.array([[1.5, np.nan], [i, -2]]), name="EXTRA%d" % i)
        h.header["OWN"] = i
        h.header["HISTORY"] = "own history"
        o.hdu_list.append(h)
        o.hdu_names.append(h.name)


def v_ext_table(o):
    t = fits.BinTableHDU.from_columns([fits.Column(name="a", format="D", array=np.array([1.5, 2.5])), fits.Column(name="b", format="8A", array=np.array(["x", "yy"]))],
                                      name="TABLE")
    o.hdu_list.append(t)
    o.hdu_names.append("TABLE")


def v_ext_empty(o):
    h = fits.ImageHDU(name="NODATA")
    h.header["OWN"] = "only a header"
    o.hdu_list.append(h)
    o.hdu_names.append("NODATA")


def v_ext_api(o):
    o.add_extension_hdu("API", data=np.arange(6.).reshape(2, 3))
    o.add_extension_hdu("API2", data=np.arange(3), header=fits.Header([("K", 1)]))


def v_terms(o):
    o.add_error_term(np.full(o.data.shape, 2.0), "first")
    o.add_error_term(o.data * 0 + 3.0, "second")


VALUES = [v_nan, v_inf, v_extreme, v_negzero, v_f32, v_bigendian, v_fortran, v_strided, v_i16, v_u16, v_i32]
FLAGS = [dqv(d, v) for d, v in ((np.uint8, 255), (np.uint16, 32768), (np.uint16, 65535), (np.int16, 4), (np.int32, 1 << 20), (np.int64, 128), (np.uint64, 256), (np.uint32, 1 << 31))]
HEADERS = [v_hdr_values, v_hdr_long, v_history, v_undefined_key]
EXTRAS = [v_ext_image, v_ext_table, v_ext_empty, v_ext_api]
# kinds whose contents have a fixed meaning only get the variants that leave it valid
FIXED = {"NonLinearityCalibration", "KGain", "DetectorParams", "FpamFsamCal", "FluxcalFactor", "AstrometricCalibration", "NDFilterSweetSpotDataset",
         "BadPixelMap", "TrapCalibration"}


def make(kind):
    if kind == "Image":
        return kit.frame((3, 4), "L2a", 0)
    if kind == "Image3D":
        f = kit.frame(None, "L2a", 0, img=kit.arr((2, 3, 4)))
        f.ext_hdr["DATATYPE"] = "Image"
        return f
    if kind == "Image1":
        return kit.frame((1, 1), "L1", 0)
    return kit.CALS[kind]()


def variants(kind, thorough):
    fixed = kind in FIXED
    base = [v_plain] + ([] if fixed else VALUES) + HEADERS + EXTRAS
    if not fixed or kind == "BadPixelMap":
        base += [] if fixed else FLAGS
    if kind in ("TrapCalibration", "NDFilterSweetSpotDataset", "AstrometricCalibration"):
        base += [v_negzero]
    if kind in ("TrapCalibration", "FluxcalFactor", "NDFilterSweetSpotDataset"):
        base += [v_f32, v_bigendian] if kind != "FluxcalFactor" else []
    out = [(v,) for v in base]
    if kind in ("Image", "Dark", "DetectorNoiseMaps", "FlatField") or thorough:
        pairs = list(itertools.combinations([v for v in base if v is not v_plain], 2))
        if not thorough and kind != "Image":
            pairs = [p for p in pairs if p[0] in (v_nan, v_history, v_ext_image)]
        out += pairs
    return out


def one(c, kind, vs, track, where):
    o = make(kind)
    for v in vs:
        v(o)
    if not o.filename:
        o.filename = "CGI_0001_L2a_.fits"
    if kind == "DetectorNoiseMaps":        # the variants replace the array the named maps are views of
        o.FPN_map, o.CIC_map, o.DC_map = o.data[0], o.data[1], o.data[2]
        o.FPN_err, o.CIC_err, o.DC_err = o.err[0][0], o.err[0][1], o.err[0][2]
    want = content(o)
    d = c.newdir("f") if where != "sub" else os.path.join(c.newdir("f"), "a.b")
    os.makedirs(d, exist_ok=True)
    name = o.filename
    if where == "rename":
        o.save(filedir=d, filename="other_name.fits")
        name = "other_name.fits"
    elif where == "over":
        with open(os.path.join(d, name), "wb") as f:
            f.write(b"x" * 9000)
        o.save(filedir=d)
    elif where == "attr":
        o.filedir = d
        o.save()
    else:
        o.save(filedir=d)
    c.step()
    path = os.path.join(d, name)
    c.equal(os.listdir(d), [name], "files written")
    c.equal(o.filepath, path, "recorded path")
    df = kit.diff(want, content(o))
    c.expect(df is None, lambda: "saving changed the product: %s" % df)
    stamps = dict((k, o.ext_hdr[k]) for k in ("DRPVERSN", "DRPCTIME"))
    cls = type(o)
    first = None
    for way in ("own", "auto"):
        got = cls(path) if way == "own" else data.autoload(path)
        c.step()
        c.expect(type(got) is cls, lambda: "loaded by %s as a %s, it is a %s" % (way, type(got).__name__, cls.__name__))
        df = kit.diff(want, content(got))
        c.expect(df is None, lambda: "loaded (%s) product differs from what was saved: %s" % (way, df))
        c.equal(dict((k, got.ext_hdr[k]) for k in stamps), stamps, "time stamps of the file")
        c.equal((os.path.normpath(got.filedir), got.filename), (os.path.normpath(d), name), "path of the loaded product")
        first = first or got
    again = c.newdir("g")
    first.save(filedir=again)
    second = data.autoload(os.path.join(again, name))
    c.step(2)
    df = kit.diff(content(first, True), content(second, True))
    c.expect(df is None, lambda: "saving and loading once more changes the product: %s" % df)
    c.outcome(kind, want["data"], want["dq"])
    for x in (path, os.path.join(again, name)):
        os.remove(x)


def run(c):
    warnings.simplefilter("ignore")
    kinds = ["Image", "Image3D", "Image1"] + list(kit.CALS)
    jobs = []
    for k in kinds:
        for vs in variants(k, c.thorough):
            for track in (False, True):
                for where in ("dir", "rename", "over", "attr", "sub"):
                    if where != "dir" and (len(vs) > 1 or track or vs[0] not in (v_plain, v_nan)):
                        continue
                    if track and (len(vs) > 1 and not c.thorough):
                        continue
                    jobs.append((k, vs, track, where))
        if k in ("Image", "Dark", "FlatField", "Image3D"):
            for track in (False, True):
                jobs.append((k, (v_terms,), track, "dir"))
                jobs.append((k, (v_nan, v_terms), track, "dir"))
    c.bound(kinds=kinds, variants=[v.__name__ for v in VALUES + FLAGS + HEADERS + EXTRAS], pairs="Image: all pairs of variants; thorough: all kinds",
            tracking=[False, True])

    def go_one(c, job):
        k, vs, track, where = job
        key = "%s/%s/%s/%s" % (k, "+".join(v.__name__[2:] for v in vs), "track" if track else "sum", where)
        with c.case(key) as go:
            if go:
                c.state(key)
                with kit.err_tracking(track):
                    one(c, k, vs, track, where)

    c.fan(jobs, go_one)

    # a file of another kind is refused by each calibration kind
    d = c.newdir("kinds")
    paths = {}
    for k in kinds:
        o = make(k)
        o.save(filedir=d, filename=k + ".fits")
        paths[k] = os.path.join(d, k + ".fits")
    for k, cls in itertools.product(paths, kit.CALS):
        with c.case("refuse/%s/%s" % (k, cls)) as go:
            if go:
                c.step()
                c.state("refuse", k, cls)
                C = getattr(data, cls)
                if k == cls:
                    C(paths[k])
                else:
                    c.raises(lambda: C(paths[k]), "a %s file loaded as %s" % (k, cls))
    # no file name: nothing can be saved
    for k in kinds:
        with c.case("noname/%s" % k) as go:
            if go:
                o = make(k)
                o.filename = ""
                c.raises(lambda: o.save(filedir=c.newdir("n")), "saving without a file name", kinds=(ValueError,))
