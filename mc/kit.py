"""Tiny inputs for the real code: headers, frames, datasets, one calibration product of every kind, snapshots."""
import copy

import numpy as np
import astropy.io.fits as fits
from astropy.time import Time

import corgidrp
import corgidrp.data as data
import corgidrp.caldb  # noqa: F401  (start-up)

# keywords stamped by construction/copy, not content
STAMPS = {"DRPVERSN", "DRPCTIME", "CHECKSUM", "DATASUM"}


_HDR = {}
_PAR = {}


def headers(level="L1", **kw):
    if level not in _HDR:
        _HDR[level] = _headers(level)
    pri, ext = _HDR[level][0].copy(), _HDR[level][1].copy()
    for k, v in kw.items():
        k = k.replace("__", "-")
        if k in pri:
            pri[k] = v
        else:
            ext[k] = v
    return pri, ext


def _headers(level):
    pri = fits.PrimaryHDU().header.copy()
    ext = fits.ImageHDU(data=np.zeros((4, 4))).header.copy()
    for k, v in dict(AUXFILE="mock.fits", OBSID=0, BUILD=0, VISTYPE="TDEMO", MOCK=True, TELESCOP="ROMAN",
                     INSTRUME="CGI", OBSNAME="MOCK", TARGET="MOCK", OBSNUM=0, CAMPAIGN="000",
                     PROGNUM="00000", SEGMENT="000", VISNUM="000", EXECNUM="00", PSFREF=False, RA=80.5, DEC=-69.5,
                     ROLL=15.0, PHTCNT=False).items():
        pri[k] = v
    for k, v in dict(ARRTYPE="SCI", SCTSRT="2024-01-01T12:00:00.000", SCTEND="2024-01-01T20:00:00.000", STATUS=0,
                     OPMODE="", EXPTIME=10.0, EMGAIN_C=1.0, EMGAIN_A=-1.0, KGAINPAR=8.7, EXCAMT=40.0, OVEREXP=False,
                     Z2VAR=0.0, Z3VAR=0.0, Z2RES=0.0, Z3RES=0.0, FSMX=0.0, FSMY=0.0, FSM_X=0.0, FSM_Y=0.0,
                     SPAM_H=1.0, SPAM_V=1.0, FPAM_H=1.0, FPAM_V=1.0, LSAM_H=1.0, LSAM_V=1.0, FSAM_H=1.0, FSAM_V=1.0,
                     CFAM_H=1.0, CFAM_V=1.0, DPAM_H=1.0, DPAM_V=1.0, CFAMNAME="1F", DPAMNAME="IMAGING",
                     FPAMNAME="HLC12_C2R1", FSAMNAME="R1C1", LSAMNAME="NFOV", SPAMNAME="OPEN", ISPC=False,
                     DATETIME="2024-01-01T11:00:00.000", DATALVL=level, MISSING=False, BUNIT="DN").items():
        ext[k] = v
    return pri, ext


def arr(shape, seed=0, scale=1.0, base=100.0):
    """Deterministic array of pairwise different positive values (no randomness needed)."""
    n = int(np.prod(shape))
    v = base + ((np.arange(n) * 37 + 11 * seed) % (4 * n + 1)) * 0.5 * scale + np.arange(n) / 64.0 + seed
    return v.reshape(shape).astype(float)


def frame(shape=(4, 4), level="L2a", n=0, img=None, err=None, dq=None, name=None, errname=None, **kw):
    pri, ext = headers(level, **kw)
    img = arr(shape, n) if img is None else np.array(img)
    shape = img.shape
    err = arr(shape, n + 50, base=1.0, scale=0.1) if err is None else np.array(err, dtype=float)
    dq = np.zeros(shape, dtype=np.uint16) if dq is None else np.array(dq)
    f = data.Image(img, pri_hdr=pri, ext_hdr=ext, err=err, dq=dq)
    f.filename = name or "CGI_0000%03d_%s%s.fits" % (n, level, "_" if level in ("L1", "L3", "L4") else "")
    f.ext_hdr["HISTORY"] = "made by kit %d" % n
    return f


def dataset(n=2, shape=(4, 4), level="L2a", **kw):
    return data.Dataset([frame(shape, level, i, **kw) for i in range(n)])


def parents(n=2, shape=(4, 4), level="L2b", start=0):
    """The (shared, never modified) files a calibration product was made from."""
    k = (n, shape, level, start)
    if k not in _PAR:
        _PAR[k] = _parents(*k)
    return _PAR[k]


def _parents(n, shape, level, start):
    return data.Dataset([frame(shape, level, start + i) for i in range(n)])


def cal_headers(**kw):
    pri, ext = headers("CAL", **kw)
    return pri, ext


# --- one calibration product of every kind, with tiny contents
def dark(shape=(4, 4), n=0, err=None, img=None, dq=None, par=None, **kw):
    pri, ext = cal_headers(**kw)
    img = arr(shape, 7 + n, base=1.0, scale=0.05) if img is None else np.array(img, dtype=float)
    err = arr(img.shape, 9 + n, base=0.1, scale=0.01) if err is None else err
    dq = np.zeros(img.shape, dtype=np.uint16) if dq is None else np.array(dq)
    return data.Dark(img, pri_hdr=pri, ext_hdr=ext, input_dataset=par or parents(start=n), err=err, dq=dq,
                     err_hdr=fits.Header())


def flat(shape=(4, 4), n=0, img=None, err=None, dq=None, **kw):
    pri, ext = cal_headers(**kw)
    img = 0.75 + (arr(shape, n, base=0.0, scale=0.01)) / 50 if img is None else np.array(img, dtype=float)
    f = data.FlatField(img, pri_hdr=pri, ext_hdr=ext, input_dataset=parents(start=n))
    f.err = np.array([arr(img.shape, 3, base=0.01, scale=0.001) if err is None else err])
    if dq is not None:
        f.dq = np.array(dq)
    return f


def nonlin(n=0, table=None, **kw):
    pri, ext = cal_headers(**kw)
    if table is None:
        table = np.array([[np.nan, 1., 10., 100.], [1., 0.90, 0.95, 0.99], [1000., 0.91, 0.96, 1.0],
                          [2000., 0.95, 1.00, 1.01], [3000., 1.0, 1.01, 1.06]])
    return data.NonLinearityCalibration(np.array(table, dtype=float), pri_hdr=pri, ext_hdr=ext, input_dataset=parents(start=n))


def kgain(value=2.5, err=0.25, n=0, **kw):
    pri, ext = cal_headers(RN=3.0, RN_ERR=0.1, **kw)
    ph = fits.Header()
    ph["PTCKEY"] = "ptc"
    return data.KGain(np.array([[float(value)]]), err=np.array([[[float(err)]]]), ptc=np.arange(6.).reshape(3, 2),
                      pri_hdr=pri, ext_hdr=ext, ptc_hdr=ph, input_dataset=parents(start=n))


def bpmap(shape=(4, 4), img=None, n=0, **kw):
    pri, ext = cal_headers(**kw)
    img = np.zeros(shape, dtype=np.uint16) if img is None else np.array(img)
    return data.BadPixelMap(img, pri_hdr=pri, ext_hdr=ext, input_dataset=parents(start=n))


def noisemaps(shape=(4, 4), n=0, stack=None, err=None, dq=None, bo=0.5, bo_err=0.125, **kw):
    pri, ext = cal_headers(B_O=bo, B_O_ERR=bo_err, **kw)
    stack = arr((3,) + tuple(shape), n, base=0.5, scale=0.01) if stack is None else np.array(stack, dtype=float)
    err = arr((1,) + stack.shape, n + 3, base=0.05, scale=0.001) if err is None else err
    dq = np.zeros(stack.shape, dtype=np.uint16) if dq is None else np.array(dq)
    return data.DetectorNoiseMaps(stack, pri_hdr=pri, ext_hdr=ext, input_dataset=parents(start=n), err=err, dq=dq,
                                  err_hdr=fits.Header())


def detparams(date="2023-11-01T00:00:00", **params):
    return data.DetectorParams(params, date_valid=Time(date, scale="utc"))


def astrom(n=0, values=None, **kw):
    pri, ext = cal_headers(**kw)
    v = np.array([80.5, -69.5, 21.8, 21.8, 45.0, 0.001, 0.002] + [0.1] * 36 + [3.]) if values is None else np.array(values, float)
    return data.AstrometricCalibration(v, pri_hdr=pri, ext_hdr=ext, input_dataset=parents(start=n))


def traps(n=0, **kw):
    pri, ext = cal_headers(**kw)
    return data.TrapCalibration(arr((3, 10), n), pri_hdr=pri, ext_hdr=ext, input_dataset=parents(start=n))


def fluxfac(value=2e-12, err=1e-13, n=0, **kw):
    pri, ext = cal_headers(**kw)
    return data.FluxcalFactor(np.array([[float(value)]]), err=np.array([[[float(err)]]]), pri_hdr=pri, ext_hdr=ext,
                              err_hdr=fits.Header(), input_dataset=parents(start=n))


def fpamfsam(date="2024-02-10T00:00:00", n=0):
    m = np.array([[[0., 0.125], [-0.125, 0.]], [[0., -0.25], [-0.25, 0.]]]) + n
    return data.FpamFsamCal(m, date_valid=Time(date, scale="utc"))


def ctcal(n=0, pos=None, psfs=None, fpam=(1., 1.), fsam=(1., 1.), **kw):
    pri, ext = cal_headers(EXTNAME="PSFCUBE", **kw)
    pos = np.array([[10., 12., 14.], [10., 13., 9.], [0.2, 0.4, 0.6]]) if pos is None else np.array(pos, float)
    psfs = arr((pos.shape[1], 3, 3), n) if psfs is None else psfs
    hl = [fits.ImageHDU(data=pos, name="CTEXCAM"), fits.ImageHDU(data=np.array(fpam, float), name="CTFPAM"),
          fits.ImageHDU(data=np.array(fsam, float), name="CTFSAM")]
    return data.CoreThroughputCalibration(psfs, pri_hdr=pri, ext_hdr=ext, input_hdulist=hl, input_dataset=parents(start=n),
                                          dq=np.zeros(psfs.shape, dtype=np.uint16))


def ndsweet(n=0, **kw):
    pri, ext = cal_headers(**kw)
    return data.NDFilterSweetSpotDataset(np.array([[2.0, 10., 11.], [2.5, 20., 12.], [2.25, 15., 30.]]) + n,
                                         pri_hdr=pri, ext_hdr=ext, input_dataset=parents(start=n))


CALS = dict(Dark=dark, FlatField=flat, NonLinearityCalibration=nonlin, KGain=kgain, BadPixelMap=bpmap,
            DetectorNoiseMaps=noisemaps, DetectorParams=detparams, AstrometricCalibration=astrom,
            TrapCalibration=traps, FluxcalFactor=fluxfac, FpamFsamCal=fpamfsam,
            CoreThroughputCalibration=ctcal, NDFilterSweetSpotDataset=ndsweet)


# --- snapshots: everything observable about a frame / dataset / calibration product
def hdr(h, drop=STAMPS):
    """Header as a comparable list of (keyword, value) in order (HISTORY/COMMENT repeated), without stamps."""
    out = []
    for c in h._cards:
        k = c.keyword
        if k in drop or k == "":
            continue
        v = c.__dict__.get("_value")     # (Card.value looks the astropy configuration up on every access)
        if v is None or c.__dict__.get("_modified") is None:
            v = c.value
        elif v.__class__ is str:
            v = v.rstrip()
        if v.__class__ is fits.card.Undefined:
            v = "undefined"
        out.append((k, "nan" if v != v else v))
    return out


def hdus(img):
    out = []
    for h in getattr(img, "hdu_list", []):
        d = None if h.data is None else (np.array(h.data) if h.data.dtype.names is None else str(h.data))
        out.append((h.name, d, hdr(h.header)))
    return out


def snap(img, names=True):
    s = dict(cls=type(img).__name__, data=np.array(img.data), err=np.array(img.err), dq=np.array(img.dq),
             pri=hdr(img.pri_hdr), ext=hdr(img.ext_hdr), errh=hdr(img.err_hdr), dqh=hdr(img.dq_hdr), hdus=hdus(img))
    if names:
        s["filename"], s["filedir"] = img.filename, img.filedir
    if hasattr(img, "hdu_names"):
        s["hdu_names"] = list(img.hdu_names)
    if hasattr(img, "params"):
        s["params"] = dict(img.params)
    if hasattr(img, "ptc"):
        s["ptc"], s["ptch"] = np.array(img.ptc), hdr(img.ptc_hdr)
    return s


def snap_ds(ds, names=True):
    return dict(n=len(ds.frames), frames=[snap(f, names) for f in ds.frames], all_data=np.array(ds.all_data),
                all_err=np.array(ds.all_err), all_dq=np.array(ds.all_dq), ids=None)


def diff(a, b, path="", rtol=0.0):
    """First difference between two snapshots, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s.%s present on one side only" % (path, k)
            d = diff(a[k], b[k], path + "." + str(k), rtol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return "%s shape %s vs %s" % (path, a.shape, b.shape)
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            ok = (a == b) | ((a != a) & (b != b))
            if rtol and not np.all(ok) and a.dtype.kind == "f":
                ok = ok | np.isclose(a, b, rtol=rtol, atol=rtol * np.nanmax(np.abs(b), initial=0.0))
        else:
            ok = np.array(a == b)
        if not np.all(ok):
            i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
            return "%s%s: %r vs %r" % (path, i, np.atleast_1d(a)[i], np.atleast_1d(b)[i])
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            extra = [x for x in b if x not in a] if not any(isinstance(x, (tuple, list)) and any(isinstance(y, np.ndarray) for y in x) for x in list(a) + list(b)) else ""
            return "%s length %d vs %d %s" % (path, len(a), len(b), str(extra)[:200])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i), rtol)
            if d:
                return d
        return None
    if rtol and isinstance(a, float) and isinstance(b, float) and abs(a - b) <= rtol * max(abs(a), abs(b)):
        return None
    if a != b and not (a != a and b != b):
        return "%s: %r vs %r" % (path, a, b)
    return None


def snap_any(x):
    if isinstance(x, data.Dataset):
        return snap_ds(x)
    if isinstance(x, data.Image):
        return snap(x)
    if isinstance(x, (list, tuple)):
        return [snap_any(y) for y in x]
    if isinstance(x, dict):
        return {str(k): snap_any(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, fits.Header):
        return hdr(x)
    if isinstance(x, fits.ImageHDU):
        return (x.name, np.array(x.data), hdr(x.header))
    return copy.deepcopy(x)


class err_tracking:
    """Both values of the error-tracking setting are part of the configuration space."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old = corgidrp.track_individual_errors
        corgidrp.track_individual_errors = self.on

    def __exit__(self, *a):
        corgidrp.track_individual_errors = self.old
