"""C03: every family of copies (shapes of up to three copy operations) of an object of every kind, then every edit of every part of
every member; the expected contents of all members come from a reference heap (which member holds which cell)."""
import itertools

import numpy as np
import astropy.io.fits as fits

from mc import kit, steps
from mc.core import Bad
import corgidrp.data as data


def image3():
    f = kit.frame(None, "L2a", 0, img=kit.arr((2, 2, 3), 1))
    return extras(f)


def extras(f):
    for i in range(2):
        h = fits.ImageHDU(data=np.arange(4.) + i, name="EXTRA%d" % i)
        h.header["OWN"] = i
        f.hdu_list.append(h)
        f.hdu_names.append("EXTRA%d" % i)
    f.filedir = "here"
    f.err_hdr["NOTE"] = "e"
    f.dq_hdr["NOTE"] = "d"
    f.ext_hdr["COMMENT"] = "a comment"
    return f


def kinds(thorough):
    K = {"Image": lambda: extras(kit.frame((3, 4), "L2a", 0)), "Image3D": image3}
    for n, mk in kit.CALS.items():
        K[n] = (lambda mk=mk, n=n: extras(mk()) if n not in ("CoreThroughputCalibration",) else mk())
    return K


# part -> (edit function(obj, counter), applies)
def _arr(name):
    def e(o, v):
        a = getattr(o, name)
        a.ravel()[0] = v % 200
        a[tuple(s - 1 for s in a.shape)] = v % 100
    return e


def _hdr(name):
    def e(o, v):
        h = getattr(o, name)
        h["NEWK%d" % (v % 10)] = v
        h["HISTORY"] = "edit %d" % v
        k = [k for k in h if k in ("EXPTIME", "OBSNUM", "NOTE")]
        for x in k:
            h[x] = v
    return e


def _delkey(o, v):
    for k in ("EXPTIME", "BUNIT", "OPMODE"):
        if k in o.ext_hdr:
            del o.ext_hdr[k]


def _hdulist(o, v):
    o.hdu_list.append(fits.ImageHDU(data=np.zeros(2), name="NEW%d" % v))


def _hdudata(o, v):
    if len(o.hdu_list):
        o.hdu_list[0].data.ravel()[0] = v


def _hduhdr(o, v):
    if len(o.hdu_list):
        o.hdu_list[0].header["NEWK"] = v
        o.hdu_list[len(o.hdu_list) - 1].header["NEWL"] = v


def _names(o, v):
    o.hdu_names.append("N%d" % v)


def _fname(o, v):
    o.filename = "name%d.fits" % v
    o.filedir = "dir%d" % v


def _addext(o, v):
    o.add_extension_hdu("ADD%d" % v, data=np.arange(3.))


def _addterm(o, v):
    if o.data.ndim in (2, 3):
        o.add_error_term(np.full(o.data.shape, 1.0 + v), "t%d" % v)


def _rescale(o, v):
    if o.data.ndim == 2:
        o.rescale_error(np.full(o.data.shape, 1.0 + v), "s%d" % v)


def _params(o, v):
    o.params["FWC_PP_E"] = float(v)
    o.params["NEWPAR%d" % v] = v


def _ptc(o, v):
    o.ptc[0, 0] = v


EDITS = dict(data=_arr("data"), err=_arr("err"), dq=_arr("dq"), pri_hdr=_hdr("pri_hdr"), ext_hdr=_hdr("ext_hdr"), err_hdr=_hdr("err_hdr"),
             dq_hdr=_hdr("dq_hdr"), delete_keyword=_delkey, hdu_list=_hdulist, hdu_data=_hdudata, hdu_header=_hduhdr, hdu_names=_names,
             file_name=_fname, add_extension=_addext, add_term=_addterm, rescale=_rescale, params=_params, ptc=_ptc, ptc_hdr=_hdr("ptc_hdr"))
PIXELS = {"data", "err", "dq", "add_term"}       # what a copy without pixels may share (an added term is written into the shared pixels)
ONLY = dict(params="params", ptc="ptc", ptc_hdr="ptc_hdr")


def attrs(o):
    """Every other public value an object carries (calibration values)."""
    out = {}
    for k, v in vars(o).items():
        if k in ("data", "err", "dq", "pri_hdr", "ext_hdr", "err_hdr", "dq_hdr", "hdu_list", "hdu_names", "filename", "filedir", "params", "ptc", "ptc_hdr"):
            continue
        out[k] = kit.hdr(v) if isinstance(v, fits.Header) else (v.copy() if isinstance(v, np.ndarray) else v)
    return out


def full(o):
    s = kit.snap(o)
    s["attrs"] = attrs(o)
    return s


def parts(s):
    return {k: s[k] for k in s}


# shapes: list of (source member, deep?) - member 0 is the original
def shapes(n):
    out = []

    def gen(cur, members):
        if cur:
            out.append(list(cur))
        if len(cur) == n:
            return
        for src in range(members):
            for deep in (True, False):
                cur.append((src, deep))
                gen(cur, members + 1)
                cur.pop()
    gen([], 1)
    return out


def pixel_groups(shape):
    g = [0]
    for i, (src, deep) in enumerate(shape):
        g.append(max(g) + 1 if deep else g[src])
    return g


SHARED = {"data": "data", "err": "err", "dq": "dq"}


def family(mk, shape):
    fam = [mk()]
    for src, deep in shape:
        fam.append(fam[src].copy() if deep else fam[src].copy(copy_data=False))
    return fam


def one(c, kind, mk, shape, edits):
    fam = family(mk, shape)
    grp = pixel_groups(shape)
    ref = [full(o) for o in fam]
    for i in range(1, len(fam)):
        d = kit.diff(ref[0], ref[i])
        if d:
            raise Bad("copy %d differs from the original: %s" % (i, d))
        if type(fam[i]) is not type(fam[0]):
            raise Bad("copy %d is a %s" % (i, type(fam[i]).__name__))
    loose = set()                # members whose uncertainties were replaced by an operation of their own
    for v, (who, part) in enumerate(edits):
        EDITS[part](fam[who], v + 3)
        c.step()
        now = [full(o) for o in fam]
        for j in range(len(fam)):
            if j == who:
                continue
            want = dict(ref[j])
            if grp[j] == grp[who] and part in PIXELS:
                for f in ("data", "err", "dq"):
                    want[f] = now[j][f]             # shared pixels may follow
                if part in SHARED and not (part == "err" and loose):
                    want[part] = now[who][part]     # ... and a shared array must follow
            if grp[j] == grp[who] and part == "hdu_data":
                want["hdus"] = now[j]["hdus"]
                want["attrs"] = now[j]["attrs"]
            if grp[j] == grp[who] and part in ("ptc", "params"):
                want["ptc"] = now[j].get("ptc")     # extension contents count as pixels here
                if "ptc" not in now[j]:
                    want.pop("ptc", None)
                if part == "params":
                    want["params"] = now[j]["params"]
            if grp[j] == grp[who]:
                want["attrs"] = now[j]["attrs"]
                if part == "ptc_hdr":
                    want["ptch"] = now[j]["ptch"]
            d = kit.diff(want, now[j])
            if d:
                raise Bad("editing %s of member %d changed member %d: %s" % (part, who, j, d))
        ref = now
        if part in ("add_term", "rescale"):
            loose.add(who)
    return fam


def ds_one(c, shape, who, part, n):
    """The same for datasets (of n frames): the frames of every member are checked."""
    base = data.Dataset([extras(kit.frame((3, 4), "L2a", i)) for i in range(n)])
    fam = [base]
    for src, deep in shape:
        fam.append(fam[src].copy() if deep else fam[src].copy(copy_data=False))
    grp = pixel_groups(shape)
    ref = [[full(f) for f in d.frames] for d in fam]
    for i in range(1, len(fam)):
        for k in range(n):
            d = kit.diff(ref[0][k], ref[i][k])
            if d:
                raise Bad("copy %d frame %d differs from the original: %s" % (i, k, d))
    cubes = [(d.all_data.copy(), d.all_err.copy(), d.all_dq.copy()) for d in fam]
    if part.startswith("cube_"):
        getattr(fam[who], part[5:])[0] += 1
    elif part == "step":
        fam[who].update_after_processing_step("edited", new_all_data=fam[who].all_data + 1, header_entries={"BUNIT": "new"})
    elif part == "frame_list":
        fam[who].frames[0] = fam[who].frames[-1]
    else:
        EDITS[part](fam[who].frames[-1], 5)
    c.step()
    for j in range(len(fam)):
        if j == who:
            continue
        pix = grp[j] == grp[who] and (part in PIXELS or part.startswith("cube_") or part in ("step", "rescale"))
        for k in range(n):
            now, want = full(fam[j].frames[k]), dict(ref[j][k])
            if pix:
                for f in ("data", "err", "dq"):
                    want[f] = now[f]
            if grp[j] == grp[who] and part == "hdu_data":
                want["hdus"] = now["hdus"]
            d = kit.diff(want, now)
            if d:
                raise Bad("editing %s of member %d changed frame %d of member %d: %s" % (part, who, k, j, d))
        if not pix:
            for a, b in zip(cubes[j], (fam[j].all_data, fam[j].all_err, fam[j].all_dq)):
                if not np.array_equal(a, b):
                    raise Bad("editing %s of member %d changed the cubes of member %d" % (part, who, j))


def run(c):
    K = kinds(c.thorough)
    ncopy = 3 if c.thorough else 2
    c.bound(kinds=list(K), copies=ncopy, edits=list(EDITS), members="original and all copies")

    def job(c, item):
        kind, shape = item
        if kind.startswith("Dataset"):
            n = int(kind[7:])
            for who in range(len(shape) + 1):
                for part in [e for e in EDITS if e not in ONLY] + ["cube_all_data", "cube_all_err", "cube_all_dq", "step", "frame_list"]:
                    with c.case("%s/%s/%d/%s" % (kind, "".join("%s%d" % ("L" if not d else "C", s) for s, d in shape), who, part)) as go:
                        if go:
                            c.state(kind, shape, who, part)
                            ds_one(c, shape, who, part, n)
            return
        mk = K[kind]
        for track in (False, True) if kind == "Image" else (False,):
            with kit.err_tracking(track):
                o = mk()
                have = [e for e in EDITS if e not in ONLY or hasattr(o, ONLY[e])]
                for who in range(len(shape) + 1):
                    for part in have:
                        key = "%s/%s/%d/%s/%s" % (kind, "".join("%s%d" % ("L" if not d else "C", s) for s, d in shape), who, part, track)
                        with c.case(key) as go:
                            if go:
                                c.state(key)
                                one(c, kind, mk, shape, [(who, part)])
                if kind in ("Image", "KGain", "Dark") and (c.thorough or len(shape) == 1 and kind == "Image" and track):
                    # two edits, on any two members
                    for (w1, p1), (w2, p2) in itertools.product(itertools.product(range(len(shape) + 1), have), repeat=2):
                        if not c.thorough and (w1 == w2):
                            continue
                        if len(shape) == 3 and kind != "Image":
                            continue
                        key = "%s/%s/%d/%s/%d/%s/%s" % (kind, "".join("%s%d" % ("L" if not d else "C", s) for s, d in shape), w1, p1, w2, p2, track)
                        with c.case(key) as go:
                            if go:
                                c.state(key)
                                one(c, kind, mk, shape, [(w1, p1), (w2, p2)])

    items = [(k, s) for k in K for s in shapes(ncopy if k in ("Image",) or c.thorough else (2 if k in ("KGain",) else 1))]
    items += [("Dataset%d" % n, s) for n in (1, 2, 3) for s in shapes(2)]
    c.fan(items, job)
    c.assume("a copy made without the pixels may share the contents (not the headers) of extra extensions and of calibration tables as well")
