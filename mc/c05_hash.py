"""C05: fingerprints of every product kind under every single-element change, every re-encoding of the same content (headers, names,
memory layout, byte order, copies, saving and loading, order of set-up), and in fresh processes with other hash seeds and time zones."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc import kit
from mc.core import Bad, REPO, VERIF
import corgidrp.data as data


def make(kind):
    if kind == "Image":
        return kit.frame((3, 4), "L2a", 0, dq=np.arange(12).reshape(3, 4).astype(np.uint16))
    if kind == "Image3D":
        f = kit.frame(None, "L2a", 0, img=kit.arr((2, 2, 3)))
        f.ext_hdr["DATATYPE"] = "Image"     # (a file's type is not guessed from a cube)
        return f
    return kit.CALS[kind]()


KINDS = ["Image", "Image3D"] + list(kit.CALS)


def re_headers(o):
    o.pri_hdr["OBSNUM"] = 99
    o.ext_hdr["NEWKEY"] = 1
    o.ext_hdr["HISTORY"] = "x"
    o.err_hdr["X"] = 1
    o.dq_hdr["X"] = 1
    o.filename, o.filedir = "other.fits", "elsewhere"
    return o


def re_fortran(o):
    o.data, o.err, o.dq = np.asfortranarray(o.data), np.asfortranarray(o.err), np.asfortranarray(o.dq)
    return o


def re_strided(o):
    for n in ("data", "err", "dq"):
        a = getattr(o, n)
        setattr(o, n, np.repeat(a, 2, axis=-1)[..., ::2])
    return o


def re_bigendian(o):
    for n in ("data", "err", "dq"):
        a = getattr(o, n)
        setattr(o, n, a.astype(a.dtype.newbyteorder(">")))
    return o


def re_copy(o):
    return o.copy()


def re_light(o):
    return o.copy(copy_data=False)


def re_dataset(o):
    if o.data.ndim != 2 or o.err.shape[0] != 1:
        return o
    return data.Dataset([o, make("Image")][:1]).frames[0]


REENC = dict(headers=re_headers, fortran=re_fortran, strided=re_strided, bigendian=re_bigendian, copy=re_copy, light_copy=re_light, dataset=re_dataset)


def hashes():
    out = {k: make(k).get_hash() for k in KINDS}
    out["params2"] = kit.detparams(FWC_PP_E=123.0, ROWREADT=0.5).get_hash()
    return out


def child(seed, tz, cwd, order):
    """Fingerprints computed in a process of its own."""
    env = dict(os.environ, PYTHONHASHSEED=str(seed), TZ=tz, PYTHONPATH=REPO + ":" + VERIF)
    code = ("import warnings, json, sys; warnings.simplefilter('ignore')\nfrom mc import c05_hash as h\n"
            "K = h.KINDS[::%d]\nout = {k: h.make(k).get_hash() for k in K}\n"
            "out['params2'] = h.kit.detparams(FWC_PP_E=123.0, ROWREADT=0.5).get_hash()\n"
            "import corgidrp.data as d\nout.update({'file ' + k: d.autoload(p).get_hash() for k, p in json.loads(sys.argv[1]).items()})\n"
            "print('@@' + json.dumps(out))" % order)
    return env, cwd, code


def run(c):
    c.bound(kinds=KINDS, single_changes="every element of data, uncertainties and flags x every bit of a flag / last bit of a value", reencodings=list(REENC) + ["save/load"],
            processes="hash seeds x time zones x order of construction")

    def job(c, kind):
        base = make(kind)
        h0 = base.get_hash()
        c.step()
        with c.case("repeat/" + kind) as go:
            if go:
                c.equal(base.get_hash(), h0, "fingerprint asked for twice")
                c.equal(make(kind).get_hash(), h0, "fingerprint of an equal product")
                c.expect(isinstance(h0, str) and len(h0) >= 32, "not a fingerprint: %r" % (h0,))
                c.step(2)
                c.state("hash", kind, h0)
        # re-encodings, one and two at a time
        for names in itertools.chain(((n,) for n in REENC), itertools.permutations(REENC, 2)):
            with c.case("same/%s/%s" % (kind, "+".join(names))) as go:
                if go:
                    o = make(kind)
                    if kind in ("DetectorParams",) and "headers" in names:
                        o.filename, o.filedir = "other.fits", "elsewhere"
                        names = [n for n in names if n != "headers"]
                    for n in names:
                        o = REENC[n](o)
                    c.step()
                    c.equal(o.get_hash(), h0, "fingerprint after " + "+".join(names))
        with c.case("file/" + kind) as go:
            if go:
                o = make(kind)
                d = c.newdir("f")
                o.save(filedir=d, filename="a_CAL.fits")
                p = os.path.join(d, "a_CAL.fits")
                c.equal(o.get_hash(), h0, "fingerprint after saving")
                for q in (data.autoload(p), type(o)(p), data.autoload(p).copy()):
                    c.step()
                    c.equal(q.get_hash(), h0, "fingerprint of the loaded file")
        if kind == "DetectorParams":
            return
        # every single element
        seen = {h0: "unchanged"}
        for part in ("data", "err", "dq"):
            a0 = getattr(base, part)
            for k in range(a0.size):
                flips = range(16) if part == "dq" and (a0.size <= 16 or c.thorough) else (0, 7) if part == "dq" else ("next", "neg", "zero", "nan")
                for fl in flips:
                    with c.case("change/%s/%s/%d/%s" % (kind, part, k, fl)) as go:
                        if not go:
                            continue
                        o = make(kind)
                        a = getattr(o, part)
                        old = a.ravel()[k]
                        if isinstance(fl, int):
                            new = old.dtype.type(int(old) ^ (1 << fl)) if old.dtype.kind in "iu" else old + (1 << fl)
                        elif a.dtype.kind in "iu":
                            new = old.dtype.type({"next": int(old) ^ 1, "neg": int(old) ^ 128, "zero": int(old) ^ 4, "nan": int(old) ^ 64}[fl])
                        else:
                            new = {"next": np.nextafter(old, np.inf), "neg": -old, "zero": 0.0, "nan": np.nan}[fl]
                        if new == old or (new != new and old != old):
                            continue
                        a.ravel()[k] = new
                        a[np.unravel_index(k, a.shape)] = new
                        c.step()
                        h = o.get_hash()
                        c.expect(h != h0, lambda: "changing %s[%d] from %r to %r does not change the fingerprint" % (part, k, old, new))
                        c.state("hash", h)

    c.fan(KINDS, job)

    # detector parameters
    p0 = kit.detparams()
    h0 = p0.get_hash()
    params = dict(p0.params)
    for k, v in params.items():
        for what in ("more", "less", "sign", "tiny"):
            if not isinstance(v, (int, float)) or isinstance(v, bool):
                new = {"more": "x"}.get(what)
                if new is None:
                    continue
            else:
                new = {"more": v + 1, "less": v / 2.0 if v else 7.0, "sign": -v if v else -3.0, "tiny": float(np.nextafter(float(v), 1e9)) if v else 1e-9}[what]
            with c.case("param/%s/%s" % (k, what)) as go:
                if go:
                    c.step()
                    o = kit.detparams(**{k: new})
                    c.state("param", o.get_hash())
                    c.expect(o.get_hash() != h0, "changing %s from %r to %r does not change the fingerprint" % (k, v, new))
                    q = kit.detparams()
                    q.params[k] = new
                    c.equal(q.get_hash(), o.get_hash(), "fingerprint of equal parameters")
    for ks in itertools.permutations(list(params)[:3]):
        with c.case("param-order/%s" % (ks,)) as go:
            if go:
                c.step()
                c.equal(kit.detparams(**{k: params[k] for k in ks}).get_hash(), h0, "parameters given in another order")
    for date in ("2023-11-01T00:00:00", "2031-01-01T00:00:00"):
        with c.case("param-date/" + date) as go:
            if go:
                c.step()
                d = c.newdir("p")
                o = kit.detparams(date=date)
                o.save(filedir=d)
                c.equal(data.DetectorParams(o.filepath).get_hash(), h0, "parameters from a file")

    # other processes
    want = hashes()
    d = c.newdir("files")
    files = {}
    for k in KINDS:
        o = make(k)
        o.save(filedir=d, filename=k + "_x.fits")
        files[k] = os.path.join(d, k + "_x.fits")
        want["file " + k] = want[k]
    jobs = [(s, tz, o) for s, tz, o in itertools.product((0, 1, 4242) if c.thorough else (0, 4242), ("UTC", "Asia/Tokyo"), (1, -1))]
    if not c.thorough:
        jobs = [(0, "UTC", 1), (4242, "Asia/Tokyo", -1)]
    kids = []
    for s, tz, o in jobs:
        if c.only is not None and c.only != "process/%s/%s/%s" % (s, tz, o):
            continue
        env, cwd, code = child(s, tz, c.newdir("cwd"), o)
        kids.append(((s, tz, o), subprocess.Popen([sys.executable, "-c", code, json.dumps(files)], env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for (s, tz, o), p in kids:
        out, err = p.communicate()
        with c.case("process/%s/%s/%s" % (s, tz, o)) as go:
            if go:
                c.expect("@@" in out, "the other process failed: " + err[-500:])
                got = json.loads(out.split("@@")[1])
                for k in got:
                    c.step()
                    c.equal(got[k], want[k], "fingerprint of %s in another process" % k)
                c.equal(len(got), len(want), "fingerprints")
