"""C21: every combination of enabled criteria x per-frame values below / at / above each limit, for one to three frames."""
import itertools

import numpy as np

from mc import kit
import corgidrp.data as data
from corgidrp import l2a_to_l2b

# candidate frames: (number of bad pixels of 8 with DQ 2, with DQ 5, overexposed, Z2VAR, Z3VAR, Z2RES, Z3RES)
NPIX = 8


def mk(i, spec):
    n2, n5, ov, a, b, d, e = spec
    dq = np.zeros(NPIX, dtype=np.uint16)
    dq[:n2] = 2
    dq[n2:n2 + n5] = 5
    f = kit.frame((2, 4), "L2a", i, dq=dq.reshape(2, 4), OVEREXP=ov, Z2VAR=a, Z3VAR=b, Z2RES=d, Z3RES=e)
    return f


def good(spec, s):
    n2, n5, ov, a, b, d, e = spec
    frac, allowed, overexp, rms, bias = s
    nbad = sum(n for n, v in ((n2, 2), (n5, 5)) if v & ~allowed)
    if frac < 1 and nbad / NPIX > frac:
        return False
    if overexp and ov:
        return False
    if rms is not None and (a > rms or b > rms):
        return False
    if bias is not None and (d > bias or e > bias):
        return False
    return True


def run(c):
    fracs = [1.0, 0.5, 0.25, 0.0]
    alloweds = [0, 2, 5, 7, 1]
    lim = [None, 1.5, 0.0]
    settings = [(fr, al, ov, r, b) for fr in fracs for al in (alloweds if fr < 1 else [0]) for ov in (False, True) for r in lim for b in lim]
    z = 0.0
    specs = [(0, 0, False, z, z, z, z), (2, 0, False, z, z, z, z), (0, 2, False, z, z, z, z), (2, 2, False, z, z, z, z), (3, 2, False, z, z, z, z),
             (0, 5, False, z, z, z, z), (0, 0, True, z, z, z, z), (0, 0, False, 1.5, 1.5, z, z), (0, 0, False, 1.6, z, z, z),
             (0, 0, False, z, 1.5000001, z, z), (0, 0, False, z, z, 1.5, 1.5), (0, 0, False, z, z, 2.0, z), (0, 0, False, z, z, z, 1.6),
             (0, 0, False, -9.0, -9.0, -9.0, -9.0), (8, 0, True, 9.0, 9.0, 9.0, 9.0)]
    combos = [(i,) for i in range(len(specs))]
    combos += list(itertools.product(range(len(specs)), repeat=2))
    trip = [0, 1, 3, 6, 8, 11] if c.thorough else [0, 3, 6, 12]
    combos += list(itertools.product(trip, repeat=3))
    if c.thorough:
        combos += list(itertools.product([0, 4, 8], repeat=4))
    else:
        keep = [s for n, s in enumerate(settings) if n % 11 == 0 or (s[0] == 0.25 and s[1] == 2 and n % 3 == 0) or s == (1.0, 0, True, 1.5, 1.5)]
        settings = keep
    c.bound(frame_menu=len(specs), settings=len(settings), frame_tuples=len(combos), discard_modes=2)
    pool = {}

    def one(c, idx):
        key = "-".join(map(str, idx))
        if c.only is not None and not c.only.startswith(key + ":"):
            return
        frames = [mk(i, specs[k]) for i, k in enumerate(idx)]
        ds = data.Dataset(frames)
        before = kit.snap_ds(ds)
        for n, s in enumerate(settings):
            ok = [good(specs[k], s) for k in idx]
            for discard in (True, False) if len(idx) < 2 or c.thorough or n % 3 == 0 else (True,):
                with c.case("%s:%s:%s" % (key, "/".join(map(str, s)), "drop" if discard else "mark"), frames=[specs[k] for k in idx]) as go:
                    if not go:
                        continue
                    call = lambda: l2a_to_l2b.frame_select(ds, bpix_frac=s[0], allowed_bpix=s[1], overexp=s[2], tt_rms_thres=s[3],
                                                           tt_bias_thres=s[4], discard_bad=discard)
                    c.step()
                    c.state(idx, s, discard)
                    if not any(ok):
                        c.raises(call, "no frame passes", kinds=(ValueError,))
                        c.outcome("refused")
                        continue
                    out = call()
                    want = [i for i in range(len(idx)) if ok[i] or not discard]
                    got = [f.filename for f in out.frames]
                    c.equal(got, [before["frames"][i]["filename"] for i in want], "frames kept")
                    c.same(out.all_data, before["all_data"][want], "pixels", exact=True)
                    c.same(out.all_err, before["all_err"][want], "uncertainties", exact=True)
                    c.same(out.all_dq, before["all_dq"][want], "flags", exact=True)
                    for f, i in zip(out.frames, want):
                        c.equal(bool(f.ext_hdr.get("IS_BAD", False)), not ok[i], "frame %d marked bad" % i)
                        ext = [x for x in kit.hdr(f.ext_hdr) if not x[0].startswith("FRMSEL") and x[0] not in ("IS_BAD", "HISTORY")]
                        old = [x for x in before["frames"][i]["ext"] if x[0] not in ("IS_BAD", "HISTORY")]
                        dd = kit.diff(old, ext)
                        c.expect(dd is None, lambda: "other keywords of frame %d: %s" % (i, dd))
                        c.expect(kit.hdr(f.pri_hdr) == before["frames"][i]["pri"], "primary header of frame %d" % i)
                    c.outcome(idx, tuple(ok), discard)
        d = kit.diff(before, kit.snap_ds(ds))
        with c.case(key + ":input") as go:
            if go:
                c.expect(d is None, lambda: "the input was modified: %s" % d)

    c.fan(combos, one)
    # every flag bit counts unless that bit is allowed
    for bit in range(16):
        for allowed in [0] + [1 << b for b in range(16)] + [65535, 65535 - (1 << bit)]:
            with c.case("bit:%d:%d" % (bit, allowed)) as go:
                if not go:
                    continue
                fs = []
                for i in range(2):
                    f = kit.frame((2, 2), "L2a", i, dq=np.full((2, 2), (1 << bit) if i else 0, dtype=np.uint16))
                    fs.append(f)
                out = l2a_to_l2b.frame_select(data.Dataset(fs), bpix_frac=0.5, allowed_bpix=allowed)
                c.step()
                c.state("bit", bit, allowed)
                c.equal(len(out), 2 if allowed & (1 << bit) else 1, "frames kept")
                c.outcome(len(out))
