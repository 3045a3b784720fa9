"""C17: a history monitor after every step of every chain; and every derivation history over a pool of frames (combine, photon-count,
build a dark/flat/bad-pixel map/any calibration kind from any ordered selection of pool members) against a reference that keeps the
set of contributing files of every product."""
import itertools
import os

import numpy as np

from mc import kit, chains, steps
from mc.core import Bad
import corgidrp.data as data
from corgidrp import combine, photon_counting, darks, flat, bad_pixel_calibration, astrom


def hist(h):
    return [str(x) for x in h.get("HISTORY", [])] if "HISTORY" in h else []


def hist_of(cards):
    return [str(v) for k, v in cards if k == "HISTORY"]


def on_step(c, env, s, ds, before, trace):
    old = [hist_of(f["ext"]) for f in before["frames"]]
    olde = [hist_of(f["errh"]) for f in before["frames"]]
    oldp = [hist_of(f["pri"]) for f in before["frames"]]
    names = [f["filename"] for f in before["frames"]]
    out = s(ds, env)
    n, m = s.name, len(old)
    for i, f in enumerate(out.frames):
        k = i
        if n == "frame_select":
            if len(set(names)) != m:
                continue
            k = names.index(f.filename)
        elif n == "combine_subexposures":
            k = i if m % 2 else 2 * i
        elif n in ("combine_subexposures_median", "get_pc_mean"):
            k = None
        new = hist(f.ext_hdr)
        cands = [k] if k is not None else range(m)
        hit = [j for j in cands if new[:len(old[j])] == old[j]]
        if not hit:
            raise Bad("%s: frame %d lost or reordered history: before %s after %s" % (n, i, [old[j] for j in cands], new))
        j = hit[0]
        if s.adds_history and len(new) <= len(old[j]):
            raise Bad("%s: no history entry was added to frame %d" % (n, i))
        if any(not x.strip() for x in new[len(old[j]):]):
            raise Bad("%s: an empty history entry was added" % n)
        if n != "get_pc_mean":
            e, p = hist(f.err_hdr), hist(f.pri_hdr)
            if e[:len(olde[j])] != olde[j] or p[:len(oldp[j])] != oldp[j]:
                raise Bad("%s: history of the uncertainties or of the primary header of frame %d lost: %s -> %s" % (n, i, olde[j], e))
    return out


# --- provenance
def listed(img):
    h = img.ext_hdr
    n = h["DRPNFILE"]
    files = [h["FILE%d" % i] for i in range(n)]
    extra = [k for k in h if k.startswith("FILE") and k[4:].isdigit() and int(k[4:]) >= n]
    return files, extra


def contributing(parts):
    """Reference: names and transitive parents, in order of first appearance.  parts: [(name, its own list or None)]"""
    out = []
    for name, own in parts:
        for x in [name] + (own or []):
            if x not in out:
                out.append(x)
    return out


def check(c, img, want, what):
    files, extra = listed(img)
    c.expect(len(set(files)) == len(files), lambda: "%s: a file is listed twice: %s" % (what, files))
    c.expect(sorted(files) == sorted(want), lambda: "%s lists %s, it was made from %s" % (what, files, want))
    c.expect(not extra, lambda: "%s: stale entries %s beyond the count %d" % (what, extra, len(files)))


def leaf(i):
    f = kit.frame(steps.FULL, "L2a", i, ISPC=True, EMGAIN_C=5000.0, RN=100.0, KGAINPAR=8.7, VISTYPE="DARK", img=kit.arr(steps.FULL, i))
    return f, f.filename, None


def sel_combine(parts, n):
    d = data.Dataset([p[0].copy() for p in parts])
    o = combine.combine_subexposures(d)
    return o[0]


def sel_pc(parts, n):
    d = data.Dataset([p[0].copy() for p in parts])
    return photon_counting.get_pc_mean(d, T_factor=1., pc_ecount_max=1e9, safemode=False)[0]


def sel_pcdark(parts, n):
    frs = [p[0].copy() for p in parts]
    for f in frs:
        f.pri_hdr["VISTYPE"] = "DARK"
        f.filename = f.filename
    return photon_counting.get_pc_mean(data.Dataset(frs), pc_master_dark=None, T_factor=1., pc_ecount_max=1e9, safemode=False)[0]


def sel_trad(parts, n):
    return darks.build_trad_dark(data.Dataset([p[0].copy() for p in parts]), kit.detparams(TELRSTRT=0, TELREND=1), detector_regions=steps.REGIONS, full_frame=True)


def sel_flat(parts, n):
    return flat.create_flatfield(data.Dataset([p[0].copy() for p in parts]))


BUILD = dict(combine=sel_combine, trad_dark=sel_trad, flat=sel_flat)


def program(c, prog, kinds):
    """prog: [(op, ordered member indices)]; every product joins the pool under a name of its own."""
    pool = [leaf(i) for i in range(3)]
    for step, (op, sel) in enumerate(prog):
        parts = [pool[j] for j in sel]
        want = contributing([(p[1], p[2]) for p in parts])
        with kit.err_tracking(False):
            img = BUILD[op](parts, step)
        c.step()
        check(c, img, want, "the result of %s over %s" % (op, [p[1] for p in parts]))
        if op == "combine":
            # names of combined frames: the last of the group; give half of them names of their own (both occur in practice)
            if step % 2 == 0:
                img.filename = "combined_%d_L2a_.fits" % step
            for k in ("VISTYPE",):
                img.pri_hdr[k] = "DARK"
            pool.append((img, img.filename, want))
    # the last pool members, as the inputs of every calibration kind
    if kinds:
        ds = data.Dataset([p[0].copy() for p in pool[-2:]])
        want = contributing([(p[1], p[2]) for p in pool[-2:]])
        for kind, mk in kit.CALS.items():
            if kind in ("DetectorParams", "FpamFsamCal"):
                continue
            keep = kit.parents
            kit.parents = lambda *a, **k: ds
            try:
                cal = mk()
            finally:
                kit.parents = keep
            c.step()
            check(c, cal, want, "a " + kind)
            c.expect(len(hist(cal.ext_hdr)) > 0, kind + ": no history")


def run(c):
    chains.explore(c, on_step, depth=3 if c.thorough else 2, modes=(False,))
    chains.explore(c, on_step, depth=2 if c.thorough else 1, modes=(True,))
    depth = 3
    progs = []

    def gen(prog, npool):
        if prog:
            progs.append(list(prog))
        if len(prog) == depth:
            return
        last = len(prog) == depth - 1
        for op in BUILD:
            if op != "combine" and not last and len(prog) > 0:
                continue
            for k in (1, 2, 3):
                for sel in itertools.permutations(range(npool), k):
                    if not c.thorough and (k == 3 and sel != tuple(sorted(sel)) or op == "flat" and k != 2 or op == "trad_dark" and (k != 2 or sel[0] > sel[1])):
                        continue
                    if last and max(sel) != npool - 1 and npool > 3 and not c.thorough:
                        continue           # depth-limited programs end on the newest product
                    if last and not c.thorough and len(prog) == 2 and (prog[0][1] not in ((0, 1), (2,), (1, 0)) or op == "combine" and k == 3):
                        continue
                    if op == "trad_dark" and k < 2:
                        continue
                    prog.append((op, sel))
                    gen(prog, npool + (op == "combine"))
                    prog.pop()

    gen([], 3)
    c.bound(derivation_depth=depth, pool="3 files and every combined product", derivations=len(progs), builders=list(BUILD), kinds=len(kit.CALS) - 2)

    def one(c, prog):
        key = "derive/" + "/".join("%s%s" % (o, "".join(map(str, s))) for o, s in prog)
        with c.case(key, program=prog) as go:
            if go:
                c.state(prog)
                program(c, prog, all(o == "combine" for o, _ in prog) and len(prog) == 2)

    c.fan(progs, one)

    # photon counting: bins of light frames, darks, light with a dark; combined inputs
    for n, bins, dark, pre in itertools.product((2, 4), (1, 2), (False, True), (False, True)):
        with c.case("pc/%d/%d/%s/%s" % (n, bins, dark, pre)) as go:
            if not go:
                continue
            frs = []
            for i in range(n):
                f = leaf(i)[0]
                f.pri_hdr["VISTYPE"] = "DARK" if dark else "TDEMO"
                f.ext_hdr["ISPC"] = True
                if pre:
                    g = leaf(10 + i)[0]
                    f._record_parent_filenames(data.Dataset([g, leaf(20)[0]]))
                frs.append(f)
            with kit.err_tracking(False):
                out = photon_counting.get_pc_mean(data.Dataset(frs), T_factor=1., pc_ecount_max=1e9, safemode=False, bin_size=n // bins, inputmode="darks" if dark else "illuminated")
            c.step()
            c.state("pc", n, bins, dark, pre)
            par = lambda i: [leaf(10 + i)[1], leaf(20)[1]] if pre else None
            if dark:
                check(c, out, contributing([(f.filename, par(i)) for i, f in enumerate(frs)]), "a photon-counted dark")
            else:
                k = n // bins
                c.equal(len(out), bins, "binned frames")
                for b in range(bins):
                    check(c, out[b], contributing([(frs[i].filename, par(i)) for i in range(b * k, b * k + k)]), "bin %d" % b)

    # bad-pixel maps from darks and flats that were themselves built
    for a, b in itertools.product(((0, 1), (1, 2), (0, 1, 2)), repeat=2):
        with c.case("bpmap/%s/%s" % (a, b)) as go:
            if not go:
                continue
            with kit.err_tracking(False):
                L = [leaf(i) for i in range(3)]
                d = sel_trad([L[i] for i in a], 0)
                d.filename = "x_DRK_CAL.fits"
                f = sel_flat([L[i] for i in b], 0)
                f.filename = "x_FLT_CAL.fits"
                bp = bad_pixel_calibration.create_bad_pixel_map(data.Dataset([L[0][0]]), d, f, fwidth=4)
            c.step(3)
            c.state("bpmap", a, b)
            check(c, bp, contributing([(d.filename, [L[i][1] for i in a]), (f.filename, [L[i][1] for i in b])]), "a bad-pixel map")
