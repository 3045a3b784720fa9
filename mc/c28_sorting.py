"""C28: all small pupil-imaging acquisitions of the documented pattern (mean-frame set, k-gain sequence, non-linearity sequences, EM-gain set, in every
order of acquisition) x orders of the frames in the dataset, against the labels the generator gave the frames."""
import contextlib
import io
import itertools

import numpy as np

from mc import kit
import corgidrp.data as data
from corgidrp import sorting

MEAN_T = 5.0


def M(n):
    return [(1.0, MEAN_T, "MNFRAME")] * n


def K(ts, rep, n, label="KGAIN"):
    return [(1.0, t, label) for t in list(ts) + [ts[rep]] for _ in range(n)]


def N(g, ts, rep):
    return [(g, t, "NONLIN") for t in list(ts) + [ts[rep]]]


def E(gains, t2=3.0, n1=3, n2=4):
    """EM gain calibration: unity frames at two exposure times, then the gains."""
    return [(1.0, MEAN_T, None)] * n1 + [(1.0, t2, None)] * n2 + [(g, MEAN_T, None) for g in gains for _ in range(n1)]


def acquire(blocks, gap, first=7):
    out, i = [], first
    for k, b in enumerate(blocks):
        if k and not gap and b[0][:2] == blocks[k - 1][-1][:2]:
            return None         # nothing tells where the one ends and the other starts
        for g, t, lab in b:
            out.append((i, g, t, lab))
            i += 1
        i += gap
    return out


_tmpl = {}


def build(seq):
    if "f" not in _tmpl:
        _tmpl["f"] = kit.frame((1, 1), "L1", 0, VISTYPE="PUPILIMG")
    frames = []
    for i, g, t, lab in seq:
        f = _tmpl["f"].copy()
        f.ext_hdr["EMGAIN_C"], f.ext_hdr["EXPTIME"], f.pri_hdr["OBSNAME"] = g, t, "UNKNOWN"
        f.filename, f.filedir = "CGI_EXCAM_L1_%010d.fits" % i, "x"
        f.data[0, 0] = i
        frames.append(f)
    return data.Dataset(frames)


def orders(seq, more):
    n = len(seq)
    yield "given", seq
    yield "reversed", seq[::-1]
    yield "interleaved", seq[1::2] + seq[0::2]
    if more:
        yield "rotated", seq[n // 3:] + seq[:n // 3]
        yield "by gain", sorted(seq, key=lambda s: (-s[1], s[2], -s[0]))
        for k in range(0, n, max(1, n // 6)):
            s = list(seq)
            s[k], s[-1 - k] = s[-1 - k], s[k]
            yield "swap%d" % k, s


def check(c, seq, cal, what):
    ds = build(seq)
    before = [(f.filename, f.pri_hdr["OBSNAME"]) for f in ds.frames]
    c.step()
    with contextlib.redirect_stdout(io.StringIO()):
        out = sorting.sort_pupilimg_frames(ds, cal_type=cal)
    kg = cal.lower() in ("k-gain", "kgain")
    want = {"CGI_EXCAM_L1_%010d.fits" % i: (lab, g, t, i) for i, g, t, lab in seq if lab in ("MNFRAME", "KGAIN") or lab == "NONLIN" and not kg}
    got = {f.filename: (f.pri_hdr["OBSNAME"], f.ext_hdr["EMGAIN_C"], f.ext_hdr["EXPTIME"], f.data[0, 0]) for f in out.frames}
    c.equal(len(out.frames), len(got), what + ": number of different frames")
    for k in sorted(set(got) | set(want)):
        c.expect(got.get(k) == want.get(k), lambda: "%s: frame %s is sorted as %r, was taken as %r" % (what, k, got.get(k), want.get(k)))
    c.equal([(f.filename, f.pri_hdr["OBSNAME"]) for f in ds.frames], before, what + ": the dataset passed in")
    c.equal([f.data[0, 0] for f in ds.frames], [s[0] for s in seq], what + ": pixels of the dataset passed in")


def sequences(thorough):
    """The k-gain and non-linearity sequences."""
    pool = [[1., 2., 4.], [1., 3., 4., 6.]] + ([[1., 2.], [2., 3., 6., 7., 8.]] if thorough else [])
    for ts in pool:
        for rep in range(len(ts) - 1):
            for n in ((1, 2, 3) if thorough else (1, 2)):
                yield ts, rep, n


def run(c):
    seqs = list(sequences(c.thorough))
    nls = [[(8.0, [0.5, 1., 2.], 0), (30., [0.5, 1.5], 0)], [(2.5, [0.5, 2., 4., 7.], 2), (8.0, [1., 2., 4.], 1)]] + ([[(g, [0.5, 1., 2., 5.][:k + 2], k % 2) for k, g in enumerate((30., 2.5, 8.0))]]
                                                                                         if c.thorough else [])
    c.bound(kgain_sequences=len(seqs), nonlinearity_sets=len(nls), acquisition_orders=24, gaps_between_sets=2, dataset_orders="4-11")
    c.assume("the mean-frame set has more frames than any other unity-gain exposure time; no k-gain exposure has the mean-frame exposure time; the EM-gain exposures are longer than "
             "the shortest of a sequence; sets of the same kind taken back to back cannot be told apart (left out)")
    items = [(s, ni, p) for s in seqs for ni in range(len(nls)) for p in itertools.permutations("MKNE")]

    def one(c, it):
        (ts, rep, n), ni, perm = it
        egains = [(1.1, 2.0), (1.1, 8.0)][ni % 2]
        for gap in (0, 1):
            B = dict(M=M(2 * n + 5), K=K(ts, rep, n), N=[x for g, t, r in nls[ni] for x in N(g, t, r)], E=E(egains))
            seq = acquire([B[x] for x in perm], gap)
            if seq is None:
                continue
            for oname, order in orders(seq, c.thorough):
                for cal in ("k-gain", "non-lin"):
                    if not c.thorough and (oname == "interleaved") != (cal == "k-gain") and oname != "given":
                        continue
                    with c.case("%s/%d/%d:%d:%s:gap%d:%s:%s" % ("-".join("%g" % t for t in ts), rep, n, ni, "".join(perm), gap, oname, cal)) as go:
                        if not go:
                            continue
                        check(c, order, cal, "%s, %s" % ("".join(perm), oname))
                        c.state(order, cal)
                        c.outcome("".join(perm), cal, n, rep)

    c.fan(items, one)

    # two k-gain sequences: the longer one counts, wherever it was taken
    def two(c, it):
        (la, lb), swap, gap = it
        a, b = [1., 2., 4., 6., 7.][:la], [1.5, 2.5, 3.5, 6.5, 8.][:lb]
        la_, lb_ = ("KGAIN", None) if la > lb else (None, "KGAIN")
        blocks = [K(a, 0, 2, la_), K(b, 1, 2, lb_)]
        rest = [M(9), E((1.1, 2.0))]
        for k, bl in enumerate([rest[:1] + blocks + rest[1:], blocks[:1] + rest + blocks[1:], blocks + rest, rest + blocks]):
            bl = [blocks[1 - blocks.index(x)] if swap and x in blocks else x for x in bl]
            seq = acquire(bl, gap)
            if seq is None:
                continue
            for oname, order in orders(seq, False):
                with c.case("two:%d-%d:%d:%d:%d:%s" % (la, lb, swap, gap, k, oname)) as go:
                    if go:
                        check(c, order, "k-gain", "two sequences")
                        c.state(order)

    c.fan([(ab, s, g) for ab in ((2, 3), (2, 4), (3, 4), (4, 3), (5, 3), (4, 5), (3, 2)) for s in (False, True) for g in (1, 3)], two)

    # frames with a gain that form no non-linearity sequence (nothing repeated, a decrease only, a repetition without a decrease, too few), or two of different length
    def stray(c, it):
        g, ts, first, after, gap = it
        bad = [(g, t, None) for t in ts]
        good = [(g, t, "NONLIN") for t in after]
        blocks = [M(9), K([1., 2., 4.], 0, 2), N(8.0, [0.5, 1., 2.], 0)]
        mine = [x for x in ([bad, good] if first else [good, bad]) if x]
        for k, bl in enumerate([blocks + mine, mine + blocks, blocks[:1] + mine[:1] + blocks[1:] + mine[1:], blocks[:2] + mine[:1] + blocks[2:] + mine[1:]]):
            seq = acquire(bl, gap)
            if seq is None:
                continue
            for oname, order in orders(seq, False):
                with c.case("stray:%g:%s:%d:%s:%d:%d:%s" % (g, ts, first, after, gap, k, oname)) as go:
                    if go:
                        check(c, order, "non-lin", "stray frames")
                        c.state(order)

    shapes = [(4., 2., 1.), (1., 2., 4., 3.), (1., 2., 4.), (1., 2., 4., 5., 3.), (4., 1., 2.), (2., 1.), (1.,)]
    items = [(g, ts, True, (), gap) for g in (2.5, 20.) for ts in shapes for gap in (1, 3)]
    items += [(20., ts, first, ns, gap) for ts in ((1., 2., 1.), (2., 4., 6., 4.)) for ns in ((0.5, 3., 5., 7., 3.), (0.5, 2., 3., 4., 6., 0.5)) for first in (True, False) for gap in (1, 3)]
    c.fan(items, stray)

    # the calibration's name
    with c.case("names") as go:
        if go:
            seq = acquire([M(9), K([1., 2., 4.], 0, 2), E((1.1, 2.0)), N(8., [0.5, 1., 2.], 0)], 1)
            for nm in ("k-gain", "kgain", "K-GAIN", "KGain", "non-lin", "nonlin", "non-linearity", "NonLinearity", "NON-LIN"):
                check(c, seq, nm, nm)
            for nm in ("", "gain", "k", "non", "linearity", "dark"):
                c.raises(lambda: sorting.sort_pupilimg_frames(build(seq), cal_type=nm), "calibration type %r" % nm)
    # frame numbers of any width
    with c.case("frame ids") as go:
        if go:
            for name, want in [("CGI_EXCAM_L1_0000000012.fits", 12), ("a_b_7.fits", 7), ("x_0010.fits", 10), ("dir_1/x_123456789012.fits", 123456789012)]:
                c.equal(sorting.extract_frame_id(name), want, name)
