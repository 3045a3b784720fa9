"""C44: trap pumping: frames built from the physics of every sub-electrode location, every order the frames can come in, every number of temperatures; the
building blocks (probability functions, release times, local medians, dipole search, fits) on complete small grids against arithmetic written here."""
import contextlib
import io
import itertools
import math
import warnings

import numpy as np

import corgidrp.data as data
from corgidrp import pump_trap_calibration as ptc
from mc import kit

# sub-electrode location -> the dipoles it makes: (scheme, 'a' bright pixel above the dark one / 'b' below, probability function), the one the table quotes first
LOC = {"LHSel1": [(1, "b", 1), (3, "b", 3)], "CENel1": [(3, "b", 2), (4, "a", 2)], "RHSel1": [(1, "a", 1), (4, "a", 3)],
       "LHSel2": [(1, "a", 2), (2, "b", 1), (4, "a", 3)], "CENel2": [(1, "a", 1), (2, "b", 1)], "RHSel2": [(1, "a", 1), (2, "b", 2), (4, "b", 3)],
       "LHSel3": [(2, "b", 1), (4, "b", 3)], "CENel3": [(3, "a", 2), (4, "b", 2)], "RHSel3": [(2, "a", 1), (3, "a", 3)],
       "LHSel4": [(1, "b", 1), (2, "a", 2), (3, "a", 3)], "CENel4": [(1, "b", 1), (2, "a", 1)], "RHSel4": [(1, "b", 2), (2, "a", 1), (3, "b", 3)]}
ROWS = {1: (1, 2), 2: (2, 3), 3: (1, 4)}
SIDE = {10: "LHS", 20: "CEN", 30: "RHS"}
GOOD = (0.32, 2.0)
OTHER = (0.3, 4.0)
THIRD = (0.28, 12.0)


def prob(p, t, tau):
    a, b = ROWS[p]
    return np.exp(-a * t / tau) - np.exp(-b * t / tau)


def release(T, E, cs):
    """Release time of a hole trap: exp(E/kT) / (cross section * density of states * thermal speed)."""
    k, kb, h, me = 8.6173e-5, 1.381e-23, 6.626e-34, 9.109e-31
    gap = 1.1692 - 4.9e-4 * T ** 2 / (T + 655)
    mt, ml = 0.1905 * 1.1692 * me / gap, 0.1963 * me
    m = 6 ** (2 / 3) * (mt * mt * ml) ** (1 / 3)
    v = math.sqrt(3 * kb * T / m)
    n = 2 * (2 * math.pi * m * kb * T / h ** 2) ** 1.5
    return math.exp(E / (k * T)) / (cs * 1e-19 * n * v)


def scene(traps, temps, times, pumps=10000, shape=(40, 40), dn=6.0, sky=None, rep=1):
    """Noise-free frames: one per temperature, scheme, phase time and repetition; a trap is (pixel, location, E, cs[, temperatures])."""
    out = []
    for T in temps:
        for s in (1, 2, 3, 4):
            for t in times:
                img = np.full(shape, 3000.0) if sky is None else 3000.0 + sky
                for tr in traps:
                    (r, col), loc, E, cs = tr[:4]
                    if len(tr) > 4 and T not in tr[4]:
                        continue
                    tau = release(T, E, cs)
                    for sch, o, p in LOC[loc]:
                        if sch == s:
                            a = pumps * prob(p, t, tau)
                            img[r, col] += a
                            img[r + (1 if o == "a" else -1), col] -= a
                for _ in range(rep):
                    out.append(dict(img=img / dn, EXCAMT=T, TPTAU=t * 1e6, ARRTYPE="SCI", **{"TPSCHEM%d" % k: pumps if k == s else 0 for k in (1, 2, 3, 4)}))
    return out


def dataset(cards):
    return data.Dataset([kit.frame(None, "L2a", i, **c) for i, c in enumerate(cards)])


def analyse(ds, **kw):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ptc.tpump_analysis(ds, **kw)


def table(cal):
    """{(row, column, location, number): rest of the row}."""
    out = {}
    for row in cal.data:
        k = (row[0], row[1], SIDE[int(row[2]) // 10 * 10] + "el%d" % (int(row[2]) % 10), int(row[3]))
        if k in out:
            raise AssertionError("two rows for %s" % (k,))
        out[k] = row[4:]
    return out


def scale(traps, T, times, pumps, dn, field, k_prob):
    """e-/DN the analysis must find: the largest charge a trap can move over the median of the largest amplitudes seen in scheme 1."""
    peaks = {}
    for tr in traps:
        if len(tr) > 4 and T not in tr[4]:
            continue
        for sch, o, p in LOC[tr[1]]:
            if sch == 1:
                peaks[tr[0]] = peaks.get(tr[0], 0) + pumps * prob(p, times, release(T, tr[2], tr[3])) / dn
    top = pumps * {1: 1 / 4, 2: 4 / 27}[k_prob]
    if field is not None:
        top = min(top, field)
    return top / np.median([np.max(v) for v in peaks.values()])


def check(c, cal, traps, temps, times, pumps=10000, dn=6.0, field=None, k_prob=1, input_T=180, bins=(100, 10), tol=1e-5):
    got = table(cal)
    want = {}
    for tr in traps:
        (r, col), loc = tr[0], tr[1]
        n = 0
        while (r, col, loc, n) in want:
            n += 1
        want[(r, col, loc, n)] = tr
    c.equal(sorted(got), sorted(want), "traps in the table")
    order = sorted(temps)
    good = []
    single, gaps = 0, 0
    for k, tr in want.items():
        seen = [T for T in order if len(tr) < 5 or T in tr[4]]
        single += len(seen) <= 2
        gaps += order.index(seen[-1]) - order.index(seen[0]) != len(seen) - 1
        row = got[k]
        if [t for t in traps if t[0] == tr[0]] == [tr]:
            e = scale(traps, seen[0], times, pumps, dn, field, k_prob)
            sch, o, p = LOC[tr[1]][0]
            c.same(row[0], e / dn, "capture probability of %s" % (k,), rtol=tol)
            c.same(row[1], pumps * prob(p, times, release(seen[0], tr[2], tr[3])).max() / dn * e, "largest amplitude of %s" % (k,), rtol=tol)
            full = [tr]
        else:
            full = [t for t in traps if t[0] == tr[0] and t[1] == tr[1]]
        if len(seen) <= 2:
            c.expect(np.all(np.isnan(row[2:])), "%s was seen at %d temperatures, yet has a fit %s" % (k, len(seen), row[2:]))
            continue
        hit = [t for t in full if abs(row[2] - t[2]) < 1e-5 and abs(row[3] - t[3] * 1e-15) < 1e-4 * t[3] * 1e-15]
        c.expect(hit, "%s has E %s eV, cross section %s cm^2; the scene has %s" % (k, row[2], row[3], [t[2:4] for t in full]))
        c.expect(row[4] > 0.999 or len([t for t in traps if t[0] == tr[0]]) > 1, "adjusted R^2 of %s is %s" % (k, row[4]))
        c.same(row[5], release(input_T, hit[0][2], hit[0][3]), "release time of %s at %s K" % (k, input_T), rtol=1e-4)
        good.append((hit[0][2], hit[0][3] * 1e-15))
    h = cal.ext_hdr
    c.equal(h["TWOORLES"], single, "traps seen at two temperatures or fewer")
    c.equal(h["NONCONTC"], gaps, "traps with gaps in their temperatures")
    c.equal(h["UNTEMPFD"], 0, "release times left over")
    c.equal(h["BADFITCT"], 0, "dipoles without a fit")
    c.equal(h["PRSBELCT"], sum(len(LOC[t[1]]) * len([T for T in temps if len(t) < 5 or T in t[4]]) for t in traps), "dipoles before they were matched")
    if len({t[0] for t in traps}) < len({t[:2] for t in traps}):
        return  # traps of two kinds in one pixel: whether each fit is good enough to count is not predicted
    # densities: share of the image area's pixels per bin of energy level and cross section
    area = 1037 * 1056
    dens = {}
    if good:
        rE, rC = max(1, max(g[0] for g in good)) + 0.5 / bins[0], max(1e-14, max(g[1] for g in good)) + 1e-14 * 0.5 / bins[1]
        for E, cs in good:
            i, j = int(E / rE * bins[0]), int(cs / rC * bins[1])
            dens[(i, j)] = dens.get((i, j), 0) + 1 / area
    rows = np.asarray(cal.hdu_list[0].data)
    c.equal(len(rows), len(dens), "classes of traps")
    for (i, j), v in dens.items():
        e, s = (i + 0.5) * rE / bins[0], (j + 0.5) * rC / bins[1]
        c.expect(any(abs(w[0] - v) < 1e-9 * v and abs(w[1] - e) < 1e-4 and abs(w[2] - s) < 1e-3 * s for w in rows),
                 "class at %s eV, %s cm^2 with density %s missing from %s" % (e, s, v, rows.tolist()))


def orders(n):
    """Orders the frames are handed over in."""
    idx = list(range(n))
    return {"as taken": idx, "backwards": idx[::-1], "halves swapped": idx[n // 2:] + idx[:n // 2], "evens then odds": idx[::2] + idx[1::2],
            "every seventh": sorted(idx, key=lambda i: (i % 7, i))}


def whole(c, item):
    name, traps, kw = item
    with c.case("scene/%s" % name) as go:
        if not go:
            return
        kw = dict(kw)
        temps, nt, order = kw.pop("temps", (180, 190, 200)), kw.pop("nt", 12), kw.pop("order", "as taken")
        dn, rep, pumps, sky, field = kw.pop("dn", 6.0), kw.pop("rep", 1), kw.pop("pumps", 10000), kw.pop("sky", None), kw.get("mean_field")
        drop = kw.pop("drop", None)
        times = np.geomspace(1e-6, 1e-2, nt)
        cards = scene(traps, temps, times, pumps, dn=dn, sky=sky, rep=rep)
        if drop:
            cards = [x for x in cards if drop(x, times)]
        cards = [cards[i] for i in orders(len(cards))[order]]
        ds = dataset(cards)
        before = kit.snap_ds(ds)
        kw.setdefault("bin_size", None)
        cal = analyse(ds, **kw)
        c.step()
        c.state("scene", name)
        c.outcome(name.split("/")[0])
        d = kit.diff(before, kit.snap_ds(ds))
        c.expect(not d, lambda: "the frames handed in changed: %s" % d)
        check(c, cal, traps, temps, times, pumps, dn, field, kw.get("k_prob", 1), kw.get("input_T", 180), (kw.get("bins_E", 100), kw.get("bins_cs", 10)))
        c.equal(cal.ext_hdr["DATATYPE"], "TrapCalibration", "type of the product")
        c.equal([cal.ext_hdr["FILE%d" % i] for i in range(len(ds))], [f.filename for f in ds], "files the product names")


def scenes(thorough):
    """Scenes: each location alone next to a reference trap, all together, several classes of trap, several traps in one pixel, missing temperatures, options."""
    ref = ((30, 30), "RHSel1") + GOOD
    for loc in LOC:
        for cls in (GOOD, OTHER) + (((0.31, 3.0),) if thorough else ()):
            yield "location/%s/%s" % (loc, cls), [((8, 9), loc) + cls, ref], {}
    pix = [(4 + 8 * (i // 4), 3 + 9 * (i % 4)) for i in range(16)]
    every = [(p, l) + GOOD for p, l in zip(pix, LOC)]
    mixed = [(p, l) + (GOOD if i % 2 else OTHER) for i, (p, l) in enumerate(zip(pix, LOC))]
    yield "all locations", every, {}
    yield "all locations, two classes", mixed, {}
    few = [(pix[0], "LHSel2") + GOOD, (pix[5], "CENel3") + OTHER, (pix[10], "RHSel1") + GOOD]
    for o in orders(8):
        yield "order/%s" % o, few, dict(order=o)
        yield "order of temperatures/%s" % o, few, dict(order=o, temps=(200, 185, 190, 180))
    lone = [((8, 9), "CENel2") + GOOD, ((20, 20), "RHSel1") + GOOD]
    for n, E in enumerate((180, 170, 200, 185.5)):
        yield "input temperature/%s" % E, lone, dict(input_T=E)
    for b in ((50, 5), (7, 3), (200, 20)):
        yield "classes/%s" % (b,), few, dict(bins_E=b[0], bins_cs=b[1])
    for dn in (1.0, 0.5, 20.0):
        yield "gain/%s" % dn, few, dict(dn=dn)
    for n in (5000, 20000):
        yield "pumps/%s" % n, lone, dict(pumps=n)
    for f in (1000.0, 2499.0, 3000.0):
        yield "field/%s" % f, lone, dict(mean_field=f)
    yield "no local illumination", lone, dict(ill_corr=False)
    for b in (10, 20, 39, 40, 1000):
        yield "bins/%s" % b, few, dict(bin_size=b)
    steps = np.add.outer(np.repeat([0.0, 300.0, 100.0, 500.0], 10), np.repeat([0.0, 1000.0, 50.0, 700.0], 10))
    yield "stepped illumination", [((5, 6), "CENel2") + GOOD, ((25, 15), "RHSel1") + GOOD, ((15, 35), "LHSel4") + OTHER], dict(sky=steps, bin_size=10)
    yield "repeated phase times", few, dict(rep=2)
    yield "repeated phase times, backwards", few, dict(rep=3, order="backwards")
    for k in (1, 2, 3, 4):
        yield "scheme %d with fewer frames" % k, few, dict(nt=14, drop=lambda x, times, k=k: not (x["TPSCHEM%d" % k] and abs(x["TPTAU"] - times[-1] * 1e6) < 1e-3))
    for seen in ((180,), (180, 190), (180, 200), (190, 200), (190,)):
        yield "seen at %s" % (seen,), lone + [((30, 10), "RHSel2") + OTHER + (seen,)], {}
    for seen in ((180, 190, 210), (190, 200, 210), (180, 200, 210)):
        yield "seen at %s of four" % (seen,), lone + [((30, 10), "RHSel2") + OTHER + (seen,)], dict(temps=(180, 190, 200, 210))
    for loc in ("CENel2", "RHSel3", "LHSel1") + (("CENel4", "LHSel3", "RHSel1") if thorough else ()):
        yield "two traps at %s" % loc, [((8, 9), loc) + GOOD, ((8, 9), loc) + THIRD, ref], dict(nt=25)
    for a, b in (("CENel2", "CENel4"),) + ((("RHSel1", "LHSel1"),) if thorough else ()):
        yield "traps at %s and %s" % (a, b), [((8, 9), a) + GOOD, ((8, 9), b) + THIRD, ref], dict(nt=25)
    yield "probability 2", [((8, 9), "LHSel2") + GOOD, ((20, 9), "RHSel4", 0.3, 4.0)], dict(k_prob=2)


def refused(c):
    times = np.geomspace(1e-6, 1e-2, 8)
    lone = [((8, 9), "CENel2") + GOOD, ((20, 20), "RHSel1") + GOOD]
    full = scene(lone, (180, 190, 200), times)
    sets = {"no scheme 1": [x for x in full if not x["TPSCHEM1"]], "no scheme 1 at one temperature": [x for x in full if not (x["TPSCHEM1"] and x["EXCAMT"] == 190)],
            "no traps": scene([], (180,), times), "no trap in scheme 1": scene([((8, 9), "CENel1") + GOOD], (180,), times)}
    for name, cards in sets.items():
        with c.case("refused/%s" % name) as go:
            if go:
                c.raises(lambda: analyse(dataset(cards), bin_size=None), name, (ptc.TPumpAnException,))
                c.step()
    ds = dataset(full[:4])
    for kw in ({"k_prob": 3}, {"k_prob": 0}, {"ill_corr": 1}, {"tfit_const": None}, {"tau_fit_thresh": 1.1}, {"tau_fit_thresh": -0.1}, {"cs_fit_thresh": 2},
               {"tau_min": 1.0, "tau_max": 0.5}, {"tauc_min": 1.0, "tauc_max": 0.5}, {"pc_min": 1.0, "pc_max": 1.0}, {"E_min": 1.0, "E_max": 0.5},
               {"cs_min": 5.0, "cs_max": 5.0}, {"thresh_factor": 0}, {"thresh_factor": -1}, {"length_lim": 0}, {"length_lim": 1.5}, {"bins_E": 0}, {"bins_cs": -1},
               {"input_T": 0}, {"mean_field": 0}, {"mean_field": -1}, {"sample_data": 1}, {"time_head": 3}, {"offset_min": -1}):
        with c.case("refused/%s" % kw) as go:
            if go:
                c.raises(lambda: analyse(ds, **kw), str(kw), (TypeError, ValueError))
                c.step()
    with c.case("fewer schemes") as go:
        if go:
            cal = analyse(dataset([x for x in full if not x["TPSCHEM4"]]), bin_size=None)
            c.step()
            c.equal(len(cal.data), 0, "traps located with three of the four schemes")


def forms(c):
    """Probability functions and release times."""
    t = np.array([0.0, 1e-7, 1e-6, 3e-5, 1e-3])
    one = {"P1": (1,), "P2": (2,), "P3": (3,), "P1_P1": (1, 1), "P1_P2": (1, 2), "P2_P2": (2, 2), "P3_P3": (3, 3), "P2_P3": (2, 3)}
    for name, ps in one.items():
        for off, n in itertools.product((0, -3.5, 10), (2000, 1, 10000)):
            for taus in itertools.product((1e-6, 2e-4), repeat=len(ps)):
                for tcs in itertools.product((1e-8, 5e-6), repeat=len(ps)):
                    with c.case("form/%s/%s/%s/%s/%s" % (name, off, n, taus, tcs)) as go:
                        if go:
                            args = [v for pair in zip(tcs, taus) for v in pair]
                            want = off + n * sum((1 - np.exp(-t / tc)) * prob(p, t, tau) for p, tc, tau in zip(ps, tcs, taus))
                            c.same(getattr(ptc, name)(t, off, *args, num_pumps=n), want, name, rtol=1e-12)
                            if n == 2000:
                                c.same(getattr(ptc, name)(t, off, *args), want, name + " with its default", rtol=1e-12)
                            c.step()
                            c.state("form", name, off, n, taus, tcs)
    for T, E, cs in itertools.product((150, 165.5, 180, 220), (0.0, 0.2, 0.32, 0.5), (0.5, 2.0, 12.0, 50.0)):
        with c.case("release/%s/%s/%s" % (T, E, cs)) as go:
            if go:
                tau = release(T, E, cs)
                c.same(ptc.tau_temp(T, E, cs), tau, "release time", rtol=1e-10)
                for sE, sC in ((0, 0), (0.01, 0), (0, 0.3), (0.01, 0.3)):
                    c.same(ptc.sig_tau_temp(T, E, cs, sE, sC), tau * math.hypot(sC / cs, sE / (8.6173e-5 * T)), "its uncertainty", rtol=1e-9, atol=0)
                c.step()
                c.state("release", T, E, cs)


def light(c):
    """Local medians: every bin size on every small shape."""
    for shape in ((4, 4), (5, 7), (9, 6), (12, 12), (10, 25)):
        img = (np.arange(shape[0] * shape[1]).reshape(shape) * 37 % 101) * 1.0
        keep = img.copy()
        for size in list(range(1, max(shape) + 3)) + [None]:
            for on in (True, False):
                with c.case("light/%s/%s/%s" % (shape, size, on)) as go:
                    if not go:
                        continue
                    got, ill = ptc.illumination_correction(img, size, on)
                    c.step()
                    c.state("light", shape, size, on)
                    want = np.full(shape, np.median(img))
                    if on and size is not None:
                        s = min(size, min(shape))
                        # the last bin of each axis takes what is left over
                        for i, j in itertools.product(range(shape[0] // s), range(shape[1] // s)):
                            r = slice(i * s, shape[0] if i == shape[0] // s - 1 else (i + 1) * s)
                            q = slice(j * s, shape[1] if j == shape[1] // s - 1 else (j + 1) * s)
                            want[r, q] = sorted(img[r, q].ravel())[img[r, q].size // 2] if img[r, q].size % 2 else np.mean(sorted(img[r, q].ravel())[img[r, q].size // 2 - 1:img[r, q].size // 2 + 1])
                    c.same(ill, want, "local level")
                    c.same(got, keep - want, "corrected image")
                    c.same(img, keep, "input", exact=True)


def search(c, item):
    """Dipoles in all stacks of two (three) frames of one column of four pixels."""
    first, factor = item
    cells = list(itertools.product((-1.0, 0.0, 2.0), repeat=4))
    lo, hi = np.array([[1.0], [2.0], [3.0], [4.0]]), np.array([[5.0], [6.0], [7.0], [8.0]])
    for second in range(len(cells)):
        for times in ((1.0, 2.0), (1.0, 1.0), (2.0, 1.0, 1.0)):
            stack = np.array([cells[first], cells[second], cells[(first * 7 + second * 5 + 3) % len(cells)]][:len(times)]).reshape(len(times), 4, 1)
            for limit in range(1, len(times) + 1):
                with c.case("search/%d/%d/%s/%d/%s" % (first, second, times, limit, factor)) as go:
                    if not go:
                        continue
                    a, b, both = ptc.trap_id(stack, lo, hi, np.array(times), factor, limit)
                    c.step()
                    kinds = {"above": {}, "below": {}}
                    for z, f in enumerate(stack[:, :, 0]):
                        m, s = np.median(f), np.std(f) * factor
                        for r in range(4):
                            if f[r] > m + s:
                                if r < 3 and f[r + 1] < m - s:
                                    kinds["above"].setdefault(r, []).append(z)
                                if r > 0 and f[r - 1] < m - s:
                                    kinds["below"].setdefault(r, []).append(z)
                    ok = {k: {r for r, z in v.items() if len({times[i] for i in z}) >= limit} for k, v in kinds.items()}
                    c.equal(sorted(int(k[0]) for k in both), sorted(ok["above"] & ok["below"]), "pixels bright in both kinds of dipole")
                    c.equal(sorted(int(k[0]) for k in a), sorted(ok["above"] - ok["below"]), "pixels above")
                    c.equal(sorted(int(k[0]) for k in b), sorted(ok["below"] - ok["above"]), "pixels below")
                    for found, name in ((a, "amps_above"), (b, "amps_below"), (both, "amps_both")):
                        for k, v in found.items():
                            c.same(v[name], stack[:, k[0], k[1]], name, exact=True)
                            c.equal((float(v["loc_med_min"]), float(v["loc_med_max"])), (lo[k], hi[k]), "levels")
                    for k, v in both.items():
                        for o in ("above", "below"):
                            zs = kinds[o][k[0]]
                            c.same(v[o]["t"], [times[z] for z in zs], "phase times of the dipole " + o)
                            c.same(v[o]["amp"], [stack[z][k] for z in zs], "amplitudes of the dipole " + o)
                    c.state("search", first, second, times, limit, factor)


def fits(c, item):
    kind = item[0]
    with c.case("fit/" + "/".join(map(str, item))) as go, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not go:
            return
        c.state("fit", item)
        c.step()
        if kind == "cross section":
            _, E, cs, temps, tin = item
            tau = np.array([release(T, E, cs) for T in temps])
            got = ptc.fit_cs(tau, tau * 0.01, np.array(temps), 0.8, 0, 1, 0, 50, tin)
            if len(set(temps)) < 3:
                c.equal(got, (None,) * 7, "fit to fewer than three temperatures")
            else:
                c.same([got[0], got[2] * 1e15], [E, cs], "energy level and cross section", rtol=1e-4)
                c.same(got[4], 1.0, "R^2", rtol=1e-6)
                c.same(got[5], release(tin, E, cs), "release time at the temperature asked for", rtol=1e-4)
        elif kind.startswith("two"):
            _, scheme, p1, tau1, c1, p2, tau2, c2, both = item
            times = np.geomspace(1e-6, 1e-2, 30)
            one, two = [10000 * (x if kind == "two constant" else 1 - np.exp(-times / x)) * prob(p, times, tau) for p, tau, x in ((p1, tau1, c1), (p2, tau2, c2))]
            fn, lim = (ptc.trap_fit_const, 2) if kind == "two constant" else (ptc.trap_fit, 1e-5)
            got = fn(scheme, one + two, times, 10000, 0.999, 0.7e-6, 1.3e-2, 0, lim, -10, 10, **({"both_a": {"amp": one, "t": times}} if both else {}))
            c.expect(got is not None, "no fit found for an exact curve")
            if both:       # which of the two is the one above
                c.equal((sorted(got), {k: sorted(v) for k, v in got.items()}), (["a", "b"], {"a": [p1], "b": [p2]}), "probability functions above and below")
                traps = [(p1, got["a"][p1]), (p2, got["b"][p2])]
                c.equal([len(t) for _, t in traps], [1, 1], "traps above and below")
                traps = [(p, t[0]) for p, t in traps]
                want = [(p1, tau1, c1), (p2, tau2, c2)]
            else:
                traps = sorted(((p, t) for p, ts in got.items() for t in ts), key=lambda z: z[1][2])
                want = sorted([(p1, tau1, c1), (p2, tau2, c2)], key=lambda z: z[1])
            c.equal([p for p, _ in traps], [w[0] for w in want], "probability functions of the traps")
            c.same([t[2] for _, t in traps], [w[1] for w in want], "release times", rtol=1e-4 if kind == "two constant" else 0.05)
            if kind == "two constant":
                c.same([t[0] for _, t in traps], [w[2] for w in want], "capture probabilities", rtol=1e-4)
        else:
            _, scheme, p, tau, pc, n = item
            times = np.geomspace(1e-6, 1e-2, n)
            if kind == "constant":
                amps = 10000 * pc * prob(p, times, tau)
                got = ptc.trap_fit_const(scheme, amps, times, 10000, 0.8, 0.7e-6, 1.3e-2, 0, 2, -10, 10)
            else:
                amps = 10000 * (1 - np.exp(-times / pc)) * prob(p, times, tau)
                got = ptc.trap_fit(scheme, amps, times, 10000, 0.8, 0.7e-6, 1.3e-2, 0, 1e-5, -10, 10)
            c.expect(got is not None, "no fit found for an exact curve")
            c.equal(sorted(got), [p], "probability function of the trap")
            c.equal(len(got[p]), 1, "traps in the fit")
            c.same([got[p][0][0], got[p][0][2]], [pc, tau], "capture %s and release time" % ("probability" if kind == "constant" else "time"), rtol=1e-4)


def fit_items(thorough):
    for E, cs in itertools.product((0.2, 0.28, 0.32, 0.4), (1.0, 2.0, 12.0, 40.0)):
        for temps in ((180, 190, 200), (200, 180, 190), (160, 170, 180, 190, 200), (180, 190), (180,), (180, 190, 180), (180, 180, 190, 200)):
            yield "cross section", E, cs, temps, 180
        yield "cross section", E, cs, (170, 180, 190), 220.5
    for s, p in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (3, 2), (4, 3), (4, 2)):
        for tau, pc in itertools.product((3e-6, 1e-5, 1e-4, 1e-3, 4e-3), (0.3, 0.9, 1.0, 1.4)):
            for n in (10, 15) + ((25, 40) if thorough else ()):
                yield "constant", s, p, tau, pc, n
        if p != 2:
            for pc in (5e-7, 1e-6, 5e-6):
                yield "capture time", s, p, 1e-5, pc, 25
    for s, o in ((1, 1), (2, 1), (3, 3), (4, 3)):
        for (p1, p2), (t1, t2), (c1, c2), both in itertools.product(((o, o), (o, 2), (2, o), (2, 2)), ((1e-5, 1e-3), (1e-3, 1e-5), (3e-5, 3e-4), (4e-4, 2e-5)), ((0.9, 0.8), (1.0, 0.5)), (False, True)):
            if thorough or (s + (p1 == 2) + (t1 == 1e-5) + (c1 == 1.0)) % 2:
                yield "two constant", s, p1, t1, c1, p2, t2, c2, both
        for (t1, c1, t2, c2), both in itertools.product(((1e-5, 1e-6, 1e-3, 2e-6), (1e-3, 5e-7, 1e-5, 1e-6)), (False, True)):
            yield "two capture times", s, 2, t1, c1, 2, t2, c2, both


def tables(c):
    """Dictionary of traps -> calibration table -> dictionary."""
    pix = ((0, 0), (0, 1023), (1023, 0), (511, 512))
    for locs in list(itertools.combinations(LOC, 2)) + [tuple(LOC)]:
        with c.case("table/%s" % (locs,)) as go:
            if not go:
                continue
            d = {}
            for i, (loc, p, n) in enumerate(itertools.product(locs, pix, (0, 1, 2))):
                none = i % 5 == 4
                d[(p, loc, n)] = {"T": [180], "tau": [1e-5], "sigma_tau": [1e-6], "cap": [[0.5 + i, 0.01, 2000.0 + i, 0.7, 0.02, 1999.0], [9, 9, 9, 9, 9, 9]],
                                  "E": None if none else 0.2 + i / 1000, "sig_E": 0.01, "cs": None if none else 1e-15 * (i + 1), "sig_cs": 1e-16,
                                  "Rsq": None if none else 0.9 + i / 1e4, "tau at input T": None if none else 1e-6 * (i + 1), "sig_tau at input T": 1e-7}
            src = data.Dataset([kit.frame((4, 4), "L2a", 0), kit.frame((4, 4), "L2a", 1)])
            cal = ptc.create_TrapCalibration_from_trap_dict(d, src)
            c.step()
            c.state("table", locs)
            c.equal(cal.data.shape, (len(d), 10), "shape of the table")
            got = table(cal)
            c.equal(sorted(got), sorted((p[0], p[1], l, n) for p, l, n in d), "rows")
            back = ptc.rebuild_dict(cal.data)
            c.equal(set(back), set(d), "traps read back")
            for (p, l, n), v in d.items():
                want = [v["cap"][0][0], v["cap"][0][2]] + [np.nan if v[k] is None else v[k] for k in ("E", "cs", "Rsq", "tau at input T")]
                c.same(got[(p[0], p[1], l, n)], want, "row of %s" % ((p, l, n),), rtol=1e-12, atol=0)
                b = back[(p, l, n)]
                c.same([b["cap"][0], b["cap"][2], b["E"], b["cs"], b["Rsq"], b["tau at input T"]], want, "entry read back for %s" % ((p, l, n),), rtol=1e-12, atol=0)
            out = c.newdir("trap")
            cal.save(filedir=out)
            again = data.TrapCalibration(out + "/" + cal.filename)
            c.same(again.data, cal.data, "table read back from disk", exact=True)


def run(c):
    c.bound(locations=12, temperatures="1-4", frame_orders=5, phase_times="8-25 between 1 us and 10 ms", search="all pairs of frames of 4 pixels with 3 values")
    c.assume("noise-free frames; release times within the range of phase times; amplitudes above the detection threshold; capture probability constant, as the "
             "default fit assumes; repeated phase times agree with each other in whole scenes")
    forms(c)
    light(c)
    tables(c)
    refused(c)
    c.fan(fit_items(c.thorough), fits)
    c.fan([(i, f) for i in range(81) for f in ((0.5, 1.0, 1.3) if c.thorough else (1.0,))], search)
    c.fan(list(scenes(c.thorough)), whole)
