"""C32: every 16-bit word and every single-bit 64-bit word is unpacked and packed again, for every array shape of a menu."""
import itertools

import numpy as np

import corgidrp.data as data
from corgidrp import detector
from mc import kit


def planes(words):
    """Reference: most significant bit first, plane 63-b is bit b (words: list of Python ints)."""
    return [[(w >> (63 - k)) & 1 for k in range(64)] for w in words]


def run(c):
    shapes = [(), (1,), (2,), (3, 2), (2, 3), (1, 4), (2, 2, 2)] + ([(5, 7), (3, 1, 4), (8, 8)] if c.thorough else [])
    dtypes = ["uint16", "uint64", ">u8", ">u2", "<u8", "uint32", "int64"]
    c.bound(words="all 65536 16-bit words, all 64 single bits and all pairs of bits of 64-bit words", shapes=str(shapes), dtypes=dtypes)
    words = list(range(65536)) + [1 << b for b in range(16, 64)]
    words += [(1 << a) | (1 << b) for a in range(64) for b in range(a)] + [2 ** 64 - 1]
    # 1. every word: its planes are its bits, packing gives it back
    for lo in range(0, len(words), 1024):
        chunk = words[lo:lo + 1024]
        with c.case("words:%d" % lo) as go:
            if not go:
                continue
            a = np.array(chunk, dtype=np.uint64)
            bits = data.unpackbits_64uint(a[:, np.newaxis], axis=1)
            back = data.packbits_64uint(bits, axis=1).reshape(a.shape)
            c.step(2)
            c.same(bits, np.array(planes(chunk)), "bit planes", exact=True)
            c.expect([int(x) for x in back] == chunk, "packing the planes does not give the words back")
            for w in chunk:
                c.state("w", w)
            c.outcome("words", bits)
    # 2. shapes and integer types: all fillings of small images with words that differ in every byte
    menu = [0, 1, 2, 4, 128, 256, 0x8001, 0x7FFF, 0xFFFF]
    for shape, dt in itertools.product(shapes, dtypes):
        n = int(np.prod(shape)) if shape else 1
        for rot in range(len(menu)):
            for stride in (1, 2, 5):
                with c.case("shape:%s:%s:%d:%d" % (shape, dt, rot, stride)) as go:
                    if not go:
                        continue
                    vals = [menu[(rot + stride * i) % len(menu)] for i in range(n)]
                    a = np.array(vals, dtype=dt).reshape(shape)
                    before = a.copy()
                    bits = data.unpackbits_64uint(a[..., np.newaxis], axis=a.ndim)
                    back = data.packbits_64uint(bits, axis=a.ndim).reshape(shape)
                    c.step(2)
                    c.state("s", shape, dt, vals)
                    c.same(bits, np.array(planes(vals)).reshape(shape + (64,)), "bit planes", exact=True)
                    c.expect(np.array_equal(np.array(back, dtype=np.uint64), np.array(a, dtype=np.uint64)), "round trip")
                    c.expect(np.array_equal(a, before), "the input was modified")
    # 3. the flag table
    with c.case("tables") as go:
        if go:
            f2b, f2v = data.get_flag_to_bit_map(), data.get_flag_to_value_map()
            v2f, b2f = data.get_value_to_flag_map(), data.get_bit_to_flag_map()
            c.step(4)
            doc = {"bad_pixel_unspecified": 0, "data_replaced_by_filled_value": 1, "bad_pixel": 2, "hot_pixel": 3, "not_used": 4,
                   "full_well_saturated_pixel": 5, "non_linear_pixel": 6, "pixel_affected_by_cosmic_ray": 7, "TBD": 8}
            c.equal(dict(f2b), doc, "flag positions")
            c.equal(set(f2b), set(f2v), "names of the two tables")
            c.equal(len(set(f2b.values())), len(f2b), "distinct bits")
            for name, b in f2b.items():
                c.equal(f2v[name], 2 ** b, "value of " + name)
                c.equal(b2f[b], name, "name of bit %d" % b)
                c.equal(v2f[2 ** b], name, "name of value %d" % 2 ** b)
                bits = data.unpackbits_64uint(np.array([[f2v[name]]], dtype=np.uint64), axis=1)
                c.equal([int(i) for i in np.flatnonzero(bits[0])], [63 - b], "plane of " + name)
                c.state("flag", name)
            c.equal((len(v2f), len(b2f)), (len(f2b), len(f2b)), "table sizes")
            d = data.get_flag_to_bit_map()     # a caller's edits do not reach the next caller
            d["TBD"] = 77
            c.equal(data.get_flag_to_bit_map()["TBD"], 8, "table after a caller edited its copy")
    # 4. all combinations of the named flags
    with c.case("combinations") as go:
        if go:
            b2f = data.get_bit_to_flag_map()
            for w in range(512):
                bits = data.unpackbits_64uint(np.array([[w]], dtype=np.uint16), axis=1)[0]
                got = {b2f[63 - int(i)] for i in np.flatnonzero(bits)}
                want = {n for n, v in data.get_flag_to_value_map().items() if w & v}
                c.step()
                c.equal(got, want, "flags of word %d" % w)
                c.outcome("comb", w)
    # 5. blanking flagged pixels, and flagging blank ones
    values = np.array([1.5, np.nan, -2.0, 0.0])
    for flags in itertools.product((0, 1, 2, 4, 128, 255, 256, 320, 33024, 65535), repeat=2):
        for th in (None, 1, 2, 4, 5, 128, 255, 256, 257, 32768):
            with c.case("blank:%s:%s" % (flags, th)) as go:
                if go:
                    ds = dataset(values, flags)
                    keep = kit.snap_ds(ds)
                    out = detector.nan_flags(ds) if th is None else detector.nan_flags(ds, th)
                    c.step()
                    c.state("blank", flags, th)
                    bad = ds.all_dq >= (1 if th is None else th)
                    c.same(out.all_data, np.where(bad, np.nan, ds.all_data), "blanked pixels", exact=True)
                    c.same(out.all_dq, ds.all_dq, "flags", exact=True)
                    c.expect(np.array_equal(np.isnan(out.all_err[:, 0]), bad), "uncertainties of exactly the blanked pixels are blank")
                    c.same(out.all_err[:, 0][~bad], ds.all_err[:, 0][~bad], "other uncertainties")
                    d = kit.diff(keep, kit.snap_ds(ds))
                    c.expect(not d, lambda: "the frames handed in changed: %s" % d)
        for val in (None, 1, 2, 4, 64, 255, 256, 32768):
            with c.case("flagblank:%s:%s" % (flags, val)) as go:
                if go:
                    ds = dataset(values, flags)
                    keep = kit.snap_ds(ds)
                    out = detector.flag_nans(ds) if val is None else detector.flag_nans(ds, val)
                    c.step()
                    c.state("flagblank", flags, val)
                    c.same(out.all_dq, np.where(np.isnan(ds.all_data), ds.all_dq.astype(int) | (1 if val is None else val), ds.all_dq), "flags of blank pixels", exact=True)
                    c.same(out.all_data, ds.all_data, "pixels", exact=True)
                    c.same(out.all_err, ds.all_err, "uncertainties", exact=True)
                    d = kit.diff(keep, kit.snap_ds(ds))
                    c.expect(not d, lambda: "the frames handed in changed: %s" % d)


def dataset(values, flags):
    """Two frames of four pixels: the flags of the first pair of pixels in one, of the second pair in the other; one blank pixel each."""
    f = []
    for i in range(2):
        f.append(kit.frame((2, 2), "L2a", i, img=np.roll(values, i).reshape(2, 2), dq=np.roll(np.array([flags[0], flags[1], 0, flags[i]]), i).reshape(2, 2).astype(np.uint16),
                           err=np.arange(4.0).reshape(2, 2) + i))
    return data.Dataset(f)
