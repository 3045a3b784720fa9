"""C33: every boundary instant of a grid x every sub-tenth offset x notation, against integer calendar arithmetic."""
import itertools

import corgidrp.data as data

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    return 29 if m == 2 and leap(y) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def days(y, m, d):
    y1 = y - 1
    return y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400 + CUM[m - 1] + (1 if m > 2 and leap(y) else 0) + d - 1


def civil(n):
    y = n // 366 + 1
    while days(y + 1, 1, 1) <= n:
        y += 1
    m = 1
    while m < 12 and days(y, m + 1, 1) <= n:
        m += 1
    return y, m, n - days(y, m, 1) + 1


def reference(us):
    """Microseconds since year 1 (UTC) -> stamp; half a tenth rounds up."""
    t = (us + 50000) // 100000
    s, tenth = divmod(t, 10)
    dn, sod = divmod(s, 86400)
    y, m, d = civil(dn)
    return "%04d%02d%02dT%02d%02d%02d%d" % (y, m, d, sod // 3600, sod // 60 % 60, sod % 60, tenth), t


def run(c):
    years = [1999, 2000, 2023, 2024, 2027, 2099, 2100] if c.thorough else [1999, 2023, 2024, 2100]
    dates = [(y, m, d) for y in years for m in range(1, 13) for d in ({1, mlen(y, m), 28} if c.thorough else {1, mlen(y, m)})]
    hm = [(0, 0), (23, 59), (12, 59), (9, 0)] if c.thorough else [(0, 0), (23, 59), (12, 59)]
    secs = [0, 9, 30, 59]
    subs = [0, 1, 49999, 50000, 50001, 99999] if c.thorough else [0, 49999, 50000, 99999]
    zones = [("", 0), ("Z", 0), ("+00:00", 0), ("+05:30", 330), ("-12:00", -720)]
    c.bound(dates=len(dates), times_of_day=len(hm) * len(secs), tenths=10, offsets_us=subs, zones=[z[0] for z in zones])
    c.assume("exactly half a tenth rounds up")

    def one(c, date):
        prev = {}
        with c.case("date:%d-%02d-%02d" % date) as go:
            if not go:
                return
            for zone, off in zones if date[1] in (1, 2, 3, 12) else zones[:1] + zones[3:4]:
                seq = []
                for (h, mi), s, tenth, sub in itertools.product(hm, secs, range(10), subs):
                    us = tenth * 100000 + sub
                    text = "%04d-%02d-%02dT%02d:%02d:%02d.%06d%s" % (date + (h, mi, s, us, zone))
                    total = ((days(*date) * 1440 + h * 60 + mi - off) * 60 + s) * 1000000 + us
                    want, t = reference(total)
                    got = data.format_ftimeutc(text)
                    c.step()
                    c.expect(got == want, lambda: "%s -> %r, reference says %r" % (text, got, want))
                    seq.append((total, got))
                    c.state(t)
                seq.sort()
                c.expect(all(a[1] <= b[1] for a, b in zip(seq, seq[1:])), "a later instant got an earlier stamp")
                c.outcome(zone, seq)

    c.fan(dates, one)
    # other notations of the same instant; what is not a time is refused
    for n, digits in enumerate(["", ".2", ".21", ".21", ".214", ".2149", ".21499", ".214999"]):
        with c.case("digits:%d" % n) as go:
            if go:
                us = int((digits[1:] + "000000")[:6]) if digits else 0
                total = (days(2025, 4, 15) * 86400 + 3 * 3600 + 5 * 60 + 10) * 1000000 + us
                c.step()
                c.equal(data.format_ftimeutc("2025-04-15T03:05:10" + digits), reference(total)[0], "stamp")
                c.equal(data.format_ftimeutc("2025-04-15 03:05:10" + digits), reference(total)[0], "stamp")
    for bad in ("", "yesterday", "2025-13-01T00:00:00", "2025-02-29T00:00:00", "2025-01-01T24:00:01", "2025-01-01T00:00:60"):
        with c.case("bad:" + bad) as go:
            if go:
                c.step()
                c.raises(lambda: data.format_ftimeutc(bad), "%r" % bad, kinds=(ValueError,))
                c.outcome("bad", bad)
