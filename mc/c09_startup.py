"""C09: all ways of interrupting start-up (stopped before any file operation, in the middle of any write, any operation failing), from
every kind of earlier installation, any number of times up to the bound; then one complete start-up, checked on the disk.

The real start-up code runs in a fresh process for every execution; the file operations it makes under the home directory are numbered
and cut by a preloaded shim (mc/native/crash.c).  The states are the directory trees left behind."""
import configparser
import json
import os
import re
import shutil
import subprocess
import sys

import numpy as np

from mc import kit
from mc.core import REPO, VERIF
from mc.c06_caldb_map import expected_row, read_rows, same_value
from corgidrp import caldb as cdb
import corgidrp.data as data

DEF = ("DetectorParams", "FpamFsamCal")


class Server:
    def __init__(self, c):
        self.dir = c.newdir("srv")
        so = os.path.join(self.dir, "crash.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "mc", "native", "crash.c"), "-ldl"], check=True)
        env = dict(os.environ, LD_PRELOAD=so, PYTHONDONTWRITEBYTECODE="")
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "mc", "startup_server.py"), REPO, self.dir], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, env=env, cwd=self.dir)
        assert self.p.stdout.readline() == "ready\n", "start-up server"
        self.home = os.path.join(self.dir, "user")

    def run(self, mode=0, n=0, use=False, again=False):
        self.p.stdin.write(json.dumps(dict(home=self.home, cwd=self.dir, mode=mode, n=n, use=use, again=again)) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def tree(home):
    """Everything on the disk: path -> bytes (None for a directory)."""
    out = {}
    for dp, dn, fn in os.walk(home):
        for d in dn:
            out[os.path.relpath(os.path.join(dp, d), home)] = None
        for f in fn:
            with open(os.path.join(dp, f), "rb") as fh:
                out[os.path.relpath(os.path.join(dp, f), home)] = fh.read()
    return out


def restore(home, t):
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(home)
    for p in sorted(t):
        q = os.path.join(home, p)
        if t[p] is None:
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(t[p])


def canon(t, temps):
    """The tree without time stamps and process numbers; contents of left-over temporary files do not count (their names do, if `temps`)."""
    out = []
    for p, b in sorted(t.items()):
        q = re.sub(r"tmp\d+", "tmp#", p)
        if q != p:
            if temps:
                out.append((q, "temp"))
        elif b is None or p.endswith(".fits"):
            out.append((q, None if b is None else len(b)))
        else:
            s = re.sub(rb"\d{5}\.\d+", b"T", b)
            out.append((q, re.sub(rb"(?<=,)-?\d{15,}|[0-9a-f]{32,}", b"H", s).decode("latin1")))
    return out


def cfg(text):
    p = configparser.ConfigParser()
    p.read_string(text)
    return {s: dict(p[s]) for s in p.sections()}


class Start:
    """One kind of earlier installation: builds the tree, and says what has to survive."""

    def __init__(self, name, build):
        self.name, self.build = name, build


def user_entries():
    out = []
    for i, k in enumerate(("Dark", "KGain", "DetectorParams")):
        o = kit.CALS[k]() if k != "DetectorParams" else kit.detparams(date="2020-01-01T00:00:00", TELRSTRT=3)
        o.filename, o.filedir = "mine%d.fits" % i, "/data/somewhere"
        o.ext_hdr["DRPCTIME"] = "2020-01-0%dT00:00:00" % (i + 1)
        out.append(o)
    return out


def starts(srv):
    h = srv.home
    folder = os.path.join(h, ".corgidrp")
    std = os.path.join(folder, "corgidrp_caldb.csv")

    def write(p, text):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    def db(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        d = cdb.CalDB(filepath=p)
        for e in user_entries():
            d.create_entry(e)

    own = os.path.join(h, "data", "mydb.csv")

    def full():
        r = srv.run()
        assert r.get("ok"), r

    def empty():
        return dict(caldb=std, rows=False)

    def legacy(with_db):
        def f():
            write(folder, "[PATH]\ncaldb = %s\n" % own)
            os.makedirs(os.path.dirname(own))
            if with_db:
                db(own)
            return dict(caldb=own, rows=with_db)
        return f

    def configured():
        write(os.path.join(folder, "corgidrp.cfg"), "[PATH]\ncaldb = %s\ndefault_calibs = %s\n[DATA]\ntrack_individual_errors = True\n[WALKER]\n"
              "skip_missing_cal_steps = True\njit_calib_id = True\n[MINE]\nx = 1\n" % (own, os.path.join(h, "data", "defaults")))
        os.makedirs(os.path.join(h, "data", "defaults"))
        db(own)
        return dict(caldb=own, rows=True, cal=os.path.join(h, "data", "defaults"), track=True, skip=True, jit=True)

    def old_config():
        write(os.path.join(folder, "corgidrp.cfg"), "[PATH]\ncaldb = %s\ndefault_calibs = %s\n" % (std, os.path.join(folder, "default_calibs")))
        db(std)
        return dict(caldb=std, rows=True)

    def used(change=None):
        def f():
            full()
            db(std)
            if change:
                change()
            return dict(caldb=std, rows=change is not lost)
        return f

    def lost():
        os.remove(std)

    def nodefault():
        d = os.path.join(folder, "default_calibs")
        os.remove(os.path.join(d, sorted(os.listdir(d))[0]))

    def unregistered():
        with open(std) as f:
            lines = f.readlines()
        with open(std, "w") as f:
            f.writelines(x for x in lines if "/default_calibs/" not in x)

    def nofolder():
        shutil.rmtree(os.path.join(folder, "default_calibs"))

    def folder_only():
        os.makedirs(os.path.join(folder, "default_calibs"))
        return dict(caldb=std, rows=False)

    def noconfig():
        full()
        db(std)
        os.remove(os.path.join(folder, "corgidrp.cfg"))
        return dict(caldb=std, rows=True)

    S = [Start("empty", empty), Start("legacy", legacy(True)), Start("configured", configured), Start("used", used()), Start("dblost", used(lost)), Start("nodefault", used(nodefault)),
         Start("unregistered", used(unregistered)), Start("legacynew", legacy(False)), Start("oldconfig", old_config), Start("foldersgone", used(nofolder)),
         Start("folder", folder_only), Start("noconfig", noconfig)]
    return {s.name: s for s in S}


NAMES = ["empty", "legacy", "configured", "used", "dblost", "nodefault", "unregistered", "legacynew", "oldconfig", "foldersgone", "folder", "noconfig"]


def check(c, srv, want, first, what, again=False):
    """One complete start-up (or, again, a re-initialisation of a process that served somebody else) from the tree on the disk, and everything
    it has to leave behind."""
    c.step()
    r = srv.run(use=True, again=again)
    c.expect(r.get("ok"), lambda: "%s: the next start-up fails: %s" % (what, r.get("error", r)))
    c.expect("use_error" not in r, lambda: "%s: not usable after the next start-up: %s" % (what, r.get("use_error")))
    t = tree(srv.home)
    path = os.path.join(".corgidrp", "corgidrp.cfg")
    c.expect(t.get(path) is not None, "%s: no configuration file after the next start-up" % what)
    conf = cfg(t[path].decode())
    c.equal(conf.get("PATH", {}).get("caldb"), want["caldb"], what + ": database location in the configuration")
    c.expect(conf["PATH"].get("default_calibs"), what + ": default calibrations folder in the configuration")
    if path in first:
        old = cfg(first[path].decode())
        for s in old:
            for k, v in old[s].items():
                c.equal(conf.get(s, {}).get(k), v, what + ": user's setting %s/%s" % (s, k))
    s = r["settings"]
    c.equal(s["caldb"], want["caldb"], what + ": database in use")
    if again:
        c.equal(r["handle"], want["caldb"], what + ": database handed back")
    c.equal((s["track"], s["skip"], s["jit"]), (want.get("track", False), want.get("skip", False), want.get("jit", False)), what + ": settings in use")
    cal = want.get("cal", os.path.join(srv.home, ".corgidrp", "default_calibs"))
    rows = read_rows(want["caldb"])
    mine = [x for x in rows if x["Filepath"].startswith("/data/somewhere")]
    if want["rows"]:
        ref = {x["Filepath"]: x for x in map(expected_row, user_entries())}
        c.equal(sorted(x["Filepath"] for x in mine), sorted(ref), what + ": the user's registered entries")
        for x in mine:
            for k, v in ref[x["Filepath"]].items():
                c.expect(same_value(x[k], v), lambda: "%s: %s of the user's entry %s is %r, was %r" % (what, k, x["Filepath"], x[k], v))
    rest = [x for x in rows if x not in mine]
    c.equal(sorted(x["Type"] for x in rest), sorted(DEF), what + ": default calibrations registered")
    for x in rest:
        c.equal(os.path.dirname(x["Filepath"]), cal, what + ": folder of the default " + x["Type"])
        c.expect(os.path.isfile(x["Filepath"]), lambda: "%s: %s is registered but not on the disk" % (what, x["Filepath"]))
        o = data.autoload(x["Filepath"])
        c.equal(type(o).__name__, x["Type"], what + ": kind of the default calibration file")
        if x["Type"] == "DetectorParams":
            c.equal({k: repr(v) for k, v in sorted(o.params.items())}, {k: repr(v) for k, v in sorted(data.DetectorParams({}, date_valid=_date).params.items())},
                    what + ": default detector parameters")
        else:
            c.same(o.data, data.FpamFsamCal([], date_valid=_date).data, what + ": default FPAM/FSAM matrices")
    for k in t:
        if k.endswith(".fits") and t[k] is not None:
            c.expect(os.path.join(srv.home, k) in [x["Filepath"] for x in rows], lambda: "%s: %s is left unregistered" % (what, k))
    # a further start-up has nothing to do
    c.step()
    r = srv.run(use=True)
    c.expect(r.get("ok") and "use_error" not in r, lambda: "%s: the start-up after that fails: %s" % (what, r))
    t2 = tree(srv.home)
    c.equal(t2.get(path), t[path], what + ": configuration after a further start-up")
    key = lambda x: x["Filepath"]
    c.equal(sorted(read_rows(want["caldb"]), key=key), sorted(rows, key=key), what + ": database after a further start-up")
    return t2


from astropy.time import Time  # noqa: E402
_date = Time("2023-11-01 00:00:00", scale="utc")


def run(c):
    depth = 3 if c.thorough else 2
    c.bound(installations=NAMES, interruptions=depth, interruption_points="before every file operation, in the middle of every write; one failing operation (ENOSPC%s)"
            % (", EACCES" if c.thorough else ""), merged_states="trees equal up to time stamps, process numbers and contents of left-over temporary files")
    c.assume("an interruption is the end of the process or a failing operation; what was written before it is on the disk (no loss of the operating system's cache)")
    c.assume("one start-up at a time; file operations are those of libc's wrappers (open, write, rename, unlink, mkdir, ...) under the home directory")

    def one(c, name):
        if c.only is not None and not c.only.split(":")[0] == name:
            return
        srv = Server(c)
        try:
            shutil.rmtree(srv.home, ignore_errors=True)
            os.makedirs(srv.home)
            want = starts(srv)[name].build()
            first = tree(srv.home)
            seen = {repr(canon(first, c.thorough))}
            frontier = [("", first)]
            with c.case(name + ":undisturbed") as go:
                if go:
                    check(c, srv, want, first, "undisturbed")
            with c.case(name + ":again") as go:
                if go:
                    restore(srv.home, first)
                    check(c, srv, want, first, "initialised again", again=True)
            for level in range(depth):
                nxt = []
                for hist, t in frontier:
                    if len(c.violations) > 40:      # broken: the space no longer collapses
                        c.capped = "stopped after 40 violations"
                        break
                    restore(srv.home, t)
                    c.step()
                    r = srv.run()
                    n = r.get("count", 0)
                    kinds = r.get("kinds", "")
                    points = [(1, i + 1) for i in range(n)] + [(2, i + 1) for i in range(n) if kinds[i] == "w"]
                    if level == 0 or c.thorough:
                        points += [(3, i + 1) for i in range(n)]
                    if c.thorough and level == 0:
                        points += [(4, i + 1) for i in range(n)]
                    for mode, i in points:
                        h = "%s%s%d%s" % (hist + "," if hist else "", {1: "stop", 2: "torn", 3: "full", 4: "denied"}[mode], i, kinds[i - 1])
                        restore(srv.home, t)
                        c.step()
                        srv.run(mode, i)
                        left = tree(srv.home)
                        k = repr(canon(left, c.thorough))
                        if k in seen:
                            continue
                        seen.add(k)
                        c.state(name, k.replace(srv.home, "HOME"))
                        with c.case(name + ":" + h, interrupted=h) as go:
                            if go:
                                done = check(c, srv, want, first, "interrupted at " + h)
                                c.outcome(name, canon(done, False))
                        nxt.append((h, left))
                frontier = nxt
            c.extra.setdefault("trees", {})[name] = len(seen)
        finally:
            srv.close()
            shutil.rmtree(srv.home, ignore_errors=True)

    c.fan(NAMES if c.only is None else [n for n in NAMES if c.only.startswith(n + ":")], one)
