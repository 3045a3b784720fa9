"""Fork server for C09: every request is one start-up (fresh import of the package) of its own process with its own home directory,
stopped at or failing at the requested file operation by the preloaded shim.  Run with LD_PRELOAD=crash.so."""
import ctypes
import gc
import importlib
import io
import json
import os
import sys
import warnings


def drop():
    for m in [m for m in sys.modules if m == "corgidrp" or m.startswith("corgidrp.")]:
        del sys.modules[m]


def start(shim, req, out):
    os.environ["HOME"] = req["home"]
    os.chdir(req["cwd"])
    drop()
    gc.collect()
    if req.get("again"):       # a process that started up for another user before
        other = os.path.join(req["cwd"], "before%d" % os.getpid())
        os.makedirs(other)
        os.environ["HOME"] = other
        importlib.import_module("corgidrp.ops")
        import corgidrp
        corgidrp.track_individual_errors = corgidrp.jit_calib_id = corgidrp.skip_missing_cal_steps = "left over"
        os.environ["HOME"] = req["home"]
    shim.mc_arm(os.path.join(req["home"], "").encode(), req["mode"], req["n"])
    res = {}
    try:
        if req.get("again"):
            import corgidrp.ops
            res["handle"] = corgidrp.ops.step_1_initialize().filepath
        else:
            importlib.import_module("corgidrp.caldb")
        res["ok"] = True
    except Exception as e:
        res["ok"], res["error"] = False, "%s: %s" % (type(e).__name__, str(e)[:300])
    gc.collect()          # (files still open are closed and flushed, as at the end of a process)
    res["count"] = shim.mc_count()
    shim.mc_disarm()
    shim.mc_kinds.restype = ctypes.c_char_p
    res["kinds"] = shim.mc_kinds().decode()[:res["count"]]
    if res["ok"] and req.get("use"):
        try:
            import corgidrp
            import corgidrp.caldb as cdb
            import corgidrp.data as data
            res["settings"] = dict(caldb=corgidrp.caldb_filepath, default_cal_dir=corgidrp.default_cal_dir, track=corgidrp.track_individual_errors,
                                   skip=corgidrp.skip_missing_cal_steps, jit=corgidrp.jit_calib_id)
            db = cdb.CalDB()
            for k in ("DetectorParams", "FpamFsamCal"):
                o = db.get_calib(None, getattr(data, k))
                res[k] = dict(path=os.path.abspath(o.filepath), params={a: repr(b) for a, b in sorted(o.params.items())} if k == "DetectorParams" else o.data.tolist())
        except Exception as e:
            res["use_error"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    os.write(out, json.dumps(res).encode())


def main():
    repo, scratch = sys.argv[1:3]
    shim = ctypes.CDLL(None)
    warnings.simplefilter("ignore")
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.path.insert(0, repo)
    real = os.fdopen(os.dup(1), "w")
    sys.stdout = io.StringIO()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    home = os.path.join(scratch, "home")
    os.makedirs(home)
    os.environ["HOME"] = home
    importlib.import_module("corgidrp.caldb")
    drop()
    gc.collect()
    gc.freeze()
    real.write("ready\n")
    real.flush()
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                start(shim, req, w)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        res = json.loads(blob) if blob else {}
        res["exit"] = code
        real.write(json.dumps(res) + "\n")
        real.flush()


if __name__ == "__main__":
    main()
