"""python -m mc.run ID [quick|thorough] [--only CASE]: exit 0 held, 1 VIOLATION, 2 error of the check itself."""
import glob
import importlib
import io
import os
import shutil
import sys
import tempfile
import traceback
import warnings


def main():
    args = sys.argv[1:]
    only = None
    if "--only" in args:
        i = args.index("--only")
        only = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    scratch = tempfile.mkdtemp(prefix="mc_%s_" % prop)
    pid = os.getpid()
    rc = 2
    try:
        home = os.path.join(scratch, "home")
        work = os.path.join(scratch, "work")
        tmp = os.path.join(scratch, "tmp")
        for d in (home, work, tmp):
            os.makedirs(d)
        os.environ["HOME"] = home
        os.environ["TMPDIR"] = tmp
        tempfile.tempdir = tmp
        os.chdir(work)
        warnings.simplefilter("ignore")
        from mc import core
        if core.REPO not in sys.path:
            sys.path.insert(1, core.REPO)
        hits = glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), prop.lower() + "_*.py"))
        if len(hits) != 1:
            print("no check module for", prop)
            return 2
        ctx = core.Ctx(prop, tier, seed, only, scratch)
        real_out = sys.stdout
        import numpy as np
        np.seterr(all="ignore")
        if not os.environ.get("MC_VERBOSE"):
            sys.stdout = io.StringIO()      # the code under test prints progress
        try:
            mod = importlib.import_module("mc." + os.path.basename(hits[0])[:-3])
            import corgidrp
            where = os.path.dirname(os.path.abspath(corgidrp.__file__))
            assert where == os.path.join(os.path.abspath(core.REPO), "corgidrp"), where
            try:
                mod.run(ctx)
            except Exception as e:
                if not ctx.crashed(e) and not ctx.violations:
                    raise
        finally:
            sys.stdout = real_out
        rc = ctx.finish()
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        if os.getpid() == pid:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
