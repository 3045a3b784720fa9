"""Shared explorer machinery: visited-state set, counters, cases, known findings, replay files, evidence.

A check module defines `run(c)` where c is a Ctx.  Everything a check does to the code under test happens
inside `with c.case(key, **description)`; an oracle disagreement (c.expect / c.same / an unexpected exception)
is a violation of that case.  Nothing is sampled: a check enumerates its whole declared space in both tiers
(the thorough tier declares a larger one).
"""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
MAX_REPORT = int(os.environ.get("MC_REPORT", "5"))


class Bad(Exception):
    """An oracle disagreement."""


def _feed(h, x):
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            h.update(b"O")
            for y in x.ravel():
                _feed(h, y)
            return
        h.update(str((x.shape, x.dtype.kind)).encode())
        a = np.ascontiguousarray(x)
        if a.dtype.kind == "f":
            a = a.astype("<f8")
            a = np.where(np.isnan(a), np.nan, a) + 0.0
        elif a.dtype.kind in "iu":
            a = a.astype("<i8")
        h.update(a.tobytes())
    elif isinstance(x, dict):
        h.update(b"{")
        for k in sorted(x, key=str):
            _feed(h, k)
            _feed(h, x[k])
        h.update(b"}")
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for y in x:
            _feed(h, y)
        h.update(b"]")
    elif isinstance(x, (set, frozenset)):
        _feed(h, sorted(map(str, x)))
    else:
        h.update(repr(x).encode() + b"\0")


def digest(*xs):
    h = hashlib.blake2b(digest_size=16)
    for x in xs:
        _feed(h, x)
    return h.hexdigest()


class Ctx:
    def __init__(self, prop, tier, seed, only, scratch):
        self.prop, self.tier, self.seed, self.only, self.scratch = prop, tier, seed, only, scratch
        self.t0 = time.time()
        self.seen = set()
        self.outcomes = set()
        self.n_trans = 0
        self.n_trace = 0
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.assumptions = []
        self.bounds = {}
        self.extra = {}
        self.capped = None
        self.known = load_known(prop)
        self._case = None
        self._n_dir = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    # --- exploration bookkeeping
    def state(self, *key):
        """Register a (canonical) state; True when it was not seen before."""
        d = digest(*key)
        if d in self.seen:
            return False
        self.seen.add(d)
        return True

    def step(self, n=1):
        """One transition: one call into the real code."""
        self.n_trans += n

    def outcome(self, *key):
        self.outcomes.add(digest(*key))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def bound(self, **kw):
        self.bounds.update(kw)

    def newdir(self, name="d"):
        self._n_dir += 1
        p = os.path.join(self.scratch, "%s%d" % (name, self._n_dir))
        os.makedirs(p)
        return p

    # --- cases
    @contextlib.contextmanager
    def case(self, key, **desc):
        """One execution (trace).  `key` identifies it (and is what known findings are matched on)."""
        key = str(key)
        if self.only is not None and key != self.only:
            yield False          # bodies start with `if not go: continue/return`
            return
        prev, self._case = self._case, (key, desc)
        try:
            yield True
            self.n_trace += 1
            if len(self.samples) < 6:
                self.samples.append(dict(case=key, **{k: _short(v) for k, v in desc.items()}))
        except Bad as e:
            self._report(key, desc, str(e), None)
        except Exception as e:  # the reference predicted a value; the real code (or its result) blew up
            self._report(key, desc, "unexpected %s: %s" % (type(e).__name__, e), traceback.format_exc())
        finally:
            self._case = prev

    def _report(self, key, desc, msg, tb):
        self.n_trace += 1
        for pat, text in self.known:
            if pat == key:
                if key not in [k for k, _ in self.known_hit]:
                    self.known_hit.append((key, text))
                return
        if len(self.violations) < 200:
            self.violations.append(dict(case=key, desc={k: _short(v) for k, v in desc.items()}, message=msg, traceback=tb))

    # --- oracles
    def expect(self, cond, msg="expectation failed"):
        if not cond:
            raise Bad(msg() if callable(msg) else msg)

    def equal(self, got, want, what=""):
        if not (got == want):
            raise Bad("%s: got %r, reference says %r" % (what, _short(got), _short(want)))

    def same(self, got, want, what="", exact=False, rtol=1e-9, atol=1e-12):
        """Arrays agree (NaN positions included)."""
        import numpy as np
        if got is None or want is None:
            if got is not want:
                raise Bad("%s: got %r, reference says %r" % (what, got, want))
            return
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Bad("%s: shape %s, reference says %s" % (what, g.shape, w.shape))
        if exact:
            ok = (g == w) | ((g != g) & (w != w))
        else:
            ok = np.isclose(g.astype(float), w.astype(float), rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
            gg, ww = np.atleast_1d(g), np.atleast_1d(w)
            raise Bad("%s: at %s got %r, reference says %r (%d of %d differ)"
                      % (what, i, gg[i], ww[i], int((~ok).sum()), ok.size))

    def raises(self, fn, what="", kinds=(Exception,)):
        """The reference says the call must be refused."""
        try:
            fn()
        except kinds as e:
            return e
        raise Bad("%s: accepted, the reference says it must be refused" % what)

    # --- parallel enumeration: items are split over forked workers, results merged deterministically
    def fan(self, items, fn, workers=None):
        """Run fn(c, item) for every item; the union of what the workers covered is merged into this context."""
        import pickle
        items = list(items)
        n = workers or int(os.environ.get("MC_WORKERS", "0")) or min(8, len(os.sched_getaffinity(0)))
        n = max(1, min(n, len(items)))
        if n == 1:
            for it in items:
                fn(self, it)
            return
        kids = []
        for w in range(n):
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.close(r)
                    self.seen, self.outcomes = set(), set()
                    self.n_trans = self.n_trace = 0
                    self.samples, self.violations, self.known_hit, self.assumptions = [], [], [], []
                    self.scratch = os.path.join(self.scratch, "w%d_%d" % (w, os.getpid()))
                    os.makedirs(self.scratch)
                    err = None
                    try:
                        for it in items[w::n]:
                            fn(self, it)
                    except BaseException as e:
                        if not self.crashed(e):
                            err = traceback.format_exc()
                    blob = pickle.dumps((self.seen, self.outcomes, self.n_trans, self.n_trace, self.samples,
                                         self.violations, self.known_hit, self.assumptions, self.capped, err))
                    with os.fdopen(wr, "wb") as f:
                        f.write(blob)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        errs = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                blob = f.read()
            os.waitpid(pid, 0)
            if not blob:
                errs.append("a worker died")
                continue
            seen, outc, nt, nx, samples, viol, known, assum, capped, err = pickle.loads(blob)
            self.seen |= seen
            self.outcomes |= outc
            self.n_trans += nt
            self.n_trace += nx
            self.samples += [s for s in samples if len(self.samples) < 6]
            self.samples = self.samples[:6]
            self.violations += viol
            for k in known:
                if k[0] not in [x for x, _ in self.known_hit]:
                    self.known_hit.append(k)
            for a in assum:
                self.assume(a)
            self.capped = self.capped or capped
            if err:
                errs.append(err)
        if errs and not self.violations:
            raise RuntimeError("worker error: " + errs[0])

    def crashed(self, e):
        """An exception that escaped outside a case: when it came out of the code under test (which was given inputs it
        accepts), that is a violation; otherwise it is an error of the check itself."""
        root = os.path.join(os.path.realpath(REPO), "corgidrp") + os.sep
        tb, inside = e.__traceback__, False
        while tb is not None:
            inside = inside or os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root)
            tb = tb.tb_next
        if inside and isinstance(e, Exception):
            self._report("outside-a-case", {}, "unexpected %s: %s" % (type(e).__name__, e),
                         "".join(traceback.format_exception(type(e), e, e.__traceback__)))
        return inside and isinstance(e, Exception)

    # --- finish
    def finish(self):
        level = "model_checking"
        cov = dict(states=len(self.seen), transitions=self.n_trans,
                   traces_validated_against_impl=self.n_trace,
                   samples=self.samples or [dict(note="no case completed")],
                   distinct_observed_outcomes=len(self.outcomes),
                   exhaustive=self.capped is None and self.only is None,
                   bounds=self.bounds)
        if self.capped:
            cov["cap"] = self.capped
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=len(self.violations),
                  known_findings=[k for k, _ in self.known_hit])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
              % (self.prop, self.tier, len(self.seen), self.n_trans, self.n_trace, len(self.outcomes), ev["wall_s"]))
        for k, text in self.known_hit:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, text, k))
        if not self.violations:
            return 0
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(self.violations[:MAX_REPORT]):
            path = os.path.join(rdir, "%s_%d.json" % (self.prop, n))
            v = dict(v, property=self.prop, replay_cmd="./run.sh %s %s --only '%s'" % (self.prop, self.tier, v["case"]))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("   case %s: %s" % (v["case"], v["message"]))
        if len(self.violations) > MAX_REPORT:
            print("   ... and %d more violating cases" % (len(self.violations) - MAX_REPORT))
        return 1


def _short(v, n=300):
    if isinstance(v, (int, float, bool, type(None))):
        return v
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "..."


def load_known(prop):
    """known_findings.txt: `known: property=<id> case=<case key> :: <what fails>` (one exact case per line)."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s case=" % prop):
                rest = line.split(" case=", 1)[1]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out
