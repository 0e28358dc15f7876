"""Runs the monitored workloads of one property and decides the verdict.

* every case gets its own seed, derived from (VERIF_SEED, property, scenario,
  case number), so any case can be replayed on its own;
* cases are dealt to 8 forked workers in a fixed way; the cases of one worker
  run after one another in one process (so hidden state would show);
* calls into Calkulate go through `ctx.sut`, which records the event; an
  exception there is a violation unless the scenario says otherwise;
* an oracle that cannot interpret what Calkulate returned is also a violation;
  an error before Calkulate was called, or a lack of memory/disk, is an error
  of the check (exit 2), never a verdict;
* a scenario that did not evaluate a single check is an error (exit 2), so a
  run cannot pass vacuously.
"""

import collections
import errno
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import time
import traceback
import warnings

from . import env

CASE_LIMIT_S = 200
N_WORKERS = 8
# Number of cases in the quick tier, relative to those listed in SCENARIOS
QUICK_FACTOR = {"C14": 1.5, "C13": 2, "C18": 2}
QUICK_FACTOR_DEFAULT = 3
# On a slow machine no new case is started after this (what ran is reported)
SOFT_LIMIT_S = {"quick": 480, "thorough": 12600}


class Violation(Exception):
    def __init__(self, check, message, detail=None):
        super().__init__(f"{check}: {message}")
        self.check, self.message, self.detail = check, message, detail


class Infra(Exception):
    """The environment failed (disk, memory): no verdict."""


class Hang(BaseException):
    pass


def jsonable(x, depth=0):
    import numpy as np

    if depth > 6:
        return str(x)[:200]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:20].tolist(), depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    return str(x)[:2000]


def is_infra(e):
    if isinstance(e, (MemoryError, Infra)):
        return True
    return isinstance(e, OSError) and e.errno in (
        errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT, errno.EIO,
        errno.EAGAIN,
    )


class Ctx:
    def __init__(self, prop, scenario, index, rng, scratch, tier, stats, known):
        self.prop, self.scenario, self.index = prop, scenario, index
        self.rng, self.tier = rng, tier
        self._scratch_root = scratch
        self.stats = stats
        self.known_ids = known
        self.notes = {}
        self.n_sut = 0
        self._tmp = None
        self._tmpn = 0

    # -- bookkeeping
    def event(self, name, n=1):
        self.stats["events"][name] += n

    def state(self, *key):
        self.stats["states"].add(repr((self.scenario,) + key))

    def note(self, **kw):
        self.notes.update(kw)

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = os.path.join(
                self._scratch_root, f"{self.scenario}_{self.index}_{os.getpid()}"
            )
            os.makedirs(self._tmp, exist_ok=True)
        return self._tmp

    def path(self, suffix=".dat"):
        self._tmpn += 1
        return os.path.join(self.tmp, f"f{self._tmpn:03d}{suffix}")

    def close_case(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)

    # -- calls into the code under test
    def sut(self, fn, *args, **kwargs):
        name = getattr(fn, "__name__", str(fn))
        self.n_sut += 1
        self.stats["events"]["call:" + name] += 1
        try:
            return fn(*args, **kwargs)
        except Exception as e:
            if is_infra(e):
                raise Infra(repr(e))
            raise Violation(
                f"{name}:raised", f"{name} raised {type(e).__name__}: {e}",
                {"traceback": traceback.format_exc()[-3000:]},
            )

    def sut_raises(self, fn, *args, **kwargs):
        """(result, exception) of a call that may be refused."""
        name = getattr(fn, "__name__", str(fn))
        self.n_sut += 1
        self.stats["events"]["call:" + name] += 1
        try:
            return fn(*args, **kwargs), None
        except Exception as e:
            if is_infra(e):
                raise Infra(repr(e))
            self.stats["events"]["refused:" + name] += 1
            return None, e

    def sut_warns(self, fn, *args, **kwargs):
        """(result, list of warning messages)."""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = self.sut(fn, *args, **kwargs)
        return r, [str(x.message) for x in w]

    # -- checks
    def expect(self, check, cond, message="", **detail):
        self.stats["checks"][check] += 1
        if not cond:
            raise Violation(check, message or "does not hold", jsonable(detail))

    def close(self, check, got, want, atol=0.0, rtol=0.0, **detail):
        import numpy as np

        self.stats["checks"][check] += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            try:
                g, w = np.broadcast_arrays(g, w)
                ok_shape = g.shape == np.asarray(got).shape
            except ValueError:
                ok_shape = False
            if not ok_shape:
                raise Violation(check, f"shape {np.shape(got)} instead of {np.shape(want)}",
                                jsonable(dict(got=got, want=want, **detail)))
        nan_g, nan_w = np.isnan(g), np.isnan(w)
        tol = atol + rtol * np.abs(np.where(nan_w, 0, w))
        with np.errstate(all="ignore"):
            diff = np.where((g == w) | (nan_g & nan_w), 0.0, np.abs(g - w))
        bad = (nan_g != nan_w) | ~(diff <= tol)
        with np.errstate(all="ignore"):
            ratio = np.where(diff == 0, 0.0, diff / np.where(tol > 0, tol, 1e-300))
        m = float(np.max(ratio)) if ratio.size else 0.0
        if m > self.stats["slack"].get(check, -1.0):
            self.stats["slack"][check] = m
        if np.any(bad):
            i = int(np.argmax(np.where(np.isnan(ratio), np.inf, ratio) * bad)) if bad.size else 0
            raise Violation(
                check,
                f"got {g.ravel()[i]!r}, expected {w.ravel()[i]!r} (tolerance {np.ravel(tol)[i] if np.size(tol) > 1 else float(np.max(tol))!r}, at {i} of {g.size})",
                jsonable(dict(got=g, want=w, **detail)),
            )

    def same(self, check, got, want, **detail):
        """Bit-identical (NaN equal to NaN)."""
        self.close(check, got, want, 0.0, 0.0, **detail)

    def known(self, finding, reproduced, check, message, **detail):
        """A recorded finding: reported, not an alarm, when it is listed."""
        self.stats["checks"][check] += 1
        if reproduced:
            if finding in self.known_ids:
                self.stats["known"].add(finding)
            else:
                raise Violation(check, message, jsonable(detail))


def _case_rng(seed, prop, scen, idx):
    import numpy as np

    tag = [int(seed) & 0xFFFFFFFF, int(prop[1:])] + [ord(c) for c in scen] + [idx]
    return np.random.default_rng(np.random.SeedSequence(tag))


def load_prop(prop):
    return importlib.import_module(f"vmon.props.{prop.lower()}")


def load_known(prop):
    p = os.path.join(env.VERIF, "known_findings.json")
    with open(p) as f:
        data = json.load(f)
    return {e["id"]: e for e in data["findings"] if e["property"] == prop}


def new_stats():
    return dict(
        events=collections.Counter(), checks=collections.Counter(), states=set(),
        slack={}, cases=collections.Counter(), nontrivial=0, known=set(),
        samples=[], violations=[], errors=[], scen_checks=collections.Counter(), lines={},
    )


def hangs_on_rounding(prop, scen, fn, idx, seed, tier, scratch, known):
    """Whether an alarm comes only from a point that lies on a pH limit to the
    last digits, where rounding decides if it is used: the alarm returns when
    the same case is repeated, and goes away each time when it is repeated
    with the measurements changed by less than a millionth of a pH unit."""
    import numpy as np

    from . import gen

    def again(jitter):
        gen.JITTER = jitter
        try:
            return run_case(prop, scen, fn, idx, seed, tier, scratch, new_stats(), known, again=False) is not None
        finally:
            gen.JITTER = None

    return again(None) and not any(again(np.random.default_rng([idx, k])) for k in range(3))


def run_case(prop, scen, fn, idx, seed, tier, scratch, stats, known, again=True):
    rng = _case_rng(seed, prop, scen, idx)
    # `random` and numpy's legacy generator, should anything use them
    random.seed(idx)
    ctx = Ctx(prop, scen, idx, rng, scratch, tier, stats, known)
    before = sum(stats["checks"].values())

    def onalarm(signum, frame):
        raise Hang()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_LIMIT_S)
    v = None
    try:
        fn(ctx)
    except Violation as e:
        v = dict(check=e.check, message=e.message, detail=e.detail)
    except Hang:
        v = dict(check="no-answer", message=f"no result within {CASE_LIMIT_S} s",
                 detail={"traceback": traceback.format_exc()[-3000:]})
    except Exception as e:
        tb = traceback.format_exc()[-4000:]
        if is_infra(e) or ctx.n_sut == 0:
            stats["errors"].append(f"{scen}[{idx}]: {tb}")
        else:
            v = dict(check="malformed-output",
                     message=f"the monitor could not interpret what the code returned: {e!r}",
                     detail={"traceback": tb})
    finally:
        signal.alarm(0)
        ctx.close_case()
    n = sum(stats["checks"].values()) - before
    stats["cases"][scen] += 1
    stats["scen_checks"][scen] += n
    if n > 0:
        stats["nontrivial"] += 1
    if len(stats["samples"]) < 2 and ctx.notes:
        stats["samples"].append(dict(scenario=scen, case=idx, checks=n, **jsonable(ctx.notes)))
    if v is not None and again and v["check"] != "no-answer" and getattr(load_prop(prop), "ROUNDING", False):
        if hangs_on_rounding(prop, scen, fn, idx, seed, tier, scratch, known):
            stats["events"]["cases that hang on rounding, not compared"] += 1
            v = None
    if v is not None:
        v.update(scenario=scen, case=idx, seed=seed, tier=tier, prop=prop,
                 notes=jsonable(ctx.notes))
        stats["violations"].append(v)
    return v


def _start_line_monitor(store):
    """Record which lines of the package the workload executes (each line is
    reported once and then disabled, so the cost is negligible)."""
    if not hasattr(sys, "monitoring"):
        return
    root = os.path.realpath(env.REPO) + os.sep + "calkulate" + os.sep
    mon = sys.monitoring

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(root):
            store.setdefault(f[len(root):], set()).add(line)
        return mon.DISABLE

    try:
        mon.use_tool_id(mon.COVERAGE_ID, "vmon")
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    except ValueError:
        pass


def _worker(prop, todo, seed, tier, scratch, known, q):
    stats = new_stats()
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        warnings.simplefilter("ignore")
        import numpy as np

        np.seterr(all="ignore")
        mod = load_prop(prop)
        fns = {s[0]: s[1] for s in mod.SCENARIOS}
        lines = {}
        _start_line_monitor(lines)
        t0 = time.time()
        for scen, idx in todo:
            if time.time() - t0 > SOFT_LIMIT_S.get(tier, 480):
                stats["events"]["cases left out (slow machine)"] += 1
                continue
            run_case(prop, scen, fns[scen], idx, seed, tier, scratch, stats, known)
            if len(stats["violations"]) >= 3:
                break
        stats["lines"] = {k: sorted(v) for k, v in lines.items()}
    except BaseException:
        stats["errors"].append("worker: " + traceback.format_exc())
    q.put(stats)


def merge(parts):
    s = new_stats()
    for p in parts:
        for k in ("events", "checks", "cases", "scen_checks"):
            s[k].update(p[k])
        s["states"] |= p["states"]
        s["known"] |= p["known"]
        s["nontrivial"] += p["nontrivial"]
        for k, v in p["slack"].items():
            s["slack"][k] = max(v, s["slack"].get(k, -1.0))
        for k in ("samples", "violations", "errors"):
            s[k] += p[k]
        for k, v in p["lines"].items():
            s["lines"].setdefault(k, set()).update(v)
    return s


def run_property(prop, tier, seed, replay=None, scale=1.0, only=None, quiet=False):
    t0 = time.time()
    scratch = env.setup()
    try:
        return _run_property(prop, tier, seed, replay, scale, only, scratch, t0, quiet)
    finally:
        env.cleanup(scratch)


def _run_property(prop, tier, seed, replay, scale, only, scratch, t0, quiet):
    known = load_known(prop)
    known_ids = {k for k, e in known.items() if e["status"] == "known"}
    env.import_calkulate()
    mod = load_prop(prop)
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(env.VERIF, "evidence"))
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    ctxmp = mp.get_context("fork")
    if replay:
        with open(replay) as f:
            r = json.load(f)
        todo = [[(s, i) for s, i in r.get("history", [])] + [(r["scenario"], r["case"])]]
        if os.environ.get("VERIF_REPLAY_ALONE"):
            todo = [[(r["scenario"], r["case"])]]
        seed, tier = r["seed"], r["tier"]
    else:
        allcases = []
        for name, fn, nq, nt in mod.SCENARIOS:
            if only and name != only:
                continue
            n = nq * QUICK_FACTOR.get(prop, QUICK_FACTOR_DEFAULT) if tier == "quick" else nt
            n = max(1, int(round(n * scale)))
            allcases.append([(name, i) for i in range(n)])
        # Interleave the scenarios in a fixed pseudo-random order
        flat = [(i / len(c), j, x) for j, c in enumerate(allcases) for i, x in enumerate(c)]
        flat = [x for _, _, x in sorted(flat, key=lambda t: (t[0], t[1]))]
        todo = [flat[w::N_WORKERS] for w in range(N_WORKERS)]
    q = ctxmp.Queue()
    procs = []
    for w, t in enumerate(todo):
        if not t:
            continue
        pr = ctxmp.Process(target=_worker, args=(prop, t, seed, tier, scratch, known_ids, q))
        pr.start()
        procs.append(pr)
    parts, deadline = [], time.time() + (780 if tier == "quick" else 14000)
    errors = []
    while len(parts) < len(procs):
        try:
            parts.append(q.get(timeout=2))
        except Exception:
            if time.time() > deadline:
                errors.append("the run did not end in time")
                break
            dead = [p for p in procs if not p.is_alive()]
            if len(dead) == len(procs):
                time.sleep(1)
                while not q.empty():
                    parts.append(q.get())
                if len(parts) < len(procs):
                    errors.append("a worker died without a report (exit codes %s)" % [p.exitcode for p in procs])
                break
    for p in procs:
        if p.is_alive():
            p.join(timeout=2)
        if p.is_alive():
            p.kill()
    s = merge(parts)
    s["errors"] += errors
    for name, _, _, _ in mod.SCENARIOS:
        if not replay and not s["violations"] and not (only and name != only):
            if s["scen_checks"][name] == 0:
                s["errors"].append(f"scenario {name} evaluated no check")
    # Deterministic order; add the history of the worker to each replay
    s["violations"].sort(key=lambda v: (v["scenario"], v["case"]))
    rc = 0
    for n, v in enumerate(s["violations"][:5]):
        path = os.path.join(evdir, "replays", f"{prop}_{v['scenario']}_{v['case']}.json")
        if not replay:
            for t in todo:
                if (v["scenario"], v["case"]) in t:
                    v["history"] = t[: t.index((v["scenario"], v["case"]))]
            with open(path, "w") as f:
                json.dump(jsonable_keep(v), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{v['scenario']} case {v['case']}] {v['check']}: {v['message']}")
        rc = 1
    for k in sorted(s["known"]):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    if rc == 0 and s["errors"]:
        rc = 2
        for e in s["errors"][:5]:
            print("ERROR of the check: " + e, file=sys.stderr)
    wall = time.time() - t0
    if not replay and not only:
        top = dict(sorted(s["slack"].items(), key=lambda kv: -kv[1])[:40])
        evidence = dict(
            property=prop, tier=tier, seed=int(seed), level=getattr(mod, "LEVEL", "exploration"),
            coverage=dict(
                evaluations=int(sum(s["cases"].values())),
                distinct_nontrivial=len(s["states"]),
                rule=mod.RULE,
                samples=s["samples"][:8] or [{"note": "no sample recorded"}],
                cases_per_scenario=dict(s["cases"]),
                cases_with_checks=s["nontrivial"],
                checks_evaluated=dict(s["checks"]),
                checks_total=int(sum(s["checks"].values())),
                events_observed=dict(s["events"]),
                largest_deviation_over_tolerance={k: round(v, 6) for k, v in top.items()},
                package_lines_executed={k: len(v) for k, v in sorted(s["lines"].items())},
                known_findings_seen=sorted(s["known"]),
                errors=s["errors"][:5],
            ),
            assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
            wall_s=round(wall, 2), violations=len(s["violations"]),
        )
        tmpf = os.path.join(evdir, f".{prop}.tmp")
        with open(tmpf, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmpf, os.path.join(evdir, f"{prop}.json"))
    if not quiet:
        print(f"{prop} {tier} seed={seed}: {sum(s['cases'].values())} cases, "
              f"{sum(s['checks'].values())} checks, {len(s['states'])} distinct states, "
              f"{len(s['violations'])} violations, {len(s['errors'])} errors, {wall:.1f} s")
    if os.environ.get("VERIF_LINES"):
        with open(os.path.join(os.environ["VERIF_LINES"], f"{prop}.json"), "w") as f:
            json.dump({k: sorted(v) for k, v in s["lines"].items()}, f)
    if os.environ.get("VERIF_SLACK"):
        for k, v in sorted(s["slack"].items(), key=lambda kv: -kv[1]):
            print(f"   slack {k}: {v:.3g}")
    return rc


def jsonable_keep(v):
    out = {}
    for k, x in v.items():
        out[k] = [list(i) for i in x] if k == "history" else jsonable(x)
    return out


COMMON_ASSUMPTIONS = [
    "PyCO2SYS, NumPy, SciPy, pandas and matplotlib as installed behave as documented",
    "the property is decided only for the executions observed (seeded random, directed and fault-injected workloads)",
]
