import copy
import hashlib
import multiprocessing as mp
import pickle
import sys
import threading
import time
import types
import warnings

import calkulate.density
import calkulate.interface
import calkulate.loss

from ..common import *
from . import formats as F

RULE = ("about 30 kinds of call (all levels, all modes, readers, simulator, loss model, single titrations; some that "
        "fail) in random histories, compared bit for bit with the same call in a process that has done nothing else; "
        "from several threads sharing the inputs, with switches injected at random lines of the package; inputs, "
        "option dictionaries, files, folders, module defaults and function defaults compared before and after; a "
        "state is a pair of calls that followed one another, or a hashed interleaving")

loss, density = calk.loss, calk.density


# ---------------------------------------------------------------- snapshots
def flat(x, depth=0):
    """A comparable, picklable image of any value, bit for bit."""
    if depth > 12:
        return "deep"
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, (float, np.floating)):
        return ("f", np.float64(x).tobytes())
    if isinstance(x, np.generic):
        return ("g", str(x.dtype), x.tobytes())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("o", x.shape, [flat(i, depth + 1) for i in x.ravel()])
        return ("a", str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, pd.DataFrame):
        return ("df", [str(c) for c in x.columns], flat(x.index, depth + 1), [flat(x.iloc[:, i], depth + 1) for i in range(x.shape[1])])
    if isinstance(x, pd.Series):
        return ("s", str(x.dtype), str(x.name), [str(i) for i in x.index],
                [flat(i, depth + 1) for i in x] if x.dtype == object else flat(np.asarray(x), depth + 1))
    if isinstance(x, pd.Index):
        return ("i", [str(i) for i in x])
    if isinstance(x, dict):
        return ("d", [(str(k), flat(x[k], depth + 1)) for k in sorted(x, key=str)])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(str(i) for i in x))
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return ("nt", [(k, flat(getattr(x, k), depth + 1)) for k in x._fields])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [flat(i, depth + 1) for i in x])
    if isinstance(x, calk.Titration):
        return ("tit", flat(x.row.drop(["file_name", "file_path"], errors="ignore"), depth + 1), flat(x.t, depth + 1))
    if callable(x):
        return ("fn", getattr(x, "__name__", "?"))
    if isinstance(x, (pd.Timestamp, np.datetime64)):
        return ("t", str(x))
    return ("?", type(x).__name__)


def where(a, b, path=""):
    """The first place where two images differ."""
    if type(a) is not type(b) or (isinstance(a, (list, tuple)) and len(a) != len(b)):
        return f"{path}: {str(a)[:120]} / {str(b)[:120]}"
    if isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                tag = f".{x[0]}" if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else f"[{i}]"
                return where(x, y, path + tag)
    return f"{path}: {str(a)[:160]} / {str(b)[:160]}"


def _modules():
    return {n: m for n, m in sorted(sys.modules.items()) if (n == "calkulate" or n.startswith("calkulate.")) and m is not None}


def module_state():
    """Public module-level values and the defaults of all functions."""
    out = {}
    for n, m in _modules().items():
        for k, v in sorted(vars(m).items()):
            if k.startswith("_") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, types.FunctionType):
                if v.__module__ == n:
                    out[f"{n}.{k}()"] = flat([v.__defaults__, v.__kwdefaults__])
            elif isinstance(v, type):
                if getattr(v, "__module__", "").startswith("calkulate"):
                    for a, f in sorted(vars(v).items()):
                        if isinstance(f, types.FunctionType):
                            out[f"{n}.{k}.{a}()"] = flat([f.__defaults__, f.__kwdefaults__])
            elif isinstance(v, (dict, list, set, tuple, int, float, str, np.ndarray)) and (not hasattr(v, "__len__") or len(v)):
                out[f"{n}.{k}"] = flat(v)
    return out


def surroundings():
    mute = [str(f[:4]) for f in warnings.filters if f[0] == "ignore" and f[1] is None and issubclass(UserWarning, f[2])]
    return dict(cwd=os.getcwd(), mute=mute, env=dict(os.environ), err=np.geterr(), switch=sys.getswitchinterval(),
                random=hashlib.sha1(repr([x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state()]).encode()).hexdigest(),
                chained=pd.get_option("mode.copy_on_write") if "mode.copy_on_write" in dir(pd.options) else None)


def folder(path):
    out = {}
    for root, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = (hashlib.sha1(fh.read()).hexdigest(), os.stat(p).st_mtime_ns)
    return out


# ------------------------------------------------------------------ recipes
def _tit(rng, mode, **kw):
    t = Tit(rng, wild=pick(rng, [0, 0.4, 0.7]), **kw)
    meas = t.emf + rng.normal(0, 0.2, t.tm.size) if mode == "emf" else t.pH + rng.normal(0, 0.003, t.tm.size)
    return t, meas


def _mode(rng):
    return pick(rng, ["emf", "emf", "pH", "pH_adjust", "pH_gran"])


def r_files_solve(rng, d):
    mode = _mode(rng)
    t, meas = _tit(rng, mode)
    p = t.write(os.path.join(d, "a.dat"), meas)
    return files.solve, (p, t.c, t.S), t.kw(mode)


def r_files_calibrate(rng, d):
    mode = _mode(rng)
    t, meas = _tit(rng, mode)
    p = t.write(os.path.join(d, "a.dat"), meas)
    return files.calibrate, (p, t.alk, t.S), t.kw(mode)


def _arrays(rng, mode, with_titrant):
    t, meas = _tit(rng, mode)
    cv = convert.amount_units(dat(t.amount, meas, t.T), t.S, **t.analyte_kw, **t.unit_kw)
    totals, ks = core.totals_ks(cv, **t.kw_totals())
    if with_titrant and t.carried:
        totals = core.add_titrant_totals(totals, cv.titrant_mass, cv.analyte_mass, t.c, **t.kw_carried())
    return t, cv, totals, ks


def r_core_solve(rng, d):
    mode = pick(rng, ["emf", "pH", "pH_gran"])
    t, cv, totals, ks = _arrays(rng, mode, True)
    fn = {"emf": core.solve_emf, "pH": core.solve_pH, "pH_gran": core.solve_pH_gran}[mode]
    kw = dict(pH_min=t.pH_min, pH_max=t.pH_max, titrant_normality=t.norm)
    return fn, (t.c, cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass, totals, ks), kw


def r_core_calibrate(rng, d):
    mode = pick(rng, ["emf", "pH", "pH_gran"])
    t, cv, totals, ks = _arrays(rng, mode, False)
    fn = {"emf": core.calibrate_emf, "pH": core.calibrate_pH, "pH_gran": core.calibrate_pH_gran}[mode]
    kw = dict(pH_min=t.pH_min, pH_max=t.pH_max, titrant_normality=t.norm, **t.kw_carried())
    return fn, (t.alk, cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass, totals, ks), kw


def r_gran(rng, d):
    t, meas = _tit(rng, "emf")
    return core.gran_guesses, (t.tm, meas, t.T, t.M, t.c), dict(titrant_normality=t.norm)


def r_totals(rng, d):
    t, meas = _tit(rng, "emf")
    cv = convert.amount_units(dat(t.amount, meas, t.T), t.S, **t.analyte_kw, **t.unit_kw)
    return core.totals_ks, (cv,), t.kw_totals()


def r_amounts(rng, d):
    t, meas = _tit(rng, "emf")
    kw = dict(t.analyte_kw, **t.unit_kw)
    if flip(rng):
        kw["titrant_amount_unit"] = pick(rng, ["g", "kg", "ml"])
    for k in ("temperature_override", "titrant_density"):
        if flip(rng, 0.2):
            kw[k] = float(rng.uniform(0.99, 1.05)) * (1 if k == "titrant_density" else 22)
    return convert.amount_units, (dat(t.amount, meas, t.T), t.S), kw


def r_convert(rng, d):
    t, meas = _tit(rng, "emf")
    fn = pick(rng, [convert.emf_to_h, convert.emf_to_pH])
    return fn, (meas, t.emf0, t.T), {}


def r_density(rng, d):
    fn, x = pick(rng, [(density.seawater_1atm_MP81, (rng.uniform(2, 35, 5), rng.uniform(5, 40, 5))),
                       (density.HCl_NaCl_25C_DSC07, (rng.uniform(0.05, 0.9, 5), rng.uniform(0.05, 0.9, 5))),
                       (density.H2SO4_25C_EAIM, (rng.uniform(0.05, 0.9, 5),))])
    return fn, x, {}


def r_alkalinity(rng, d):
    t, meas = _tit(rng, "pH")
    fn = pick(rng, [simulate.alkalinity, simulate.alkalinity_components])
    return fn, (t.pH, t.totals, t.ks), {}


def _table(rng, d, cal):
    rows = []
    for i in range(int(rng.integers(1, 4))):
        mode = _mode(rng)
        t, meas = _tit(rng, mode)
        path = t.write(os.path.join(d, f"t{i}.dat"), meas)
        r = rowdict(t, path, mode)
        if flip(rng, 0.2):  # a file with another layout
            extra_headers(path, 1)
            r["skip_header"] = 3
        if cal:
            r["alkalinity_certified"] = t.alk if flip(rng, 0.8) or i == 0 else nan
            r["analysis_batch"] = int(rng.integers(2))
            r["titrant_molinity_init"] = t.c * 1.1
        else:
            r["titrant_molinity"] = t.c
        if flip(rng, 0.15):
            r["file_name"] = "not there.dat"
        if flip(rng, 0.15):
            r["read_dat_method"] = pick(rng, ["genfromtxt", "vindta"])
        rows.append(r)
    kw = pick(rng, [{}, {}, {"pH_range": [3.05, 3.95]}, {"read_dat_kwargs": {"skip_header": 2, "delimiter": "\t"}},
                    {"verbose": True}])
    # options given by the user as objects that stay theirs
    return frame(rng, rows), kw


def _fresh(call):
    def run(ds, **kw):
        out = getattr(calk, call)(ds.copy(), **kw)
        return out
    run.__name__ = call
    return run


_SOLVE, _CALIBRATE, _CALKULATE = _fresh("solve"), _fresh("calibrate"), _fresh("calkulate")


def r_table_solve(rng, d):
    ds, kw = _table(rng, d, False)
    return _SOLVE, (ds,), kw


def r_table_calibrate(rng, d):
    ds, kw = _table(rng, d, True)
    return pick(rng, [_CALIBRATE, _CALKULATE]), (ds,), kw


def r_titration(rng, d):
    ds, kw = _table(rng, d, False)
    ds = ds[ds.file_name != "not there.dat"]
    if not len(ds):
        return r_titration(rng, d)
    kw = pick(rng, [{}, {"pH_range": (3.05, 3.95)}, {"dic": 1900.0}, {"read_dat_kwargs": {"skip_header": 2}}])
    return calk.Titration, (ds.iloc[0],), kw


def r_to_titration(rng, d):
    ds, kw = _table(rng, d, False)
    good = ds.index[ds.file_name != "not there.dat"]
    if not len(good):
        return r_to_titration(rng, d)
    return calk.to_Titration, (ds, good[0]), {}


def r_batches(rng, d):
    n = 12
    ds = pd.DataFrame(dict(analysis_batch=rng.integers(0, 3, n), titrant_molinity_here=rng.uniform(0.1, 0.2, n),
                           reference_good=rng.random(n) < 0.8))
    return dataset.get_batches, (ds,), {}


def r_salts(rng, d):
    ds = pd.DataFrame(dict(salinity=rng.uniform(5, 40, 5), total_borate=np.where(rng.random(5) < 0.5, nan, 400.0)))

    def get_total_salts(ds, **kw):
        return dataset.get_total_salts(ds.copy(), **kw)
    return get_total_salts, (ds,), pick(rng, [{}, {"opt_total_borate": 2}, {"total_sulfate": 20000.0}])


def r_simulate(rng, d):
    kw = dict(dic=float(rng.uniform(0, 2200)), salinity=float(rng.uniform(5, 40)), temperature=float(rng.uniform(5, 30)))
    if flip(rng, 0.4):
        kw["total_phosphate"] = 20.0
    if flip(rng, 0.3):
        kw.update(k_dic_loss=float(rng.uniform(0, 5)), titrant_mass_step=0.8e-3)
    if flip(rng, 0.3):
        n = np.arange(0, 4.2e-3, kw.get("titrant_mass_step", 0.15e-3)).size
        kw["temperature"] = np.linspace(20, 22, n)
    return simulate._titration, (float(rng.uniform(1800, 2600)),), kw


def r_loss(rng, d):
    n = int(rng.integers(15, 40))
    tm = np.linspace(0, 4e-3, n)
    pH = np.linspace(8, 3, n) + rng.normal(0, 0.01, n)
    pH = np.sort(pH)[::-1]
    k0, k1, k2 = (np.full(n, v) for v in (0.03, 1e-6, 1e-9))
    dic = 2000 * np.linspace(1, 0.8, n)
    dic[rng.random(n) < 0.2] = nan
    f = loss.get_fCO2_from_dic_pH(np.nan_to_num(dic, nan=1900), pH, k0, k1, k2)
    f[rng.random(n) < 0.2] = nan
    fn = pick(rng, [loss.get_dic_loss, loss.get_dic_loss_hires])
    return fn, (tm, pH, dic, f, k0, k1, k2, 0.1, 2000e-6), {}


def r_read(rng, d):
    fmt = pick(rng, ["plain", "pclims", "tiamo"])
    p = os.path.join(d, "r.txt")
    if fmt == "plain":
        t, meas = _tit(rng, "emf")
        t.write(p, meas)
        return calk.read_dat, (p,), {}
    if fmt == "pclims":
        F.write_pclims(rng, p)
        return calk.read_dat, (p,), {"file_type": "pclims"}
    F.write_tiamo(rng, p)
    return calk.read_dat, (p,), {"file_type": "tiamo_de"}


def r_dbs(rng, d):
    p = os.path.join(d, "v.dbs")
    F.write_dbs(rng, p)

    def read_dbs(*a, **k):
        return calk.read_dbs(*a, **k).drop(columns="dbs_fname")
    return read_dbs, (p,), {}


# calls that fail
def b_missing(rng, d):
    return files.solve, (os.path.join(d, "nothing.dat"), 0.1, 35.0), dict(analyte_mass=0.1)


def b_mode(rng, d):
    t, meas = _tit(rng, "emf")
    p = t.write(os.path.join(d, "a.dat"), meas)
    return pick(rng, [files.solve, files.calibrate]), (p, 0.1, t.S), dict(t.kw("emf"), solve_mode="nonsense")


def b_window(rng, d):
    mode = _mode(rng)
    t, meas = _tit(rng, mode)
    p = t.write(os.path.join(d, "a.dat"), meas)
    return files.calibrate, (p, t.alk, t.S), dict(t.kw(mode), pH_min=4.0, pH_max=3.0)


def b_core(rng, d):
    """Fails inside the calibration, after carried totals were prepared."""
    t, cv, totals, ks = _arrays(rng, "emf", False)
    emf = cv.measurement.copy()
    emf[:] = nan
    return core.calibrate_emf, (t.alk, cv.titrant_mass, emf, cv.temperature, cv.analyte_mass, totals, ks), dict(
        titrant_total_sulfate=1.0)


def b_core_pH(rng, d):
    t, cv, totals, ks = _arrays(rng, "pH", False)
    return core.calibrate_pH, (t.alk, cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass, totals, ks), dict(
        titrant_total_sulfate=1.0, pH_min=10.0, pH_max=11.0)


def b_unit(rng, d):
    t, meas = _tit(rng, "emf")
    return convert.amount_units, (dat(t.amount, meas, t.T), t.S), dict(analyte_mass=0.1, titrant_amount_unit="pint")


def b_titration(rng, d):
    ds, kw = _table(rng, d, False)
    ds["file_name"] = "not there.dat"
    return calk.Titration, (ds.iloc[0],), {}


def b_table(rng, d):
    ds, kw = _table(rng, d, False)
    return _SOLVE, (ds.drop(columns="salinity"),), {}


def b_garbage(rng, d):
    p = os.path.join(d, "g.dat")
    with open(p, "wb") as f:
        f.write(bytes(rng.integers(0, 256, 500, dtype=np.uint8)))
    return calk.read_dat, (p,), dict(file_type=pick(rng, ["genfromtxt", "pclims", "tiamo_de"]))


def b_simulate(rng, d):
    return simulate._titration, (2300.0,), dict(opt_k_carbonic=99, dic=2000)


def b_gran(rng, d):
    """Data for which the Gran regression is poor or has few points."""
    t, meas = _tit(rng, "emf")
    if flip(rng):
        meas = rng.uniform(300, 600, t.tm.size)
    else:
        meas = np.append(np.full(t.tm.size - 2, 100.0), [550.0, 560.0])
    kind = int(rng.integers(3))
    if kind == 0:
        p = t.write(os.path.join(d, "a.dat"), meas)
        return pick(rng, [files.solve, files.calibrate]), (p, t.c, t.S), t.kw("emf")
    if kind == 1:
        return core.gran_guesses, (t.tm, meas, t.T, t.M, t.c), dict(gran_logic=pick(rng, ["v23.7+", "legacy"]))
    return core.gran_alkalinity, (t.tm, meas, t.T, t.M, t.c), {}


def b_out_of_range(rng, d):
    """Densities far outside their ranges, and an unknown titrant."""
    t, meas = _tit(rng, "emf")
    return convert.amount_units, (dat(t.amount, meas, t.T), pick(rng, [0.0, 50.0, t.S])), dict(
        analyte_volume=100.0, titrant=pick(rng, ["H2SO4", "HCl", "vinegar"]), molinity_H2SO4=9.0,
        temperature_override=pick(rng, [None, 70.0]))


def b_rows(rng, d):
    """A table in which every row has some fault, with unknown options."""
    ds, kw = _table(rng, d, True)
    ds["titrant_molinity"] = 0.1
    kinds = [("file_type", "nonsense"), ("solve_mode", "nonsense"), ("gran_logic", "nonsense"), ("titrant_amount_unit", "pint"),
             ("pH_min", 9.0), ("file_good", False), ("salinity", nan), ("skip_header", 200), ("opt_k_carbonic", 99),
             ("file_type", "pclims"), ("file_type", "tiamo_de"), ("file_type", "orgalk_excel")]
    for k, v in [kinds[i] for i in rng.permutation(len(kinds))[:2]]:
        if k == "file_good" and flip(rng):
            ds[k] = [flip(rng) for _ in range(len(ds))]
        else:
            ds[k] = v
    kw = dict(kw, **pick(rng, [{}, {"no_such_option": 1}]))
    return pick(rng, [_SOLVE, _CALIBRATE, _CALKULATE]), (ds,), kw


GOOD = [r_files_solve, r_files_calibrate, r_core_solve, r_core_calibrate, r_gran, r_totals, r_amounts, r_convert, r_density,
        r_alkalinity, r_table_solve, r_table_calibrate, r_titration, r_to_titration, r_batches, r_salts, r_simulate, r_loss,
        r_read, r_dbs]
BAD = [b_missing, b_mode, b_window, b_core, b_core_pH, b_unit, b_titration, b_table, b_garbage, b_simulate, b_gran, b_gran, b_out_of_range, b_rows, b_rows]
ALL = {f.__name__: f for f in GOOD + BAD}
WEIGHTS = {"r_amounts": 2, "r_files_calibrate": 2, "r_core_calibrate": 2, "r_core_solve": 2, "r_titration": 2}
POOL = [f.__name__ for f in GOOD for _ in range(WEIGHTS.get(f.__name__, 1))]


def build(name, seed, d):
    os.makedirs(d, exist_ok=True)
    return ALL[name](np.random.default_rng(seed), d)


def run(fn, args, kwargs):
    try:
        return ("ok", flat(fn(*args, **kwargs)))
    except Exception as e:
        return ("raised", type(e).__name__)


# ---------------------------------------- a process that has done nothing else
_zygote = {}


def _serve(conn):
    while True:
        try:
            name, seed, d = conn.recv()
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                conn.send(run(*build(name, seed, d)))
            except BaseException as e:
                conn.send(("broken", repr(e)))
            os._exit(0)
        os.waitpid(pid, 0)


def fresh(name, seed, d):
    """The call alone, in a child of a process that never called Calkulate."""
    if _zygote.get("pid") != os.getpid():
        a, b = mp.Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            try:
                _serve(b)
            finally:
                os._exit(0)
        b.close()
        _zygote.update(pid=os.getpid(), conn=a)
    _zygote["conn"].send((name, seed, d))
    r = _zygote["conn"].recv()
    assert r[0] != "broken", r
    return r


# ---------------------------------------------------------------- scenarios
def history(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    items = []
    for i in range(n):
        name = pick(rng, [f.__name__ for f in BAD]) if flip(rng, 0.3) and i else pick(rng, POOL)
        seed = int(rng.integers(2**31))
        items.append((name, seed, os.path.join(ctx.tmp, f"i{i}")))
    want = [fresh(*it) for it in items]
    built = [build(*it) for it in items]
    order = [int(i) for i in rng.integers(0, n, n + 4)] + list(range(n))
    ctx.note(calls=[it[0] for it in items], order=order)
    mods, around = module_state(), surroundings()
    disk = folder(ctx.tmp)
    prev = None
    for step, i in enumerate(order):
        name = items[i][0]
        fn, args, kwargs = built[i]
        before = flat([args, kwargs])
        ctx.n_sut += 1
        ctx.event("call:" + name)
        got = run(fn, args, kwargs)
        ctx.expect("same result", got == want[i],
                   f"step {step}, {name} after {prev}: {where(want[i], got)}", history=[items[j][0] for j in order[:step + 1]])
        after = flat([args, kwargs])
        ctx.expect("inputs untouched", after == before, f"{name} changed its inputs: {where(before, after)}")
        ctx.state(prev, name, got[0])
        prev = name
    now = module_state()
    for k in mods:
        ctx.expect("module defaults", now.get(k) == mods[k], f"{k} was changed", before=str(mods[k])[:300], after=str(now.get(k))[:300])
    a2 = surroundings()
    for k in around:
        ctx.expect("surroundings", a2[k] == around[k], f"{k} was changed")
    disk2 = folder(ctx.tmp)
    ctx.expect("files untouched", disk2 == disk, f"files changed: {sorted(set(disk) ^ set(disk2))} {[k for k in disk if disk2.get(k) != disk[k]]}")


class Yielder:
    """Switches threads at random lines of the package, and records where."""

    def __init__(self, seed, prob):
        self.seed, self.prob = seed, prob
        self.local = threading.local()
        self.switches = []
        self.last = None
        self.root = os.path.dirname(os.path.realpath(calk.__file__)) + os.sep

    def on_line(self, code, line):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        loc = self.local
        if not hasattr(loc, "rng"):
            loc.id = len(self.switches) % 97 + threading.get_ident() % 1000
            loc.rng = np.random.default_rng([self.seed, threading.get_ident() % 2**31])
        if self.last is not threading.current_thread():
            self.last = threading.current_thread()
            self.switches.append((self.last.name, os.path.basename(code.co_filename), line))
        if loc.rng.random() < self.prob:
            time.sleep(0 if loc.rng.random() < 0.8 else 1e-5)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(m.DEBUGGER_ID, "yielder")
        m.register_callback(m.DEBUGGER_ID, m.events.LINE, self.on_line)
        m.set_events(m.DEBUGGER_ID, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.DEBUGGER_ID, 0)
        m.register_callback(m.DEBUGGER_ID, m.events.LINE, None)
        m.free_tool_id(m.DEBUGGER_ID)


# The simulator and Titration solve the CO2 system with PyCO2SYS, which differentiates with autograd,
# whose trace stack is one per process: it cannot be called from two threads,
# whatever Calkulate does.
THREADED = [n for n in POOL if n not in ("r_dbs", "r_simulate", "r_titration", "r_to_titration")]
THREADED_BAD = [f.__name__ for f in BAD if f not in (b_simulate, b_titration)]


def threads(ctx):
    """Several threads share the same input objects."""
    rng = ctx.rng
    n = int(rng.integers(1, 4))
    items = [(pick(rng, THREADED) if not (i and flip(rng, 0.2)) else pick(rng, THREADED_BAD),
              int(rng.integers(2**31)), os.path.join(ctx.tmp, f"i{i}")) for i in range(n)]
    want = [fresh(*it) for it in items]
    built = [build(*it) for it in items]
    ctx.n_sut += 1
    before = [flat([a, k]) for _, a, k in built]
    mods = module_state()
    nthreads = int(rng.integers(2, 6))
    plan = [[int(i) for i in rng.integers(0, n, 2)] for _ in range(nthreads)]
    ctx.note(calls=[it[0] for it in items], plan=plan)
    got = [[None] * len(p) for p in plan]
    barrier = threading.Barrier(nthreads)

    def work(w):
        barrier.wait()
        for j, i in enumerate(plan[w]):
            got[w][j] = run(*built[i])

    old = sys.getswitchinterval()
    sys.setswitchinterval(pick(rng, [1e-6, 1e-5, 5e-3]))
    try:
        with Yielder(int(rng.integers(2**31)), pick(rng, [0.0, 0.05, 0.3])) as y:
            ts = [threading.Thread(target=work, args=(w,), name=f"t{w}", daemon=True) for w in range(nthreads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
                ctx.expect("ends", not t.is_alive(), "a thread did not end")
    finally:
        sys.setswitchinterval(old)
    for w, p in enumerate(plan):
        for j, i in enumerate(p):
            ctx.event("threaded call:" + items[i][0])
            ctx.expect("same result in threads", got[w][j] == want[i],
                       f"{items[i][0]} in thread {w}: {where(want[i], got[w][j] or ('nothing',))}")
    for i, (fn, a, k) in enumerate(built):
        after = flat([a, k])
        ctx.expect("shared inputs untouched", after == before[i], f"{items[i][0]}: {where(before[i], after)}")
    now = module_state()
    for k in mods:
        ctx.expect("module defaults", now.get(k) == mods[k], f"{k} was changed")
    ctx.event("thread switches inside the package", len(y.switches))
    ctx.state("interleaving", hashlib.sha1(pickle.dumps(y.switches)).hexdigest()[:16])


def shared_options(ctx):
    """The same option dictionary used for many calls stays as it is and acts
    the same every time; a table solved by several calls in a row gives what
    one call gives."""
    rng = ctx.rng
    ds, _ = _table(rng, os.path.join(ctx.tmp), False) if os.makedirs(ctx.tmp, exist_ok=True) is None else (None, None)
    ctx.n_sut += 1
    opts = pick(rng, [dict(pH_range=[3.05, 3.9]), dict(read_dat_kwargs=dict(skip_header=2, delimiter="\t")),
                      dict(pH_min=3.1, pH_max=3.8, dic=1500.0), dict(read_dat_method="genfromtxt", pH_range=(3.1, 3.9))])
    image = flat(opts)
    first = ctx.sut(calk.solve, ds.copy(), **opts)
    for k in range(2):
        again = ctx.sut(calk.solve, calk.Dataset(ds.copy()) if flip(rng) else ds.copy(), **opts)
        ctx.expect("options untouched", flat(opts) == image, f"{where(image, flat(opts))}")
        for c in RESULT_COLS:
            ctx.same("again", again[c].to_numpy(dtype=float), first[c].to_numpy(dtype=float), column=c)
    plain = ctx.sut(calk.solve, ds.copy())
    other = ctx.sut(calk.solve, ds.copy(), pH_min=3.2)
    plain2 = ctx.sut(calk.solve, ds.copy())
    for c in RESULT_COLS:
        ctx.same("without options", plain2[c].to_numpy(dtype=float), plain[c].to_numpy(dtype=float), column=c)
    ctx.state("options", sorted(opts), len(ds))


def rewritten(ctx):
    """A file whose contents change between calls (also with the same size and
    time stamp) is read anew each time, by every route."""
    rng = ctx.rng
    os.makedirs(ctx.tmp, exist_ok=True)
    mode = pick(rng, ["emf", "pH"])
    p = os.path.join(ctx.tmp, "same name.dat")
    t, meas = _tit(rng, mode)
    step = np.round(meas, 4)
    versions = [step + float(np.round(x, 4)) for x in rng.uniform(0, 3 if mode == "emf" else 0.02, 3)]
    stat = None
    kw = t.kw(mode)
    route = pick(rng, ["read", "file", "calibrate", "table", "titration"])

    def put(path, i):
        with open(path, "w") as f:
            f.write("a\nb\n")
            for a, m, T in zip(t.amount, versions[i], t.T):
                f.write(f"{a:.12f}\t{m:+012.6f}\t{T:08.4f}\n")
        return path

    def call(path):
        if route == "read":
            return ctx.sut(calk.read_dat, path)
        if route == "file":
            return ctx.sut(files.solve, path, t.c, t.S, **kw)
        if route == "calibrate":
            return ctx.sut(files.calibrate, path, t.alk, t.S, **kw)
        row = rowdict(t, path, mode, titrant_molinity=t.c)
        if route == "table":
            return ctx.sut(calk.solve, frame(np.random.default_rng(1), [row]))[RESULT_COLS]
        return ctx.sut(calk.Titration, pd.Series(row)).alkalinity

    want = []
    for i in range(3):
        want.append(flat(call(put(os.path.join(ctx.tmp, f"copy{i}.dat"), i))))
    images = []
    for i in [int(i) for i in rng.integers(0, 3, 4)] + [0, 1, 2]:
        put(p, i)
        if stat is None:
            stat = os.stat(p)
        os.utime(p, ns=(stat.st_atime_ns, stat.st_mtime_ns))
        ctx.event("same size and time stamp" if os.stat(p).st_size == stat.st_size else "other size")
        got = flat(call(p))
        images.append(got)
        # compared with the same content under a name never used before
        ctx.expect("content decides", got == want[i], f"{route}: {where(want[i], got)}")
    ctx.state("rewritten", route, mode, len(set(map(str, images))))


SCENARIOS = [
    ("history", history, 110, 5500),
    ("threads", threads, 60, 3000),
    ("shared_options", shared_options, 24, 1000),
    ("rewritten", rewritten, 40, 2000),
]
