import copy
from ..common import *

RULE = ("random metadata tables (mixed modes, options, units and missing values; index unique, repeated, text, float, "
        "datetime or multi-level; extra columns of many types; plain or package table) solved and calibrated; each "
        "row compared with processing that titration alone through the file level, with other orders, subsets and "
        "table kinds, and with a repeated run; a state is (index kind, table kind, rows, modes, call)")
MODES = ["emf", "emf", "pH", "pH_adjust", "pH_gran"]


def _index(rng, n):
    kind = pick(rng, ["range", "reversed", "text", "float", "repeated", "datetime", "gaps", "multi"])
    if kind == "range":
        return kind, None
    if kind == "reversed":
        return kind, list(range(n))[::-1]
    if kind == "text":
        return kind, [f"row {i}" for i in rng.permutation(n)]
    if kind == "float":
        return kind, list(rng.uniform(-1, 1, n))
    if kind == "repeated":
        return kind, [int(i) for i in rng.integers(0, max(1, n - 1), n)]
    if kind == "datetime":
        return kind, pd.to_datetime("2020-01-01") + pd.to_timedelta(rng.permutation(n), unit="D")
    if kind == "multi":
        return kind, pd.MultiIndex.from_arrays([["a", "b"] * (n // 2) + ["c"] * (n % 2), list(range(n))])
    return kind, [int(i) * 7 + 3 for i in rng.permutation(n)]


def _as_pclims(path):
    with open(path) as f:
        lines = [x.split("\t") for x in f.read().splitlines()[2:]]
    with open(path, "w") as f:
        f.write("$S PC/LIMS V1\n")
        for i, (a, m, T) in enumerate(lines):
            f.write(f"{i}\t{a}\t{m}\t0\t0\t{T}\n")
        f.write("$E\n")


def _rows(ctx, n, noise=True, missing=True):
    rng = ctx.rng
    rows, ts = [], []
    # constants that come with their own salts
    carbonic = int(pick(rng, [6, 7])) if flip(rng, 0.15) else None
    for i in range(n):
        t = Tit(rng, wild=pick(rng, [0.1, 0.5, 0.8]))
        mode = pick(rng, MODES)
        meas = t.emf if mode == "emf" else t.pH
        if noise:
            meas = meas + rng.normal(0, 0.3 if mode == "emf" else 0.005, t.tm.size)
        p = t.write(ctx.path(), meas)
        r = rowdict(t, p, mode, titrant_molinity=t.c)
        if flip(rng, 0.15):  # a file with another layout
            extra_headers(p, 1)
            r["skip_header"] = 3
        elif flip(rng, 0.2):  # a file of another type, under the old name of that option
            r["read_dat_method"] = pick(rng, ["pclims", "pclims", "vindta"])
            if r["read_dat_method"] == "pclims":
                _as_pclims(p)
        if carbonic and flip(rng, 0.6):
            r["opt_k_carbonic"] = carbonic
        if flip(rng, 0.4):
            r["alkalinity_certified"] = t.alk + float(rng.uniform(-3, 3))
        if missing and flip(rng, 0.12):
            r["titrant_molinity"] = None
        if missing and flip(rng, 0.12):
            r["file_good"] = False
        rows.append(r)
        ts.append((t, mode))
    if any("file_good" in r for r in rows):
        for r in rows:
            r.setdefault("file_good", True)
    return rows, ts


def _extra(rng, ds):
    n = len(ds)
    if flip(rng, 0.5):
        ds["comment"] = [pick(rng, ["ok", None, "?"]) for _ in range(n)]
    if flip(rng, 0.4):
        ds["analysis_datetime"] = pd.to_datetime("2021-03-01") + pd.to_timedelta(rng.integers(0, 99, n), unit="h")
    if flip(rng, 0.4):
        ds["station"] = rng.integers(0, 9, n)
    if flip(rng, 0.3):
        ds["objects"] = [(i,) for i in range(n)]
    if flip(rng, 0.3):
        ds["name"] = [f"name{i}" for i in range(n)]
    if flip(rng, 0.2):
        ds["index"] = np.arange(n)[::-1]
    return ds


SHARED = [{}, {}, {}, {"pH_range": (3.1, 3.9)}, {"pH_max": 3.8}, {"read_dat_kwargs": {"skip_header": 2}},
          {"read_dat_kwargs": {"delimiter": "\t", "skip_header": 2}}, {"read_dat_method": "genfromtxt", "dic": 1700.0},
          {"skip_header": 2, "total_silicate": 12.0}, {"read_dat_kwargs": {"file_type": "genfromtxt"}}]


def _flat(kw):
    """Table-level arguments as file-level options."""
    out = {k: v for k, v in kw.items() if k not in ("pH_range", "read_dat_kwargs", "read_dat_method")}
    out.update(kw.get("read_dat_kwargs", {}))
    if "pH_range" in kw:
        out["pH_min"], out["pH_max"] = kw["pH_range"]
    if "read_dat_method" in kw:
        out["file_type"] = kw["read_dat_method"]
    return out


def _new_names(kw):
    if "read_dat_method" in kw:
        kw["file_type"] = kw.pop("read_dat_method")
    return kw


def _stale(rng, ds):
    """Results of an earlier solve in the table."""
    if flip(rng, 0.3):
        for k in RESULT_COLS:
            ds[k] = rng.uniform(1, 9, len(ds)) if flip(rng, 0.9) else nan
    return ds


def _alone(ctx, r, shared={}):
    """The row on its own through the file level (None where it is not to be
    solved)."""
    if r.get("titrant_molinity") is None or r.get("file_good") is False:
        return None
    skip = ("file_name", "file_path", "salinity", "titrant_molinity", "alkalinity_certified", "file_good")
    kw = _new_names({**_flat(shared), **{k: v for k, v in r.items() if k not in skip and v is not None}})
    sr, e = ctx.sut_raises(files.solve, os.path.join(r["file_path"], r["file_name"]), r["titrant_molinity"], r["salinity"], **kw)
    return sr if e is None and np.isfinite(sr.alkalinity) else None


def _expected(sr):
    d = dict.fromkeys(RESULT_COLS, nan)
    d["alkalinity_npts"] = 0
    if sr is not None:
        d["alkalinity_npts"] = sr.used.sum()
        d["alkalinity"] = sr.alkalinity
        d["pH_init"] = sr.pH[0]
        d["temperature_init"] = sr.temperature[0]
        if hasattr(sr, "alkalinity_all"):
            d["alkalinity_std"] = np.std(sr.alkalinity_all[sr.used])
        if hasattr(sr, "emf0"):
            d["emf0"] = sr.emf0
            d["gran_alkalinity"] = sr.ggr.alkalinity * 1e6
            d["gran_emf0"] = sr.ggr.emf0
    return d


# The table passes the salts it computed in umol/kg, the file level computes
# them itself: only the last digits may differ
TOLS = dict(alkalinity_npts=0, alkalinity_std=0.02, alkalinity=TOL_ALK, emf0=TOL_EMF0, gran_alkalinity=1e-5,
            gran_emf0=1e-5, pH_init=TOL_PH, temperature_init=0)


def _match(ctx, tag, out, i, want):
    for k, v in want.items():
        ctx.close(f"{tag}.{k}", out[k].iloc[i], v, TOLS[k])


def solve_table(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    rows, ts = _rows(ctx, n)
    ctx.note(rows=[dict(mode=m, **t.summary()) for t, m in ts])
    shared = copy.deepcopy(pick(rng, SHARED))
    want = [_expected(_alone(ctx, r, shared)) for r in rows]
    kind, index = _index(rng, n)
    klass = pick(rng, [None, calk.Dataset])
    ds = _stale(rng, _extra(rng, frame(rng, rows, index=index)))
    if flip(rng, 0.12):  # as from a reader with dtype_backend="numpy_nullable"
        ds = ds.convert_dtypes()
        kind += " (nullable)"
    if klass is not None:
        ds = klass(ds)
    given = ds.copy()
    out = ctx.sut(ds.solve, **shared) if klass is not None and flip(rng) else ctx.sut(calk.solve, ds, **shared)
    for i in range(n):
        _match(ctx, "alone", out, i, want[i])
    ctx.expect("in place", out is ds or all(k in ds for k in RESULT_COLS), "results not stored in the table given")
    ctx.expect("rows", len(out) == n and out.index.equals(given.index), "index changed")
    ctx.expect("class", type(out) is type(ds), f"{type(out)} from {type(ds)}")
    for k in given.columns:
        if k in RESULT_COLS:
            continue
        same = all(_eq(a, b) or (pd.isnull(a) is True and k in ("titrant_amount_unit", "opt_total_borate", "analyte_mass",
                                                       "total_sulfate", "total_borate", "total_fluoride"))
                   for a, b in zip(given[k], out[k]))
        ctx.expect("inputs", same, f"column {k} was changed", before=list(given[k]), after=list(out[k]))
    if "alkalinity_certified" in given:
        ctx.close("offset", out.alkalinity_offset.to_numpy(dtype=float),
                  out.alkalinity.to_numpy(dtype=float) - given.alkalinity_certified.to_numpy(dtype=float), 0)
    # again: identical
    first = out[RESULT_COLS].copy()
    out2 = ctx.sut(calk.solve, out, **shared)
    for k in RESULT_COLS:
        ctx.same("repeat", out2[k].to_numpy(dtype=float), first[k].to_numpy(dtype=float), column=k)
    ctx.state("solve", kind, klass is None, n, tuple(sorted(m for _, m in ts)))


def _eq(a, b):
    try:
        if a is b or a == b:
            return True
    except Exception:
        pass
    try:
        return bool(pd.isnull(a) and pd.isnull(b))
    except Exception:
        return False


def order_and_company(ctx):
    """Any order and any subset of the rows gives each row the same results."""
    rng = ctx.rng
    n = int(rng.integers(3, 7))
    rows, ts = _rows(ctx, n)
    ctx.note(rows=[dict(mode=m, **t.summary()) for t, m in ts])
    shared = copy.deepcopy(pick(rng, SHARED))
    base = ctx.sut(calk.solve, frame(rng, rows), **shared)
    for _ in range(2):
        sub = rng.permutation(n)[: int(rng.integers(1, n + 1))]
        kind, index = _index(rng, len(sub))
        ds = _stale(rng, _extra(rng, frame(rng, [rows[i] for i in sub], index=index)))
        out = ctx.sut(calk.solve, ds, **shared)
        for j, i in enumerate(sub):
            for k in RESULT_COLS:
                ctx.close("company." + k, out[k].iloc[j], base[k].iloc[i], TOLS[k])
            for k in ("total_sulfate", "total_borate", "total_fluoride"):
                ctx.close("company." + k, float(out[k].iloc[j]), float(base[k].iloc[i]), 1e-9)
        ctx.state("order", kind, n, len(sub), tuple(sorted(m for _, m in ts)))


def calibrate_table(ctx):
    """Individually calibrated molinities do not depend on the other rows."""
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    rows, ts = _rows(ctx, n, missing=False)
    nb = int(rng.integers(1, 4))
    for r, (t, m) in zip(rows, ts):
        del r["titrant_molinity"]
        r["alkalinity_certified"] = t.alk + float(rng.uniform(-3, 3)) if flip(rng, 0.7) else None
        r["titrant_molinity_init"] = t.c * float(rng.uniform(0.8, 1.25))
        r["analysis_batch"] = int(rng.integers(nb))
    ctx.note(rows=[dict(mode=m, **t.summary()) for t, m in ts])
    shared = copy.deepcopy(pick(rng, SHARED))
    want = []
    for r in rows:
        c = nan
        if r["alkalinity_certified"] is not None:
            skip = ("file_name", "file_path", "salinity", "alkalinity_certified", "analysis_batch")
            kw = _new_names({**_flat(shared), **{k: v for k, v in r.items() if k not in skip and v is not None}})
            cal, e = ctx.sut_raises(files.calibrate, os.path.join(r["file_path"], r["file_name"]),
                                    r["alkalinity_certified"], r["salinity"], **kw)
            c = float(cal["x"][0]) if e is None else nan
        want.append(c)
    kind, index = _index(rng, n)
    klass = pick(rng, [None, calk.Dataset])
    ds = _stale(rng, _extra(rng, frame(rng, rows, index=index)))
    if flip(rng, 0.3):  # from an earlier calibration
        ds["titrant_molinity_here"] = rng.uniform(0.05, 0.3, n)
        ds["titrant_molinity"] = rng.uniform(0.05, 0.3, n)
    if flip(rng, 0.12):  # as from a reader with dtype_backend="numpy_nullable"
        ds = ds.convert_dtypes()
        kind += " (nullable)"
    if klass is not None:
        ds = klass(ds)
    given = ds.copy()
    fn = pick(rng, ["calibrate", "calkulate"])
    out = ctx.sut(getattr(ds, fn), **shared) if klass is not None and flip(rng) else ctx.sut(getattr(calk, fn), ds, **shared)
    b = np.array([r["analysis_batch"] for r in rows])
    for i in range(n):
        ctx.close("here", out.titrant_molinity_here.iloc[i], want[i], 0, 3e-5)
        m = [want[j] for j in range(n) if b[j] == b[i] and not np.isnan(want[j])]
        ctx.close("batch", out.titrant_molinity.iloc[i], np.mean(m) if m else nan, 0, 3e-5)
        r = dict(rows[i])
        r.pop("titrant_molinity_init")
        r.pop("analysis_batch")
        c = out.titrant_molinity.iloc[i]
        r["titrant_molinity"] = None if np.isnan(c) else float(c)
        _match(ctx, "solved", out, i, _expected(_alone(ctx, r, shared)))
    ctx.expect("rows", len(out) == n and out.index.equals(given.index), "index changed")
    for k in ("file_name", "alkalinity_certified", "analysis_batch", "salinity"):
        ctx.expect("inputs", all(_eq(x, y) for x, y in zip(given[k], out[k])), f"column {k} was changed")
    ctx.close("offset", out.alkalinity_offset.to_numpy(dtype=float),
              out.alkalinity.to_numpy(dtype=float) - given.alkalinity_certified.to_numpy(dtype=float), 0)
    ctx.state("calibrate", kind, klass is None, n, nb, tuple(sorted(m for _, m in ts)))


def shared_files(ctx):
    """Rows that share a file (or its name in another folder), with the same
    or other settings; also long tables."""
    rng = ctx.rng
    long = ctx.index % 6 == 0
    src = []
    for i in range(int(rng.integers(1, 4))):
        t = Tit(rng, wild=pick(rng, [0.1, 0.5]))
        mode = pick(rng, MODES)
        meas = (t.emf if mode == "emf" else t.pH) + rng.normal(0, 0.3 if mode == "emf" else 0.005, t.tm.size)
        d = os.path.join(ctx.tmp, f"folder{i}")
        os.makedirs(d)
        p = t.write(os.path.join(d, "same.dat" if flip(rng, 0.7) else f"other{i}.dat"), meas)
        src.append((t, mode, rowdict(t, p, mode, titrant_molinity=t.c)))
    n = int(rng.integers(60, 180)) if long else int(rng.integers(2, 9))
    rows = []
    for _ in range(n):
        t, mode, r = pick(rng, src)
        r = dict(r)
        for k, v in (("titrant_molinity", t.c * float(pick(rng, [0.98, 1.03]))), ("salinity", t.S + float(pick(rng, [0.5, 1.5]))),
                     ("pH_max", pick(rng, [3.7, 3.9])), ("dic", float(pick(rng, [1500.0, 2100.0]))),
                     ("total_silicate", float(pick(rng, [0.0, 60.0]))), ("titrant_molinity", None)):
            if flip(rng, 0.2 if v is not None else 0.06):
                r[k] = v
        rows.append(r)
    ctx.note(rows=n, sources=[dict(mode=m, **t.summary()) for t, m, _ in src])
    alone = {}
    for r in rows:
        k = repr(sorted(r.items(), key=lambda kv: kv[0]))
        if k not in alone:
            alone[k] = _expected(_alone(ctx, r))
    kind, index = _index(rng, n)
    ds = frame(rng, rows, index=index, klass=pick(rng, [None, calk.Dataset]))
    out = ctx.sut(calk.solve, ds)
    ctx.expect("rows", len(out) == n, f"{len(out)} rows of {n}")
    for i, r in enumerate(rows):
        _match(ctx, "shared file", out, i, alone[repr(sorted(r.items(), key=lambda kv: kv[0]))])
    ctx.state("shared files", kind, len(src), long or n, len(alone))


# table, file and object may differ in the last digits
ROUNDING = True

SCENARIOS = [
    ("shared_files", shared_files, 24, 1200),
    ("solve_table", solve_table, 90, 4500),
    ("order_and_company", order_and_company, 45, 2200),
    ("calibrate_table", calibrate_table, 45, 2200),
]
