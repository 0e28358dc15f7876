import copy
import pickle

from ..common import *

RULE = ("random tables (all modes, options, units, normalities, carried totals, missing cells, solved or not, any index) from "
        "which single titrations are made in every way; results compared with the solved table, every column of the "
        "through-titration table with an independent model; copies, pickles, printing and access compared; a state is "
        "(mode, features, way of creation)")

CHARGE = dict(H=-1, OH=1, HCO3=1, CO3=2, BOH4=1, PO4=2, HPO4=1, H3PO4=-1, HSO4=-1, HF=-1, H3SiO4=1, NH3=1, HS=1,
              alk_alpha=1, alk_beta=1)


def species(h, tot, k):
    g = lambda x: tot.get(x, 0)
    out = {"H": h, "OH": k["k_water"] / h}
    k1, k2 = k["k_carbonic_1"], k["k_carbonic_2"]
    den = h * h + k1 * h + k1 * k2
    out["HCO3"], out["CO3"] = g("dic") * k1 * h / den, g("dic") * k1 * k2 / den
    out["BOH4"] = g("total_borate") * k["k_borate"] / (k["k_borate"] + h)
    p1, p2, p3 = (k[f"k_phosphoric_{i}"] for i in (1, 2, 3))
    den = h**3 + p1 * h**2 + p1 * p2 * h + p1 * p2 * p3
    P = g("total_phosphate")
    out["H3PO4"], out["HPO4"], out["PO4"] = P * h**3 / den, P * p1 * p2 * h / den, P * p1 * p2 * p3 / den
    for name, total, kk in (("H3SiO4", "total_silicate", "k_silicate"), ("NH3", "total_ammonia", "k_ammonia"),
                            ("HS", "total_sulfide", "k_sulfide")):
        out[name] = g(total) * k[kk] / (k[kk] + h)
    out["HSO4"] = g("total_sulfate") * h / (k["k_bisulfate"] + h)
    out["HF"] = g("total_fluoride") * h / (k["k_fluoride"] + h)
    return out


def make_table(ctx, n=None, noisy=None):
    rng = ctx.rng
    rows, tits, modes = [], [], []
    n = int(rng.integers(1, 5)) if n is None else n
    for i in range(n):
        mode = pick(rng, ["emf", "emf", "emf", "pH", "pH_adjust", "pH_gran"])
        t = Tit(rng, wild=pick(rng, [0, 0.3, 0.6]))
        meas = t.measurement(mode)
        t.noise = flip(rng, 0.4) if noisy is None else noisy
        if t.noise:
            meas = meas + (rng.normal(0, 0.2, meas.size) if mode == "emf" else rng.normal(0, 0.003, meas.size))
        t.meas = meas
        p = ctx.path()
        t.write(p, meas)
        r = rowdict(t, p, mode, titrant_molinity=t.c)
        if flip(rng, 0.2):
            r["file_name"] = os.path.join(r.pop("file_path"), r["file_name"])
        if t.norm == 1 and flip(rng, 0.3):
            r["titrant_normality"] = nan  # not given: one proton
        if mode == "emf" and flip(rng, 0.15):  # near the truth, so that all of the window is in it
            r["emf0_init"] = t.emf0 + float(rng.uniform(-1, 1))
        if mode == "emf" and flip(rng, 0.15):
            r["alkalinity_init"] = t.alk * float(rng.uniform(0.95, 1.05))
        if flip(rng, 0.3):
            r["comment"] = pick(rng, ["x", 3, None])
        rows.append(r)
        tits.append(t)
        modes.append(mode)
    index = pick(rng, [None, [int(i) * 3 + 2 for i in rng.permutation(n)], [int(i) for i in rng.permutation(n)], [int(i) for i in np.arange(n)[::-1]], [f"row {i}" for i in range(n)],
                       list(pd.date_range("2020-01-01", periods=n))])
    ds = frame(rng, rows, index=index, klass=pick(rng, [None, calk.Dataset]))
    return ds, tits, modes


def images(ds):
    return [str(c) for c in ds.columns], list(ds.index), [[repr(x) for x in ds.iloc[:, i]] for i in range(ds.shape[1])], [str(x) for x in ds.dtypes]


def create(ctx, ds, i, **kw):
    rng = ctx.rng
    ix = ds.index[i]
    if isinstance(ix, np.integer) and flip(rng, 0.7):
        ix = int(ix)  # as a user would write it
    how = pick(rng, ["function", "class", "method"])
    if how == "method" and not isinstance(ds, calk.Dataset):
        how = "function"
    if how == "function":
        return how, ctx.sut(calk.to_Titration, ds, ix, **kw)
    if how == "class":
        return how, ctx.sut(calk.Titration, ds.loc[ix], **kw)
    return how, ctx.sut(ds.to_Titration, ix, **kw)


def same_as_row(ctx, check, tt, solved_row):
    for c in RESULT_COLS:
        w = solved_row.get(c, nan)
        w = nan if w is None else float(w)
        g = tt.row.get(c, nan)
        g = nan if g is None else float(g)
        # the table may hold the salts in umol/kg already: rounding moves
        # where the least-squares search stops
        ctx.close(check, g, w, atol=2e-3 if c in ("alkalinity", "alkalinity_std", "emf0") else 1e-6, rtol=1e-9, column=c)


def agree(ctx):
    """The same results as the table, whichever way the object is made."""
    rng = ctx.rng
    ds, tits, modes = make_table(ctx)
    solved = ctx.sut(calk.solve, ds.copy())
    start = pick(rng, ["unsolved", "solved"])
    src = ds if start == "unsolved" else solved
    if isinstance(ds, calk.Dataset) and not isinstance(src, calk.Dataset):
        src = calk.Dataset(src)
    before = images(src)
    for i, (t, mode) in enumerate(zip(tits, modes)):
        how, tt = create(ctx, src, i)
        ctx.note(mode=mode, how=how, **t.summary())
        same_as_row(ctx, "same as the table", tt, solved.iloc[i])
        ctx.expect("table unchanged", images(src) == before, "the table changed when a Titration was made")
        init = {k: float(ds[k].iloc[i]) for k in ("emf0_init", "alkalinity_init") if k in ds and pd.notnull(ds[k].iloc[i])}
        one = ctx.sut(files.solve, t_path(ds.iloc[i]), t.c, t.S, **t.kw(mode), **init)
        ctx.close("same as the file", float(tt.alkalinity), float(one.alkalinity), atol=2e-3)
        ctx.close("analyte mass", float(tt.analyte_mass), t.M, rtol=1e-9)
        ctx.expect("no alkalinity", not np.isnan(tt.alkalinity), "alkalinity is missing")
        ctx.state(mode, how, start, t.signature())


def t_path(row):
    fp = row.get("file_path")
    return os.path.join(fp, row.file_name) if isinstance(fp, str) else row.file_name


def through(ctx):
    """Every column of the through-titration table against the model."""
    rng = ctx.rng
    ds, tits, modes = make_table(ctx, n=1)
    t, mode = tits[0], modes[0]
    before = pick(rng, ["unsolved", "unsolved", "solved", "no mass"])
    if before == "solved":
        ds = ctx.sut(calk.solve, ds)
    elif before == "no mass" and "analyte_mass" not in ds:
        ds["analyte_mass"] = nan  # as in a table where other rows have it
    how, tt = create(ctx, ds, 0)
    ctx.note(mode=mode, before=before, noisy=t.noise, **t.summary())
    df = tt.titration
    ctx.expect("shortcut", tt.t is tt.titration, "t is not titration")
    n = t.tm.size
    ctx.expect("one row per point", len(df) == n, f"{len(df)} rows for {n} points")
    col = lambda c: df[c].to_numpy(dtype=float)
    # what was measured and how it was prepared
    ctx.close("titrant mass", col("titrant_mass"), t.tm, rtol=1e-9, atol=1e-15)
    ctx.close("temperature", col("temperature"), t.T, rtol=1e-12)
    ctx.close("analyte mass", float(tt.analyte_mass), t.M, rtol=1e-9)
    M = float(tt.analyte_mass)
    tm, T, pH = col("titrant_mass"), col("temperature"), col("pH")
    if mode in ("pH", "pH_gran"):
        ctx.same("pH as measured", pH, t.meas)
    elif mode == "emf":
        ctx.same("EMF as measured", col("emf"), t.meas)
    if mode in ("emf", "pH_adjust"):
        ctx.close("pH from EMF and EMF0", pH, -np.log10(ref.h_of_emf(col("emf"), float(tt.emf0), T)), atol=1e-10)
        ctx.close("Gran pH", col("gran_pH"), -np.log10(ref.h_of_emf(col("emf"), float(tt.gran_emf0), T)), atol=1e-10)
        gu = df["gran_used"].to_numpy(dtype=bool)
        g0 = col("gran_emf0")[gu]
        ctx.expect("Gran EMF0", np.nanmin(g0) - 1e-9 <= float(tt.gran_emf0) <= np.nanmax(g0) + 1e-9,
                   f"{float(tt.gran_emf0)} outside the points used: {g0}")
    else:
        ctx.expect("no EMF in pH modes", "emf" not in df, "there is an EMF column")
    # points used
    used = df["used"].to_numpy()
    ctx.expect("number of points", int(used.sum()) == int(tt.alkalinity_npts), f"{used.sum()} used, {tt.alkalinity_npts} reported")
    if mode in ("pH", "pH_gran") or not t.noise:
        ctx.expect("points in the window", window_ok(t, used, pH, 3e-4), f"used {np.flatnonzero(used)}")
    ctx.close("first pH", float(tt.pH_init), pH[0], rtol=1e-12)
    ctx.close("first temperature", float(tt.temperature_init), T[0], rtol=1e-12)
    # totals and constants as they are in the mixture
    tot, ks = {}, {}
    for k in t.totals:
        if k in df:
            tot[k] = col(k)
            ctx.close("totals", tot[k], np.broadcast_to(t.totals[k], n), rtol=1e-6, atol=1e-15, total=k)
        else:
            ctx.expect("totals present", not np.any(np.asarray(t.totals[k]) > 0), f"no column {k}")
    for k in t.ks:
        if k in df:
            ks[k] = col(k)
            ctx.close("constants", ks[k], np.broadcast_to(t.ks[k], n), rtol=1e-5, constant=k)
    full = {k: ks.get(k, np.broadcast_to(t.ks[k], n)) for k in t.ks}
    # species and alkalinity from pH
    h = 10.0 ** -pH
    sp = species(h, tot, full)
    for k, v in sp.items():
        ctx.close("species", col(k), v, rtol=2e-5, atol=1e-14, species=k)
    total = sum(CHARGE[k] * col(k) for k in CHARGE)
    ctx.close("alkalinity is the sum of the species", col("alkalinity_from_pH"), total, rtol=1e-9, atol=1e-12)
    ctx.close("alkalinity from pH", col("alkalinity_from_pH"), ref.alkalinity(h, tot, full), rtol=1e-8, atol=2e-8)
    # CO2 solubility (Weiss 1974) at the salinity and temperature of each point
    TK = (T + 273.15) / 100
    ctx.close("CO2 solubility", col("k_CO2"), np.exp(
        -60.2409 + 93.4517 / TK + 23.3585 * np.log(TK) + t.S * (0.023517 - 0.023656 * TK + 0.0047036 * TK**2)), rtol=1e-6)
    # dilution and acid
    ctx.close("dilution", col("dilution_factor"), M / (M + tm), rtol=1e-12)
    acid = tm * t.c * t.norm
    ctx.close("alkalinity from acid", col("alkalinity_from_acid"), (float(tt.alkalinity) * 1e-6 * M - acid) / (M + tm),
              rtol=1e-9, atol=1e-14)
    est = col("alkalinity_estimate")
    ctx.close("estimates", est, (col("alkalinity_from_pH") * (M + tm) + acid) / M, rtol=1e-9, atol=1e-14)
    # and back to the results
    if mode == "pH":
        ctx.close("mean of estimates", float(np.mean(est[used])) * 1e6, float(tt.alkalinity), atol=1e-3)
        ctx.close("spread of estimates", float(np.std(est[used])) * 1e6, float(tt.alkalinity_std), atol=1e-3)
    elif mode != "pH_gran":
        ctx.close("spread of estimates", float(np.std(est[used])) * 1e6, float(tt.alkalinity_std), atol=2e-3)
        if not t.noise:
            ctx.close("mean of estimates", float(np.mean(est[used])) * 1e6, float(tt.alkalinity), atol=TOL_ALK)
            ctx.close("estimates at used points", est[used] * 1e6, np.full(used.sum(), float(tt.alkalinity)), atol=2 * TOL_ALK)
            ctx.close("acid and pH agree where used", col("alkalinity_from_acid")[used], col("alkalinity_from_pH")[used], atol=1e-7)
    ctx.state(mode, how, t.signature(), t.noise)


def same_object(ctx, check, a, b, tt):
    ctx.expect(check + ": row", [str(i) for i in a.row.index] == [str(i) for i in b.row.index] and all(
        x is y or x == y or (pd.isna(x) and pd.isna(y)) for x, y in zip(a.row, b.row)), "row values differ")
    ctx.expect(check + ": table", a.t.equals(b.t) and list(a.t.columns) == list(b.t.columns), "through-titration tables differ")
    ctx.expect(check + ": type", type(a) is type(b), f"{type(b)}")


def objects(ctx):
    """Copies, pickles, printing and access."""
    rng = ctx.rng
    ds, tits, modes = make_table(ctx, n=int(rng.integers(1, 3)))  # values may be missing for this row
    how, tt = create(ctx, ds, 0)
    t = tits[0]
    ctx.note(mode=modes[0], **t.summary())
    for name, fn in (("copy", copy.copy), ("deep copy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
        fn.__name__ = name.replace(" ", "_")
        c = ctx.sut(fn, tt)
        same_object(ctx, name, tt, c, tt)
        ctx.expect(name + ": shortcut", c.alkalinity == tt.alkalinity, "alkalinity differs")
        if name != "copy":
            c.row["alkalinity"] = -1.0
            c.titration.loc[0, "pH"] = -1.0
            ctx.expect(name + ": independent", tt.alkalinity != -1.0 and tt.t.pH[0] != -1.0, "changing the copy changed the original")
    name = os.path.basename(str(ds.file_name.iloc[0]))
    for fn in (str, repr):
        s = ctx.sut(fn, tt)
        ctx.expect("names its file", isinstance(s, str) and name in s, f"{s!r} does not name {name}")
        if "file_path" in ds.columns:
            ctx.expect("names its file in full", t_path(ds.iloc[0]) in s, f"{s!r} does not name {t_path(ds.iloc[0])}")
    own = set(dir(type(tt))) | set(vars(tt))
    for k in tt.row.index:
        w = tt.row[k]
        g = ctx.sut(tt.__getitem__, k)
        ctx.expect("item access", g is w or g == w or (pd.isna(g) and pd.isna(w)), f"[{k!r}] gives {g!r} instead of {w!r}")
        if k not in own:
            g = ctx.sut(getattr, tt, k)
            ctx.expect("attribute access", g is w or g == w or (pd.isna(g) and pd.isna(w)), f".{k} gives {g!r} instead of {w!r}")
    # values of the row it was made from
    for k in ds.columns:
        w = ds[k].iloc[0]
        if k not in RESULT_COLS and k != "analyte_mass":
            g = tt[k]
            ctx.expect("values of the row", g == w or (pd.isna(g) and pd.isna(w)), f"{k} is {g!r} instead of {w!r}")
    for bad in ("no_such_thing", "alkalinity_x"):
        e = ctx.sut_raises(getattr, tt, bad)[1]
        ctx.expect("unknown attribute", isinstance(e, AttributeError), f"{e!r}")
        ctx.expect("hasattr", not hasattr(tt, bad), bad)
        ctx.expect("default", getattr(tt, bad, 7) == 7, bad)
        e = ctx.sut_raises(tt.__getitem__, bad)[1]
        ctx.expect("unknown item", isinstance(e, (AttributeError, KeyError)), f"{e!r}")
    ctx.state("object", modes[0], how, t.signature())


def overrides(ctx):
    """Arguments replace the row's values, in the object only."""
    rng = ctx.rng
    ds, tits, modes = make_table(ctx, n=2)
    t, mode = tits[0], modes[0]
    kw = {}
    for k, v in (("dic", float(rng.uniform(500, 2200))), ("titrant_molinity", t.c * float(rng.uniform(0.95, 1.05))),
                 ("salinity", float(rng.uniform(20, 38))), ("total_silicate", 77.0),
                 ("analyte_mass", float(rng.uniform(0.09, 0.11) / 0.1 * t.M)), ("titrant_normality", 1.01 * t.norm),
                 ("opt_k_bisulfate", pick(rng, [1, 2]))):
        if flip(rng, 0.4):
            kw[k] = v
    for k in ("dic", "total_silicate", "total_phosphate", "opt_k_carbonic", "pH_max", "titrant_normality", "emf0_init"):
        if k in ds and pd.notnull(ds[k].iloc[0]) and flip(rng, 0.15):
            kw[k] = None  # back to the default
    if not kw:
        kw["dic"] = 1234.5
    ctx.note(mode=mode, replaced=kw, **t.summary())
    before = images(ds)
    how, tt = create(ctx, ds, 0, **kw)
    ctx.expect("table unchanged", images(ds) == before, "the table changed")
    changed = ds.iloc[[0]].copy()
    for k, v in kw.items():
        changed[k] = v
    want = ctx.sut(calk.solve, changed).iloc[0]
    same_as_row(ctx, "replaced values", tt, want)
    for k, v in kw.items():
        ctx.expect("row shows what was used", tt[k] == v or v is None and pd.isnull(tt[k]), f"{k} is {tt[k]!r}, not {v!r}")
    M = float(tt.analyte_mass)
    tm = tt.t.titrant_mass.to_numpy()
    norm = kw.get("titrant_normality", t.norm)
    acid = tm * kw.get("titrant_molinity", t.c) * (1 if norm is None else norm)
    ctx.close("alkalinity from acid", tt.t.alkalinity_from_acid.to_numpy(),
              (float(tt.alkalinity) * 1e-6 * M - acid) / (M + tm), rtol=1e-9, atol=1e-14)
    ctx.state("overrides", mode, tuple(sorted(kw)), how)


def calibrated(ctx):
    """After calibrating a table, an object of each row uses the table's
    titrant molinity and repeats the table's results."""
    rng = ctx.rng
    rows, tits = [], []
    c = float(rng.uniform(0.09, 0.12))
    for i in range(int(rng.integers(2, 4))):
        t = Tit(rng, wild=0.2, carried_ok=False, hi_normality=False)
        p = ctx.path()
        t.write(p, t.emf)
        r = rowdict(t, p, "emf")
        r["analysis_batch"] = pick(rng, ["a", "b"])
        r["alkalinity_certified"] = t.alk if i == 0 or flip(rng) else nan
        rows.append(r)
        tits.append(t)
    rows[0]["analysis_batch"] = "a"
    ds = frame(rng, rows, klass=calk.Dataset)
    ctx.sut(ds.calkulate)
    before = images(ds)
    for i in range(len(ds)):
        if np.isnan(ds.titrant_molinity.iloc[i]):
            e = ctx.sut_raises(ds.to_Titration, ds.index[i])[1]
            ctx.expect("no molinity, no result", e is not None, "solved without a titrant molinity")
            continue
        tt = ctx.sut(ds.to_Titration, ds.index[i])
        if np.isnan(ds.alkalinity.iloc[i]):
            # the mean molinity of the batch leaves no point in the window
            ctx.expect("not solved either", np.isnan(tt.row.get("alkalinity", nan)), "solved where the table has no alkalinity")
            ctx.state("calibrated, not solved")
            continue
        same_as_row(ctx, "same as the calibrated table", tt, ds.iloc[i])
        ctx.same("molinity", float(tt.titrant_molinity), float(ds.titrant_molinity.iloc[i]))
        ctx.state("calibrated", tits[i].signature())
    ctx.expect("table unchanged", images(ds) == before, "the table changed")


# table, file and object may differ in the last digits
ROUNDING = True

SCENARIOS = [
    ("agree", agree, 50, 4500),
    ("through", through, 80, 7000),
    ("objects", objects, 30, 3000),
    ("overrides", overrides, 36, 3500),
    ("calibrated", calibrated, 24, 2500),
]
