from ..common import *

RULE = ("for every option: two values, a table with some rows giving it and some not (column absent, missing, per row), "
        "with and without an argument, alone and in random combinations, through solve, calibrate, calkulate (function "
        "and method) and Titration; compared with the file-level call with the value that should win; values of an "
        "option must give different results (so an ignored option shows); defaults compared with giving them "
        "explicitly; a state is (option, call, pattern of row/argument)")

K = 10.0 ** -3.6  # makes a weak acid matter inside the window
P = "pH_max"
# option -> (values, other settings under which it matters, modes)
ALL, EMF = ["emf", "pH", "pH_adjust"], ["emf"]
NUMERIC = {
    "dic": ([500.0, 1500.0, 2200.0], {P: 5.0}, ALL),
    "total_silicate": ([60.0, 150.0, 300.0], {"k_silicate": K}, ALL),
    "total_phosphate": ([200.0, 900.0, 1500.0], {}, ALL),
    "total_ammonia": ([60.0, 150.0, 300.0], {"k_ammonia": K}, ALL),
    "total_sulfide": ([60.0, 150.0, 300.0], {"k_sulfide": K}, ALL),
    "total_alpha": ([60.0, 150.0, 300.0], {"k_alpha": K}, ALL),
    "total_beta": ([60.0, 150.0, 300.0], {"k_beta": K}, ALL),
    "total_borate": ([200.0, 500.0, 900.0], {"k_borate": K}, ALL),
    "total_fluoride": ([30.0, 150.0, 300.0], {}, ALL),
    "total_sulfate": ([12000.0, 24000.0, 35000.0], {}, ALL),
    "k_silicate": ([K, K * 2, K * 4], {"total_silicate": 200.0}, ALL),
    "k_ammonia": ([K, K * 2, K * 4], {"total_ammonia": 200.0}, ALL),
    "k_sulfide": ([K, K * 2, K * 4], {"total_sulfide": 200.0}, ALL),
    "k_alpha": ([K, K * 2, K * 4], {"total_alpha": 200.0}, ALL),
    "k_beta": ([K, K * 2, K * 4], {"total_beta": 200.0}, ALL),
    "k_borate": ([K, K * 2, K * 4], {}, ALL),
    "k_carbonic_1": ([1e-5, 5e-5, 2e-4], {"dic": 2000.0}, ALL),
    "k_carbonic_2": ([1e-5, 5e-5, 2e-4], {"dic": 2000.0, "k_carbonic_1": 1e-4}, ALL),
    "k_fluoride": ([1e-3, 3e-3, 6e-3], {}, ALL),
    "k_phosphoric_1": ([1e-3, 5e-3, 2e-2], {"total_phosphate": 300.0}, ALL),
    "k_phosphoric_2": ([1e-5, 5e-5, 2e-4], {"total_phosphate": 300.0}, ALL),
    "k_phosphoric_3": ([1e-5, 5e-5, 2e-4], {"total_phosphate": 300.0, "k_phosphoric_2": 1e-4}, ALL),
    "k_bisulfate": ([0.05, 0.1, 0.2], {}, ALL),
    "k_water": ([1e-8, 3e-8, 6e-8], {}, ALL),
    "titrant_density": ([0.98, 1.0, 1.06], {}, ALL),
    "molinity_HCl": ([0.05, 0.5, 0.9], {}, ALL),
    "molinity_NaCl": ([0.1, 0.5, 0.9], {}, ALL),
    "molinity_H2SO4": ([0.1, 0.5, 0.9], {"titrant": "H2SO4"}, ALL),
    "temperature_override": ([0.0, 20.0, 31.0], {}, ALL),
    "pH_min": ([3.0, 3.15, 3.35], {}, ALL + ["pH_gran"]),
    "pH_max": ([3.4, 3.6, 3.9], {}, ALL + ["pH_gran"]),
    "titrant_normality": ([0.5, 1.5, 2.0], {}, ALL + ["pH_gran"]),
    "titrant_total_sulfate": ([0.2, 0.5, 1.0], {}, ALL),
    "titrant_total_fluoride": ([0.05, 0.2, 0.4], {}, ALL),
    "titrant_total_phosphate": ([0.05, 0.2, 0.4], {}, ALL),
    "analyte_mass": ([0.09, 0.1, 0.12], {}, ALL + ["pH_gran"]),
    "analyte_volume": ([90.0, 100.0, 120.0], {}, ALL + ["pH_gran"]),
}
CHOICES = {
    "opt_k_carbonic": ([1, 4, 15], {"dic": 2100.0, P: 6.5}, ["pH"]),
    "opt_k_bisulfate": ([1, 2], {}, ALL),
    "opt_k_fluoride": ([1, 2], {"total_fluoride": 300.0}, ALL),
    "opt_total_borate": ([1, 2], {"k_borate": K}, ALL),
    "opt_pH_scale": ([1, 3], {}, ALL),
    "titrant": (["H2SO4", "HCl"], {}, ALL),
    "titrant_amount_unit": (["g", "ml"], {}, ALL + ["pH_gran"]),
    "dilute_totals_for_ks": ([True, False], {"dic": 2100.0, P: 6.5}, ["pH"]),
    "gran_logic": (["legacy", "v23.7+"], {}, EMF),
    "double": ([True, False], {}, EMF),
    "solve_mode": (["pH", "pH_adjust", "pH_gran"], {}, ["pH"]),
    "emf0_init": ([500.0, 620.0, 700.0], {"double": False}, EMF),
    "alkalinity_init": ([1800.0, 2400.0, 2600.0], {}, EMF),
    "titrant_molinity_init": ([0.07, 0.1, 0.15], {}, ALL),
}
OPTIONS = {**NUMERIC, **CHOICES}
# the result need not show which value was used
QUIET = {"double", "alkalinity_init", "titrant_molinity_init", "emf0_init"}
PHYSICAL = {"titrant_density", "molinity_HCl", "molinity_NaCl", "molinity_H2SO4", "pH_min", "pH_max", "titrant_normality",
            "analyte_mass", "analyte_volume", "titrant", "titrant_amount_unit", "gran_logic", "double", "emf0_init",
            "alkalinity_init", "titrant_molinity_init", "solve_mode"}
DEFAULTS = dict(dic=0, total_silicate=0, total_phosphate=0, total_ammonia=0, total_sulfide=0, total_alpha=0, total_beta=0,
                molinity_HCl=0.1, molinity_NaCl=0.6, molinity_H2SO4=0.1, pH_min=3, pH_max=4, titrant_normality=1,
                titrant_total_sulfate=0, titrant_total_fluoride=0, titrant_total_phosphate=0, opt_k_carbonic=10,
                opt_k_bisulfate=1, opt_k_fluoride=1, opt_total_borate=1, opt_pH_scale=3, titrant="HCl",
                titrant_amount_unit="ml", dilute_totals_for_ks=False, gran_logic="v23.7+", double=True, solve_mode="emf",
                file_type="genfromtxt", skip_header=2, delimiter="\t", col_titrant_amount=0, col_measurement=1,
                col_temperature=2)
TOLS = dict(alkalinity_npts=0, alkalinity_std=0.02, alkalinity=TOL_ALK, emf0=TOL_EMF0, gran_alkalinity=1e-5,
            gran_emf0=1e-5, pH_init=TOL_PH, temperature_init=0)


def _titration(ctx, mode):
    """Plain seawater with a little noise, recorded without settings."""
    rng = ctx.rng
    t = Tit(rng, plain=True, pH_min=3.0, pH_max=4.0, npts=40)
    # in plain ml, mass known
    t.unit_kw, t.analyte_kw = {}, {"analyte_mass": t.M}
    t.amount = t.tm * 1e3 / ref.rho_hcl_nacl(0.1, 0.6)
    t.totals_user = {"dic": t.totals_user.get("dic", 2000.0)}
    meas = t.emf + rng.normal(0, 0.2, t.tm.size) if mode == "emf" else t.pH + rng.normal(0, 0.003, t.tm.size)
    return t, meas


def _observe(sr):
    d = dict.fromkeys(RESULT_COLS, nan)
    d["alkalinity_npts"] = 0
    if sr is None or not np.isfinite(sr.alkalinity):
        return d
    d["alkalinity_npts"] = sr.used.sum()
    d["alkalinity"] = sr.alkalinity
    d["pH_init"] = sr.pH[0]
    d["temperature_init"] = sr.temperature[0]
    if hasattr(sr, "alkalinity_all"):
        d["alkalinity_std"] = np.std(sr.alkalinity_all[sr.used])
    if hasattr(sr, "emf0"):
        d["emf0"] = sr.emf0
        d["gran_alkalinity"] = sr.ggr.alkalinity * 1e6
        d["gran_emf0"] = sr.ggr.emf0
    return d


def _file_solve(ctx, path, c, S, eff):
    sr, e = ctx.sut_raises(files.solve, path, c, S, **eff)
    return _observe(sr if e is None else None)


def _file_cal(ctx, path, A, S, eff):
    cal, e = ctx.sut_raises(files.calibrate, path, A, S, **eff)
    return nan if e is not None else float(cal["x"][0])


def _fn(rng, call, klass):
    return (lambda ds, **kw: getattr(ds, call)(**kw)) if klass is not None and flip(rng) else getattr(calk, call)


def _compare(ctx, opt, call, out, i, path, t, A, eff):
    if call == "solve":
        want = _file_solve(ctx, path, t.c, t.S, eff)
    else:
        c = _file_cal(ctx, path, A, t.S, eff)
        ctx.close("calibrated", out.titrant_molinity_here.iloc[i], c, 0, 3e-5, option=opt, row=i, effective=eff)
        eff = {k: v for k, v in eff.items() if k != "titrant_molinity_init"}
        c = float(out.titrant_molinity.iloc[i])
        want = _observe(None) if np.isnan(c) else _file_solve(ctx, path, c, t.S, eff)
    for k, v in want.items():
        # (EMF data that do not fit the model: the last digits of the salts grow)
        loose = 10 if opt not in PHYSICAL and np.isfinite(want["emf0"]) else 1
        ctx.close("solved." + k, out[k].iloc[i], v, TOLS[k] * loose, option=opt, row=i, effective=eff)
    return want


def _values(rng, opt):
    vals, base, modes = OPTIONS[opt]
    vals = [vals[i] for i in rng.permutation(len(vals))]
    while len(vals) < 3:
        vals.append(vals[0])
    return vals, dict(base), modes


def _single(ctx, call):
    """One option, all ways of giving it."""
    rng = ctx.rng
    names = sorted(OPTIONS)
    opt = names[(ctx.index + int(ctx.prop[1:])) % len(names)]  # every option in turn
    if call == "solve" and opt == "titrant_molinity_init":
        opt = "dic"
    vals, base, modes = _values(rng, opt)
    if call != "solve" and opt not in PHYSICAL:
        # EMF data that do not fit the model need not have one best molinity
        modes = ["pH"]
    mode = pick(rng, modes)
    if mode != "emf" and opt != "solve_mode":
        base["solve_mode"] = mode
    t, meas = _titration(ctx, mode)
    p = t.write(ctx.path(), meas)
    v1, v2, va = vals[0], vals[1], vals[2]
    arg = flip(rng, 0.6)
    column = pick(rng, ["absent", "all", "mixed", "mixed", "empty"])
    if opt in ("analyte_mass", "analyte_volume") and column == "absent" and not arg:
        column = "mixed"
    per_row = {"absent": [None] * 3, "all": [v1, v2, v1], "mixed": [v1, None, v2], "empty": [None] * 3}[column]
    if column == "mixed" and flip(rng):
        per_row = [per_row[i] for i in rng.permutation(3)]
    A = t.alk
    rows = []
    for v in per_row:
        r = dict(file_name=os.path.basename(p), file_path=os.path.dirname(p), salinity=t.S)
        if opt == "analyte_mass":
            r["analyte_volume"] = t.M * 1e3 / 1.02
        elif opt == "analyte_volume":
            if column == "absent":
                r["analyte_mass"] = None
        else:
            r["analyte_mass"] = t.M
        if "dic" not in base and opt != "dic":
            r["dic"] = t.totals_user["dic"]
        if call == "solve":
            r["titrant_molinity"] = t.c
        else:
            r["alkalinity_certified"] = A
            r["analysis_batch"] = len(rows)
        if column != "absent":
            r[opt] = v
        rows.append(r)
    base_as_arg = flip(rng)
    kw = {}
    for k, v in base.items():
        if base_as_arg:
            kw[k] = v
        else:
            for r in rows:
                r[k] = v
    if arg:
        kw[opt] = va
    ctx.note(option=opt, call=call, mode=mode, per_row=per_row, argument=kw.get(opt, "-"), base=base)
    klass = pick(rng, [None, calk.Dataset])
    ds = frame(rng, rows, klass=klass)
    if column == "empty":
        ds[opt] = pick(rng, [None, nan])
    if opt == "analyte_volume" and column == "absent":
        ds["analyte_mass"] = nan
    out = ctx.sut(_fn(rng, call, klass), ds, **kw)
    seen = {}
    for i, (r, v) in enumerate(zip(rows, per_row)):
        eff = {k: x for k, x in {**kw, **{k: x for k, x in r.items() if x is not None}}.items() if k not in (
            "file_name", "file_path", "salinity", "titrant_molinity", "alkalinity_certified", "analysis_batch")}
        if call == "solve":
            eff.pop("titrant_molinity_init", None)
        w = _compare(ctx, opt, call, out, i, p, t, A, eff)
        key = str(eff.get(opt, "default"))
        seen.setdefault(key, []).append((w, out.titrant_molinity_here.iloc[i] if call != "solve" else None))
    # values that differ give results that differ
    keys = list(seen)
    if opt not in QUIET and len(keys) > 1:
        for x in keys:
            for y in keys:
                if x < y and "default" not in (x, y):
                    _differs(ctx, opt, call, seen[x][0], seen[y][0], x, y)
    ctx.state(opt, call, column, arg)


def _differs(ctx, opt, call, a, b, x, y):
    if call == "solve":
        d = max((abs(a[0][k] - b[0][k]) / (0.005 * TOLS[k] or 1e-9) for k in RESULT_COLS
                 if np.isfinite(a[0][k]) and np.isfinite(b[0][k])), default=0)
        diff_nan = any(np.isfinite(a[0][k]) != np.isfinite(b[0][k]) for k in RESULT_COLS)
        ctx.expect("has effect", d > 1 or diff_nan, f"{opt} = {x} and {y} give the same results")
    elif opt not in ("gran_logic",):
        ctx.expect("has effect", not abs(a[1] / b[1] - 1) < 2e-6, f"{opt} = {x} and {y} give the same molinity")


def single_solve(ctx):
    _single(ctx, "solve")


def single_calibrate(ctx):
    _single(ctx, pick(ctx.rng, ["calibrate", "calkulate"]))


COMBO = [o for o in OPTIONS if o not in ("solve_mode", "titrant_molinity_init", "analyte_mass", "analyte_volume",
                                         "emf0_init", "alkalinity_init", "pH_min", "opt_pH_scale")]


def combination(ctx):
    rng = ctx.rng
    call = pick(rng, ["solve", "solve", "calibrate", "calkulate"])
    mode = pick(rng, ["emf", "pH", "pH_adjust", "pH_gran"] if call == "solve" else ["pH", "pH_gran"])
    t, meas = _titration(ctx, mode)
    p = t.write(ctx.path(), meas)
    n = int(rng.integers(1, 4))
    opts = [COMBO[i] for i in rng.permutation(len(COMBO))[: int(rng.integers(3, 12))]]
    rows = []
    for i in range(n):
        r = dict(file_name=os.path.basename(p), file_path=os.path.dirname(p), salinity=t.S, analyte_mass=t.M)
        if call == "solve":
            r["titrant_molinity"] = t.c
        else:
            r["alkalinity_certified"] = t.alk
            r["analysis_batch"] = i
        rows.append(r)
    kw = {} if mode == "emf" else {"solve_mode": mode}
    if flip(rng) and kw:
        for r in rows:
            r.update(kw)
        kw = {}
    pattern = []
    for o in opts:
        vals = OPTIONS[o][0]
        how = pick(rng, ["row", "arg", "both", "mixed", "mixed+arg"])
        pattern.append((o, how))
        if how in ("arg", "both", "mixed+arg"):
            kw[o] = pick(rng, vals)
        if how != "arg":
            for r in rows:
                r[o] = pick(rng, vals) if "mixed" not in how or flip(rng) else None
    ctx.note(call=call, mode=mode, pattern=pattern, rows=rows, arguments=kw)
    klass = pick(rng, [None, calk.Dataset])
    ds = frame(rng, rows, klass=klass)
    out = ctx.sut(_fn(rng, call, klass), ds, **kw)
    for i, r in enumerate(rows):
        eff = {k: x for k, x in {**kw, **{k: v for k, v in r.items() if v is not None}}.items() if k not in (
            "file_name", "file_path", "salinity", "titrant_molinity", "alkalinity_certified", "analysis_batch")}
        _compare(ctx, "combination", call, out, i, p, t, t.alk, eff)
    for o, how in pattern:
        ctx.state(o, how, call)


# -- options of the file itself
def _layout(rng):
    return dict(col_titrant_amount=0, col_measurement=1, col_temperature=2)


def file_options(ctx):
    rng = ctx.rng
    mode = pick(rng, ["emf", "pH"])
    n = int(rng.integers(2, 4))
    ts = [_titration(ctx, mode) for _ in range(n)]
    opt = pick(rng, ["file_path", "cols", "delimiter", "skip_header", "file_type", "read_dat_method", "n_cols", "encoding"])
    call = pick(rng, ["solve", "calibrate", "calkulate"])
    base = {} if mode == "emf" else {"solve_mode": mode}
    # every row's file needs the option's value `need`; it is given by row or argument
    rows, truth = [], []
    arg_layout = None
    kw = dict(base)
    given = [pick(rng, ["row", "arg"]) for _ in range(n)]
    row_delims = [str(x) for x in rng.permutation([",", "|", ":", "\t", " "])]
    if opt == "encoding":
        given = ["row" if i else "arg" for i in range(n)]

    def write(path, cols, delim="\t", header=2, width=3, t=None, meas=None, enc="utf-8", text="header"):
        with open(path, "w", encoding=enc) as f:
            for i in range(header):
                f.write(f"{text} {i}\n")
            for a, m, T in zip(t.amount, meas, t.T):
                c = ["0.25"] * width
                c[cols[0]], c[cols[1]], c[cols[2]] = repr(float(a)), repr(float(m)), repr(float(T))
                f.write(delim.join(c) + "\n")

    def need(i, how):
        """The option values the file of row i needs."""
        if opt == "cols":
            w = 6
            c = [int(x) for x in np.random.default_rng(77 if how == "arg" else 100 + i).permutation(w)[:3]]
            return dict(col_titrant_amount=c[0], col_measurement=c[1], col_temperature=c[2])
        if opt == "delimiter":
            return dict(delimiter=";" if how == "arg" else row_delims[i])
        if opt == "skip_header":
            return dict(skip_header=5 if how == "arg" else 1 + i * 2 + (i > 1))
        if opt in ("file_type", "read_dat_method"):
            return {opt: "pclims" if how == "arg" else ["vindta", "genfromtxt", "vindta"][i]}
        if opt == "n_cols":
            return dict(n_cols=8 if how == "arg" else 7 + 2 * i)
        if opt == "encoding":
            return dict(encoding="utf-16" if how == "arg" else "utf-8")
        return {}

    for i, (t, meas) in enumerate(ts):
        how = given[i]
        nd = need(i, how)
        d = os.path.join(ctx.tmp, f"d{i if how == 'row' else 'arg'}")
        os.makedirs(d, exist_ok=True)
        name = f"same{i}.dat"
        path = os.path.join(d, name)
        cols = (nd.get("col_titrant_amount", 0), nd.get("col_measurement", 1), nd.get("col_temperature", 2))
        if nd.get("file_type") == "pclims" or nd.get("read_dat_method") == "pclims" or opt == "n_cols":
            cols, width = (1, 2, 5), nd.get("n_cols", 6)
        else:
            width = 6 if opt == "cols" else 3
        write(path, cols, nd.get("delimiter", "\t"), nd.get("skip_header", 2), width, t, meas, nd.get("encoding", "utf-8"))
        r = dict(file_name=name, salinity=t.S, analyte_mass=t.M, dic=t.totals_user["dic"])
        if call == "solve":
            r["titrant_molinity"] = t.c
        else:
            r["alkalinity_certified"] = t.alk
            r["analysis_batch"] = i
        if opt == "file_path":
            if how == "row":
                r["file_path"] = d
            else:
                kw["file_path"] = d
                r["file_path"] = None
        else:
            r["file_path"] = d
            if how == "row":
                r.update(nd)
            else:
                if opt == "read_dat_method" and flip(rng):
                    kw["file_type"] = nd[opt]
                elif opt != "file_type" and flip(rng):
                    kw.setdefault("read_dat_kwargs", {}).update(nd)
                else:
                    kw.update(nd)
                for k in nd:
                    r.setdefault(k, None)
        rows.append(r)
    if opt == "n_cols":
        kw["file_type"] = "pclims"
    if all("file_path" in r and r["file_path"] is None for r in rows) and flip(rng):
        for r in rows:
            del r["file_path"]
    if "arg" not in given and opt in ("cols", "skip_header", "delimiter") and flip(rng):
        kw.update(need(0, "arg"))  # must lose
    ctx.note(option=opt, call=call, given=given, rows=rows, arguments=kw)
    klass = pick(rng, [None, calk.Dataset])
    ds = frame(rng, rows, klass=klass)
    out = ctx.sut(_fn(rng, call, klass), ds, **kw)
    for i, (t, meas) in enumerate(ts):
        # the same data in the plain format, without any file option
        q = t.write(ctx.path(), meas)
        eff = dict(base, analyte_mass=t.M, dic=t.totals_user["dic"])
        _compare(ctx, opt, call, out, i, q, t, t.alk, eff)
        ctx.expect("read", out.alkalinity_npts.iloc[i] >= 3, f"row {i}: {opt} given by {given[i]} was not obeyed")
        ctx.state(opt, call, given[i])


def old_names(ctx):
    """pH_range and read_dat_method act as their replacements."""
    rng = ctx.rng
    mode = pick(rng, ["emf", "pH", "pH_gran"])
    t, meas = _titration(ctx, mode)
    p = t.write(ctx.path(), meas)
    call = pick(rng, ["solve", "calibrate", "calkulate"])
    lo, hi = float(rng.uniform(3.0, 3.25)), float(rng.uniform(3.7, 4.6))
    rows = [dict(file_name=p, salinity=t.S, analyte_mass=t.M, dic=t.totals_user["dic"], solve_mode=mode) for _ in range(2)]
    own = flip(rng)
    if own:  # a row value still wins
        rows[0]["pH_min"], rows[0]["pH_max"] = 3.15, 3.9
        rows[1]["pH_min"], rows[1]["pH_max"] = None, None
    for i, r in enumerate(rows):
        if call == "solve":
            r["titrant_molinity"] = t.c
        else:
            r["alkalinity_certified"], r["analysis_batch"] = t.alk, i
    rng_value = pick(rng, [(lo, hi), [lo, hi], np.array([lo, hi])])
    klass = pick(rng, [None, calk.Dataset])
    out = ctx.sut(_fn(rng, call, klass), frame(rng, rows, klass=klass), pH_range=rng_value)
    for i, r in enumerate(rows):
        eff = dict(analyte_mass=t.M, dic=t.totals_user["dic"], solve_mode=mode, pH_min=lo, pH_max=hi)
        if own and i == 0:
            eff.update(pH_min=3.15, pH_max=3.9)
        _compare(ctx, "pH_range", call, out, i, p, t, t.alk, eff)
    ctx.state("pH_range", call, mode, own)
    r = pd.Series(dict(rows[1], titrant_molinity=t.c))
    tt = ctx.sut(calk.Titration, r, pH_range=(lo, hi))
    w = _file_solve(ctx, p, t.c, t.S, dict(analyte_mass=t.M, dic=t.totals_user["dic"], solve_mode=mode, pH_min=lo, pH_max=hi))
    ctx.close("titration", tt.alkalinity, w["alkalinity"], TOL_ALK)
    ctx.expect("titration points", tt.alkalinity_npts == w["alkalinity_npts"], "another window was used")


def titration_overrides(ctx):
    """For a single-titration object the arguments win."""
    rng = ctx.rng
    names = [o for o in sorted(OPTIONS) if o not in ("titrant_molinity_init",)]
    opt = names[ctx.index % len(names)]
    vals, base, modes = _values(rng, opt)
    mode = pick(rng, modes)
    if mode != "emf" and opt != "solve_mode":
        base["solve_mode"] = mode
    t, meas = _titration(ctx, mode)
    p = t.write(ctx.path(), meas)
    row = dict(file_name=os.path.basename(p), file_path=os.path.dirname(p), salinity=t.S, titrant_molinity=t.c)
    if opt == "analyte_volume":
        pass
    elif opt == "analyte_mass":
        row["analyte_volume"] = 98.0
    else:
        row["analyte_mass"] = t.M
    if "dic" not in base:
        row["dic"] = t.totals_user["dic"]
    how = pick(rng, ["row", "arg", "both", "missing+arg"])
    if how in ("row", "both"):
        row[opt] = vals[0]
    elif how == "missing+arg":
        row[opt] = pick(rng, [nan, None])
    kw = {} if how == "row" else {opt: vals[1]}
    if flip(rng):
        row.update(base)
    else:
        kw.update(base)
    extra = pick(rng, ["", "", "titrant_molinity", "salinity", "file_name"])
    ctx.note(option=opt, how=how, row=row, arguments=kw, extra=extra)
    path, c, S = p, t.c, t.S
    if extra == "titrant_molinity":
        kw[extra] = c = t.c * 1.05
    elif extra == "salinity":
        kw[extra] = S = t.S * 0.9
    elif extra == "file_name":
        t2, m2 = _titration(ctx, mode)
        path = t2.write(ctx.path(), m2)
        kw[extra] = os.path.basename(path)
    series = pd.Series(row, dtype=object)
    if flip(rng):
        ds = frame(rng, [row, row])
        tt = ctx.sut(calk.to_Titration, ds, 1, **kw) if flip(rng) else ctx.sut(calk.Dataset(ds).to_Titration, 1, **kw)
    else:
        tt = ctx.sut(calk.Titration, series, **kw)
    eff = {k: v for k, v in {**row, **kw}.items() if k not in ("file_name", "file_path", "salinity", "titrant_molinity")
           and not pd.isnull(v)}
    w = _file_solve(ctx, path, c, S, eff)
    for k in ("alkalinity", "emf0", "alkalinity_npts", "gran_emf0", "gran_alkalinity", "pH_init"):
        if not pd.isnull(w[k]):
            ctx.close("titration." + k, tt[k], w[k], TOLS[k], option=opt, effective=eff)
    ctx.state(opt, how, extra)


def old_type_in_titration(ctx):
    rng = ctx.rng
    t, meas = _titration(ctx, "emf")
    p = ctx.path()
    lim = flip(rng)
    with open(p, "w") as f:
        f.write("h\nh\n")
        for a, m, T in zip(t.amount, meas, t.T):
            c = ["0", repr(float(a)), repr(float(m)), "1", "1", repr(float(T))] if lim else [repr(float(x)) for x in (a, m, T)]
            f.write("\t".join(c) + "\n")
    right, wrong = ("pclims", "genfromtxt") if lim else ("genfromtxt", "pclims")
    row = dict(file_name=p, salinity=t.S, analyte_mass=t.M, titrant_molinity=t.c, dic=t.totals_user["dic"])
    rk = pick(rng, ["read_dat_method", "file_type", None])
    ak = pick(rng, ["read_dat_method", "file_type", None])
    if rk is None and ak is None:
        rk = "file_type"
    kw = {}
    if ak is not None:
        kw[ak] = right
        if rk is not None:
            row[rk] = pick(rng, [wrong, None])
    else:
        row[rk] = right
    tt = ctx.sut(calk.Titration, pd.Series(row, dtype=object), **kw)
    q = t.write(ctx.path(), meas)
    w = _file_solve(ctx, q, t.c, t.S, dict(analyte_mass=t.M, dic=t.totals_user["dic"]))
    ctx.close("file type", tt.alkalinity, w["alkalinity"], TOL_ALK, row=row, arguments=kw)
    ctx.state("type", rk, ak, lim)


def defaults(ctx):
    """Not giving an option is giving the documented default."""
    rng = ctx.rng
    opts = sorted(DEFAULTS)
    k = opts[ctx.index % len(opts)]
    mode = "emf" if k in ("solve_mode", "gran_logic", "double") else pick(rng, ["emf", "pH", "pH_adjust", "pH_gran"])
    t, meas = _titration(ctx, mode)
    p = t.write(ctx.path(), meas)
    call = pick(rng, ["solve", "calibrate"])
    base = dict(file_name=p, salinity=t.S, analyte_mass=t.M)
    other = {"molinity_H2SO4": {"titrant": "H2SO4"}}.get(k, {})
    base.update(other)
    if mode != "emf":
        base["solve_mode"] = mode
    if k != "dic":
        base["dic"] = t.totals_user["dic"]
    if k.startswith("opt_k_carbonic"):
        base["pH_max"] = 6.0
    if k == "opt_total_borate":
        base["k_borate"] = K
    base["titrant_molinity" if call == "solve" else "alkalinity_certified"] = t.c if call == "solve" else t.alk
    a = ctx.sut(getattr(calk, call), frame(rng, [base]))
    as_row = flip(rng)
    b = ctx.sut(getattr(calk, call), frame(rng, [dict(base, **({k: DEFAULTS[k]} if as_row else {}))]),
                **({} if as_row else {k: DEFAULTS[k]}))
    for c in RESULT_COLS:
        ctx.close("default." + c, b[c].iloc[0], a[c].iloc[0], TOLS[c], option=k)
    if call == "calibrate":
        ctx.close("default.molinity", b.titrant_molinity.iloc[0], a.titrant_molinity.iloc[0], 0, 3e-5, option=k)
    ctx.state(k, call, as_row, mode)


# table, file and object may differ in the last digits
ROUNDING = True

SCENARIOS = [
    ("single_solve", single_solve, 260, 7000),
    ("single_calibrate", single_calibrate, 110, 3500),
    ("combination", combination, 80, 4000),
    ("file_options", file_options, 80, 3000),
    ("old_names", old_names, 30, 1200),
    ("titration_overrides", titration_overrides, 110, 3500),
    ("old_type_in_titration", old_type_in_titration, 24, 800),
    ("defaults", defaults, 66, 1500),
]
