from ..common import *

RULE = ("random seawaters (alkalinity, DIC, salinity, nutrients, given totals and constants, options), temperature courses, "
        "grids, EMF0 and loss rates simulated; every point checked against an independent proton balance, the matter "
        "balance and the loss law; the data solved back at array and file level; a state is (features, grid, options)")

TOTALS = ["total_borate", "total_fluoride", "total_sulfate", "total_phosphate", "total_silicate", "total_ammonia", "total_sulfide",
          "total_alpha", "total_beta"]


def case(ctx, loss=False, wild=None):
    rng = ctx.rng
    t = Tit(rng, wild=pick(rng, [0, 0.4, 0.7]) if wild is None else wild, carried_ok=False, hi_normality=False)
    while t.opts.get("opt_k_carbonic") in (6, 7, 8):  # another definition of alkalinity
        t = Tit(rng, wild=0.4, carried_ok=False, hi_normality=False)
    kw = {k: v for k, v in t.totals_user.items()}
    kw.update(t.opts)
    kw.update(t.k_user)
    n = int(rng.integers(6, 11)) if loss else int(rng.integers(20, 45))
    if flip(rng, 0.15):
        n = int(pick(rng, [1, 2, 3, 60, 101, 250] if not loss else [1, 2, 3, 15]))
    start = 0.0
    stop = float(t.tm[-1])
    if flip(rng, 0.3):
        start = float(rng.uniform(0, 0.4) * stop)
        kw["titrant_mass_start"] = start
    step = float((stop - start) / n * rng.uniform(0.97, 1.03))
    kw.update(titrant_mass_step=step, titrant_mass_stop=stop, titrant_molinity=t.c, analyte_mass=t.M, emf0=t.emf0, salinity=t.S)
    if "titrant_mass_start" not in kw and flip(rng, 0.1):
        kw["titrant_mass_start"] = 0
    npts = int(np.ceil((stop - start) / step - 1e-9))
    T = np.full(npts, t.T_first)
    kind = pick(rng, ["scalar", "scalar", "array", "constant array", "int"])
    if kind == "scalar":
        kw["temperature"] = t.T_first
    elif kind == "int":
        T[:] = int(t.T_first)
        kw["temperature"] = int(t.T_first)
    else:
        if kind == "array":
            T = T + np.linspace(0, rng.uniform(-3, 3), npts) + rng.normal(0, 0.1, npts)
        kw["temperature"] = T.copy()
    return t, kw, T, kind, (start, stop, step)


def check_grid(ctx, tm, grid):
    start, stop, step = grid
    n = int(np.ceil((stop - start) / step - 1e-9))
    ctx.expect("grid: number", tm.size in (n, n + 1) and tm.size >= 1, f"{tm.size} points for {grid}")
    ctx.close("grid: values", tm, start + step * np.arange(tm.size), atol=1e-9 * stop)
    ctx.expect("grid: stops before the end", tm[-1] < stop + 1e-9 * step and tm[-1] + step > stop - 1e-6 * step, f"{tm[-1]} / {grid}")


def balance(ctx, t, kw, T, grid, out, dic_only_dilutes=True):
    tm, emf, temp, M, totals, ks = out
    tm, emf = np.asarray(tm, dtype=float), np.asarray(emf, dtype=float)
    check_grid(ctx, tm, grid)
    n = tm.size
    ctx.same("analyte mass", float(M), t.M)
    ctx.expect("EMF at every point", emf.shape == (n,) and np.all(np.isfinite(emf)), f"{emf.shape}")
    ctx.same("temperature course", np.broadcast_to(np.asarray(temp, dtype=float), n), T[:n])
    d = t.M / (t.M + tm)
    # matter: what the analyte had, diluted
    for k in TOTALS:
        w = t.analyte.get(k, 0.0) * d
        ctx.close("totals only dilute", np.broadcast_to(np.asarray(totals[k], dtype=float), n), w, rtol=1e-6, atol=1e-15, total=k)
    dic = np.broadcast_to(np.asarray(totals["dic"], dtype=float), n)
    if dic_only_dilutes:
        ctx.close("DIC only dilutes", dic, t.analyte.get("dic", 0.0) * d, rtol=1e-9, atol=1e-15)
    # constants: those of the diluted mixture at the temperature of each point
    an = {k: v * d for k, v in t.analyte.items()}
    want = ref.constants(t.S, T[:n], an, t.k_user, **t.opts)
    for k, v in want.items():
        if k in ks:
            ctx.close("constants", np.broadcast_to(np.asarray(ks[k], dtype=float), n), np.broadcast_to(v, n), rtol=1e-5, constant=k)
    # proton balance at every point
    mix = {k: np.broadcast_to(np.asarray(totals[k], dtype=float), n) for k in TOTALS}
    mix["dic"] = dic
    kk = {k: np.broadcast_to(np.asarray(ks[k], dtype=float), n) for k in want if k in ks}
    kk = {**{k: np.broadcast_to(v, n) for k, v in want.items()}, **kk}
    alk = (t.alk * 1e-6 * t.M - tm * t.c) / (t.M + tm)
    h = ref.h_of_emf(emf, kw["emf0"], T[:n])
    ctx.close("acid added is alkalinity lost", ref.alkalinity(h, mix, kk), alk, atol=2e-9, rtol=1e-7)
    # in terms of pH, where it is well defined
    ctx.close("pH", -np.log10(h), -np.log10(ref.solve_h(alk, mix, kk)), atol=1e-4)
    return tm, mix, kk, alk, h


def simulate_balance(ctx):
    t, kw, T, kind, grid = case(ctx)
    ctx.note(**t.summary(), grid=grid, temperature=kind)
    given = {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
    if "dic" not in kw and flip(ctx.rng):
        kw["dic"] = 0
    T_given = kw["temperature"]
    out = ctx.sut(simulate._titration, t.alk, **kw)
    ctx.expect("six parts", len(out) == 6, f"{len(out)}")
    if isinstance(T_given, np.ndarray):
        ctx.same("temperature untouched", T_given, given["temperature"])
    balance(ctx, t, kw, T, grid, out)
    ctx.state(t.signature(), kind, grid[0] > 0)


def solve_back(ctx):
    rng = ctx.rng
    t, kw, T, kind, grid = case(ctx, wild=pick(rng, [0, 0.3]))
    ctx.note(**t.summary(), grid=grid)
    tm, emf, temp, M, totals, ks = ctx.sut(simulate._titration, t.alk, **kw)
    pH = -np.log10(ref.h_of_emf(emf, t.emf0, temp))
    if np.sum((pH > t.pH_min + 0.01) & (pH < t.pH_max - 0.01)) < 4:
        ctx.event("too few points in the window to solve")
        return
    w = dict(pH_min=t.pH_min, pH_max=t.pH_max)
    r = ctx.sut(core.solve_emf, t.c, tm, emf, temp, M, totals, ks, **w)
    ctx.close("alkalinity solved back", float(r.alkalinity), t.alk, atol=TOL_ALK)
    ctx.close("EMF0 solved back", float(r.emf0), t.emf0, atol=TOL_EMF0)
    g = {} if 0.06 <= t.c <= 0.17 and flip(rng) else {"titrant_molinity_init": t.c * float(rng.uniform(0.67, 1.5))}
    c = ctx.sut(core.calibrate_emf, t.alk, tm, emf, temp, M, totals, ks, **w, **g)["x"][0]
    ctx.close("molinity calibrated back", float(c), t.c, rtol=2e-5)
    # through a file
    p = ctx.path()
    ctx.sut(calk.write_dat, p, tm, emf, temp, titrant_amount_fmt=".17g", measurement_fmt=".17g", temperature_fmt=".17g")
    k = dict(t.kw_totals(), analyte_mass=t.M, titrant_amount_unit="kg", dilute_totals_for_ks=True, **w)
    f = ctx.sut(files.solve, p, t.c, t.S, **k)
    ctx.close("alkalinity through a file", float(f.alkalinity), t.alk, atol=TOL_ALK)
    ctx.close("EMF0 through a file", float(f.emf0), t.emf0, atol=TOL_EMF0)
    ctx.state("back", t.signature(), kind, grid[0] > 0)


def dic_loss(ctx):
    """Each step dilutes the DIC and removes k * (fCO2 - air) * step."""
    rng = ctx.rng
    t, kw, T, kind, grid = case(ctx, loss=True, wild=pick(rng, [0, 0.3]))
    dic0 = t.analyte.get("dic", 0.0)
    if dic0 < 100e-6:
        dic0 = 1800e-6
        kw["dic"] = 1800.0
        t.analyte["dic"] = dic0
        t.totals_user["dic"] = 1800.0
    step = grid[2]
    k = float(pick(rng, [0.0, rng.uniform(0.1, 2), rng.uniform(1, 4), -rng.uniform(0.1, 1)]))
    # at most a third of the DIC over the whole titration at 1e5 uatm
    k *= min(1.0, 0.2 * dic0 * 1e6 / (5e4 * (grid[1] - grid[0]) * max(abs(k), 1e-9)))
    air = 450.0
    kw["k_dic_loss"] = k
    if flip(rng, 0.6):
        air = float(pick(rng, [0.0, 280.0, 1000.0, 40000.0]))
        kw["fCO2_air"] = air
    ctx.note(k_dic_loss=k, air=air, **t.summary(), grid=grid)
    out = ctx.sut(simulate._titration, t.alk, **kw)
    tm, mix, kk, alk, h = balance(ctx, t, kw, T, grid, out, dic_only_dilutes=False)
    dic = mix["dic"]
    kco2 = np.broadcast_to(np.asarray(out[5]["k_CO2"], dtype=float), tm.size)
    k1, k2 = kk["k_carbonic_1"], kk["k_carbonic_2"]
    fco2 = dic * 1e6 / (1 + k1 / h + k1 * k2 / h**2) / kco2
    ctx.close("first DIC", dic[0], dic0 * t.M / (t.M + tm[0]), rtol=1e-9)
    if tm.size > 1:
        if "fCO2_air" not in kw:
            air = float(calk.default.fCO2_air)
        want = dic[:-1] * (t.M + tm[:-1]) / (t.M + tm[:-1] + step) * 1e6 - k * (fco2[:-1] - air) * step
        ctx.close("loss law", dic[1:] * 1e6, want, atol=2e-3, rtol=1e-7)
    if k == 0:
        ctx.close("no loss, only dilution", dic, dic0 * t.M / (t.M + tm), rtol=1e-9)
    # the amount of carbon moves towards the atmosphere's side
    amount = dic * (t.M + tm)
    for i in range(tm.size - 1):
        d = fco2[i] - air
        if abs(d) * abs(k) * step > 1e-3:
            ctx.expect("towards the atmosphere", (amount[i + 1] - amount[i]) * d * k <= 0, f"step {i}: {amount[i]} -> {amount[i + 1]}, {d}")
    ctx.state("loss", np.sign(k), air, kind, grid[0] > 0)


def defaults(ctx):
    """What is left out has its documented value."""
    rng = ctx.rng
    full = dict(analyte_mass=0.1, dic=0, emf0=600, salinity=35, temperature=25, titrant_mass_start=0, titrant_mass_step=0.15e-3,
                titrant_mass_stop=4.2e-3, titrant_molinity=0.1, k_dic_loss=None)
    alk = float(rng.uniform(1800, 2600))
    left = [k for k in full if flip(rng, 0.5)]
    a = ctx.sut(simulate._titration, alk, **{k: v for k, v in full.items() if k not in left})
    b = ctx.sut(simulate._titration, alk, **full)
    for i in range(4):
        ctx.close("defaults", a[i], b[i], rtol=1e-12, part=i, left=left)
    pos = ctx.sut(simulate._titration, alk, 0.1, 0, 600)
    ctx.close("by position", pos[1], b[1], rtol=1e-12)
    # and one changed value shows
    k, v = pick(rng, [("dic", 1000), ("emf0", 610), ("salinity", 30), ("temperature", 20), ("titrant_molinity", 0.11),
                      ("analyte_mass", 0.11)])
    c = ctx.sut(simulate._titration, alk, **{k: v})
    ctx.expect("a given value is used", np.max(np.abs(c[1] - b[1])) > 0.1, f"{k}={v} changed nothing")
    ctx.state("defaults", tuple(sorted(left)), k)


def wrapper(ctx):
    """simulate.titration: the documented one-call simulation."""
    alk = float(ctx.rng.uniform(1800, 2600))
    r, e = ctx.sut_raises(simulate.titration, alk)
    ctx.known("KF-SIMTITRATION", isinstance(e, NameError), "simulate.titration", f"raised {e!r}")
    if e is None:
        ctx.close("simulated and solved", float(r.alkalinity), alk, atol=TOL_ALK)
        ctx.state("wrapper works")
    else:
        ctx.expect("refused, not wrong", isinstance(e, NameError), f"raised {e!r}")
        ctx.state("wrapper fails")


SCENARIOS = [
    ("balance", simulate_balance, 72, 8000),
    ("solve_back", solve_back, 48, 5000),
    ("dic_loss", dic_loss, 20, 1600),
    ("defaults", defaults, 8, 500),
    ("wrapper", wrapper, 2, 4),
]
