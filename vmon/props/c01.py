from ..common import *

RULE = ("random titrations simulated by an independent proton-balance model (random salinity, temperature "
        "course, nutrients, DIC, user acids, constants, options, normality, titrant salts, units, electrode), "
        "solved by the code at array, file, table and object level and compared with the generating truth; a "
        "state is the set of features and the level/mode of a solved case")


def _check_emf(ctx, t, alk, emf0, pH, used, want_emf0, tag):
    ctx.close(tag + ".alkalinity", alk, t.alk, TOL_ALK)
    ctx.close(tag + ".emf0", emf0, want_emf0, TOL_EMF0)
    ctx.close(tag + ".pH", pH, t.pH, TOL_PH)
    ctx.expect(tag + ".window", window_ok(t, used, t.pH, 1e-4), "points used do not match the pH window",
               used=used, pH=t.pH)


def _adjust(t, rng):
    """Measured pH of an electrode with a constant error of `delta` mV."""
    delta = float(rng.uniform(-9, 9))
    return t.pH + delta / (ref.nernst(t.T) * np.log(10)), -delta


def core_emf(ctx):
    t = Tit(ctx.rng, wild=pick(ctx.rng, [0.2, 0.5, 0.8]))
    ctx.note(**t.summary())
    cv, totals, ks = core_inputs(ctx, t, t.emf)
    kw = {}
    if t.window_given:
        kw.update(pH_min=t.pH_min, pH_max=t.pH_max)
    if t.norm != 1:
        kw["titrant_normality"] = t.norm
    if flip(ctx.rng, 0.2):
        kw["gran_logic"] = pick(ctx.rng, ["v23.7+", "legacy"])
    if flip(ctx.rng, 0.2):
        kw["alkalinity_init"] = t.alk + float(ctx.rng.uniform(-200, 200))
    if flip(ctx.rng, 0.2):
        kw["emf0_init"] = t.emf0 + float(ctx.rng.uniform(-3, 3))
    sr = ctx.sut(core.solve_emf, t.c, cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass,
                 totals, ks, **kw)
    _check_emf(ctx, t, sr.alkalinity, sr.emf0, sr.pH, sr.used, t.emf0, "core_emf")
    ctx.close("core_emf.alkalinity_all", sr.alkalinity_all[sr.used], t.alk, 0.05)
    ctx.close("core_emf.alkalinity_std", sr.alkalinity_std, 0, 0.02)
    ctx.state(t.signature(), tuple(sorted(kw)))


def core_pH(ctx):
    t = Tit(ctx.rng, wild=pick(ctx.rng, [0.2, 0.5, 0.8]))
    ctx.note(**t.summary())
    cv, totals, ks = core_inputs(ctx, t, t.pH)
    kw = dict(pH_min=t.pH_min, pH_max=t.pH_max) if t.window_given else {}
    if t.norm != 1:
        kw["titrant_normality"] = t.norm
    sr = ctx.sut(core.solve_pH, t.c, cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass,
                 totals, ks, **kw)
    ctx.close("core_pH.alkalinity", sr.alkalinity, t.alk, 1e-5)
    ctx.close("core_pH.alkalinity_all", sr.alkalinity_all, np.full(t.tm.size, t.alk), 1e-4)
    ctx.expect("core_pH.window", window_ok(t, sr.used, t.pH), "points used do not match the pH window")
    ctx.state(t.signature(), tuple(sorted(kw)))


def file_level(ctx):
    rng = ctx.rng
    t = Tit(rng, wild=pick(rng, [0.2, 0.5, 0.8]))
    mode = pick(rng, ["emf", "pH", "pH_adjust"])
    ctx.note(mode=mode, **t.summary())
    meas, want0 = t.emf, t.emf0
    if mode == "pH":
        meas = t.pH
    elif mode == "pH_adjust":
        meas, want0 = _adjust(t, rng)
    path = t.write(ctx.path(), meas)
    kw = t.kw(mode)
    if mode != "emf" and flip(rng, 0.5):
        kw["solve_mode"] = pick(rng, [mode, mode.lower(), mode.upper()])
    if flip(rng, 0.5):
        d, f = os.path.split(path)
        sr = ctx.sut(files.solve, f, t.c, t.S, file_path=d, **kw)
    else:
        sr = ctx.sut(files.solve, path, t.c, t.S, **kw)
    ctx.close("file.titrant_mass", sr.titrant_mass, t.tm, 1e-12, 1e-9)
    ctx.close("file.analyte_mass", sr.analyte_mass, t.M, 0, 1e-9)
    if mode == "pH":
        ctx.close("file_pH.alkalinity", sr.alkalinity, t.alk, 1e-5)
        ctx.expect("file_pH.window", window_ok(t, sr.used, t.pH), "points used do not match the pH window")
    else:
        _check_emf(ctx, t, sr.alkalinity, sr.emf0, sr.pH, sr.used, want0, "file_" + mode)
    ctx.state(mode, t.signature())


def table_level(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    ts, rows, want = [], [], []
    for i in range(n):
        t = Tit(rng, wild=pick(rng, [0.3, 0.7]))
        mode = pick(rng, ["emf", "emf", "pH", "pH_adjust"])
        meas, w0 = t.emf, t.emf0
        if mode == "pH":
            meas, w0 = t.pH, nan
        elif mode == "pH_adjust":
            meas, w0 = _adjust(t, rng)
        path = t.write(ctx.path(), meas)
        rows.append(rowdict(t, path, mode, titrant_molinity=t.c))
        ts.append((t, mode))
        want.append(w0)
    ctx.note(modes=[m for _, m in ts], rows=[t.summary() for t, _ in ts])
    ds = frame(rng, rows, klass=pick(rng, [None, calk.Dataset]))
    if isinstance(ds, calk.Dataset) and flip(rng):
        out = ctx.sut(ds.solve)
    else:
        out = ctx.sut(calk.solve, ds)
    for i, (t, mode) in enumerate(ts):
        r = out.iloc[i]
        tol = 1e-5 if mode == "pH" else TOL_ALK
        ctx.close(f"table_{mode}.alkalinity", r.alkalinity, t.alk, tol)
        ctx.close(f"table_{mode}.emf0", r.emf0, want[i], TOL_EMF0)
        ctx.close(f"table_{mode}.pH_init", r.pH_init, t.pH[0], TOL_PH)
        ctx.close(f"table_{mode}.temperature_init", r.temperature_init, t.T[0], 1e-9)
        ctx.close(f"table_{mode}.std", r.alkalinity_std, 0, 0.05)
        inside = (t.pH >= t.pH_min) & (t.pH <= t.pH_max)
        edge = (np.abs(t.pH - t.pH_min) < 1e-4) | (np.abs(t.pH - t.pH_max) < 1e-4)
        ctx.expect(f"table_{mode}.npts", abs(r.alkalinity_npts - inside.sum()) <= edge.sum(),
                   f"{r.alkalinity_npts} points used, {inside.sum()} in the window")
        ctx.state(mode, t.signature())
    # The same through a single-titration object
    i = int(rng.integers(n))
    t, mode = ts[i]
    tt = ctx.sut(calk.to_Titration, out, i)
    ctx.close("object.alkalinity", tt.alkalinity, t.alk, 1e-5 if mode == "pH" else TOL_ALK)
    ctx.close("object.pH", tt.titration.pH.to_numpy(), t.pH, TOL_PH)


def table_truth_batch(ctx):
    """From certified references to samples: the whole workflow."""
    rng = ctx.rng
    seed_t = Tit(rng, wild=0.3)
    c, norm, carried = seed_t.c, seed_t.norm, seed_t.carried
    rows, truth = [], []
    n = int(rng.integers(3, 6))
    for i in range(n):
        while True:
            t = Tit(rng, wild=0.4, carried_ok=False, hi_normality=False)
            t.c, t.norm, t.carried = c, norm, dict(carried)
            t.T_first = t.T_first
            t._make_grid(None, None, 0.4)
            t._units(rng, 0.4)
            if np.sum((t.pH > t.pH_min) & (t.pH < t.pH_max)) >= 5:
                break
        path = t.write(ctx.path())
        ref_mat = i == 0 or (i == 1 and flip(rng))
        r = rowdict(t, path, alkalinity_certified=t.alk if ref_mat else None)
        if not 0.06 <= c <= 0.17 or flip(rng, 0.3):  # the default first guess is 0.1
            r["titrant_molinity_init"] = c * float(rng.uniform(0.67, 1.5))
        rows.append(r)
        truth.append(t)
    ctx.note(c=c, norm=norm, carried=carried, rows=[t.summary() for t in truth])
    ds = frame(rng, rows)
    out = ctx.sut(pick(rng, [calk.calkulate, calk.calibrate]), ds)
    ctx.close("workflow.titrant_molinity", out.titrant_molinity.to_numpy(), np.full(n, c), 0, 2e-5)
    for i, t in enumerate(truth):
        ctx.close("workflow.alkalinity", out.iloc[i].alkalinity, t.alk, 0.1)
        ctx.close("workflow.emf0", out.iloc[i].emf0, t.emf0, 0.05)
    ctx.state(tuple(sorted(seed_t.signature())), n)


def pH_scale(ctx):
    """Recorded finding: data and constants on another pH scale."""
    rng = ctx.rng
    t = Tit(rng, plain=True)
    ctx.note(**t.summary())
    tot = t.totals
    # Total-scale pH of the same solution
    ht = t.h * (1 + tot["total_sulfate"] / t.ks["k_bisulfate"])
    path = t.write(ctx.path(), -np.log10(ht))
    sr, e = ctx.sut_raises(files.solve, path, t.c, t.S, opt_pH_scale=1, **t.kw("pH"))
    bad = e is not None or not abs(sr.alkalinity - t.alk) < 5
    ctx.known("KF-PHSCALE", bad, "pH_scale.alkalinity",
              "alkalinity from total-scale pH with opt_pH_scale=1 is wrong")


SCENARIOS = [
    ("core_emf", core_emf, 160, 8000),
    ("core_pH", core_pH, 120, 6000),
    ("file_level", file_level, 160, 8000),
    ("table_level", table_level, 56, 3000),
    ("table_truth_batch", table_truth_batch, 24, 1200),
    ("pH_scale", pH_scale, 2, 20),
]
