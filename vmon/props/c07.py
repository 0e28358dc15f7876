from ..common import *

RULE = ("random noisy titrations solved with random windows, first guesses, single and double passes, at array, file "
        "and table level, against an independent least-squares solution over the points of the window; data outside "
        "the window are perturbed; pH data are placed exactly on the window edges; a state is (level, mode, options, "
        "number of points used, features)")
ASSUMPTIONS = ["a case is compared point for point only when no point is closer than 1e-6 pH to a window edge (or "
               "1e-9 to a Gran limit), because rounding may then decide either way"]
KF = "KF-EARLYSTOP"


def _noisy(rng, t):
    sd = float(10 ** rng.uniform(-2.5, 0.3))
    return t.emf + rng.normal(0, sd, t.emf.size)


def _options(rng, t):
    o = {}
    if flip(rng, 0.4):
        o["double"] = flip(rng)
    if flip(rng, 0.3):
        o["gran_logic"] = pick(rng, ["v23.7+", "legacy"])
    if flip(rng, 0.3):
        o["emf0_init"] = t.emf0 + float(rng.uniform(-5, 5))
    if flip(rng, 0.3):
        o["alkalinity_init"] = t.alk + float(rng.uniform(-150, 150))
    return o


def _zeroed(rng, t):
    """Shift the EMFs so that EMF0 is near zero, and guess exactly zero."""
    t.emf0 = float(rng.uniform(-15, 15))
    t.emf = ref.emf_of_h(t.h, t.emf0, t.T)


def _ref(t, emf, o):
    return ref.solve_emf(t.tm, emf, t.T, t.M, t.c, t.totals, t.ks, t.norm, t.pH_min, t.pH_max,
                         o.get("alkalinity_init"), o.get("emf0_init"), o.get("double", True),
                         o.get("gran_logic", "v23.7+"))


def _clear(r):
    return r["margin"] > 1e-6 and r["gran_margin"] > 1e-9 and r["used"].sum() >= 3 and np.isfinite(r["alkalinity"])


def _agree(ctx, tag, t, emf, r, alk, emf0):
    """Agreement with the optimum.  The recorded finding (the solver stops where
    the gradient is below SciPy's default gtol, mostly at its starting point) is
    told apart by the gradient at the answer given."""
    off = abs(alk - r["alkalinity"]) > TOL_ALK or abs(emf0 - r["emf0"]) > TOL_EMF0
    if off:
        g = ref.gradient(r["used"], alk * 1e-6, emf0, t.tm, emf, t.T, t.M, t.c, t.norm, t.totals, t.ks)
        if g < 1.2e-8 and abs(alk - r["alkalinity"]) < 10 and abs(emf0 - r["emf0"]) < 0.5:
            ctx.known(KF, True, tag + ".optimum", "the solver stopped at its starting point",
                      got=alk, optimum=r["alkalinity"])
            return False
    ctx.close(tag + ".alkalinity", alk, r["alkalinity"], TOL_ALK)
    ctx.close(tag + ".emf0", emf0, r["emf0"], TOL_EMF0)
    return True


def _noisy_clear(ctx, **kw):
    """A noisy titration whose reference solution is not at a decision edge."""
    rng = ctx.rng
    for _ in range(60):
        t = Tit(rng, wild=pick(rng, [0.2, 0.5, 0.8]), **kw)
        zero = flip(rng, 0.15)
        if zero:
            _zeroed(rng, t)
        emf = _noisy(rng, t)
        o = _options(rng, t)
        if zero:
            o["emf0_init"] = pick(rng, [0, 0.0])
        r = _ref(t, emf, o)
        if _clear(r):
            return t, emf, o, r
    raise RuntimeError("no comparable titration found")


def emf_optimum(ctx):
    rng = ctx.rng
    t, emf, o, r = _noisy_clear(ctx)
    ctx.note(options=o, **t.summary())
    lvl = pick(rng, ["core", "file"])
    if lvl == "core":
        cv, totals, ks = core_inputs(ctx, t, emf)
        kw = dict(o)
        if t.window_given:
            kw.update(pH_min=t.pH_min, pH_max=t.pH_max)
        if t.norm != 1:
            kw["titrant_normality"] = t.norm
        sr = ctx.sut(core.solve_emf, t.c, cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass, totals, ks, **kw)
    else:
        p = t.write(ctx.path(), emf)
        sr = ctx.sut(files.solve, p, t.c, t.S, **t.kw(), **o)
    ctx.same("used", sr.used, r["used"], pH=r["pH"])
    full = _agree(ctx, "emf", t, emf, r, sr.alkalinity, sr.emf0)
    # per-point values follow from the pH reported, whatever the optimum
    pH = ref.pH_of_emf(emf, sr.emf0, t.T)
    ctx.close("pH", sr.pH, pH, 1e-9)
    pts = 1e6 * ref.alk_points(pH, t.tm, t.M, t.c, t.norm, t.totals, t.ks)
    ctx.close("alkalinity_all", sr.alkalinity_all, pts, 1e-5, 1e-8)
    u = r["used"]
    ctx.close("spread at the values reported", sr.alkalinity_std,
              np.std((pts[u] - sr.alkalinity) * t.M / (t.M + t.tm[u])) if u.any() else nan, 3e-5, 1e-7)
    if full:
        ctx.close("alkalinity_std", sr.alkalinity_std, r["std_fun"], 0.01, 1e-3)
    ctx.state(lvl, tuple(sorted(o.items(), key=str)) if len(o) < 2 else tuple(sorted(o)), int(r["used"].sum()), t.signature())


def pH_adjust(ctx):
    """pH data with an adjustable EMF0: the search starts from the pH as
    measured (an EMF0 of zero), so the first window is decided by the data."""
    rng = ctx.rng
    for _ in range(60):
        t = Tit(rng, wild=pick(rng, [0.2, 0.5, 0.8]))
        err = float(rng.uniform(-0.25, 0.25))
        pH = t.pH + err + rng.normal(0, float(10 ** rng.uniform(-4, -2)), t.pH.size)
        emf = ref.emf_of_h(10.0 ** -pH, 0.0, t.T)
        o = {k: v for k, v in _options(rng, t).items() if k != "emf0_init"}
        if flip(rng, 0.4):
            o["double"] = False
        r = _ref(t, emf, {**o, "emf0_init": 0.0})
        if _clear(r):
            break
    else:
        raise RuntimeError("no case")
    ctx.note(options=o, err=err, **t.summary())
    p = t.write(ctx.path(), pH)
    sr = ctx.sut(files.solve, p, t.c, t.S, **t.kw("pH_adjust"), **o)
    ctx.same("adjust.used", sr.used, r["used"], pH=r["pH"])
    _agree(ctx, "adjust", t, emf, r, sr.alkalinity, sr.emf0)
    ctx.close("adjust.pH", sr.pH, ref.pH_of_emf(emf, sr.emf0, t.T), 1e-9)
    ctx.state("adjust", tuple(sorted(o)), int(r["used"].sum()), t.signature())


def table_stats(ctx):
    rng = ctx.rng
    rows, info = [], []
    for _ in range(int(rng.integers(1, 4))):
        mode = pick(rng, ["emf", "pH"])
        t, emf, o, r = _noisy_clear(ctx)
        if mode == "pH":
            o = {}
            meas = t.pH + rng.normal(0, 0.003, t.pH.size)
            r = ref.solve_pH(t.tm, meas, t.M, t.c, t.totals, t.ks, t.norm, t.pH_min, t.pH_max)
        else:
            meas = emf
        p = t.write(ctx.path(), meas)
        o = {k: v for k, v in o.items() if k != "double"}
        if mode == "emf":
            r = _ref(t, emf, o)
            if not _clear(r):
                continue
        rows.append(rowdict(t, p, mode, titrant_molinity=t.c, **o))
        info.append((t, mode, r, meas))
    if not rows:
        return
    ctx.note(rows=[t.summary() for t, _, _, _ in info])
    out = ctx.sut(calk.solve, frame(rng, rows))
    for i, (t, mode, r, meas) in enumerate(info):
        g = out.iloc[i]
        ctx.close(f"table_{mode}.npts", g.alkalinity_npts, r["used"].sum(), 0)
        if mode == "pH":
            ctx.close("table_pH.alkalinity", g.alkalinity, r["alkalinity"], 1e-5)
            ctx.close("table_pH.std", g.alkalinity_std, r["std_points"], 1e-5, 1e-7)
        elif _agree(ctx, "table_emf", t, meas, r, g.alkalinity, g.emf0):
            ctx.close("table_emf.std", g.alkalinity_std, r["std_points"], 0.01, 1e-3)
            ctx.close("table_emf.gran_alkalinity", g.gran_alkalinity, r["gran"]["alkalinity"] * 1e6, 1e-5, 1e-8)
            ctx.close("table_emf.gran_emf0", g.gran_emf0, r["gran"]["emf0"], 1e-6)
        ctx.state("table", mode, int(r["used"].sum()), t.signature())


def outside_is_ignored(ctx):
    """Changing data outside the window changes nothing when the first guesses
    are given (single pass), and nothing but Gran estimates otherwise."""
    rng = ctx.rng
    for _ in range(60):
        t = Tit(rng, wild=0.5)
        emf = _noisy(rng, t)
        o = dict(double=False, emf0_init=t.emf0 + float(rng.uniform(-3, 3)), alkalinity_init=t.alk + float(rng.uniform(-50, 50)))
        r = _ref(t, emf, o)
        out = ~r["used"]
        if _clear(r) and out.sum() > 3:
            break
    else:
        raise RuntimeError("no case")
    ctx.note(options=o, **t.summary())
    cv, totals, ks = core_inputs(ctx, t, emf)
    kw = dict(o, pH_min=t.pH_min, pH_max=t.pH_max, titrant_normality=t.norm)
    a = ctx.sut(core.solve_emf, t.c, cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass, totals, ks, **kw)
    ctx.same("single.used", a.used, r["used"])
    e2, tm2 = cv.measurement.copy(), cv.titrant_mass.copy()
    above = out & (ref.pH_of_emf(emf, o["emf0_init"], t.T) > t.pH_max)
    below = out & ~above
    k = int(rng.integers(1, 40))
    e2[above] -= rng.uniform(0, k, above.sum())
    e2[below] += rng.uniform(0, k, below.sum())
    tot2 = {x: np.where(out, np.asarray(v) * rng.uniform(0.5, 1.5, out.size), v) if np.size(v) > 1 else v for x, v in totals.items()}
    b = ctx.sut(core.solve_emf, t.c, tm2, e2, cv.temperature, cv.analyte_mass, tot2, ks, **kw)
    ctx.same("outside.used", b.used, a.used)
    ctx.close("outside.alkalinity", b.alkalinity, a.alkalinity, 1e-9)
    ctx.close("outside.emf0", b.emf0, a.emf0, 1e-9)
    ctx.close("outside.std", b.alkalinity_std, a.alkalinity_std, 1e-9)
    # dropping them altogether (the Gran estimate is not used)
    m = ~out
    if m.sum() >= 3:
        sub = {x: v[m] if np.size(v) > 1 else v for x, v in totals.items()}
        ksub = {x: v[m] if np.size(v) > 1 else v for x, v in ks.items()}
        c, e = ctx.sut_raises(core.solve_emf, t.c, cv.titrant_mass[m], cv.measurement[m], cv.temperature[m],
                              cv.analyte_mass, sub, ksub, **kw)
        if e is None:
            ctx.close("dropped.alkalinity", c.alkalinity, a.alkalinity, 1e-9)
            ctx.close("dropped.emf0", c.emf0, a.emf0, 1e-9)
            ctx.expect("dropped.used", np.all(c.used), "points inside the window not used")
    ctx.state("outside", int(out.sum()), t.signature())


def pH_window(ctx):
    """pH data, with points exactly on the edges (inclusive) and just beyond."""
    rng = ctx.rng
    t = Tit(rng, wild=0.5)
    lo = pick(rng, [3, 3.0, 3.25, 2.75, float(rng.uniform(2.8, 3.3))])
    hi = pick(rng, [4, 4.0, 4.5, 3.75, float(rng.uniform(3.6, 4.6))])
    pH = t.pH + rng.normal(0, 0.005, t.pH.size)
    i = rng.choice(pH.size, 4, replace=False)
    pH[i[0]], pH[i[1]] = lo, hi
    pH[i[2]], pH[i[3]] = np.nextafter(lo, 0), np.nextafter(hi, 20)
    given = not (lo == 3 and hi == 4 and flip(rng))
    kw = {k: v for k, v in t.kw("pH").items() if k not in ("pH_min", "pH_max")}
    if given:
        kw.update(pH_min=lo, pH_max=hi)
    ctx.note(lo=lo, hi=hi, given=given, **t.summary())
    p = t.write(ctx.path(), pH)
    r = ref.solve_pH(t.tm, pH, t.M, t.c, t.totals, t.ks, t.norm, lo, hi)
    sr = ctx.sut(files.solve, p, t.c, t.S, **kw)
    ctx.same("pH.used", sr.used, r["used"])
    ctx.expect("pH.edges", sr.used[i[0]] and sr.used[i[1]] and not sr.used[i[2]] and not sr.used[i[3]], "edge points")
    ctx.close("pH.mean", sr.alkalinity, r["alkalinity"], 1e-5)
    ctx.close("pH.points", sr.alkalinity_all, r["points"], 1e-5, 1e-9)
    ctx.close("pH.std", sr.alkalinity_std, r["std_points"], 1e-5, 1e-8)
    ctx.same("pH.data", sr.pH, pH)
    # points outside do not matter
    pH2 = np.where(r["used"], pH, np.where(pH > hi, pH + rng.uniform(0, 2, pH.size), pH - rng.uniform(0, 0.3, pH.size)))
    p2 = t.write(ctx.path(), pH2)
    s2 = ctx.sut(files.solve, p2, t.c, t.S, **kw)
    ctx.close("pH.outside", s2.alkalinity, sr.alkalinity, 1e-8)
    g = ctx.sut(files.solve, p, t.c, t.S, **{**kw, "solve_mode": "pH_gran"})
    ctx.same("pH_gran.used", g.used, r["used"])
    ctx.state("pH", given, lo, hi, int(r["used"].sum()), t.signature())


EARLY_SEEDS = [537, 15683, 10015, 473]


def early_stop(ctx):
    """Recorded finding: directed cases in which a pass ends where it started."""
    rng = np.random.default_rng(EARLY_SEEDS[ctx.index % len(EARLY_SEEDS)])
    t = Tit(rng, plain=True, T_const=25.0, mass_only=True)
    emf = _noisy(rng, t)
    r = _ref(t, emf, {})
    ctx.note(seed=EARLY_SEEDS[ctx.index % len(EARLY_SEEDS)], **t.summary())
    p = t.write(ctx.path(), emf)
    sr = ctx.sut(files.solve, p, t.c, t.S, **t.kw())
    ctx.same("early.used", sr.used, r["used"])
    _agree(ctx, "early", t, emf, r, sr.alkalinity, sr.emf0)


def no_points(ctx):
    """A window without any data point decides nothing: no alkalinity."""
    rng = ctx.rng
    mode = pick(rng, ["emf", "pH_adjust", "pH", "pH_gran"])
    t = Tit(rng, wild=pick(rng, [0, 0.4]))
    p = t.write(ctx.path(), t.measurement(mode))
    lo = pick(rng, [0.5, 1.0, 12.8])
    kw = {**t.kw(mode), "pH_min": lo, "pH_max": lo + float(rng.uniform(0.2, 0.9))}
    ctx.note(mode=mode, empty_window=[kw["pH_min"], kw["pH_max"]], **t.summary())
    row = {**rowdict(t, p, mode, titrant_molinity=t.c), "pH_min": kw["pH_min"], "pH_max": kw["pH_max"]}
    out = ctx.sut(calk.solve, frame(rng, [row]))
    sr, e = ctx.sut_raises(files.solve, p, t.c, t.S, **kw)
    got = [float(out.alkalinity.iloc[0])]
    npts = [int(out.alkalinity_npts.iloc[0])]
    if e is None:
        got.append(float(sr.alkalinity))
        npts.append(int(sr.used.sum()))
    ctx.expect("no points: count", not any(npts), f"{npts} points used outside the data")
    ctx.expect("no points: no alkalinity", not any(np.isfinite(got)), f"alkalinity {got} from no data points")
    ctx.state("no points", mode, lo)


SCENARIOS = [
    ("emf_optimum", emf_optimum, 260, 12000),
    ("pH_adjust", pH_adjust, 120, 6000),
    ("table_stats", table_stats, 40, 2000),
    ("outside_is_ignored", outside_is_ignored, 120, 6000),
    ("pH_window", pH_window, 140, 6000),
    ("early_stop", early_stop, 4, 8),
    ("no_points", no_points, 24, 400),
]
