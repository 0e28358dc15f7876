from ..common import *

RULE = ("random titrations (physical, noisy, strong-acid-only and arbitrary curves), any normality, both ways of "
        "choosing the points; every Gran quantity against an independent implementation of the published equations, "
        "at array, file, table and object level, and the effect of gran_logic on single, double and calibration "
        "solves; a state is (level, logic, points used, shape of the curve)")
LOGICS = ["v23.7+", "legacy"]


def _cmp(ctx, tag, g, r, c, norm):
    ctx.close(tag + ".gfunc", g.gfunc, r["gfunc"], 0, 1e-9)
    ctx.same(tag + ".used", g.used, r["used"])
    ctx.close(tag + ".slope", g.lr.slope, r["slope"], 0, 1e-6)
    ctx.close(tag + ".intercept_x", g.intercept_x, r["intercept_x"], 1e-12, 1e-7)
    ctx.close(tag + ".alkalinity", g.alkalinity, r["alkalinity"], 1e-12, 1e-7)


def _curve(rng):
    """Titrant mass, EMF, temperature, analyte mass: physical or arbitrary."""
    kind = pick(rng, ["physical", "noisy", "arbitrary", "over", "short"])
    if kind in ("physical", "noisy"):
        t = Tit(rng, wild=0.5)
        e = t.emf if kind == "physical" else t.emf + rng.normal(0, float(10 ** rng.uniform(-2, 0.7)), t.emf.size)
        return kind, t.tm, e, t.T, t.M
    n = int(rng.integers(4, 40))
    tm = np.sort(rng.uniform(0, 5e-3, n))
    T = rng.uniform(5, 35) + rng.normal(0, 0.3, n)
    M = float(rng.uniform(0.03, 0.3))
    x = tm / 5e-3
    if kind == "arbitrary":
        e = rng.uniform(300, 450, n)
    elif kind == "over":  # rises, then falls again: points after the maximum
        e = 450 - 400 * (x - rng.uniform(0.5, 0.9)) ** 2 + rng.normal(0, 3, n)
    else:
        e = 350 + 60 * np.log1p(8 * x) + rng.normal(0, 2, n)
    return kind, tm, e, T, M


def equations(ctx):
    rng = ctx.rng
    for _ in range(60):
        kind, tm, e, T, M = _curve(rng)
        c = float(10 ** rng.uniform(-1.7, 0))
        norm = pick(rng, [None, 1, 2, float(rng.uniform(0.5, 3))])
        logic = pick(rng, LOGICS + [None])
        r = ref.gran(tm, e, T, M, c, 1 if norm is None else norm, logic or "v23.7+")
        if r["margin"] > 1e-9 and r["used"].sum() >= 2 and np.ptp(tm[r["used"]]) > 0 and abs(r["slope"]) > 0:
            xs = tm[r["used"]]
            # keep away from regressions through a nearly flat line
            if abs(r["slope"]) * np.ptp(xs) > 1e-3 * np.max(np.abs(r["gfunc"])):
                break
    else:
        raise RuntimeError("no case")
    ctx.note(kind=kind, tm=tm, emf=e, T=T, M=M, c=c, norm=norm, logic=logic)
    kw = {}
    if norm is not None:
        kw["titrant_normality"] = norm
    klog = dict(kw, gran_logic=logic) if logic else kw
    ctx.close("gran_function", ctx.sut(core.gran_function, tm, e, T, M), r["gfunc"], 0, 1e-9)
    g = ctx.sut(core.gran_alkalinity, tm, e, T, M, c, **klog)
    _cmp(ctx, "gran_alkalinity", g, r, c, norm)
    alk = float(rng.uniform(-1e-3, 5e-3))
    got = ctx.sut(core.gran_emf0s, tm, e, T, M, c, alk, **kw)
    with np.errstate(all="ignore"):
        arg = (tm * c * (norm or 1) - M * alk) / (tm + M)
        want = e - ref.nernst(T) * np.log(arg)
    ok = np.abs(arg) > 1e-9
    ctx.close("gran_emf0s", got[ok], want[ok], 1e-7, 1e-10)
    gg = ctx.sut(core.gran_guesses, tm, e, T, M, c, **klog)
    _cmp(ctx, "gran_guesses", gg, r, c, norm)
    # EMF0 blows up where the acid in excess vanishes: compare where well conditioned
    with np.errstate(all="ignore"):
        ex = (tm * c * (norm or 1) - M * r["alkalinity"]) / (tm + M)
    bad = np.isnan(r["emf0s"])
    if np.min(np.abs(ex[r["used"]])) > 1e-7:
        ctx.close("gran_guesses.emf0s", gg.emf0s[~bad & (np.abs(ex) > 1e-7)], r["emf0s"][~bad & (np.abs(ex) > 1e-7)], 1e-3)
        ctx.close("gran_guesses.emf0", gg.emf0, r["emf0"], 1e-3)
        ctx.close("gran_guesses.pH", gg.pH, r["pH"], 1e-4)
    ctx.state("equations", kind, logic, int(r["used"].sum()), norm is None)


def strong_acid(ctx):
    """No weak acids and no water: the Gran estimates are the truth."""
    rng = ctx.rng
    n = int(rng.integers(6, 40))
    M, c, norm = float(rng.uniform(0.03, 0.3)), float(10 ** rng.uniform(-1.7, 0)), pick(rng, [1, 2, float(rng.uniform(0.5, 3))])
    alk = float(rng.uniform(-500, 4000)) * 1e-6
    eq = max(alk, 0) * M / (c * norm)
    tm = np.linspace(eq + 1e-4 * M / (c * norm) * 0.1, eq + float(rng.uniform(1, 4)) * 1e-3 * M / (c * norm), n)
    T = np.full(n, float(rng.uniform(5, 35))) + np.linspace(0, float(rng.uniform(-2, 2)), n)
    h = (tm * c * norm - alk * M) / (tm + M)
    e0 = float(rng.uniform(-300, 800))
    emf = ref.emf_of_h(h, e0, T)
    # EMF0 differs per temperature only through the Nernst factor: keep it constant for the function itself
    if flip(rng):
        T = np.full(n, T[0])
        emf = ref.emf_of_h(h, e0, T)
    exact = np.all(T == T[0])
    logic = pick(rng, LOGICS)
    g0 = (tm + M) * np.exp(emf / ref.nernst(T))
    nu = ((g0 > 0.1 * g0.max()) & (g0 < 0.9 * g0.max())).sum()
    if nu < 3:
        logic = "v23.7+"
    ctx.note(M=M, c=c, norm=norm, alk=alk, e0=e0, n=n, exact=bool(exact), logic=logic)
    if not exact:
        # with a temperature course the function is not a straight line unless
        # EMF0 is zero: put the electrode there
        emf = ref.emf_of_h(h, 0, T)
        e0 = 0.0
    g = ctx.sut(core.gran_guesses, tm, emf, T, M, c, titrant_normality=norm, gran_logic=logic)
    ctx.close("strong.alkalinity", g.alkalinity * 1e6, alk * 1e6, 1e-5)
    ctx.close("strong.emf0", g.emf0, e0, 1e-5)
    ctx.close("strong.pH", g.pH, -np.log10(h), 1e-6)
    # with pH data, over the window
    lo, hi = np.sort(rng.uniform(-np.log10(h.max()), -np.log10(h.min()), 2))
    if ((-np.log10(h) >= lo) & (-np.log10(h) <= hi)).sum() >= 3:
        s = ctx.sut(core.solve_pH_gran, c, tm, -np.log10(h), T, M, {}, {}, pH_min=lo, pH_max=hi, titrant_normality=norm)
        ctx.close("strong.pH_gran", s.alkalinity, alk * 1e6, 1e-5)
        if alk > 1e-4:
            cal = ctx.sut(core.calibrate_pH_gran, alk * 1e6, tm, -np.log10(h), T, M, {}, {}, pH_min=lo, pH_max=hi,
                          titrant_normality=norm, titrant_molinity_init=c * float(rng.uniform(0.5, 2)))
            ctx.close("strong.calibrate_pH_gran", cal["x"][0], c, 0, 1e-6)
    ctx.state("strong", bool(exact), logic, norm == 1, alk > 0)


def pH_gran(ctx):
    """The Gran solver for pH data through a file and a table."""
    rng = ctx.rng
    while True:
        t = Tit(rng, wild=0.5)
        pH = t.pH + rng.normal(0, float(10 ** rng.uniform(-4, -2)), t.pH.size)
        r = ref.solve_pH_gran(t.tm, pH, t.M, t.c, t.norm, t.pH_min, t.pH_max)
        if r["used"].sum() >= 4:
            break
    ctx.note(**t.summary())
    p = t.write(ctx.path(), pH)
    kw = t.kw(pick(rng, ["pH_gran", "ph_gran", "PH_GRAN"]))
    sr = ctx.sut(files.solve, p, t.c, t.S, **kw)
    ctx.same("pH_gran.used", sr.used, r["used"])
    ctx.close("pH_gran.gfunc", sr.gfunc, r["gfunc"], 0, 1e-9)
    ctx.close("pH_gran.slope", sr.lr.slope, r["slope"], 0, 1e-6)
    ctx.close("pH_gran.alkalinity", sr.alkalinity, r["alkalinity"], 1e-5, 1e-9)
    cert = float(rng.uniform(500, 4000))
    cal = ctx.sut(files.calibrate, p, cert, t.S, titrant_molinity_init=t.c, **kw)
    ctx.close("pH_gran.calibrate", cal["x"][0], t.c * cert / r["alkalinity"], 0, 1e-6)
    out = ctx.sut(calk.solve, pd.DataFrame([rowdict(t, p, "pH_gran", titrant_molinity=t.c)]))
    ctx.close("pH_gran.table", out.alkalinity.iloc[0], r["alkalinity"], 1e-5, 1e-9)
    ctx.close("pH_gran.npts", out.alkalinity_npts.iloc[0], r["used"].sum(), 0)
    tt = ctx.sut(calk.to_Titration, out, 0)
    ctx.same("pH_gran.object", tt.titration.gran_used.to_numpy(), r["used"])
    ctx.close("pH_gran.object_func", tt.titration.gran_func.to_numpy(), r["gfunc"], 0, 1e-9)
    ctx.state("pH_gran", int(r["used"].sum()), t.signature())


def _differ(rng, tries=200):
    """A noisy titration for which the two logics give different solutions."""
    for _ in range(tries):
        t = Tit(rng, wild=0.5)
        emf = t.emf + rng.normal(0, float(10 ** rng.uniform(-0.5, 0.4)), t.emf.size)
        double = flip(rng)
        rs = {}
        for lg in LOGICS:
            r = ref.solve_emf(t.tm, emf, t.T, t.M, t.c, t.totals, t.ks, t.norm, t.pH_min, t.pH_max, double=double, logic=lg)
            if (r["margin"] < 1e-5 or r["gran_margin"] < 1e-8 or r["used"].sum() < 4 or min(r["g_start"]) < 1e-6
                    or r["gran"]["used"].sum() < 3 or not np.isfinite(r["alkalinity"])):
                break
            rs[lg] = r
        if len(rs) == 2 and abs(rs["legacy"]["alkalinity"] - rs["v23.7+"]["alkalinity"]) > 0.3:
            return t, emf, double, rs
    return None


def logic_honoured(ctx):
    rng = ctx.rng
    x = _differ(rng)
    if x is None:
        return
    t, emf, double, rs = x
    ctx.note(double=double, difference=rs["legacy"]["alkalinity"] - rs["v23.7+"]["alkalinity"], **t.summary())
    p = t.write(ctx.path(), emf)
    for lg in LOGICS:
        sr = ctx.sut(files.solve, p, t.c, t.S, gran_logic=lg, double=double, **t.kw())
        r = rs[lg]
        ctx.same("logic.gran_used", sr.ggr.used, r["gran"]["used"])
        ctx.close("logic.gran_emf0", sr.ggr.emf0, r["gran"]["emf0"], 1e-5)
        ctx.close("logic.gran_alkalinity", sr.ggr.alkalinity, r["gran"]["alkalinity"], 0, 1e-7)
        ctx.close("logic.solve", sr.alkalinity, r["alkalinity"], 0.1)
        # calibrate against what the true molinity gives: it is the root for
        # this logic, and it is not for the other one
        cal = ctx.sut(files.calibrate, p, r["alkalinity"], t.S, gran_logic=lg, double=double,
                      titrant_molinity_init=t.c, **t.kw())
        ctx.close("logic.calibrate", cal["x"][0], t.c, 0, 5e-5)
        if double:
            ds = pd.DataFrame([rowdict(t, p, titrant_molinity=t.c)])
            col = flip(rng)
            if col:
                ds["gran_logic"] = lg
            out = ctx.sut(calk.solve, ds, **({} if col else {"gran_logic": lg}))
            ctx.close("logic.table", out.alkalinity.iloc[0], r["alkalinity"], 0.1)
            ctx.close("logic.table_gran", out.gran_alkalinity.iloc[0], 1e6 * r["gran"]["alkalinity"], 0, 1e-7)
            ctx.close("logic.table_gran_emf0", out.gran_emf0.iloc[0], r["gran"]["emf0"], 1e-5)
    ctx.state("logic", double, t.signature())


SCENARIOS = [
    ("equations", equations, 800, 40000),
    ("strong_acid", strong_acid, 300, 15000),
    ("pH_gran", pH_gran, 60, 3000),
    ("logic_honoured", logic_honoured, 24, 1200),
]
