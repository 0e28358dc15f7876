from ..common import *

RULE = ("pairs of titrations related by a physical symmetry (EMF offset, common mass factor, molinity against protons "
        "per mole, repeated points, reordered points), noise-free and noisy, in all solving modes, solved and "
        "calibrated at array, file and table level; a state is (symmetry, mode, level, noise, features)")
ASSUMPTIONS = ["pairs with a point closer than 1e-5 pH to a decision edge are not compared (rounding may decide); the "
               "stopping tolerance of the solver allows 0.1 umol/kg on noisy and 0.02 umol/kg on noise-free data"]
MODES = ["emf", "pH_adjust", "pH", "pH_gran"]


class Case:
    pass


def _case(ctx, modes=MODES, logic=None, inits=False):
    rng = ctx.rng
    for _ in range(100):
        t = Tit(rng, wild=pick(rng, [0.2, 0.6]), mass_only=False)
        c = Case()
        c.t, c.mode, c.noise = t, pick(rng, modes), flip(rng)
        sd = float(10 ** rng.uniform(-2, 0)) if c.noise else 0
        n = rng.normal(0, 1, t.tm.size) * sd
        c.meas = t.emf + n if c.mode == "emf" else t.pH + n / 58
        c.opt = {}
        if c.mode in ("emf", "pH_adjust"):
            if flip(rng, 0.3):
                c.opt["double"] = flip(rng)
            lg = logic or pick(rng, ["v23.7+", "legacy", None])
            if lg:
                c.opt["gran_logic"] = lg
            if inits:
                if c.mode == "emf":
                    c.opt["emf0_init"] = t.emf0 + float(rng.uniform(-3, 3))
                c.opt["alkalinity_init"] = t.alk + float(rng.uniform(-100, 100))
            emf = c.meas if c.mode == "emf" else ref.emf_of_h(10.0 ** -c.meas, 0, t.T)
            r = ref.solve_emf(t.tm, emf, t.T, t.M, t.c, t.totals, t.ks, t.norm, t.pH_min, t.pH_max,
                              c.opt.get("alkalinity_init"), 0 if c.mode == "pH_adjust" else c.opt.get("emf0_init"),
                              c.opt.get("double", True), c.opt.get("gran_logic", "v23.7+"))
            ok = r["margin"] > 1e-5 and r["gran_margin"] > 1e-8 and r["used"].sum() >= 4 and r["gran"]["used"].sum() >= 3
            if c.noise:
                ok = ok and min(r["g_start"]) > 2e-7
            c.alk, c.emf0 = r["alkalinity"], r["emf0"]
        else:
            u = (c.meas >= t.pH_min) & (c.meas <= t.pH_max)
            r = dict(used=u)
            ok = u.sum() >= 4 and min(np.min(np.abs(c.meas - t.pH_min)), np.min(np.abs(c.meas - t.pH_max))) > 1e-5
        c.r = r
        c.tol = 0.1 if c.noise else TOL_ALK
        c.tol0 = 0.02 if c.noise else TOL_EMF0
        if c.mode in ("pH", "pH_gran"):
            c.tol = 1e-5
        if ok:
            ctx.note(mode=c.mode, noise=c.noise, options=c.opt, **t.summary())
            return c
    raise RuntimeError("no case")


def _solve(ctx, c, amount, meas, T, mol=None, **over):
    t = c.t
    p = ctx.path()
    write_plain(p, amount, meas, T)
    kw = t.kw(c.mode)
    kw.update(c.opt)
    kw.update(over)
    return ctx.sut(files.solve, p, t.c if mol is None else mol, t.S, **kw), p, kw


def _same(ctx, tag, c, a, b, demf0=0.0, perm=None, rep=1):
    ctx.close(tag + ".alkalinity", b.alkalinity, a.alkalinity, c.tol)
    u = a.used if perm is None else a.used[perm]
    ctx.same(tag + ".used", b.used, np.repeat(u, rep))
    if c.mode in ("emf", "pH_adjust"):
        ctx.close(tag + ".emf0", b.emf0 - demf0, a.emf0, c.tol0)
        ctx.close(tag + ".std", b.alkalinity_std, a.alkalinity_std, 0.05, 1e-3)
        pH = a.pH if perm is None else a.pH[perm]
        ctx.close(tag + ".pH", b.pH, np.repeat(pH, rep), 1e-3)
    elif c.mode == "pH":
        ctx.close(tag + ".std", b.alkalinity_std, a.alkalinity_std, 1e-5, 1e-7)


def emf_offset(ctx):
    rng = ctx.rng
    c = _case(ctx, ["emf"], inits=flip(rng, 0.3))
    t = c.t
    d = float(rng.uniform(-900, 900)) if flip(rng) else float(rng.uniform(-3, 3))
    a, pa, kw = _solve(ctx, c, t.amount, c.meas, t.T)
    over = {"emf0_init": c.opt["emf0_init"] + d} if "emf0_init" in c.opt else {}
    b, pb, kwb = _solve(ctx, c, t.amount, c.meas + d, t.T, **over)
    # With a temperature course the Gran function itself is not symmetric, so
    # the first guess may select other points
    if not np.all(t.T == t.T[0]):
        e0 = c.opt.get("emf0_init")
        r = ref.solve_emf(t.tm, c.meas + d, t.T, t.M, t.c, t.totals, t.ks, t.norm, t.pH_min, t.pH_max,
                          c.opt.get("alkalinity_init"), None if e0 is None else e0 + d, c.opt.get("double", True),
                          c.opt.get("gran_logic", "v23.7+"))
        if not np.array_equal(r["used"], c.r["used"]) or r["margin"] < 1e-5 or r["gran_margin"] < 1e-8 or (
                c.noise and min(r["g_start"]) < 2e-7):
            ctx.event("not compared: other points selected")
            return
    else:
        ctx.close("offset.gran_emf0", b.ggr.emf0 - d, a.ggr.emf0, 1e-5)
        ctx.close("offset.gran_alkalinity", b.ggr.alkalinity, a.ggr.alkalinity, 0, 1e-8)
        ctx.same("offset.gran_used", b.ggr.used, a.ggr.used)
    _same(ctx, "offset", c, a, b, d)
    if not c.noise:
        ca = ctx.sut(files.calibrate, pa, t.alk, t.S, titrant_molinity_init=t.c, **kw)
        cb = ctx.sut(files.calibrate, pb, t.alk, t.S, titrant_molinity_init=t.c, **kwb)
        ctx.close("offset.molinity", cb["x"][0], ca["x"][0], 0, 2e-5)
    ctx.state("offset", c.noise, tuple(sorted(c.opt)), t.signature())


def pH_offset(ctx):
    """Adjustable pH mode: an electrode error changes only EMF0."""
    rng = ctx.rng
    c = _case(ctx, ["pH_adjust"])
    t = c.t
    c.opt["double"] = True
    d = float(rng.uniform(-1.5, 1.5))
    a, *_ = _solve(ctx, c, t.amount, c.meas, t.T)
    b, *_ = _solve(ctx, c, t.amount, c.meas + d / (ref.nernst(t.T) * np.log(10)), t.T)
    # the first pass uses the measured pH for its window, the second does not
    if np.array_equal(a.used, b.used):
        _same(ctx, "pH_offset", c, a, b, -d)
    elif not c.noise:
        ctx.close("pH_offset.alkalinity", b.alkalinity, a.alkalinity, 3.0)
    ctx.state("pH_offset", c.noise, t.signature())


def common_mass_factor(ctx):
    rng = ctx.rng
    c = _case(ctx)
    t = c.t
    f = float(10 ** rng.uniform(-1.5, 1.5))
    a, *_ = _solve(ctx, c, t.amount, c.meas, t.T)
    over = {k: v * f for k, v in t.analyte_kw.items()}
    b, *_ = _solve(ctx, c, t.amount * f, c.meas, t.T, **over)
    _same(ctx, "mass", c, a, b)
    ctx.close("mass.titrant", b.titrant_mass, a.titrant_mass * f, 1e-16, 1e-9)
    ctx.close("mass.analyte", b.analyte_mass, a.analyte_mass * f, 0, 1e-9)
    ctx.state("mass", c.mode, c.noise, t.signature())


def molinity_for_normality(ctx):
    rng = ctx.rng
    c = _case(ctx)
    t = c.t
    f = float(10 ** rng.uniform(-1, 1))
    a, *_ = _solve(ctx, c, t.amount, c.meas, t.T)
    over = {"titrant_normality": t.norm / f}
    for k, v in t.kw_carried().items():
        over[k] = v / f
    b, p, kw = _solve(ctx, c, t.amount, c.meas, t.T, mol=t.c * f, **over)
    _same(ctx, "molinity", c, a, b)
    if not c.noise and c.mode in ("emf", "pH"):
        cal = ctx.sut(files.calibrate, p, t.alk, t.S, titrant_molinity_init=t.c * f * float(rng.uniform(0.7, 1.5)), **kw)
        ctx.close("molinity.calibrated", cal["x"][0], t.c * f, 0, 2e-5)
    ctx.state("molinity", c.mode, c.noise, t.signature())


def repeated_points(ctx):
    rng = ctx.rng
    c = _case(ctx)
    t = c.t
    k = int(rng.integers(2, 5))
    a, pa, kw = _solve(ctx, c, t.amount, c.meas, t.T)
    b, pb, _ = _solve(ctx, c, np.repeat(t.amount, k), np.repeat(c.meas, k), np.repeat(t.T, k))
    _same(ctx, "repeat", c, a, b, rep=k)
    if c.mode == "emf":
        ctx.close("repeat.gran", b.ggr.alkalinity, a.ggr.alkalinity, 0, 1e-7)
        ctx.close("repeat.gran_emf0", b.ggr.emf0, a.ggr.emf0, 1e-5)
    # in a table
    rows = [rowdict(t, p, c.mode, titrant_molinity=t.c, **{x: v for x, v in c.opt.items() if x != "double"}) for p in (pa, pb)]
    out = ctx.sut(calk.solve, pd.DataFrame(rows))
    if c.opt.get("double", True):
        ctx.close("repeat.table", out.alkalinity.iloc[1], out.alkalinity.iloc[0], c.tol)
        ctx.close("repeat.npts", out.alkalinity_npts.iloc[1], k * out.alkalinity_npts.iloc[0], 0)
        ctx.close("repeat.table_std", out.alkalinity_std.iloc[1], out.alkalinity_std.iloc[0], 0.05, 1e-3)
    ctx.state("repeat", k, c.mode, c.noise, t.signature())


def reordered_points(ctx):
    """pH modes, legacy Gran and given first guesses: no order at all; default
    Gran: within the points before and from the first used one."""
    rng = ctx.rng
    how = pick(rng, ["pH", "legacy", "inits", "blocks"])
    if how == "pH":
        c = _case(ctx, ["pH", "pH_gran"])
    elif how == "legacy":
        c = _case(ctx, ["emf", "pH_adjust"], logic="legacy")
    else:
        c = _case(ctx, ["emf"] if how == "inits" else ["emf", "pH_adjust"], logic="v23.7+", inits=how == "inits")
    t = c.t
    n = t.tm.size
    perm = rng.permutation(n)
    if how == "blocks" or (how == "inits" and flip(rng)):
        g = c.r["gran"]
        k = int(np.argmax(g["used"]))
        rest = np.arange(k, n)
        ok = np.all(g["gfunc"][k:] > 0.1001 * g["gfunc"].max())
        perm = np.concatenate([rng.permutation(k), rng.permutation(rest) if ok else rest])
    over = {}
    if "analyte_mass" not in t.analyte_kw:  # the first temperature decides the density
        over = {"analyte_mass": t.M}
    a, *_ = _solve(ctx, c, t.amount, c.meas, t.T, **over)
    b, *_ = _solve(ctx, c, t.amount[perm], c.meas[perm], t.T[perm], **over)
    _same(ctx, "reorder_" + how, c, a, b, perm=perm)
    ctx.state("reorder", how, c.mode, c.noise, t.signature())


SCENARIOS = [
    ("emf_offset", emf_offset, 70, 3500),
    ("pH_offset", pH_offset, 40, 2000),
    ("common_mass_factor", common_mass_factor, 90, 4500),
    ("molinity_for_normality", molinity_for_normality, 90, 4500),
    ("repeated_points", repeated_points, 60, 3000),
    ("reordered_points", reordered_points, 120, 6000),
]
