from ..common import *
import json

RULE = ("random titrations (noise-free and noisy) calibrated against a certified value and solved again with the "
        "molinity found, in all four solving modes, at array, file and table level, with random options, titrant "
        "salts, normality and first guesses; a state is (level, mode, options, features)")
ASSUMPTIONS = ["noisy EMF data for which the set of used points changes within 0.2 % of the molinity found are not "
               "judged: there alkalinity jumps as a function of molinity and no exact solution need exist"]
MODES = ["emf", "pH", "pH_adjust", "pH_gran"]
TOL = 0.02  # umol/kg


def _tit(rng, **kw):
    return Tit(rng, wild=pick(rng, [0.2, 0.5, 0.8]), **kw)


def _measure(t, mode, rng, noise):
    m = t.emf if mode == "emf" else t.pH
    if mode == "pH_adjust":
        m = m + float(rng.uniform(-6, 6)) / (ref.nernst(t.T) * np.log(10))
    if noise:
        sd = float(10 ** rng.uniform(-2.5, -0.5))  # mV
        n = rng.normal(0, sd, m.size)
        m = m + (n if mode == "emf" else n / 58)
    return m


def _guess(rng, t, kw, mode="emf"):
    if mode == "pH":  # no first guess can lead this mode astray
        if flip(rng, 0.5):
            kw["titrant_molinity_init"] = float(10 ** rng.uniform(-2, 0.3))
    elif flip(rng, 0.5) or not 0.06 < t.c < 0.17:
        kw["titrant_molinity_init"] = t.c * _near(rng, t)


def _near(rng, t):
    """A first guess (over the truth) from which EMF data can be calibrated: with few points in the window, all of
    them may lie outside it at a poor guess."""
    few = np.sum((t.pH > t.pH_min) & (t.pH < t.pH_max)) < 8
    u = float(rng.uniform(-1, 1))
    return (1.5 if few else 2.0) ** u


def _solver_options(rng, t, mode, kw):
    if mode in ("emf", "pH_adjust"):
        if flip(rng, 0.3):
            kw["gran_logic"] = pick(rng, ["v23.7+", "legacy"])
        if flip(rng, 0.3):
            kw["double"] = flip(rng)
        if mode == "emf" and flip(rng, 0.2):
            kw["emf0_init"] = t.emf0 + float(rng.uniform(-2, 2))
        if flip(rng, 0.2):
            kw["alkalinity_init"] = t.alk + float(rng.uniform(-100, 100))


def _stable(t, mode, meas, c, kw):
    """Does the set of used points stay the same near the molinity found?"""
    if mode in ("pH", "pH_gran"):
        return True
    emf = meas if mode == "emf" else ref.emf_of_h(10.0 ** -meas, 0, t.T)
    e0 = kw.get("emf0_init") if mode == "emf" else 0
    masks = set()
    for f in (0, -2e-3, -5e-4, -1e-4, -1e-5, 1e-5, 1e-4, 5e-4, 2e-3):
        cc = c * (1 + f)
        tot = ref.mixture_totals(t.analyte, t.tm, t.M, cc, t.carried)
        r = ref.solve_emf(t.tm, emf, t.T, t.M, cc, tot, t.ks, t.norm, t.pH_min, t.pH_max,
                          kw.get("alkalinity_init"), e0, kw.get("double", True), kw.get("gran_logic", "v23.7+"))
        if r["margin"] < 1e-6 or r["gran_margin"] < 1e-9:
            return False
        masks.add((r["used"].tobytes(), r["gran"]["used"].tobytes()))
        if min(r["g_start"]) < 4e-8:
            masks.add("prone")  # a pass that may stop at its start (see C07)
    return len(masks) == 1


def _judge(ctx, tag, t, mode, meas, kw, c, alk, cert, noise):
    if not noise:
        if mode != "pH_gran":
            ctx.close(f"{tag}_{mode}.true_molinity", c, t.c, 0, 2e-5)
        ctx.close(f"{tag}_{mode}.certified_returned", alk, cert, TOL)
        return
    if abs(alk - cert) <= TOL:
        ctx.close(f"{tag}_{mode}.noisy_certified_returned", alk, cert, TOL)
    elif _stable(t, mode, meas, c, kw):
        ctx.close(f"{tag}_{mode}.noisy_certified_returned", alk, cert, TOL)
    else:
        ctx.event("not judged: used points change near the solution")


def core_level(ctx):
    rng = ctx.rng
    t = _tit(rng)
    mode = pick(rng, MODES[:2] + ["emf", "pH_gran"])
    noise = flip(rng)
    meas = _measure(t, mode, rng, noise)
    cert = t.alk if not noise or flip(rng) else t.alk + float(rng.uniform(-40, 40))
    ctx.note(mode=mode, noise=noise, cert=cert, **t.summary())
    cv, totals, ks = core_inputs(ctx, t, meas, with_titrant=False)
    kw = dict(pH_min=t.pH_min, pH_max=t.pH_max) if t.window_given else {}
    if t.norm != 1:
        kw["titrant_normality"] = t.norm
    opt = {}
    _solver_options(rng, t, mode, opt)
    kcal = {}
    _guess(rng, t, kcal, mode)
    fc = {"emf": core.calibrate_emf, "pH": core.calibrate_pH, "pH_gran": core.calibrate_pH_gran}[mode]
    fs = {"emf": core.solve_emf, "pH": core.solve_pH, "pH_gran": core.solve_pH_gran}[mode]
    args = (cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass)
    cal = ctx.sut(fc, cert, *args, totals, ks, **kw, **opt, **kcal, **t.kw_carried())
    c = float(cal["x"][0])
    cv, tot2, ks2 = core_inputs(ctx, t, meas, with_titrant=False)
    if t.carried:
        tot2 = ctx.sut(core.add_titrant_totals, tot2, cv.titrant_mass, cv.analyte_mass, c, **t.kw_carried())
    sr = ctx.sut(fs, c, *args, tot2, ks2, **kw, **opt)
    _judge(ctx, "core", t, mode, meas, {**kw, **opt}, c, sr.alkalinity, cert, noise)
    if not noise and mode != "pH_gran":
        # another first guess gives the same answer
        kcal["titrant_molinity_init"] = t.c * _near(rng, t)
        cv, totals, ks = core_inputs(ctx, t, meas, with_titrant=False)
        cal2 = ctx.sut(fc, cert, *args, totals, ks, **kw, **opt, **kcal, **t.kw_carried())
        ctx.close("core.first_guess_irrelevant", cal2["x"][0], t.c, 0, 2e-5)
    ctx.state("core", mode, noise, tuple(sorted(opt)), t.signature())


def file_level(ctx):
    rng = ctx.rng
    t = _tit(rng)
    mode = pick(rng, MODES)
    noise = flip(rng)
    meas = _measure(t, mode, rng, noise)
    cert = t.alk if not noise or flip(rng) else t.alk + float(rng.uniform(-40, 40))
    ctx.note(mode=mode, noise=noise, cert=cert, **t.summary())
    path = t.write(ctx.path(), meas)
    kw = t.kw(mode)
    _solver_options(rng, t, mode, kw)
    kcal = {}
    _guess(rng, t, kcal, mode)
    cal = ctx.sut(files.calibrate, path, cert, t.S, **kw, **kcal)
    c = float(cal["x"][0])
    sr = ctx.sut(files.solve, path, c, t.S, **kw)
    _judge(ctx, "file", t, mode, meas, kw, c, sr.alkalinity, cert, noise)
    ctx.state("file", mode, noise, t.signature())


def table_level(ctx):
    """Every batch has one reference (and samples); its offset is zero."""
    rng = ctx.rng
    nb = int(rng.integers(1, 4))
    labels = pick(rng, [["a", "b", "c"], [3, 1, 2], [0.5, 7.0, -1.0]])
    rows, info = [], []
    noise = flip(rng)
    mode = pick(rng, MODES)
    solver = {}
    _solver_options(rng, type("o", (), dict(emf0=0, alk=0)), "pH_adjust", solver)
    solver.pop("alkalinity_init", None)
    for b in range(nb):
        for j in range(int(rng.integers(1, 3))):
            t = _tit(rng)
            meas = _measure(t, mode, rng, noise)
            path = t.write(ctx.path(), meas)
            r = rowdict(t, path, mode, analysis_batch=labels[b],
                        alkalinity_certified=t.alk if j == 0 else None)
            if j == 0:
                g = {}
                _guess(rng, t, g, mode)
                r.update(g)
            rows.append(r)
            info.append((t, meas, j == 0))
    order = rng.permutation(len(rows))
    rows, info = [rows[i] for i in order], [info[i] for i in order]
    ctx.note(mode=mode, noise=noise, solver=solver, rows=[t.summary() for t, _, _ in info])
    ds = frame(rng, rows)
    if nb == 1 and flip(rng):
        del ds["analysis_batch"]
    out = ctx.sut(pick(rng, [calk.calibrate, calk.calkulate]), ds, **solver)
    for i, (t, meas, is_ref) in enumerate(info):
        if is_ref:
            r = out.iloc[i]
            kw = {**t.kw(mode), **solver}
            _judge(ctx, "table", t, mode, meas, kw, r.titrant_molinity, r.alkalinity, t.alk, noise)
            if not noise or abs(r.alkalinity_offset) <= TOL or _stable(t, mode, meas, r.titrant_molinity, kw):
                ctx.close("table.offset", r.alkalinity_offset, 0, TOL)
        ctx.state("table", mode, noise, nb, t.signature())


def recorded_slope(ctx):
    """A recorded titration whose calibration once stopped early (fixed)."""
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "data", "c02_slope.json")) as f:
        d = json.load(f)
    p = ctx.path()
    write_plain(p, d["amount"], d["meas"], d["T"])
    kw = d["kw"]
    ctx.note(**d)
    kw["titrant_molinity_init"] *= 1 + 0.01 * ctx.index
    cal = ctx.sut(files.calibrate, p, d["cert"], d["S"], **kw)
    kw.pop("titrant_molinity_init")
    sr = ctx.sut(files.solve, p, float(cal["x"][0]), d["S"], **kw)
    ctx.close("recorded.certified_returned", sr.alkalinity, d["cert"], TOL)
    ctx.state("recorded", ctx.index)


SCENARIOS = [
    ("core_level", core_level, 200, 8000),
    ("file_level", file_level, 140, 6000),
    ("table_level", table_level, 48, 2500),
    ("recorded_slope", recorded_slope, 8, 200),
]
