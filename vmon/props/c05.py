from ..common import *
import calkulate.density as density

RULE = ("random titrations expressed in every titrant unit (letter case varied), with every way of giving the "
        "densities, by analyte volume, mass or both, temperature overrides and table rows mixing them; the masses "
        "are compared with an independent conversion and the solutions of equivalent inputs with each other; a state "
        "is (unit, density source, analyte source, override, level)")


def _rho(rng):
    """(titrant options, density in kg/l) for an amount in ml."""
    kind = pick(rng, ["default", "density", "mol", "hcl-only", "nacl-only", "h2so4", "h2so4-default", "density-wins"])
    if kind == "default":
        return kind, {} if flip(rng) else {"titrant": pick(rng, ["HCl", "hcl", "HCL"])}, ref.rho_hcl_nacl(0.1, 0.6)
    if kind == "density":
        d = float(rng.uniform(0.95, 1.2)) if flip(rng, 0.8) else pick(rng, [1, 1.0])
        return kind, {"titrant_density": d}, d
    if kind == "mol":
        a, b = float(rng.uniform(0.01, 1)), float(rng.uniform(0, 1.2))
        if flip(rng, 0.2):
            b = pick(rng, [0, 0.0])
        elif flip(rng, 0.2):
            a, b = pick(rng, [0, 0.0]), 0.1 + b
        return kind, {"molinity_HCl": a, "molinity_NaCl": b}, ref.rho_hcl_nacl(a, b)
    if kind == "hcl-only":
        a = float(rng.uniform(0.01, 1))
        return kind, {"molinity_HCl": a}, ref.rho_hcl_nacl(a, 0.6)
    if kind == "nacl-only":
        b = float(rng.uniform(0, 1.2))
        return kind, {"molinity_NaCl": b}, ref.rho_hcl_nacl(0.1, b)
    if kind == "h2so4":
        a = float(rng.uniform(0.05, 3))
        return kind, {"titrant": pick(rng, ["H2SO4", "h2so4", "H2so4"]), "molinity_H2SO4": a}, ref.rho_h2so4(a)
    if kind == "h2so4-default":
        return kind, {"titrant": "H2SO4"}, ref.rho_h2so4(0.1)
    d = float(rng.uniform(0.95, 1.2))
    return kind, {"titrant_density": d, "molinity_HCl": 0.5, "molinity_NaCl": 0.2,
                  "titrant": pick(rng, ["HCl", "H2SO4"])}, d


def amounts(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 40))
    amount = np.sort(rng.uniform(0, 5, n))
    meas = rng.uniform(-300, 300, n)
    T = rng.uniform(0.5, 39, n)
    Tint = flip(rng, 0.2)
    if Tint:
        T = np.rint(T).astype(int)
    S = float(rng.uniform(0.6, 42.9)) if flip(rng, 0.8) else int(rng.integers(1, 43))
    unit = pick(rng, ["ml", "g", "kg"])
    kw, src = {}, "-"
    factor = {"g": 1e-3, "kg": 1.0}.get(unit)
    if unit == "ml":
        src, kw, rho = _rho(rng)
        factor = rho * 1e-3
        if flip(rng):
            kw["titrant_amount_unit"] = pick(rng, ["ml", "mL", "Ml", "ML"])
    else:
        kw["titrant_amount_unit"] = pick(rng, [unit, unit.upper(), unit.capitalize()])
        if flip(rng, 0.3):
            kw["titrant_density"] = 1.3  # must not matter for masses
    over = None
    if flip(rng, 0.4):
        over = float(rng.uniform(1, 39)) if flip(rng, 0.7) else int(rng.integers(1, 39))
        if flip(rng, 0.2):
            over = pick(rng, [0, 0.0])
        kw["temperature_override"] = over
        if not Tint and flip(rng, 0.3):  # no temperature recorded for some points
            T[rng.random(n) < pick(rng, [0.2, 1.0])] = nan
    Tw = T.astype(float) if over is None else np.full(n, float(over))
    how = pick(rng, ["mass", "volume", "both", "nan-mass"])
    M = float(rng.uniform(0.01, 0.5))
    V = float(rng.uniform(10, 500))
    if how in ("mass", "both"):
        kw["analyte_mass"] = M
    if how in ("volume", "both", "nan-mass"):
        kw["analyte_volume"] = V
    if how == "nan-mass":
        kw["analyte_mass"] = pick(rng, [nan, None])
    if how in ("volume", "nan-mass"):
        M = V * float(ref.rho_seawater(Tw[0], S)) * 1e-3
    ctx.note(S=S, unit=unit, src=src, how=how, kw={k: str(v) for k, v in kw.items()}, T=T, amount=amount)
    dd = calk.read.titrations.DatData(amount.copy(), meas.copy(), T.copy())
    cv, w = ctx.sut_warns(convert.amount_units, dd, S, **kw)
    ctx.close("titrant_mass", cv.titrant_mass, amount * factor, 1e-15, 1e-9)
    ctx.close("analyte_mass", cv.analyte_mass, M, 0, 1e-9)
    ctx.close("temperature", cv.temperature, Tw, 1e-12)
    ctx.same("measurement", cv.measurement, meas)
    ctx.close("salinity", cv.salinity, S, 0)
    ctx.state("amounts", unit, src, how, over is not None, Tint)


def densities(ctx):
    rng = ctx.rng
    n = 50
    T, S = rng.uniform(0, 40, n), rng.uniform(0.5, 43, n)
    ctx.note(T=T[:3], S=S[:3])
    ctx.close("seawater", ctx.sut(density.seawater_1atm_MP81, temperature=T, salinity=S), ref.rho_seawater(T, S), 0, 1e-10)
    ctx.close("seawater.default", ctx.sut(density.seawater_1atm_MP81), ref.rho_seawater(25, 35), 0, 1e-10)
    # check value of the published equation
    ctx.close("seawater.published", ctx.sut(density.seawater_1atm_MP81, temperature=5.0, salinity=35.0), 1.02767547, 1e-8)
    a, b = rng.uniform(0, 2, n), rng.uniform(0.001, 2, n)
    ctx.close("hcl_nacl", ctx.sut(density.HCl_NaCl_25C_DSC07, molinity_HCl=a, molinity_NaCl=b), ref.rho_hcl_nacl(a, b), 0, 1e-10)
    ctx.close("hcl_nacl.default", ctx.sut(density.HCl_NaCl_25C_DSC07), ref.rho_hcl_nacl(0.1, 0.6), 0, 1e-10)
    m = float(rng.uniform(0.05, 3))
    ctx.close("h2so4", ctx.sut(density.H2SO4_25C_EAIM, m), ref.rho_h2so4(m), 0, 1e-10)
    ctx.state("densities", int(T[0]) // 8, int(S[0]) // 8)


def _variants(rng, t):
    """Equivalent ways of writing titration t: (amount, unit options, analyte options, label)."""
    out = []
    for unit in ("ml", "g", "kg"):
        if unit == "ml":
            src, kw, rho = _rho(rng)
            am = t.tm * 1e3 / rho
            if flip(rng):
                kw["titrant_amount_unit"] = pick(rng, ["ml", "mL", "ML"])
        else:
            src, kw = "-", {"titrant_amount_unit": pick(rng, [unit, unit.upper()])}
            am = t.tm * (1e3 if unit == "g" else 1)
        T1 = t.T[0]
        V = t.M * 1e3 / float(ref.rho_seawater(T1, t.S))
        how = pick(rng, ["mass", "volume", "both"])
        an = {"mass": {"analyte_mass": t.M}, "volume": {"analyte_volume": V},
              "both": {"analyte_mass": t.M, "analyte_volume": float(rng.uniform(10, 400))}}[how]
        out.append((am, kw, an, f"{unit}/{src}/{how}"))
    return out


def equivalent_inputs(ctx):
    """Solving (and calibrating) the same titration in different units, at
    file level and as rows of one table."""
    rng = ctx.rng
    t = Tit(rng, wild=0.5)
    t.emf = t.emf + rng.normal(0, 0.1, t.emf.size)
    override = flip(rng, 0.3)
    if override:
        To = float(rng.uniform(15, 30))
    vs = _variants(rng, t)
    base = {k: v for k, v in t.kw().items() if k not in ("analyte_mass", "analyte_volume") and k not in t.unit_kw}
    Tfile = t.T
    if override:
        # temperatures in the file are wrong; the override puts them right
        t.T = np.full(t.T.size, To)
        vs = _variants(rng, t)
        base["temperature_override"] = To
        Tfile = t.T + rng.uniform(-8, 8, t.T.size)
        if flip(rng, 0.3):
            Tfile[rng.random(t.T.size) < pick(rng, [0.2, 1.0])] = nan
    ctx.note(variants=[v[3] for v in vs], override=override, **t.summary())
    res, cal, rows = [], [], []
    for am, kw, an, lab in vs:
        p = ctx.path()
        write_plain(p, am, t.emf, Tfile)
        sr = ctx.sut(files.solve, p, t.c, t.S, **base, **kw, **an)
        res.append(sr)
        ctx.close("equivalent.titrant_mass", sr.titrant_mass, t.tm, 1e-14, 1e-9)
        ctx.close("equivalent.analyte_mass", sr.analyte_mass, t.M, 0, 1e-9)
        ctx.close("equivalent.temperature", sr.temperature, t.T, 1e-9)
        rows.append(dict(file_name=os.path.basename(p), file_path=os.path.dirname(p), salinity=t.S,
                         titrant_molinity=t.c, **base, **kw, **an))
        ctx.state("equivalent", lab, override)
    for r in res[1:]:
        ctx.close("equivalent.alkalinity", r.alkalinity, res[0].alkalinity, TOL_ALK)
        ctx.close("equivalent.emf0", r.emf0, res[0].emf0, TOL_EMF0)
    order = rng.permutation(len(rows))
    ds = frame(rng, [rows[i] for i in order])
    out = ctx.sut(calk.solve, ds)
    for j, i in enumerate(order):
        ctx.close("table.alkalinity", out.alkalinity.iloc[j], res[i].alkalinity, TOL_ALK, row=rows[i])
        ctx.close("table.emf0", out.emf0.iloc[j], res[i].emf0, TOL_EMF0)
        ctx.close("table.temperature_init", out.temperature_init.iloc[j], t.T[0], 1e-9)
    # the single-titration object reports the amounts it used
    j = int(rng.integers(len(rows)))
    tt = ctx.sut(calk.to_Titration, out, out.index[j])
    ctx.close("object.analyte_mass", tt.analyte_mass, t.M, 0, 1e-9)
    ctx.close("object.titrant_mass", tt.titration.titrant_mass.to_numpy(), t.tm, 1e-14, 1e-9)
    ctx.close("object.temperature", tt.titration.temperature.to_numpy(), t.T, 1e-9)
    # calibrating sees the same amounts
    i = int(rng.integers(len(vs)))
    am, kw, an, lab = vs[i]
    p = ctx.path()
    write_plain(p, am, t.emf, Tfile)
    cal = ctx.sut(files.calibrate, p, res[i].alkalinity, t.S, titrant_molinity_init=t.c, **base, **kw, **an)
    ctx.close("calibrate.molinity", cal["x"][0], t.c, 0, 2e-5)


# table, file and object may differ in the last digits
ROUNDING = True

SCENARIOS = [
    ("amounts", amounts, 1500, 80000),
    ("densities", densities, 100, 4000),
    ("equivalent_inputs", equivalent_inputs, 60, 3000),
]
