from ..common import *
import PyCO2SYS as pyco2
import calkulate.interface as interface

RULE = ("random salinities, temperature courses, nutrients, user-given totals and constants, PyCO2SYS options and "
        "titrant salts; totals and constants through the titration compared with PyCO2SYS' top-level results and a "
        "mass balance; the table's salt columns with the file-level values; a state is (options, totals given, "
        "constants given, dilution, scale)")
NUTS = ["total_silicate", "total_phosphate", "total_ammonia", "total_sulfide", "total_alpha", "total_beta"]
ALL_OPTS = list(range(1, 19))


def _setup(rng):
    n = int(rng.integers(3, 30))
    S = float(rng.uniform(2, 43))
    T = float(rng.uniform(1, 38)) + np.linspace(0, float(rng.uniform(-2, 2)), n)
    tm = np.sort(rng.uniform(0, 6e-3, n))
    M = float(rng.uniform(0.03, 0.3))
    user = {}
    if flip(rng, 0.7):
        user["dic"] = float(rng.uniform(0, 4000))
    for k in NUTS:
        if flip(rng, 0.5):
            user[k] = pick(rng, [float(rng.uniform(0.01, 300)), float(10 ** rng.uniform(-3, 2.5))]) if flip(rng, 0.9) else 0
    for k, hi in (("total_borate", 900), ("total_fluoride", 200), ("total_sulfate", 60000)):
        if flip(rng, 0.35):
            user[k] = float(rng.uniform(0, hi)) if flip(rng, 0.9) else 0
    opts = {}
    if flip(rng, 0.7):
        opts["opt_k_carbonic"] = int(pick(rng, ALL_OPTS))
    for o in ("opt_k_bisulfate", "opt_k_fluoride", "opt_total_borate"):
        if flip(rng, 0.5):
            opts[o] = int(pick(rng, [1, 2]))
    kuser = {}
    base = ref.constants(S, T[0], ref.analyte_totals(S, {}))
    for k in ref.K_NAMES:
        if k in ("k_alpha", "k_beta"):
            if flip(rng, 0.5):
                kuser[k] = float(10 ** -rng.uniform(3, 8))
        elif flip(rng, 0.2):
            kuser[k] = float(base[k] * 10 ** rng.uniform(-0.5, 0.5))
    return n, S, T, tm, M, user, opts, kuser


def _analyte(S, user, opts):
    r = pyco2.sys(salinity=S, opt_k_carbonic=opts.get("opt_k_carbonic", 10),
                  opt_total_borate=opts.get("opt_total_borate", 1))
    out = {}
    for k in ref.TOTAL_NAMES:
        if k in user and user[k] is not None:
            out[k] = user[k] * 1e-6
        elif k in ref.SALTS:
            out[k] = float(r[k]) * 1e-6
        else:
            out[k] = 0.0
    return out


def _ks(S, T, an, kuser, opts, scale=3):
    """Constants from PyCO2SYS' top-level function with the user's values and
    the salts that decide pH-scale conversions."""
    return ref.constants(S, T, an, kuser, opt_pH_scale=scale, **opts)


def totals_and_constants(ctx):
    rng = ctx.rng
    n, S, T, tm, M, user, opts, kuser = _setup(rng)
    dilute = pick(rng, [None, None, True, False, np.bool_(True), np.bool_(False), 1, 0])
    scale = pick(rng, [None, 3, 1, 2])
    kw = dict(user, **opts, **kuser)
    if dilute is not None:
        kw["dilute_totals_for_ks"] = dilute
    if scale is not None:
        kw["opt_pH_scale"] = scale
    ctx.note(S=S, T=[T[0], T[-1]], M=M, kw=kw)
    cv = convert.Converted(tm, np.zeros(n), T, M, S)
    totals, ks = ctx.sut(core.totals_ks, cv, **kw)
    an = _analyte(S, user, opts)
    d = M / (M + tm)
    geosecs = opts.get("opt_k_carbonic") in (6, 8)
    for k in ref.TOTAL_NAMES:
        given = k in user
        if an[k] == 0:
            ctx.close("total.absent", totals.get(k, 0.0) * np.ones(n), np.zeros(n), 0, key=k)
            continue
        if geosecs and k in ("total_silicate", "total_phosphate", "total_ammonia", "total_sulfide"):
            continue  # PyCO2SYS ignores some nutrients with these options
        ctx.close("total." + ("given" if given else "from salinity"), totals[k], an[k] * d, 0, 1e-9, key=k)
    sc = 3 if scale is None else scale
    an_k = {k: v * d for k, v in an.items()} if dilute else an
    want = _ks(S, T, an_k, kuser, opts, sc)
    for k in ref.K_NAMES:
        if k in ("k_alpha", "k_beta"):
            if k in kuser:
                ctx.close("k.user", np.asarray(ks[k]) + np.zeros(n), np.full(n, kuser[k]), 0, 1e-12)
            continue
        w = np.asarray(want[k]) + np.zeros(n)
        if k == "k_fluoride" and sc == 1:
            kb = np.asarray(want["k_bisulfate"]) + np.zeros(n)
            w = w * (1 + an_k["total_sulfate"] / kb)
            if k in kuser:
                ctx.close("k.fluoride_total_scale", np.asarray(ks[k]) + np.zeros(n), w, 0, 1e-8)
                continue
        if k in kuser:
            ctx.close("k.user", np.asarray(ks[k]) + np.zeros(n), np.full(n, kuser[k]), 0, 1e-12, key=k)
        else:
            ctx.close(f"k.scale{sc}", np.asarray(ks[k]) + np.zeros(n), w, 0, 1e-8, key=k)
    ctx.state("totals_ks", tuple(sorted(user)), tuple(opts.items()), bool(dilute), scale)


def titrant_salts(ctx):
    """What the titrant carries: conservation, reversal, and the H2SO4 helpers."""
    rng = ctx.rng
    n, S, T, tm, M, user, opts, kuser = _setup(rng)
    cv = convert.Converted(tm, np.zeros(n), T, M, S)
    totals, ks = ctx.sut(core.totals_ks, cv, **user)
    c = float(rng.uniform(0.01, 1))
    fac = {k: float(rng.uniform(0.01, 2)) for k in ("total_sulfate", "total_phosphate", "total_fluoride") if flip(rng, 0.6)}
    if not fac:
        fac = {"total_sulfate": 1}
    before = {k: np.array(np.broadcast_to(v, (n,)), dtype=float) for k, v in totals.items()}
    ctx.note(S=S, c=c, factors=fac, user=user)
    arg = {"titrant_" + k: v for k, v in fac.items()}
    got = ctx.sut(core.add_titrant_totals, totals, tm, M, c, **arg)
    for k in set(before) | set(fac):
        moles = before.get(k, np.zeros(n)) * (tm + M) + tm * c * fac.get(k, 0)
        ctx.close("titrant.moles", np.asarray(got[k]) * (tm + M), moles, 1e-18, 1e-11, key=k)
    # changing the molinity, and taking it out again
    c2 = float(rng.uniform(0.01, 1))
    got = ctx.sut(core.add_titrant_totals, got, tm, M, c2, titrant_molinity_prev=c, **arg)
    for k in set(before) | set(fac):
        moles = before.get(k, np.zeros(n)) * (tm + M) + tm * c2 * fac.get(k, 0)
        ctx.close("titrant.replaced", np.asarray(got[k]) * (tm + M), moles, 1e-15, 1e-9, key=k)
    got = ctx.sut(core.add_titrant_totals, got, tm, M, 0, titrant_molinity_prev=c2, **arg)
    for k in set(before) | set(fac):
        ctx.close("titrant.removed", got[k], before.get(k, np.zeros(n)), 1e-15, 1e-9, key=k)
    # conversion helpers
    an = {k: float(rng.uniform(0, 1e-2)) for k in ref.TOTAL_NAMES}
    dl = ctx.sut(convert.dilute_totals, an, tm, M)
    h2 = ctx.sut(convert.dilute_totals_H2SO4, an, c, tm, M)
    ctx.expect("helper.keys", set(dl) == set(an) == set(h2), "totals lost or invented")
    for k, v in an.items():
        ctx.close("dilute_totals", dl[k] * (tm + M), np.full(n, v * M), 0, 1e-12)
        ctx.close("dilute_totals_H2SO4", h2[k] * (tm + M), v * M + (tm * c if k == "total_sulfate" else 0 * tm), 0, 1e-12)
    py = {"Sal": S, "TB": 1e-4, "TF": 7e-5, "TSO4": 0.028, "TCa": 0.01, "TPO4": 1e-6, "TSi": 2e-6, "TNH3": 3e-6,
          "TH2S": 4e-6, "alpha": 5e-6, "beta": 6e-6}
    p1 = ctx.sut(convert.dilute_totals_pyco2, py, tm, M)
    p2 = ctx.sut(convert.dilute_totals_pyco2_H2SO4, py, c, tm, M)
    for k, v in py.items():
        if k == "Sal":
            ctx.close("pyco2.salinity", p1[k], S, 0)
            ctx.close("pyco2.salinity", p2[k], S, 0)
        else:
            ctx.close("dilute_totals_pyco2", p1[k] * (tm + M), np.full(n, v * M), 0, 1e-12)
            ctx.close("dilute_totals_pyco2_H2SO4", p2[k] * (tm + M), v * M + (tm * c if k == "TSO4" else 0 * tm), 0, 1e-12)
    ctx.close("dilution_factor", ctx.sut(convert.get_dilution_factor, tm, M), M / (M + tm), 0, 1e-14)
    tp = ctx.sut(convert.totals_to_pyco2, an, S)
    names = dict(total_borate="TB", total_fluoride="TF", total_sulfate="TSO4", total_phosphate="TPO4",
                 total_silicate="TSi", total_ammonia="TNH3", total_sulfide="TH2S")
    for k, p in names.items():
        ctx.close("totals_to_pyco2", tp[p], an[k], 0)
    ctx.close("totals_to_pyco2", tp["Sal"], S, 0)
    some = {k: v for k, v in an.items() if flip(rng, 0.5)}
    tp = ctx.sut(convert.totals_to_pyco2, some, S)
    for k, p in names.items():
        ctx.close("totals_to_pyco2: absent is zero", tp.get(p, 0.0), some.get(k, 0.0), 0)
    ctx.state("titrant", tuple(sorted(fac)), tuple(sorted(user)))


def file_and_table(ctx):
    """Totals and constants reported by a solve through a file, and the salt
    columns of a table, agree with the same reference."""
    rng = ctx.rng
    rows, ts = [], []
    for _ in range(int(rng.integers(1, 4))):
        t = Tit(rng, wild=0.7)
        p = t.write(ctx.path())
        rows.append(rowdict(t, p, titrant_molinity=t.c))
        ts.append((t, p))
    ctx.note(rows=[t.summary() for t, _ in ts])
    for t, p in ts:
        sr = ctx.sut(files.solve, p, t.c, t.S, **t.kw())
        n = t.tm.size
        for k in ref.TOTAL_NAMES:
            ctx.close("solve.totals", np.asarray(sr.totals.get(k, 0.0)) + np.zeros(n), t.totals[k] + np.zeros(n), 1e-18, 1e-8, key=k)
        for k in ref.K_NAMES:
            if k in t.ks:
                ctx.close("solve.constants", np.asarray(sr.k_constants[k]) + np.zeros(n), np.asarray(t.ks[k]) + np.zeros(n), 0, 1e-7, key=k)
        ctx.state("file", t.signature())
    ds = frame(rng, rows)
    out = ctx.sut(calk.solve, ds)
    for i, (t, p) in enumerate(ts):
        for k in ref.SALTS:
            ctx.close("table.salts", out[k].iloc[i], t.analyte[k] * 1e6, 0, 1e-8, key=k)
        tt = ctx.sut(calk.to_Titration, out, i)
        for k in ref.TOTAL_NAMES:
            want = t.totals[k] + np.zeros(t.tm.size)
            got = tt.titration[k].to_numpy() if k in tt.titration else np.zeros(t.tm.size)
            ctx.close("object.totals", got, want, 1e-18, 1e-8, key=k)


def table_salts(ctx):
    """Salt columns of a table: kept where given, else argument, else from
    salinity with the row's options."""
    rng = ctx.rng
    n = int(rng.integers(1, 7))
    ds = pd.DataFrame({"salinity": rng.uniform(2, 43, n)}, index=rng.permutation(n))
    if flip(rng, 0.3):  # a row without salinity gets no salts
        ds.iloc[int(rng.integers(n)), 0] = nan
    kw = {}
    for o, vals in (("opt_total_borate", [1, 2]), ("opt_k_carbonic", ALL_OPTS)):
        k = pick(rng, ["none", "col", "colnan", "kw", "both"])
        if k in ("col", "colnan", "both"):
            v = np.array([float(pick(rng, vals)) for _ in range(n)])
            if k != "col":
                v[rng.random(n) < 0.5] = nan
            ds[o] = v if k != "col" or flip(rng) else v.astype(int)
        if k in ("kw", "both"):
            kw[o] = int(pick(rng, vals))
    for s, hi in (("total_borate", 900), ("total_fluoride", 200), ("total_sulfate", 50000)):
        k = pick(rng, ["none", "col", "colnan", "kw", "both"])
        if k in ("col", "colnan", "both"):
            v = rng.uniform(0, hi, n)
            v[rng.random(n) < 0.1] = 0
            if k != "col":
                v[rng.random(n) < 0.5] = nan
            ds[s] = v
        if k in ("kw", "both"):
            kw[s] = float(rng.uniform(0, hi)) if flip(rng, 0.85) else 0.0
    given = ds.copy()
    ctx.note(table=given.to_dict("list"), kw=kw)
    out = ctx.sut(dataset.get_total_salts, ds, **kw)
    for i in range(n):
        r = given.iloc[i]
        ob = r.get("opt_total_borate", nan)
        ob = kw.get("opt_total_borate", 1) if pd.isnull(ob) else ob
        oc = r.get("opt_k_carbonic", nan)
        oc = kw.get("opt_k_carbonic", 10) if pd.isnull(oc) else oc
        p = pyco2.sys(salinity=float(r.salinity), opt_k_carbonic=int(oc), opt_total_borate=int(ob))
        for s in ref.SALTS:
            v = r.get(s, nan)
            if pd.isnull(v):
                v = kw.get(s, float(p[s]))
            ctx.close("salt_column", out[s].iloc[i], v, 0, 1e-9, salt=s, row=i)
        ctx.same("salinity", out.salinity.iloc[i], r.salinity)
    ctx.state("salts", tuple(sorted(kw)), tuple(sorted(given.columns)))


SCENARIOS = [
    ("totals_and_constants", totals_and_constants, 500, 20000),
    ("titrant_salts", titrant_salts, 250, 12000),
    ("file_and_table", file_and_table, 50, 2500),
    ("table_salts", table_salts, 250, 10000),
]
