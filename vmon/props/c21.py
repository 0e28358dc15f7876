import io
import re
import warnings
from contextlib import redirect_stdout

from ..common import *
from . import formats

RULE = ("random titrations and tables processed with misspelt option names, invalid option values, missing amounts and "
        "columns, unknown file types, inputs straddling (and exactly on) the stated ranges of the density equations, "
        "short and poor Gran regressions, and valid inputs; every warning issued is recorded and compared with the "
        "ones the rule demands, every refusal and every number with the same call made correctly; a state is (level, "
        "call, kind of misuse)")
ASSUMPTIONS = ["a warning is taken to name an option when the option's name appears in it as a word",
               "regressions with |r - 0.95| < 1e-9 are not judged"]

MODES = ["emf", "emf", "pH", "pH_adjust", "pH_gran"]
VALID = sorted(set("""alkalinity_init analyte_mass analyte_volume col_measurement col_temperature col_titrant_amount
delimiter dic dilute_totals_for_ks double emf0_init encoding file_path file_type gran_logic k_alpha k_ammonia k_beta
k_bisulfate k_borate k_carbonic_1 k_carbonic_2 k_fluoride k_phosphoric_1 k_phosphoric_2 k_phosphoric_3 k_silicate
k_sulfide k_water molinity_H2SO4 molinity_HCl molinity_NaCl n_cols opt_k_bisulfate opt_k_carbonic opt_k_fluoride
opt_pH_scale opt_total_borate pH_max pH_min skip_header solve_mode temperature_override titrant titrant_amount_unit
titrant_density titrant_normality titrant_total_fluoride titrant_total_phosphate titrant_total_sulfate total_alpha
total_ammonia total_beta total_borate total_fluoride total_phosphate total_silicate total_sulfate total_sulfide
titrant_molinity_init""".split()))
# also names of things elsewhere in the package, which are not options
TAKEN = set(VALID) | {"pH_range", "read_dat_kwargs", "read_dat_method", "verbose", "ds", "self", "row", "file_name",
                      "salinity", "titrant_molinity", "alkalinity_certified", "titrant_molinity_prev"}


def _bad_name(rng):
    for _ in range(100):
        k = pick(rng, VALID)
        how = int(rng.integers(7))
        if how == 0:
            i = int(rng.integers(1, len(k)))
            b = k[:i] + k[i + 1:]
        elif how == 1:
            i = int(rng.integers(1, len(k)))
            b = k[:i] + k[i - 1] + k[i:]
        elif how == 2:
            b = k.upper() if flip(rng) else k.capitalize()
        elif how == 3:
            b = k.replace("_", "")
        elif how == 4:
            b = k + pick(rng, ["s", "_", "2", "_x", "_mean"])
        elif how == 5:
            b = pick(rng, ["my_", "x", "_"]) + k
        else:
            b = pick(rng, ["temperature", "pH", "emf0", "alkalinity", "total_nitrate", "k_nitric", "dic_loss", "window",
                           "unit", "mode", "method", "tol", "seed", "notes", "analysis_batch", "reference_good",
                           "opt_gas_constant", "opt_k_HSO4", "titrant_total_borate", "titrant_total_silicate"])
        if b.isidentifier() and b not in TAKEN:
            return b
    raise RuntimeError("no unrecognised name found")


def _record(ctx, fn, *args, **kwargs):
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as w, redirect_stdout(out):
        warnings.simplefilter("always")
        r = ctx.sut(fn, *args, **kwargs)
    ctx.event("warnings recorded", len(w))
    return r, [str(x.message) for x in w if issubclass(x.category, UserWarning)], out.getvalue()


def _names(msg, name):
    return re.search(r"(?<![A-Za-z0-9_])" + re.escape(name) + r"(?![A-Za-z0-9_])", msg) is not None


def _tit(ctx, mode, **kw):
    rng = ctx.rng
    t = Tit(rng, wild=pick(rng, [0.1, 0.5, 0.8]), **kw)
    meas = t.emf if mode == "emf" else t.pH
    return t, t.write(ctx.path(), meas)


def _bad_value(rng):
    return pick(rng, [3.5, 1e9, "x", None, True, [1, 2]])


def _named_warnings(ctx, tag, msgs, bad, given):
    for b in bad:
        ctx.expect(tag + ".named", any(_names(m, b) for m in msgs), f"no warning names {b!r}", warnings=msgs, bad=bad)
    for m in msgs:
        if any(_names(m, b) for b in bad):
            for g in given:
                if "_" in g:
                    ctx.expect(tag + ".only-unrecognised", not _names(m, g), f"{g!r} is a recognised option",
                               warning=m)


def unknown_file(ctx):
    """Unrecognised names at file level."""
    rng = ctx.rng
    mode = pick(rng, MODES)
    t, p = _tit(ctx, mode)
    kw = t.kw(mode)
    bad = sorted({_bad_name(rng) for _ in range(int(rng.integers(1, 4)))})
    call = pick(rng, ["calibrate", "calibrate", "solve", "titration"])
    ctx.note(bad=bad, call=call, mode=mode, **t.summary())
    ctx.state(call, mode, len(bad), t.unit)
    more = [(b, _bad_value(rng)) for b in bad]
    allkw = list(kw.items()) + more
    allkw = dict(allkw[i] for i in rng.permutation(len(allkw)))
    if call == "calibrate":
        r0, w0, _ = _record(ctx, files.calibrate, p, t.alk, t.S, **kw)
        r1, w1, _ = _record(ctx, files.calibrate, p, t.alk, t.S, **allkw)
        _named_warnings(ctx, "file.calibrate", w1, bad, kw)
        ctx.same("file.calibrate.no-effect", r1["x"][0], r0["x"][0])
        ctx.expect("file.calibrate.quiet", not w0, "valid options raise a warning", warnings=w0)
    elif call == "solve":
        r0, w0, _ = _record(ctx, files.solve, p, t.c, t.S, **kw)
        r1, w1, _ = _record(ctx, files.solve, p, t.c, t.S, **allkw)
        for a in ("alkalinity", "pH", "used") + (("emf0",) if hasattr(r0, "emf0") else ()):
            ctx.same("file.solve.no-effect", getattr(r1, a), getattr(r0, a))
        ctx.expect("file.solve.quiet", not w0, "valid options raise a warning", warnings=w0)
    else:
        row = dict(file_name=p, titrant_molinity=t.c, salinity=t.S, **kw)
        rowb = dict(row, **{b: v for b, v in more if v is not None and not isinstance(v, list)})
        keep = {k: v for k, v in rowb.items() if k in row or k not in ("alkalinity", "pH", "emf0")}
        r0 = ctx.sut(calk.Titration, pd.Series(row, dtype=object))
        r1 = ctx.sut(calk.Titration, pd.Series(keep, dtype=object))
        ctx.same("titration.no-effect", r1.alkalinity, r0.alkalinity)


RESULT = ["alkalinity", "alkalinity_npts", "alkalinity_std", "emf0", "gran_alkalinity", "gran_emf0", "pH_init",
          "temperature_init"]


def _table(ctx, n=None):
    rng = ctx.rng
    n = int(rng.integers(1, 5)) if n is None else n
    mode0 = pick(rng, MODES)
    rows, ts = [], []
    for i in range(n):
        mode = mode0 if flip(rng, 0.6) else pick(rng, MODES)
        t, p = _tit(ctx, mode)
        rows.append(rowdict(t, p, mode, titrant_molinity=t.c, alkalinity_certified=t.alk))
        ts.append((t, mode))
    return rows, ts


def _call(ctx, call, klass, rng, rows, kw):
    ds = frame(np.random.default_rng(1), rows, klass=calk.Dataset if klass else None)
    if klass:
        out, w, txt = _record(ctx, getattr(calk.Dataset, call), ds, **kw)
    else:
        f = pick(rng, [getattr(dataset, call), getattr(calk, call)])
        out, w, txt = _record(ctx, f, ds, **kw)
    return out, w, txt


def unknown_table(ctx):
    rng = ctx.rng
    rows, ts = _table(ctx)
    call = pick(rng, ["solve", "calibrate", "calkulate"])
    klass = flip(rng)
    bad = sorted({_bad_name(rng) for _ in range(int(rng.integers(1, 4)))})
    ctx.note(bad=bad, call=call, klass=klass, rows=[t.summary() for t, _ in ts])
    ctx.state(call, klass, len(rows), len(bad))
    good = {}
    if flip(rng, 0.6):
        good.update(pH_min=2.9, pH_max=4.2)
    if flip(rng, 0.2):
        good["pH_range"] = (2.9, 4.2)
    if flip(rng, 0.3):
        good["opt_k_bisulfate"] = 1
    if flip(rng, 0.3):
        good["verbose"] = True
    if flip(rng, 0.2):
        good["read_dat_kwargs"] = {"skip_header": 2}
    if flip(rng, 0.2):
        good["read_dat_method"] = "genfromtxt"
    if flip(rng, 0.2):
        good["double"] = True
    nested = flip(rng, 0.15)
    allkw = dict(good)
    vals = {b: _bad_value(rng) for b in bad}
    if nested:
        allkw["read_dat_kwargs"] = {**good.get("read_dat_kwargs", {}), **vals}
    else:
        allkw.update(vals)
    o0, w0, _ = _call(ctx, call, klass, rng, rows, good)
    o1, w1, _ = _call(ctx, call, klass, rng, rows, allkw)
    given = {k for k in good if k not in ("read_dat_kwargs", "read_dat_method", "verbose")} | {"skip_header", "file_type"}
    _named_warnings(ctx, "table." + call, w1, bad, given)
    for c in RESULT + (["titrant_molinity_here"] if call != "solve" else []):
        ctx.same("table.no-effect." + c, o1[c].to_numpy(dtype=float), o0[c].to_numpy(dtype=float))
    ctx.expect("table.quiet", not w0, "valid options raise a warning", warnings=w0)


def _misspelt(rng, x, valid):
    """A small edit of a valid choice that is not a valid choice."""
    while True:
        k = int(rng.integers(6))
        i = int(rng.integers(len(x) + 1))
        j = int(rng.integers(len(x)))
        y = [x + pick(rng, list("0 _.s2-") + ["_adjust", "_gran", "-mode"]), x[:-1], " " + x, x[:i] + pick(rng, list("_- xe1")) + x[i:],
             x[:j] + x[j + 1:], x.replace("_", pick(rng, ["-", " ", ""]))][k]
        if y.lower() not in [v.lower() for v in valid]:
            return y


def _invalid(rng, mode, t):
    """(kind, settings to add, settings to drop)"""
    kinds = ["mode", "mode", "unit", "window", "amount", "titrant"] + (["gran"] * (mode in ("emf", "pH_adjust")))
    kind = pick(rng, kinds)
    if kind == "mode":
        if flip(rng, 0.7):
            return kind, dict(solve_mode=_misspelt(rng, mode, MODES)), ()
        return kind, dict(solve_mode=pick(rng, ["emf0", "gran", "pH-gran", "ph_adj", "auto", "EMF ", "", "pHadjust",
                                                "mv", "potential"])), ()
    if kind == "gran":
        if flip(rng):
            return kind, dict(gran_logic=_misspelt(rng, pick(rng, ["v23.7+", "legacy"]), ["v23.7+", "legacy"])), ()
        return kind, dict(gran_logic=pick(rng, ["v23.7", "old", "", "v23.6", "both", "v24"])), ()
    if kind == "unit":
        if flip(rng):
            return kind, dict(titrant_amount_unit=_misspelt(rng, pick(rng, ["ml", "g", "kg"]), ["ml", "g", "kg"])), ()
        return kind, dict(titrant_amount_unit=pick(rng, ["l", "mg", "µl", "mol", "", "ml ", "gram", "cm3", "ul", "k"])), ()
    if kind == "window":
        lo = float(rng.uniform(3, 4))
        return kind, dict(pH_min=lo, pH_max=pick(rng, [lo, lo - 1e-9, lo - float(rng.uniform(0.1, 1))])), ()
    if kind == "amount":
        return kind, {}, ("analyte_mass", "analyte_volume")
    return kind, dict(titrant=pick(rng, ["NaOH", "HNO3", "acid", "", "HClO4", "H2SO", "H3PO4"]),
                      titrant_amount_unit=pick(rng, ["ml", "ML"])), ("titrant_density",)


def refused_file(ctx):
    rng = ctx.rng
    mode = pick(rng, MODES)
    t, p = _tit(ctx, mode)
    kind, add, drop = _invalid(rng, mode, t)
    kw = {k: v for k, v in t.kw(mode).items() if k not in drop}
    kw.update(add)
    if kind == "amount" and flip(rng, 0.4):
        kw[pick(rng, ["analyte_mass", "analyte_volume"])] = pick(rng, [None, nan])
    ctx.note(kind=kind, add=add, drop=drop, mode=mode, **t.summary())
    for name, fn, x in (("solve", files.solve, t.c), ("calibrate", files.calibrate, t.alk)):
        ctx.state(name, kind, mode)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, e = ctx.sut_raises(fn, p, x, t.S, **kw)
        ctx.expect(f"refused.{kind}", e is not None, f"files.{name} accepted it", kind=kind, add=add,
                   got=str(r)[:300])
    # the same titration with valid settings is solved
    r = ctx.sut(files.solve, p, t.c, t.S, **t.kw(mode))
    ctx.expect("accepted", np.isfinite(r.alkalinity), "a valid titration is not solved")


def refused_array(ctx):
    rng = ctx.rng
    t = Tit(rng, wild=0.4)
    kind = pick(rng, ["window", "gran", "amount", "scale"])
    ctx.note(kind=kind, **t.summary())
    if kind == "amount":
        kw = dict(t.unit_kw)
        if flip(rng):
            kw["analyte_mass"] = pick(rng, [None, nan])
        if flip(rng):
            kw["analyte_volume"] = pick(rng, [None, nan])
        r, e = ctx.sut_raises(convert.amount_units, dat(t.amount, t.emf, t.T), t.S, **kw)
        ctx.state(kind, tuple(kw))
        ctx.expect("array.refused.amount", e is not None, "accepted", got=str(r)[:200])
        return
    cv, totals, ks = core_inputs(ctx, t, t.emf)
    args = (t.tm, t.emf, t.T, t.M)
    if kind == "scale":
        tot = {k: v for k, v in totals.items()}
        fn = pick(rng, [simulate.alkalinity, simulate.alkalinity_components])
        bad = pick(rng, [0, 4, 5, -1, 2.5, None, "free", "3"])
        ctx.state(kind, fn.__name__, bad)
        r, e = ctx.sut_raises(fn, t.pH, tot, ks, opt_pH_scale=bad)
        ctx.expect("array.refused.scale", e is not None, "accepted", scale=bad)
        for s in (1, 2, 3):
            ctx.sut(fn, t.pH, tot, ks, opt_pH_scale=s)
        return
    if kind == "gran":
        bad = pick(rng, ["v23.7", "old", "", "v23.6", "both"])
        for fn in (core.gran_alkalinity, core.gran_guesses):
            ctx.state(kind, fn.__name__)
            r, e = ctx.sut_raises(fn, *args, t.c, gran_logic=bad)
            ctx.expect("array.refused.gran", e is not None, "accepted", gran_logic=bad)
        return
    lo = float(rng.uniform(3, 4))
    w = dict(pH_min=lo, pH_max=pick(rng, [lo, lo - float(rng.uniform(1e-6, 1))]))
    for fn, x, m in ((core.solve_emf, t.c, cv.measurement), (core.solve_pH, t.c, t.pH), (core.solve_pH_gran, t.c, t.pH),
                     (core.calibrate_emf, t.alk, cv.measurement), (core.calibrate_pH, t.alk, t.pH),
                     (core.calibrate_pH_gran, t.alk, t.pH)):
        ctx.state(kind, fn.__name__)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, e = ctx.sut_raises(fn, x, cv.titrant_mass, m, cv.temperature, cv.analyte_mass, totals, ks, **w)
        ctx.expect("array.refused.window", e is not None, f"{fn.__name__} accepted it", window=w, got=str(r)[:200])


def refused_table(ctx):
    """An invalid setting costs its own row only; missing columns are errors."""
    rng = ctx.rng
    rows, ts = _table(ctx, int(rng.integers(2, 5)))
    call = pick(rng, ["solve", "calibrate", "calkulate"])
    klass = flip(rng)
    if flip(rng, 0.45):
        need = ["salinity", "analyte", "file_name"] + (["titrant_molinity"] if call == "solve" else ["alkalinity_certified"])
        gone = pick(rng, need)
        drop = ("analyte_mass", "analyte_volume") if gone == "analyte" else (gone,)
        cut = [{k: v for k, v in r.items() if k not in drop} for r in rows]
        ctx.note(gone=gone, call=call)
        ctx.state(call, "column", gone, klass)
        ds = frame(rng, cut, klass=calk.Dataset if klass else None)
        with redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, e = ctx.sut_raises(getattr(dataset, call), ds)
        if gone == "file_name" and e is None:
            ctx.expect("column.no-values", r["alkalinity"].isna().all(), "values without a file", got=str(r)[:200])
        else:
            ctx.expect("column.refused", e is not None, f"no error without {gone}", call=call)
        return
    i = int(rng.integers(len(rows)))
    kind, add, drop = _invalid(rng, ts[i][1], ts[i][0])
    bad = [dict(r) for r in rows]
    bad[i] = {k: v for k, v in bad[i].items() if k not in drop}
    bad[i].update(add)
    if "titrant_amount_unit" in add and add["titrant_amount_unit"] == "":
        pass
    if kind == "amount" and not any(k in r for j, r in enumerate(bad) for k in ("analyte_mass", "analyte_volume")):
        return
    ctx.note(kind=kind, add=add, row=i, call=call, rows=[t.summary() for t, _ in ts])
    ctx.state(call, kind, klass, len(rows))
    for r in rows + bad:
        r.setdefault("analysis_batch", int(rng.integers(0, 100000)))
    for j, r in enumerate(bad):
        r["analysis_batch"] = rows[j]["analysis_batch"] = f"b{j}"
    o0, w0, _ = _call(ctx, call, klass, rng, rows, {})
    o1, w1, txt = _call(ctx, call, klass, rng, bad, {})
    ctx.expect("table.refused-row", np.isnan(float(o1["alkalinity"].iloc[i])), "a value from invalid settings",
               got=float(o1["alkalinity"].iloc[i]), kind=kind, add=add)
    if call != "solve":
        ctx.expect("table.refused-row", np.isnan(float(o1["titrant_molinity_here"].iloc[i])),
                   "a calibration from invalid settings", kind=kind, add=add)
    ctx.expect("table.reported", os.path.basename(rows[i]["file_name"]) in txt, "nothing says which file failed", text=txt)
    for j in range(len(rows)):
        if j != i:
            ctx.close("table.other-rows", float(o1["alkalinity"].iloc[j]), float(o0["alkalinity"].iloc[j]), 1e-9)


def file_types(ctx):
    rng = ctx.rng
    t, p = _tit(ctx, "emf")
    bad = pick(rng, ["vindta3", "orgalk", "tiamo", "pc-lims", "txt", "", "genfromtext", "read_dat", "csv", "labview", "VINDTA", "PcLims", "Genfromtxt"])
    kw = {}
    if flip(rng, 0.4):
        a, b = rng.permutation(3)[:2]
        kw = dict(col_titrant_amount=int(a), col_measurement=int(b))
    if flip(rng, 0.3):
        kw["skip_header"] = int(rng.integers(2, 5))
    ctx.note(bad=bad, kw=kw)
    ctx.state(bad, tuple(kw))
    r0, w0, _ = _record(ctx, calk.read_dat, p, **kw)
    r1, w1, _ = _record(ctx, calk.read_dat, p, file_type=bad, **kw)
    ctx.expect("type.quiet", not w0, "warning for the default format", warnings=w0)
    ctx.expect("type.named", any(bad in m and m.strip() for m in w1), "no warning names the file type", warnings=w1)
    for a in ("titrant_amount", "measurement", "temperature"):
        ctx.same("type.default-format", getattr(r1, a), getattr(r0, a))
    g = pick(rng, ["genfromtxt", "vindta"])
    r2, w2, _ = _record(ctx, calk.read_dat, p, file_type=g, **kw)
    ctx.expect("type.quiet", not w2, "warning for a known format", warnings=w2)
    if not kw:
        call = pick(rng, ["file", "table"])
        if call == "file":
            a, w, _ = _record(ctx, files.solve, p, t.c, t.S, file_type=bad, **t.kw())
            want = ctx.sut(files.solve, p, t.c, t.S, **t.kw())
            ctx.same("type.solve", a.alkalinity, want.alkalinity)
        else:
            row = rowdict(t, p, titrant_molinity=t.c, file_type=bad)
            a, w, _ = _call(ctx, "solve", False, rng, [row, row], {})
            want = ctx.sut(files.solve, p, t.c, t.S, **t.kw())
            ctx.close("type.solve", a["alkalinity"].to_numpy(dtype=float), want.alkalinity, TOL_ALK)
        ctx.expect("type.named", any(bad in m and m.strip() for m in w), "no warning names the file type", warnings=w)


def _around(rng, lo, hi, n):
    """Values inside, on and beyond the limits."""
    out = []
    for _ in range(n):
        k = int(rng.integers(8))
        out.append([lo, hi, np.nextafter(lo, -1), np.nextafter(hi, 1e9), lo + (hi - lo) * rng.random(),
                    lo + (hi - lo) * rng.random(), lo - rng.uniform(0, 0.4), hi + rng.uniform(0, 9)][k])
    return [float(x) for x in out]


def density(ctx):
    rng = ctx.rng
    d = calk.density
    for _ in range(6):
        k = pick(rng, ["scalar", "array", "mixed"])
        n = int(rng.integers(1, 5))
        T, S = _around(rng, 0, 40, n), _around(rng, 0.5, 43, n)
        if flip(rng, 0.4):
            T = list(rng.uniform(1, 39, n))
        if flip(rng, 0.4):
            S = list(rng.uniform(1, 42, n))
        if k == "scalar":
            aT, aS = T[0], S[0]
            T, S = T[:1], S[:1]
        elif k == "array":
            aT, aS = np.array(T), np.array(S)
        elif flip(rng):
            aT, aS = np.array(T), S[0]
            S = S[:1]
        else:
            aT, aS = T[0], np.array(S)
            T = T[:1]
        r, w, _ = _record(ctx, d.seawater_1atm_MP81, aT, aS)
        wt = any(x < 0 or x > 40 for x in T)
        ws = any(x < 0.5 or x > 43 for x in S)
        ctx.state("seawater", k, wt, ws)
        ctx.note(T=T, S=S)
        ctx.expect("density.temperature", any("temperature" in m for m in w) == wt, "warning not as stated",
                   T=T, warnings=w)
        ctx.expect("density.salinity", any("salinity" in m for m in w) == ws, "warning not as stated", S=S, warnings=w)
        ctx.expect("density.count", bool(w) == (wt or ws), "unexpected warning", warnings=w)
        ctx.close("density.value", r, ref.rho_seawater(np.asarray(aT), np.asarray(aS)), 0, 1e-12)
    for x in _around(rng, 0.05, 3, 4):
        r, w, _ = _record(ctx, d.H2SO4_25C_EAIM, x)
        out = x < 0.05 or x > 3
        ctx.state("H2SO4", out)
        ctx.expect("density.H2SO4", bool(w) == out, "warning not as stated", x=x, warnings=w)
        ctx.close("density.H2SO4-value", r, ref.rho_h2so4(x), 0, 1e-12)
    a, b = rng.uniform(0.01, 2, 2)
    r, w, _ = _record(ctx, d.HCl_NaCl_25C_DSC07, molinity_HCl=float(a), molinity_NaCl=float(b))
    ctx.expect("density.HCl", not w, "unexpected warning", warnings=w)
    ctx.close("density.HCl-value", r, ref.rho_hcl_nacl(float(a), float(b)), 0, 1e-12)
    # through the unit conversion: first temperature of the file, only when the density is used
    t = Tit(rng, wild=0.3)
    T = t.T.copy()
    S = _around(rng, 0.5, 43, 1)[0] if flip(rng) else 35.0
    T[0] = _around(rng, 0, 40, 1)[0] if flip(rng) else 20.0
    if flip(rng, 0.3):
        T[1:] = 45.0
    vol = flip(rng, 0.6)
    kw = {"analyte_volume": 100.0} if vol else {"analyte_mass": 0.1}
    over = None
    if flip(rng, 0.25):
        over = kw["temperature_override"] = _around(rng, 0, 40, 1)[0]
    r, w, _ = _record(ctx, convert.amount_units, dat(t.amount, t.emf, T), S, **kw)
    first = T[0] if over is None else over
    wt = vol and (first < 0 or first > 40)
    ws = vol and (S < 0.5 or S > 43)
    ctx.state("units", vol, wt, ws, over is not None)
    ctx.expect("units.temperature", any("temperature" in m for m in w) == wt, "warning not as stated", T=first, warnings=w)
    ctx.expect("units.salinity", any("salinity" in m for m in w) == ws, "warning not as stated", S=S, warnings=w)


def regression(ctx):
    """The warnings of the Gran regression."""
    rng = ctx.rng
    n = int(rng.integers(3, 14))
    M = float(rng.uniform(0.05, 0.2))
    T = np.full(n, float(rng.uniform(15, 30)))
    tm = np.sort(rng.uniform(0, 0.01, n))
    kind = pick(rng, ["few", "line", "noise", "noise"])
    if kind == "few":
        k = int(rng.integers(2, 5))
        k = min(k, n)
        g = np.concatenate([rng.uniform(0.001, 0.05, n - k), np.sort(rng.uniform(0.3, 1, k))])
    elif kind == "line":
        g = np.linspace(0.02, 1, n)
    else:
        g = np.clip(np.linspace(0.1, 1, n) + rng.normal(0, float(rng.uniform(0.02, 0.6)), n), 0.01, None)
    g = g * float(10 ** rng.uniform(8, 11))
    kT = 8.314462618 * (T + 273.15) / 96485.33212 * 1e3
    emf = kT * np.log(g / (tm + M))
    logic = pick(rng, [None, "v23.7+", "legacy"])
    kw = {} if logic is None else {"gran_logic": logic}
    # the function itself, so that the constants it uses do not matter here
    gf = ctx.sut(core.gran_function, tm, emf, T, M)
    if logic == "legacy":
        used = (gf > 0.1 * gf.max()) & (gf < 0.9 * gf.max())
    else:
        used = np.zeros(n, bool)
        used[np.flatnonzero(gf > 0.1 * gf.max())[0]:] = True
    m = int(used.sum())
    if m < 2 or np.min(np.abs(gf / gf.max() - 0.1)) < 1e-9 or np.min(np.abs(gf / gf.max() - 0.9)) < 1e-9:
        ctx.state("not judged")
        return
    x, y = tm[used], gf[used]
    r = float(np.sum((x - x.mean()) * (y - y.mean())) / np.sqrt(np.sum((x - x.mean()) ** 2) * np.sum((y - y.mean()) ** 2)))
    if not np.isfinite(r) or abs(r - 0.95) < 1e-9:
        return
    fn = pick(rng, [core.gran_alkalinity, core.gran_guesses])
    out, w, _ = _record(ctx, fn, tm, emf, T, M, 0.1, **kw)
    ctx.note(kind=kind, logic=logic, used=m, r=r)
    ctx.state(fn.__name__, logic, min(m, 4), r < 0.95)
    ctx.same("regression.used", out.used, used)
    ctx.expect("regression.few", any("3" in s or "few" in s.lower() for s in w if "0.95" not in s) == (m < 3),
               "warning of few points not as stated", used=m, warnings=w)
    ctx.expect("regression.r", any("0.95" in s for s in w) == (r < 0.95), "warning of a poor fit not as stated", r=r,
               warnings=w)
    ctx.expect("regression.count", bool(w) == (m < 3 or r < 0.95), "unexpected warning", warnings=w)


def quiet(ctx):
    """Valid input raises no warning, at any level."""
    rng = ctx.rng
    rows, ts = _table(ctx, int(rng.integers(1, 4)))
    call = pick(rng, ["solve", "calibrate", "calkulate"])
    ctx.note(call=call, rows=[t.summary() for t, _ in ts])
    ctx.state(call, tuple(m for _, m in ts))
    for r in rows:
        if flip(rng, 0.5):
            r["comment"] = "fine"
        if flip(rng, 0.3):
            r["file_type"] = "genfromtxt"
    o, w, txt = _call(ctx, call, flip(rng), rng, rows, {})
    ctx.expect("quiet.table", not w, "valid input raises a warning", warnings=w)
    if call == "solve":
        ctx.expect("quiet.solved", np.all(np.isfinite(o["alkalinity"].to_numpy(dtype=float))), "a valid row is not solved", text=txt)
    # with calibration, a batch mean of unlike molinities, or a first guess
    # too far away, may leave a row without any point in its window
    named = [os.path.basename(r["file_name"]) for i, r in enumerate(rows)
             if call == "solve" or (call == "calkulate" and np.isfinite(float(o["alkalinity"].iloc[i])))]
    ctx.expect("quiet.no-error", not any(n in txt for n in named), "an error is reported for a valid row", text=txt)
    t, mode = ts[0]
    p = os.path.join(rows[0]["file_path"], rows[0]["file_name"])
    kw = t.kw(mode)
    _, w, _ = _record(ctx, files.solve, p, t.c, t.S, **kw)
    ctx.expect("quiet.solve", not w, "valid input raises a warning", warnings=w)
    _, w, _ = _record(ctx, files.calibrate, p, t.alk, t.S, file_path="", **kw)
    ctx.expect("quiet.calibrate", not w, "valid input raises a warning", warnings=w)
    _, w, _ = _record(ctx, calk.to_Titration, o, o.index[0])
    ctx.expect("quiet.titration", not w, "valid input raises a warning", warnings=w)


SCENARIOS = [("unknown_file", unknown_file, 120, 1500), ("unknown_table", unknown_table, 90, 1200),
             ("refused_file", refused_file, 120, 1500), ("refused_array", refused_array, 100, 1000),
             ("refused_table", refused_table, 80, 1000), ("file_types", file_types, 80, 800),
             ("density", density, 120, 2000), ("regression", regression, 300, 5000), ("quiet", quiet, 60, 800)]
