from ..common import *
import PyCO2SYS as pyco2

RULE = ("random pH (-1.5 to 15.5, scalars and arrays), contents (including zero, absent and very large) and equilibrium "
        "constants over many orders of magnitude, on the three pH scales; monitors check equilibrium relations, mass "
        "balances, the proton-balance alkalinity of an independent model, scale independence and agreement with "
        "PyCO2SYS; a state is (components present, scale, shapes, acid classes)")

WEIGHTS = {"H": -1, "OH": 1, "CO2": 0, "HCO3": 1, "CO3": 2, "BOH4": 1, "HSO4": -1, "HF": -1, "H3PO4": -1,
           "HPO4": 1, "PO4": 2, "H3SiO4": 1, "NH3": 1, "HS": 1, "alk_alpha": 1, "alk_beta": 1}
OF = {"dic": ["CO2", "HCO3", "CO3"], "total_borate": ["BOH4"], "total_phosphate": ["H3PO4", "HPO4", "PO4"],
      "total_silicate": ["H3SiO4"], "total_ammonia": ["NH3"], "total_sulfide": ["HS"], "total_sulfate": ["HSO4"],
      "total_fluoride": ["HF"], "total_alpha": ["alk_alpha"], "total_beta": ["alk_beta"]}
MONO = {"total_borate": ("BOH4", "k_borate"), "total_silicate": ("H3SiO4", "k_silicate"),
        "total_ammonia": ("NH3", "k_ammonia"), "total_sulfide": ("HS", "k_sulfide")}


def _system(rng, n=None):
    """Random pH, totals and constants on the free scale, and broadcast shape."""
    shape = pick(rng, [(), (1,), (7,), (3, 4)]) if n is None else n
    pH = rng.uniform(0, 14, shape) if flip(rng) else rng.uniform(2.5, 9, shape)
    if flip(rng, 0.15):
        pH = rng.uniform(-1.5, 15.5, shape)
    if flip(rng, 0.15):
        pH = np.where(rng.random(shape) < 0.5, float(pick(rng, [0, 1, 3, 4.5, 7, 8, 14, -1])), pH)
    if shape == ():
        pH = float(pH)
    totals, present = {}, []
    for k in ref.TOTAL_NAMES:
        if flip(rng, 0.7):
            present.append(k)
            v = 10 ** rng.uniform(-7, -1.5, shape if flip(rng) else ())
            if flip(rng, 0.1):
                v = v * 0
            totals[k] = float(v) if np.ndim(v) == 0 else v
    ks = {}
    base = dict(k_water=13.2, k_carbonic_1=5.9, k_carbonic_2=9.0, k_borate=8.6, k_phosphoric_1=1.6,
                k_phosphoric_2=6.0, k_phosphoric_3=8.8, k_silicate=9.4, k_ammonia=9.2, k_sulfide=6.5,
                k_bisulfate=1.0, k_fluoride=2.5)
    for k, v in base.items():
        ks[k] = 10 ** -(v + rng.uniform(-1, 1, shape if flip(rng, 0.3) else ()))
    for a in ("alpha", "beta"):
        pk = rng.uniform(1, 10, shape if flip(rng, 0.3) else ())
        if flip(rng, 0.4):
            pk = np.full(np.shape(pk), pick(rng, [4.5 - 1e-6, 4.5 + 1e-6, 4.4, 4.6, 4.5, 4.5]))
        # pK of exactly 4.5 included, as the one double for which k >= 10**-4.5 and -log10(k) <= 4.5 agree
        ks["k_" + a] = np.where(pk == 4.5, 10.0**-4.5, 10.0**-pk)
    ks = {k: float(v) if np.ndim(v) == 0 else v for k, v in ks.items()}
    return pH, totals, ks, present, shape


def free_scale(ctx):
    rng = ctx.rng
    pH, totals, ks, present, shape = _system(rng)
    ctx.note(pH=pH, totals=totals, ks=ks)
    args = (pH, totals, ks)
    c = ctx.sut(simulate.alkalinity_components, *args) if flip(rng) else ctx.sut(
        simulate.alkalinity_components, *args, opt_pH_scale=3)
    h = 10.0 ** -np.asarray(pH)
    z = np.zeros(shape)
    ctx.close("H", c["H"] + z, h + z, 0, 1e-12)
    ctx.close("OH", c["OH"] * h, ks["k_water"] + z, 0, 1e-12)
    for fam, sp in OF.items():
        for s in sp:
            if fam not in totals:
                ctx.expect("absent", s not in c or np.all(np.asarray(c[s]) == 0), f"{s} reported without {fam}")
            else:
                ctx.expect("present", s in c, f"{s} missing though {fam} given")
    if "dic" in totals:
        T = totals["dic"] + z
        ctx.close("dic.balance", c["CO2"] + c["HCO3"] + c["CO3"], T, 0, 1e-11)
        ctx.close("dic.K1", c["HCO3"] * h, c["CO2"] * ks["k_carbonic_1"], 0, 1e-11)
        ctx.close("dic.K2", c["CO3"] * h, c["HCO3"] * ks["k_carbonic_2"], 0, 1e-11)
    for fam, (s, k) in MONO.items():
        if fam in totals:
            T = totals[fam] + z
            ctx.close(fam + ".K", c[s] * (h + ks[k]), T * ks[k], 0, 1e-11)
    if "total_phosphate" in totals:
        T = totals["total_phosphate"] + z
        f = ref.fractions(h + z, [ks["k_phosphoric_1"], ks["k_phosphoric_2"], ks["k_phosphoric_3"]])
        for s, x in (("H3PO4", f[0]), ("HPO4", f[2]), ("PO4", f[3])):
            ctx.close("phosphate." + s, c[s], T * x, 0, 1e-11)
    for fam, s, k in (("total_sulfate", "HSO4", "k_bisulfate"), ("total_fluoride", "HF", "k_fluoride")):
        if fam in totals:
            ctx.close(fam + ".K", c[s] * (h + ks[k]), (totals[fam] + z) * h, 0, 1e-11)
    for a in ("alpha", "beta"):
        if "total_" + a in totals:
            k, T = ks["k_" + a], totals["total_" + a] + z
            pk = -np.log10(np.asarray(k))
            base = T * k / (k + h)
            want = np.where(pk <= 4.5, base - T, base)
            ctx.close("acid." + a, c["alk_" + a], want, 1e-11 * float(np.max(T)) + 0, 1e-11)
    unknown = [k for k in c if k not in WEIGHTS and np.any(np.asarray(c[k]) != 0)]
    a = ctx.sut(simulate.alkalinity, *args)
    scale = sum(np.abs(np.asarray(c[s]) * WEIGHTS.get(s, 1)) for s in c) + z
    ctx.expect("alkalinity.shape", np.shape(a) == shape, f"shape {np.shape(a)} for {shape}")
    want = ref.alkalinity(h + z, {k: v + z for k, v in totals.items()}, {k: v + z for k, v in ks.items()})
    ctx.close("alkalinity", a / scale, want / scale, 1e-11)
    if not unknown:
        ctx.close("alkalinity.weights", a / scale, sum(c[s] * WEIGHTS[s] for s in c if s in WEIGHTS) / scale, 1e-12)
    if np.size(pH) > 1 and flip(rng, 0.2):
        # a missing pH leaves the other points alone and gives no number of its own
        q = np.array(pH)
        miss = rng.random(shape) < 0.4
        q[miss] = nan
        a2 = np.asarray(ctx.sut(simulate.alkalinity, q, totals, ks))
        ctx.close("missing pH.others", a2[~miss] / scale[~miss], a[~miss] / scale[~miss], 1e-11)
        ctx.expect("missing pH", np.all(np.isnan(a2[miss])), f"alkalinity {a2[miss]} where the pH is missing")
    ctx.state(tuple(present), shape, "free", tuple(bool(np.any(np.asarray(ks["k_" + a]) >= 10 ** -4.5)) for a in ("alpha", "beta")))


def scales(ctx):
    """The same solution expressed on the total and seawater scales."""
    rng = ctx.rng
    pH, totals, ks, present, shape = _system(rng)
    ctx.note(pH=pH, totals=totals, ks=ks)
    z = np.zeros(shape)
    h = 10.0 ** -np.asarray(pH) + z
    hso4 = totals.get("total_sulfate", 0) * h / (h + ks["k_bisulfate"]) + z
    hf = totals.get("total_fluoride", 0) * h / (h + ks["k_fluoride"]) + z
    want = ref.alkalinity(h, {k: v + z for k, v in totals.items()}, {k: v + z for k, v in ks.items()})
    # Keep user-defined acids away from the pK 4.5 rule, which is scale dependent
    ratio = {3: h / h, 1: (h + hso4) / h, 2: (h + hso4 + hf) / h}
    for a in ("alpha", "beta"):
        if "total_" + a in totals:
            pk = -np.log10(np.asarray(ks["k_" + a])) + z
            if any(np.any((pk <= 4.5) != (pk - np.log10(r) <= 4.5)) for r in ratio.values()):
                totals = {k: v for k, v in totals.items() if k != "total_" + a}
    want = ref.alkalinity(h, {k: v + z for k, v in totals.items()}, {k: v + z for k, v in ks.items()})
    for opt, r in ratio.items():
        k2 = {k: v * r for k, v in ks.items()}
        pH2 = -np.log10(h * r)
        c = ctx.sut(simulate.alkalinity_components, pH2, totals, k2, opt_pH_scale=opt)
        a = ctx.sut(simulate.alkalinity, pH2, totals, k2, opt_pH_scale=opt)
        scale = sum(np.abs(np.asarray(v)) for v in c.values()) * 2 + z
        ctx.close(f"scale{opt}.alkalinity", a / scale, want / scale, 1e-11)
        ctx.close(f"scale{opt}.H", c["H"], h * r, 0, 1e-12)
        # Species do not depend on the scale
        base = ctx.sut(simulate.alkalinity_components, -np.log10(h), totals, ks)
        for s in set(c) & set(base) - {"H"}:
            ctx.close(f"scale{opt}.species", c[s] + z, base[s] + z, 1e-11 * float(np.max(scale)), 1e-9, species=s)
        if opt == 2 and "HF" in c:
            ctx.expect("scale2.HF", np.all(np.asarray(c["HF"]) == 0), "HF counted twice on the seawater scale")
        if opt in (1, 2) and "HSO4" in c:
            ctx.expect("scale.HSO4", np.all(np.asarray(c["HSO4"]) == 0), "HSO4 counted twice")
    ctx.state(tuple(present), shape, "scales")


def versus_pyco2sys(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 9))
    pH = rng.uniform(3, 9, n)
    S, T = float(rng.uniform(5, 42)), rng.uniform(1, 38, n)  # (option 7 makes PyCO2SYS use another alkalinity)
    opt = dict(opt_k_carbonic=int(pick(rng, [o for o in gen.OPT_K_CARBONIC if o != 7])), opt_k_bisulfate=int(pick(rng, [1, 2])),
               opt_k_fluoride=int(pick(rng, [1, 2])), opt_total_borate=int(pick(rng, [1, 2])))
    kw = dict(total_silicate=rng.uniform(0, 200, n), total_phosphate=rng.uniform(0, 50, n),
              total_ammonia=rng.uniform(0, 50, n), total_sulfide=rng.uniform(0, 50, n),
              total_alpha=rng.uniform(1, 100, n), total_beta=rng.uniform(1, 100, n),
              k_alpha=10.0 ** -rng.uniform(3, 8), k_beta=10.0 ** -rng.uniform(3, 8))
    dic = rng.uniform(0, 3000, n)
    r = pyco2.sys(dic, pH, 2, 3, salinity=S, temperature=T, opt_pH_scale=3, opt_gas_constant=3, **opt, **kw)
    ctx.note(S=S, T=T, pH=pH, dic=dic, opt=opt, **kw)
    totals = {k: np.broadcast_to(r[k] * 1e-6, (n,)).copy() for k in ref.TOTAL_NAMES}
    ks = {k: np.broadcast_to(r[k], (n,)).copy() for k in ref.K_NAMES}
    a = ctx.sut(simulate.alkalinity, pH, totals, ks)
    ctx.close("pyco2sys.alkalinity", 1e6 * a, r["alkalinity"], 1e-6, 1e-9)
    c = ctx.sut(simulate.alkalinity_components, pH, totals, ks)
    names = {"alk_alpha": "alkalinity_alpha", "alk_beta": "alkalinity_beta", "H": "Hfree"}
    for s in WEIGHTS:
        ctx.close("pyco2sys." + s, 1e6 * np.asarray(c[s]), r[names.get(s, s)] if s != "CO2" else r["CO2"], 1e-7, 1e-9)
    ctx.state("pyco2sys", tuple(opt.values()))


def monotonic(ctx):
    """Alkalinity falls strictly as protons are added (any mixture of weak acids)."""
    rng = ctx.rng
    _, totals, ks, present, _ = _system(rng, ())
    pH = np.linspace(1, 13, 241)
    ctx.note(totals=totals, ks=ks)
    a = ctx.sut(simulate.alkalinity, pH, totals, ks)
    ctx.expect("monotonic", np.all(np.diff(a) > 0), "alkalinity does not rise with pH")
    # each total adds to the alkalinity on its own: superposition
    alone = sum(np.asarray(ctx.sut(simulate.alkalinity, pH, {k: v}, ks)) for k, v in totals.items())
    none = np.asarray(ctx.sut(simulate.alkalinity, pH, {}, ks))
    s = np.abs(a) + np.abs(none) + sum(np.abs(v) for v in totals.values()) * 4
    ctx.close("superposition", (a - none) / s, (alone - len(totals) * none) / s, 1e-11)
    ctx.close("water", none, ks["k_water"] / 10.0 ** -pH - 10.0 ** -pH, 1e-15, 1e-11)
    ctx.state(tuple(present), "superposition")


SCENARIOS = [
    ("free_scale", free_scale, 1600, 60000),
    ("scales", scales, 1200, 40000),
    ("versus_pyco2sys", versus_pyco2sys, 200, 4000),
    ("monotonic", monotonic, 400, 20000),
]
