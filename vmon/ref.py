"""Independent reference model of a seawater alkalinity titration.

Written from the documented equations, not from the code under test, and in a
different form where possible (proton balance over generic polyprotic acids
instead of species by species).  PyCO2SYS supplies salts and equilibrium
constants, through its top-level function rather than the internals the code
under test uses.
"""

import numpy as np
import PyCO2SYS as pyco2
from scipy.optimize import least_squares

F = 96.4853365
R = 8.3144621
T0 = 273.15

# acid family: (total key, constants in order of deprotonation, number of
# protons at the zero level of protons)
FAMILIES = {
    "dic": (("k_carbonic_1", "k_carbonic_2"), 2),
    "total_borate": (("k_borate",), 1),
    "total_phosphate": (("k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3"), 2),
    "total_silicate": (("k_silicate",), 1),
    "total_ammonia": (("k_ammonia",), 1),
    "total_sulfide": (("k_sulfide",), 1),
    "total_sulfate": (("k_bisulfate",), 0),
    "total_fluoride": (("k_fluoride",), 0),
    "total_alpha": (("k_alpha",), None),
    "total_beta": (("k_beta",), None),
}
K_NAMES = ["k_alpha", "k_ammonia", "k_beta", "k_bisulfate", "k_borate", "k_carbonic_1",
           "k_carbonic_2", "k_fluoride", "k_phosphoric_1", "k_phosphoric_2",
           "k_phosphoric_3", "k_silicate", "k_sulfide", "k_water"]
TOTAL_NAMES = ["dic", "total_alpha", "total_ammonia", "total_beta", "total_borate",
               "total_fluoride", "total_phosphate", "total_silicate", "total_sulfate",
               "total_sulfide"]
SALTS = ["total_borate", "total_fluoride", "total_sulfate"]


def nernst(temperature):
    return R * (np.asarray(temperature, dtype=float) + T0) / F


def emf_of_h(h, emf0, temperature):
    return emf0 + nernst(temperature) * np.log(h)


def h_of_emf(emf, emf0, temperature):
    return np.exp((np.asarray(emf, dtype=float) - emf0) / nernst(temperature))


def pH_of_emf(emf, emf0, temperature):
    return -(np.asarray(emf, dtype=float) - emf0) / nernst(temperature) / np.log(10)


# --- densities --------------------------------------------------------------


def rho_seawater(t, s):
    """EOS-80 / Millero & Poisson 1981 at 1 atm, kg/l."""
    t = np.asarray(t, dtype=float)
    rw = np.polynomial.polynomial.polyval(
        t, [999.842594, 6.793952e-2, -9.095290e-3, 1.001685e-4, -1.120083e-6, 6.536336e-9])
    a = np.polynomial.polynomial.polyval(
        t, [8.24493e-1, -4.0899e-3, 7.6438e-5, -8.2467e-7, 5.3875e-9])
    b = np.polynomial.polynomial.polyval(t, [-5.72466e-3, 1.0227e-4, -1.6546e-6])
    c = 4.8314e-4
    return (rw + a * s + b * np.sqrt(s) * s + c * s * s) / 1000.0


def rho_hcl_nacl(m_hcl, m_nacl):
    """Dickson et al. 2007 SOP 3b, 25 degC, g/ml."""
    mt = m_hcl + m_nacl
    rw = 0.99704
    x = m_hcl / mt
    ph = 17.854 + 1.460 * mt**0.5 - 0.307 * mt
    pn = 16.613 + 1.811 * mt**0.5 + 0.094 * mt
    w = x * 36.46 + (1 - x) * 58.44
    phi = x * ph + (1 - x) * pn
    return rw * (1000 + w * mt) / (1000 + phi * mt * rw)


def rho_h2so4(m):
    return np.polynomial.polynomial.polyval(m, [0.99750018, 0.06181819, -0.00285491])


# --- salts and constants ------------------------------------------------------


def analyte_totals(salinity, totals_user, opt_k_carbonic=10, opt_total_borate=1):
    """All totals of the undiluted analyte in mol/kg."""
    r = pyco2.sys(salinity=salinity, opt_k_carbonic=opt_k_carbonic,
                  opt_total_borate=opt_total_borate)
    out = {}
    for k in TOTAL_NAMES:
        v = totals_user.get(k)
        if v is None and k in SALTS:
            out[k] = float(r[k]) * 1e-6
        else:
            out[k] = (0.0 if v is None else float(v)) * 1e-6
    return out


def constants(salinity, temperature, totals, k_user=None, opt_k_carbonic=10,
              opt_k_bisulfate=1, opt_k_fluoride=1, opt_total_borate=1, opt_pH_scale=3):
    """Equilibrium constants (free scale by default).  `totals` in mol/kg: the
    sulfate and fluoride used for pH scale conversions."""
    kw = {}
    for k in ("total_sulfate", "total_fluoride", "total_borate"):
        kw[k] = np.asarray(totals[k]) * 1e6
    for k, v in (k_user or {}).items():
        kw[k] = v
    r = pyco2.sys(salinity=salinity, temperature=temperature, opt_pH_scale=opt_pH_scale,
                  opt_gas_constant=3, opt_k_carbonic=opt_k_carbonic,
                  opt_k_bisulfate=opt_k_bisulfate, opt_k_fluoride=opt_k_fluoride,
                  opt_total_borate=opt_total_borate, **kw)
    out = {k: r[k] for k in K_NAMES if k in r}
    for k, v in (k_user or {}).items():
        out[k] = v
    return out


# --- acid-base chemistry ------------------------------------------------------


def fractions(h, ks):
    """Fractions of the fully protonated ... fully deprotonated forms."""
    terms = [np.ones_like(h * 1.0)]
    for k in ks:
        terms.append(terms[-1] * k / h)
    s = sum(terms)
    return [t / s for t in terms]


def alkalinity(h, totals, k):
    """Total alkalinity (mol/kg) on the free scale as a proton balance."""
    h = np.asarray(h, dtype=float)
    a = k["k_water"] / h - h
    for fam, (kn, n0) in FAMILIES.items():
        if fam not in totals:
            continue
        t = totals[fam]
        if np.all(np.asarray(t) == 0):
            continue
        ks = [k[x] for x in kn]
        n = len(ks)
        fr = fractions(h, ks)
        protons = sum((n - i) * fr[i] for i in range(n + 1))
        if n0 is None:
            zero = np.where(-np.log10(np.asarray(ks[0], dtype=float)) <= 4.5, 0, 1)
        else:
            zero = n0
        a = a + t * (zero - protons)
    return a


def mixture_totals(analyte, titrant_mass, analyte_mass, titrant_molinity=0.0, carried=None):
    d = analyte_mass / (titrant_mass + analyte_mass)
    out = {k: v * d for k, v in analyte.items()}
    for k, f in (carried or {}).items():
        out[k] = out.get(k, 0.0) + titrant_mass * titrant_molinity * f / (titrant_mass + analyte_mass)
    return out


def solve_h(alk, totals, k, lo=1e-13, hi=1.0, n=60):
    """[H+] for a given alkalinity by bisection in log h (vectorised)."""
    alk = np.asarray(alk, dtype=float)
    a = np.full(alk.shape, np.log(lo))
    b = np.full(alk.shape, np.log(hi))
    for _ in range(n):
        m = 0.5 * (a + b)
        big = alkalinity(np.exp(m), totals, k) > alk  # alkalinity falls with h
        a = np.where(big, m, a)
        b = np.where(big, b, m)
    return np.exp(0.5 * (a + b))


# --- Gran ---------------------------------------------------------------------


def gran(titrant_mass, emf, temperature, analyte_mass, molinity, normality=1, logic="v23.7+"):
    tm = np.asarray(titrant_mass, dtype=float)
    g = (tm + analyte_mass) * np.exp(np.asarray(emf) / nernst(temperature))
    gmax = g.max()
    if logic == "v23.7+":
        used = np.arange(g.size) >= np.argmax(g > 0.1 * gmax)
        margin = np.min(np.abs(g / gmax - 0.1))
    else:
        used = (g > 0.1 * gmax) & (g < 0.9 * gmax)
        margin = min(np.min(np.abs(g / gmax - 0.1)), np.min(np.abs(g / gmax - 0.9)))
    x, y = tm[used], g[used]
    xm, ym = x.mean(), y.mean()
    slope = np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2)
    icept = ym - slope * xm
    x0 = -icept / slope
    alk = x0 * molinity * normality / analyte_mass
    with np.errstate(all="ignore"):
        emf0s = emf - nernst(temperature) * np.log(
            (tm * molinity * normality - analyte_mass * alk) / (tm + analyte_mass))
    emf0 = np.mean(emf0s[used])
    return dict(gfunc=g, used=used, slope=slope, intercept=icept, intercept_x=x0,
                alkalinity=alk, emf0s=emf0s, emf0=emf0,
                pH=pH_of_emf(emf, emf0, temperature), margin=margin)


# --- solving --------------------------------------------------------------------


def _take(d, m):
    return {k: (v[m] if np.size(v) > 1 else v) for k, v in d.items()}


def alk_points(pH_or_h, tm, M, c, norm, totals, ks, is_h=False):
    h = pH_or_h if is_h else 10.0 ** -np.asarray(pH_or_h)
    return (alkalinity(h, totals, ks) * (tm + M) + tm * c * norm) / M


def fit_emf(used, alk0, emf00, tm, emf, temperature, M, c, norm, totals, ks):
    """Least-squares optimum over the used points: residuals in the mixture
    (mol/kg-mixture), unknown alkalinity and EMF0, solved tightly."""
    tmu, eu, tu = tm[used], emf[used], temperature[used]
    tot, k = _take(totals, used), _take(ks, used)
    d = M / (tmu + M)

    def res(x):
        h = h_of_emf(eu, x[1], tu)
        return 1e6 * (alkalinity(h, tot, k) - x[0] * 1e-6 * d + tmu * c * norm / (tmu + M))

    r = least_squares(res, [alk0 * 1e6, emf00], x_scale=[100.0, 1.0],
                      ftol=1e-15, xtol=1e-15, gtol=1e-15, method="lm" if tmu.size >= 2 else "trf")
    return r.x[0], r.x[1], r.fun


def solve_emf(tm, emf, temperature, M, c, totals, ks, norm=1, pH_min=3, pH_max=4,
              alkalinity_init=None, emf0_init=None, double=True, logic="v23.7+"):
    """Reference for the EMF solver.  `margin` is the smallest distance of any
    point from a decision boundary (window edges in pH): results are only
    comparable when it is not tiny."""
    g = gran(tm, emf, temperature, M, c, norm, logic)
    alk = g["alkalinity"] if alkalinity_init is None else alkalinity_init * 1e-6
    emf0 = g["emf0"] if emf0_init is None else emf0_init
    margin, g_start, passes = 1.0, [], []
    for _ in range(2 if double else 1):
        pH = pH_of_emf(emf, emf0, temperature)
        used = (pH >= pH_min) & (pH <= pH_max)
        margin = min(margin, np.min(np.abs(pH - pH_min)), np.min(np.abs(pH - pH_max)))
        g_start.append(gradient(used, alk, emf0, tm, emf, temperature, M, c, norm, totals, ks))
        passes.append((alk * 1e6, emf0))
        a_um, emf0, fun = fit_emf(used, alk, emf0, tm, emf, temperature, M, c, norm, totals, ks)
        alk = a_um * 1e-6
    h = h_of_emf(emf, emf0, temperature)
    pts = 1e6 * alk_points(h, tm, M, c, norm, totals, ks, is_h=True)
    return dict(alkalinity=a_um, emf0=emf0, used=used, pH=-np.log10(h), points=pts,
                std_points=np.std(pts[used]), std_fun=np.std(fun), gran=g,
                margin=min(margin, 1.0), gran_margin=g["margin"], g_start=g_start, starts=passes,
                prone=min(g_start) < 4e-8)


def gradient(used, alk, emf0, tm, emf, temperature, M, c, norm, totals, ks):
    """Largest element of the gradient of the cost at a starting point, in the
    units of the code's own least-squares problem (mol/kg and mV).  Where it is
    below SciPy's default gtol (1e-8) the code's solver does not start."""
    tmu, eu, tu = tm[used], emf[used], temperature[used]
    tot, k = _take(totals, used), _take(ks, used)
    d = M / (tmu + M)

    def res(a, e):
        return alkalinity(h_of_emf(eu, e, tu), tot, k) - a * d + tmu * c * norm / (tmu + M)

    f = res(alk, emf0)
    de = 1e-5
    je = (res(alk, emf0 + de) - res(alk, emf0 - de)) / (2 * de)
    return float(max(abs(np.sum(-d * f)), abs(np.sum(je * f)))) if f.size else 0.0


def solve_pH(tm, pH, M, c, totals, ks, norm=1, pH_min=3, pH_max=4):
    used = (pH >= pH_min) & (pH <= pH_max)
    pts = 1e6 * alk_points(pH, tm, M, c, norm, totals, ks)
    return dict(alkalinity=np.mean(pts[used]), used=used, points=pts, std_points=np.std(pts[used]),
                margin=min(np.min(np.abs(pH - pH_min)), np.min(np.abs(pH - pH_max))))


def solve_pH_gran(tm, pH, M, c, norm=1, pH_min=3, pH_max=4):
    used = (pH >= pH_min) & (pH <= pH_max)
    g = (tm + M) * 10.0 ** -pH
    x, y = tm[used], g[used]
    xm, ym = x.mean(), y.mean()
    slope = np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2)
    x0 = xm - ym / slope
    return dict(alkalinity=1e6 * x0 * c * norm / M, used=used, gfunc=g, slope=slope,
                intercept=ym - slope * xm)
