import calkulate.loss
from scipy.interpolate import PchipInterpolator

from ..common import *

loss = calk.loss

RULE = ("random titration curves (lengths, even and uneven steps, pH courses, constants, missing values), loss rates of either "
        "sign, air and split values; the model functions compared with an independent recursion and the balance of carbon, the "
        "fit with the exact linear least-squares solution and, for generated data, with the rate that made them; a state is "
        "(function, sign and size of the rate, split, pattern of gaps)")


def curve(rng, n=None, even=None, late=False):
    n = int(rng.integers(14, 45)) if n is None else n
    even = flip(rng, 0.6) if even is None else even
    end = float(rng.uniform(2e-3, 6e-3))
    if even:
        tm = np.linspace(0, end, n)
    else:
        tm = np.concatenate([[0], np.cumsum(rng.uniform(0.6, 1.4, n - 1))])
        tm = tm / tm[-1] * end
    x = tm / end
    p0, p1 = rng.uniform(7.5, 8.3), rng.uniform(2.8, 3.6)
    mid, width = rng.uniform(0.45, 0.75), rng.uniform(0.06, 0.2)
    s = 1 / (1 + np.exp((x - mid) / width))
    s = (s - s[-1]) / (s[0] - s[-1])
    pH = p1 + (p0 - p1) * (0.5 * s + 0.5 * (1 - x))
    if late and flip(rng, 0.25):  # some titrant was added before the first measurement
        tm = tm + float(rng.uniform(0.1, 1)) * (tm[1] - tm[0])
    drift = 1 + 0.02 * x * rng.normal()
    k0 = rng.uniform(0.025, 0.045) * drift
    k1, k2 = 10 ** -rng.uniform(5.8, 6.2) * drift, 10 ** -rng.uniform(8.8, 9.4) * drift
    return tm, pH, k0, k1, k2, float(rng.uniform(0.05, 0.25))


def fco2_of(dic, pH, k0, k1, k2):
    h = 10.0 ** -pH
    return dic * h * h / (h * h + k1 * h + k1 * k2) / k0


def fine(tm, y, at):
    return PchipInterpolator(tm, y)(at)


def rate(rng):
    return float(pick(rng, [0.0, rng.uniform(0.05, 3), rng.uniform(0.05, 3), -rng.uniform(0.05, 2), rng.uniform(3, 10)]))


def fitted(ctx):
    """One step of the model: dilution and exchange, and nothing else."""
    rng = ctx.rng
    n = int(rng.integers(1, 80))
    step = float(rng.uniform(1e-6, 3e-4))
    tm = float(rng.uniform(0, 1e-3)) * flip(rng) + step * np.arange(n)
    delta = rng.normal(0, 10 ** rng.uniform(0, 4.5), n)
    M, dic0, k = float(rng.uniform(0.01, 0.3)), float(rng.uniform(0, 4e-3)), rate(rng)
    args = [tm.copy(), delta.copy()]
    d = ctx.sut(loss.dic_loss_model_fitted, k, args[0], args[1], dic0, M, step)
    ctx.same("inputs untouched", args[0], tm)
    ctx.same("inputs untouched", args[1], delta)
    ctx.expect("one value per step", np.shape(d) == (n,), f"{np.shape(d)} for {n}")
    ctx.close("starts at the given DIC", d[0], dic0 * 1e6, rtol=1e-12)
    for i in range(n - 1):
        w = d[i] * (M + tm[i]) / (M + tm[i] + step) - k * delta[i] * step
        ctx.close("step", d[i + 1], w, rtol=1e-10, atol=1e-9)
    if k == 0:
        ctx.close("no loss", d * (M + tm), np.full(n, d[0] * (M + tm[0])), rtol=1e-9, atol=1e-12)
    # twice the rate, twice the effect
    z = ctx.sut(loss.dic_loss_model_fitted, 0.0, tm, delta, dic0, M, step)
    two = ctx.sut(loss.dic_loss_model_fitted, 2 * k, tm, delta, dic0, M, step)
    ctx.close("proportional to the rate", two - z, 2 * (d - z), rtol=1e-7, atol=1e-6)
    ctx.note(k=k, n=n)
    ctx.state("fitted", np.sign(k), n % 9, dic0 == 0)


def fugacity(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 20))
    pH = rng.uniform(2, 10, n)
    dic = rng.uniform(0, 4000, n)
    k0, k1, k2 = rng.uniform(0.02, 0.06, n), 10 ** -rng.uniform(5.5, 6.5, n), 10 ** -rng.uniform(8.5, 10, n)
    f = ctx.sut(loss.get_fCO2_from_dic_pH, dic, pH, k0, k1, k2)
    ctx.close("fCO2", f, fco2_of(dic, pH, k0, k1, k2), rtol=1e-10)
    ctx.close("never more than all of it", np.minimum(f * k0, dic * (1 + 1e-12)), f * k0, rtol=1e-12)
    for i in range(n):
        ctx.close("point by point", ctx.sut(loss.get_fCO2_from_dic_pH, dic[i], pH[i], k0[i], k1[i], k2[i]), f[i], rtol=1e-12)
    ctx.state("fugacity", n)


def future(ctx):
    """The forecast obeys the same law with its own fCO2."""
    rng = ctx.rng
    n = int(rng.integers(1, 60))
    step = float(rng.uniform(1e-6, 5e-5))
    tm = float(rng.uniform(1e-3, 3e-3)) + step * np.arange(n)
    pH = np.sort(rng.uniform(3, 5.5, n))[::-1]
    k0, k1, k2 = rng.uniform(0.03, 0.04, n), rng.uniform(0.8e-6, 1.2e-6, n), rng.uniform(0.8e-9, 1.2e-9, n)
    M, k, dic0 = float(rng.uniform(0.05, 0.2)), rate(rng), float(rng.uniform(500, 2500))
    d0 = float(rng.normal(1000, 5000))
    pHs, k0s, k1s, k2s = 5.52, 0.035, 1e-6, 1e-9
    kw, air = {}, float(calk.default.fCO2_air)
    if flip(rng, 0.7):
        air = kw["fCO2_air"] = float(pick(rng, [0.0, 400.0, 2000.0]))
    f_dic, f_delta = ctx.sut(loss.dic_loss_model_future, k, tm, pH, k0, k1, k2, d0, dic0, pHs, k0s, k1s, k2s, M, step, **kw)
    ctx.expect("one value per step", np.shape(f_dic) == (n,) and np.shape(f_delta) == (n,), f"{np.shape(f_dic)} {np.shape(f_delta)}")
    ctx.close("first step", f_dic[0], dic0 * (M + tm[0] - step) / (M + tm[0]) - k * d0 * step, rtol=1e-10, atol=1e-9)
    ctx.close("first fCO2", f_delta[0], fco2_of(f_dic[0], pHs, k0s, k1s, k2s) - air, rtol=1e-9, atol=1e-6)
    for i in range(n - 1):
        ctx.close("step", f_dic[i + 1], f_dic[i] * (M + tm[i]) / (M + tm[i] + step) - k * f_delta[i] * step, rtol=1e-10, atol=1e-9)
        ctx.close("fCO2 on the way", f_delta[i + 1], fco2_of(f_dic[i + 1], pH[i + 1], k0[i + 1], k1[i + 1], k2[i + 1]) - air,
                  rtol=1e-9, atol=1e-6)
    ctx.note(k=k, n=n, air=air)
    ctx.state("future", np.sign(k), n % 9, air)


def inputs(ctx, late=False):
    rng = ctx.rng
    tm, pH, k0, k1, k2, M = curve(rng, late=late)
    n = tm.size
    kw, air, split = {}, float(calk.default.fCO2_air), float(calk.default.split_pH)
    if flip(rng, 0.5):
        air = kw["fCO2_air"] = float(pick(rng, [0.0, 280.0, 420.0, 1500.0]))
    if flip(rng, 0.6):
        split = kw["split_pH"] = float(pick(rng, [4.5, 5.0, 6.0, 6.5, pH[n // 2]]))
    k, dic0 = rate(rng), float(rng.uniform(1000, 2600)) * 1e-6
    return tm, pH, k0, k1, k2, M, kw, air, split, k, dic0


def by_hand(tm, pH, dic, fco2, k0, k1, k2, M, dic0, air, split):
    """The fine-step model from its description; the rate is the exact
    solution of the (linear) least-squares problem."""
    dic = np.where(np.isnan(dic), 0, dic)
    fco2 = np.where(np.isnan(fco2), np.nanmax(fco2), fco2)
    step = np.median(np.diff(tm)) / 10
    a = np.arange(0, np.max(tm), step)
    a_pH = fine(tm, pH, a)
    up = a_pH >= split
    y, delta = fine(tm, dic, a[up]), fine(tm, fco2 - air, a[up])

    def run(k, start):
        d = np.empty(up.sum())
        d[0] = start
        for i in range(d.size - 1):
            d[i + 1] = d[i] * (M + a[i]) / (M + a[i] + step) - k * delta[i] * step
        return d
    A, B = run(0.0, dic0 * 1e6), run(1.0, 0.0)
    k = float(B @ (y - A) / (B @ B)) if B @ B > 0 else nan
    # SciPy stops when the sum of squares changes by less than 1e-8 of itself
    slack = np.sqrt(1e-6 * np.sum((A + k * B - y) ** 2) / (B @ B)) if B @ B > 0 else nan
    return a, a_pH, up, step, A + k * B, delta, k, slack


def hires(ctx):
    """Fit and forecast against the description, for any data."""
    rng = ctx.rng
    tm, pH, k0, k1, k2, M, kw, air, split, k, dic0 = inputs(ctx, late=True)
    n = tm.size
    # data near the law, with noise
    dic = dic0 * 1e6 * M / (M + tm) * np.linspace(1, rng.uniform(0.6, 1.05), n) + rng.normal(0, rng.uniform(0, 15), n)
    fco2 = fco2_of(dic, pH, k0, k1, k2) + rng.normal(0, 20, n)
    gaps = pick(rng, ["none", "low pH", "anywhere"])
    low = pH < split
    hole = np.zeros(n, dtype=bool)
    if gaps == "low pH":
        hole = low & (rng.random(n) < 0.5)
    elif gaps == "anywhere":
        hole = rng.random(n) < 0.15
    dic[hole] = nan
    hole2 = hole if flip(rng) else np.roll(hole, 1)
    if not hole2.all():
        fco2[hole2] = nan
    args = [tm, pH, dic, fco2, k0, k1, k2]
    given = [a.copy() for a in args]
    kf, hi = ctx.sut(loss.get_dic_loss_hires, *given, M, dic0, **kw)
    k2_, dic_m, fco2_m, is_fit = ctx.sut(loss.get_dic_loss, *given, M, dic0, **kw)
    for g, a in zip(given, args):
        ctx.same("inputs left as given", g, a)
    ctx.note(k=kf, n=n, air=air, split=split, gaps=gaps)
    a, a_pH, up, step, i_dic, delta, kw_, slack = by_hand(tm, pH, dic, fco2, k0, k1, k2, M, dic0, air, split)
    if not (up.any() and not up.all()):
        return
    ctx.close("fine grid", hi["titrant_mass"], a, rtol=1e-9, atol=1e-15)
    ctx.close("fine pH", hi["pH"], a_pH, atol=1e-9)
    ctx.expect("one value per fine step", hi["dic"].shape == a.shape and hi["delta_fCO2"].shape == a.shape, f"{hi['dic'].shape}")
    ctx.close("fitted rate", float(kf), kw_, rtol=1e-4, atol=1e-5 + slack)
    m = up.sum()
    if slack < 1e-2 * abs(kw_):
        ctx.close("fitted part", hi["dic"][:m], i_dic, rtol=1e-4, atol=0.02 + 0.02 * np.max(np.abs(i_dic - i_dic[0] * M / (M + a[up]))))
    ctx.close("fCO2 of the fitted part", hi["delta_fCO2"][:m], delta, rtol=1e-8, atol=1e-4)
    # the forecast
    d, f = hi["dic"], hi["delta_fCO2"]
    for i in range(m - 1, a.size - 1):
        w = d[i] * (M + a[i]) / (M + a[i] + step) - kf * f[i] * step
        ctx.close("forecast follows the law", d[i + 1], w, rtol=1e-8, atol=1e-6)
    for i in range(m + 1, a.size):
        w = fco2_of(d[i], a_pH[i], *(fine(tm, x, a[i]) for x in (k0, k1, k2))) - air
        ctx.close("forecast fCO2", f[i], w, rtol=1e-7, atol=1e-4)
    if d[m] > 0:
        ends = [fco2_of(d[m], a_pH[i], *(fine(tm, x, a[i]) for x in (k0, k1, k2))) - air for i in (m - 1, m)]
        pad = 1e-6 * max(map(abs, ends)) + 1e-4
        ctx.expect("fCO2 where the forecast starts", min(ends) - pad <= f[m] <= max(ends) + pad, f"{f[m]} / {ends}")
    # values at the titration points
    ctx.close("same rate", float(k2_), float(kf), rtol=1e-9)
    ctx.close("DIC at the points", dic_m, fine(a, d, tm) * 1e-6, rtol=1e-7, atol=1e-12)
    ctx.close("fCO2 at the points", fco2_m, fine(a, f, tm) + air, rtol=1e-7, atol=1e-5)
    ctx.expect("fitted points", np.array_equal(np.asarray(is_fit, dtype=bool), pH >= split), f"{is_fit}")
    if tm[0] == 0:
        ctx.close("first point", dic_m[0], dic0, rtol=1e-9)
    ctx.state("hires", np.sign(kf), air, split, gaps, n % 5)


def wobble(ctx):
    """Noisy pH that passes the split more than once: which points count as
    fitted is decided by each point's own pH, inclusively."""
    rng = ctx.rng
    tm, pH, k0, k1, k2, M, kw, air, split, k, dic0 = inputs(ctx, late=True)
    n = tm.size
    near = np.argsort(np.abs(pH - split))[:min(n - 2, 5)]
    pH = pH.copy()
    pH[near] = split + rng.normal(0, 0.05, near.size)
    if flip(rng):
        pH[near[0]] = split
    if not ((pH >= split).any() and (pH < split).any()):
        return
    dic = dic0 * 1e6 * M / (M + tm)
    args = [tm, pH, dic, fco2_of(dic, pH, k0, k1, k2), k0, k1, k2]
    given = [a.copy() for a in args]
    out = ctx.sut(loss.get_dic_loss, *given, M, dic0, **kw)
    for g, a in zip(given, args):
        ctx.same("inputs left as given", g, a)
    ctx.expect("fitted points", np.array_equal(np.asarray(out[3], dtype=bool), pH >= split), f"{out[3]}", pH=pH, split=split)
    ctx.expect("one value per point", np.shape(out[1]) == tm.shape and np.shape(out[2]) == tm.shape, "shapes")
    ctx.state("wobble", int(np.sum(np.diff((pH >= split).astype(int)) != 0)), split, air)


def generated(ctx):
    """Data made by the law give back the rate they were made with, and the
    DIC they were made of, also after the split."""
    rng = ctx.rng
    tm, pH, k0, k1, k2, M = curve(rng, even=True)
    _, _, _, _, _, _, kw, air, split, k, dic0 = inputs(ctx)
    n = tm.size
    step = (tm[1] - tm[0]) / 10
    N = 10 * (n - 1) + 1
    a = step * np.arange(N)
    a_pH = fine(tm, pH, a)
    ks = [fine(tm, x, a) for x in (k0, k1, k2)]
    k = k * min(1.0, 0.4 * dic0 * 1e6 / (3e4 * tm[-1] * max(abs(k), 1e-9)))
    d = np.empty(N)
    d[0] = dic0 * 1e6
    f = np.empty(N)
    for i in range(N):
        f[i] = fco2_of(d[i], a_pH[i], *(x[i] for x in ks))
        if i + 1 < N:
            d[i + 1] = d[i] * (M + a[i]) / (M + a[i] + step) - k * (f[i] - air) * step
    up = pH >= split
    if up.sum() < 4 or (~up).sum() < 2:
        return
    dic, fco2 = d[::10].copy(), f[::10].copy()
    if flip(rng, 0.4):
        hole = (np.flatnonzero(~up))[2:]
        dic[hole], fco2[hole] = nan, nan
    ctx.note(k=k, n=n, air=air, split=split)
    kf, dic_m, fco2_m, is_fit = ctx.sut(loss.get_dic_loss, tm, pH, dic, fco2, k0, k1, k2, M, dic0, **kw)
    # how much the loss is worth over the fitted part, in umol/kg
    worth = np.max(np.abs(np.cumsum(f[a_pH >= split] - air))) * step
    ctx.close("the rate is recovered", float(kf) * worth, k * worth, atol=0.15, rtol=0.05)
    ctx.close("the DIC is recovered", dic_m[up] * 1e6, d[::10][up], atol=1.0, rtol=1e-3)
    ctx.close("the forecast is the truth", dic_m * 1e6, d[::10], atol=2.0, rtol=1e-2)
    ctx.state("generated", np.sign(k), air, split, n % 5)


def no_loss(ctx):
    """Data that only dilute: the rate is zero and the forecast is dilution."""
    rng = ctx.rng
    tm, pH, k0, k1, k2, M, kw, air, split, k, dic0 = inputs(ctx)
    if not ((pH >= split).sum() > 3 and (pH < split).sum() > 1):
        return
    dic = dic0 * 1e6 * M / (M + tm)
    fco2 = fco2_of(dic, pH, k0, k1, k2)
    kf, dic_m, fco2_m, is_fit = ctx.sut(loss.get_dic_loss, tm, pH, dic, fco2, k0, k1, k2, M, dic0, **kw)
    ctx.close("only dilution", dic_m * 1e6, dic, atol=0.3, rtol=2e-4)
    ctx.note(k=kf)
    ctx.state("no loss", air, split, tm.size % 5)


SCENARIOS = [
    ("fitted", fitted, 150, 15000),
    ("wobble", wobble, 60, 3000),
    ("fugacity", fugacity, 60, 6000),
    ("future", future, 120, 12000),
    ("hires", hires, 160, 12000),
    ("generated", generated, 120, 9000),
    ("no_loss", no_loss, 60, 5000),
]
