import re

import calkulate.plot
import calkulate.plot.titration
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from matplotlib.collections import PathCollection
from matplotlib.figure import Figure

from ..common import *

RULE = ("tables (any index, batches, flags, gaps; solved by the package or made up) and titrations of every mode drawn with every "
        "plot and option on a canvas without display; the drawn points, lines, bands, labels and titles are read back from the "
        "figure and compared with the data; a state is (plot, options, mode, gaps)")

tplot = calk.plot.titration


def look():
    """Defaults for the user's later figures."""
    return {k: repr(plt.rcParams[k]) for k in plt.rcParams if "backend" not in k}



def drawn(ax):
    """All drawn points: (x, y, filled, colour, label)."""
    out = []
    for c in ax.collections:
        if not isinstance(c, PathCollection):
            continue
        xy = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), nan)
        fc, ec = np.atleast_2d(c.get_facecolors()), np.atleast_2d(c.get_edgecolors())
        for i, (x, y) in enumerate(xy):
            f = fc[i % len(fc)] if fc.size else None
            e = ec[i % len(ec)] if ec.size else None
            filled = f is not None and f[3] > 0
            col = f if filled else e
            out.append((float(x), float(y), filled, None if col is None else tuple(np.round(col[:3], 4)), c.get_label()))
    return out


def points(ctx, check, got, x, y, rtol=1e-10):
    """The finite points drawn are the finite points expected, each once."""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    w = np.array(sorted((a, b) for a, b in zip(x, y) if np.isfinite(a) and np.isfinite(b))).reshape(-1, 2)
    g = np.array(sorted((p[0], p[1]) for p in got if np.isfinite(p[0]) and np.isfinite(p[1]))).reshape(-1, 2)
    ctx.expect(check + ": number", len(g) == len(w), f"{len(g)} points drawn instead of {len(w)}")
    ctx.event("points compared", len(w))
    if len(w):
        # equal x may sort differently after rounding: compare by x, then y
        ctx.close(check + ": x", np.sort(g[:, 0]), np.sort(w[:, 0]), rtol=rtol, atol=1e-13)
        ctx.close(check + ": y", np.sort(g[:, 1]), np.sort(w[:, 1]), rtol=rtol, atol=1e-9)
        d = np.max(np.abs(g - w) / (1e-13 + 1e-9 * np.abs(w) + 1e-9))
        if d > 1:  # pair up
            used = np.zeros(len(w), dtype=bool)
            for a in g:
                m = np.all(np.abs(w - a) <= 1e-9 + 1e-9 * np.abs(w), axis=1) & ~used
                ctx.expect(check + ": pairs", m.any(), f"the drawn point {a} is not in the data")
                used[np.flatnonzero(m)[0]] = True


def has_hline(ax, y, tol=1e-9):
    for ln in ax.lines:
        v = np.asarray(ln.get_ydata(), dtype=float)
        if v.size and np.all(np.abs(v - y) <= tol * max(1, abs(y))):
            return True
    return False


def has_vline(ax, x, tol=1e-9):
    for ln in ax.lines:
        v = np.asarray(ln.get_xdata(), dtype=float)
        if v.size and np.all(np.abs(v - x) <= tol * max(1, abs(x))):
            return True
    return False


def numbers(text):
    return [float(x.replace("\u2212", "-")) for x in re.findall(r"[-\u2212]?\d+(?:\.\d+)?", text)]


def image(df):
    return [str(c) for c in df.columns], [repr(i) for i in df.index], [[repr(x) for x in df.iloc[:, i]] for i in range(df.shape[1])], [str(x) for x in df.dtypes]


# ------------------------------------------------------------------- tables
def made_up(rng):
    """A table as calibrating and solving leave it, with any values."""
    n = int(rng.integers(1, 25)) if flip(rng, 0.8) else int(rng.integers(30, 120))
    d = pd.DataFrame({
        "titrant_molinity_here": rng.uniform(0.09, 0.11, n), "salinity": rng.uniform(30, 36, n),
        "reference_good": rng.random(n) < 0.8, "alkalinity_offset": rng.normal(0, 3, n),
        "analysis_datenum": np.sort(rng.uniform(18000, 18010, n)), "id": rng.permutation(n)})
    kind = pick(rng, ["int", "text", "gaps"])
    b = rng.integers(0, int(pick(rng, [1, 2, 3, 3, 12, 40])), n)
    d["analysis_batch"] = {"int": b, "text": np.array(["b%d" % i for i in b]),
                           "gaps": np.where(rng.random(n) < 0.2, nan, b.astype(float))}[kind]
    hole = rng.random(n) < pick(rng, [0, 0.3])
    d.loc[hole, ["titrant_molinity_here", "alkalinity_offset"]] = nan
    means = {}
    d["titrant_molinity"] = nan
    for k in pd.unique(d.analysis_batch.dropna()):
        m = (d.analysis_batch == k) & d.reference_good
        means[k] = d.titrant_molinity_here[m].mean()
        d.loc[d.analysis_batch == k, "titrant_molinity"] = means[k]
    if flip(rng, 0.2):
        d.loc[rng.integers(n), "titrant_molinity_here"] = nan
    if flip(rng, 0.35):  # other ways to write the flags, as they come from files
        how = pick(rng, ["int", "object", "float", "missing", "float-missing", "boolean"])
        g = d.reference_good.tolist()
        if "missing" in how or how == "boolean":
            g = [x if x or flip(rng) else None for x in g]
        d["reference_good"] = pd.Series(
            [None if x is None else int(x) for x in g] if how in ("int", "float", "float-missing") else g,
            dtype={"int": int, "float": float, "float-missing": float, "boolean": "boolean"}.get(how, object))
        kind += ", flags " + how
    if flip(rng, 0.5):
        d.index = pick(rng, [rng.permutation(n) * 2 + 5, pd.Index([f"s{i}" for i in rng.permutation(n)]),
                             pd.date_range("2024-01-01", periods=n)])
    return d, kind


def solved(ctx):
    rng = ctx.rng
    rows = []
    for i in range(int(rng.integers(2, 5))):
        t = Tit(rng, wild=0)
        p = ctx.path()
        t.write(p, t.emf + rng.normal(0, 0.2, t.tm.size))
        r = rowdict(t, p)
        r.update(alkalinity_certified=t.alk if i == 0 or flip(rng, 0.7) else nan, analysis_batch=int(i % 2 if i else 0),
                 analysis_datenum=100.0 + i * 1.5)
        rows.append(r)
    ds = frame(rng, rows)
    ds = ctx.sut(calk.calkulate, ds)
    return ds, "calkulated"


def colour_of(name):
    return tuple(np.round(mcolors.to_rgb(name), 4))


def tables(ctx):
    rng = ctx.rng
    if flip(rng, 0.1):
        ds, kind = solved(ctx)
    else:
        ds, kind = made_up(rng)
    which = pick(rng, ["titrant_molinity", "alkalinity_offset"])
    kw = {}
    xvar = None
    if flip(rng, 0.5):
        xvar = kw["xvar"] = pick(rng, ["salinity", "analysis_datenum", None])
    for k in ("show_bad", "show_batches"):
        if flip(rng, 0.4):
            kw[k] = flip(rng)
    drop = None
    if which == "alkalinity_offset" and flip(rng, 0.2):
        drop = pick(rng, [["analysis_batch", "reference_good", "titrant_molinity_here"], ["reference_good"]])
        ds = ds.drop(columns=drop)
    elif which == "titrant_molinity" and flip(rng, 0.1):
        kw["show_batches"] = False
        ds = ds.drop(columns=["reference_good"])
    fname = None
    if flip(rng, 0.15):
        fname = ctx.path(pick(rng, [".png", ".pdf", ".svg"]))
        kw["figure_fname"] = fname
    as_method = flip(rng)
    if as_method:
        ds = calk.Dataset(ds)
    before = image(ds)
    plt.close("all")
    ctx.note(plot=which, table=kind, options=kw, rows=len(ds))
    other = None
    if flip(rng, 0.5):  # a figure of the user's own is open
        other = plt.figure()
        other.add_subplot().plot([1, 2], [3, 4])
        n_other = sum(len(a.lines) + len(a.collections) for a in other.axes)
    saved = []
    keep = Figure.savefig

    def savefig(self, fname, *a, **k):
        saved.append((self, str(fname)))
        return keep(self, fname, *a, **k)

    Figure.savefig = savefig
    style = look()
    try:
        if as_method:
            fig, ax = ctx.sut(getattr(ds, "plot_" + which), **kw)
        else:
            fig, ax = ctx.sut(getattr(calk.plot, which), ds, **kw)
        ctx.expect("data unchanged", image(ds) == before, "the table was changed")
        ctx.expect("style of later figures unchanged", look() == style, "the plotting defaults were changed")
        ctx.expect("axes of the figure", ax in fig.axes, "the axes are not in the figure")
        n = len(ds)
        x = np.arange(n) if xvar is None else ds[xvar].to_numpy(dtype=float)
        col = "titrant_molinity_here" if which == "titrant_molinity" else "alkalinity_offset"
        y = ds[col].to_numpy(dtype=float)
        good = np.array([pd.notnull(g) and bool(g) for g in ds.reference_good]) if "reference_good" in ds else np.full(n, True)
        pts = drawn(ax)
        bad_pts = [p for p in pts if "bad" in str(p[4]).lower()]
        good_pts = [p for p in pts if "bad" not in str(p[4]).lower()]
        points(ctx, f"{which}: good points", good_pts, x[good], y[good])
        show_bad = kw.get("show_bad", True)
        points(ctx, f"{which}: bad points", bad_pts, x[~good] if show_bad else [], y[~good] if show_bad else [])
        ctx.expect("x label", (xvar or "number") in ax.get_xlabel(), ax.get_xlabel())
        yl = ax.get_ylabel().lower()
        batches = kw.get("show_batches", True)
        if which == "titrant_molinity":
            ctx.expect("y label", "molinity" in yl and "mol" in yl.split("/")[-1] and "mu" not in yl, yl)
            # the batch values
            lines = [np.column_stack([np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)]) for ln in ax.lines]
            want = []
            if batches:
                for b in pd.unique(ds.analysis_batch.dropna()):
                    m = (ds.analysis_batch == b).to_numpy()
                    want.append(np.column_stack([x[m], ds.titrant_molinity.to_numpy(dtype=float)[m]]))
            ctx.expect("batch lines", len(lines) == len(want), f"{len(lines)} lines for {len(want)} batches")
            key = lambda a: [(round(float(i), 9), float(np.nan_to_num(j, nan=-1))) for i, j in a]
            ctx.expect("batch values", sorted(map(key, lines)) == sorted(map(key, want)), "the batch lines differ from the batch molinities")
        else:
            ctx.expect("y label", "alkalinity" in yl and ("\\mu" in yl or "\u03bc" in yl or "\xb5" in yl), yl)
            ctx.expect("zero line", has_hline(ax, 0.0), "no line at zero")
            if batches and "analysis_batch" in ds:
                # points of one batch have one colour, other batches another
                c = [p for p in ax.collections if isinstance(p, PathCollection) and "bad" not in str(p.get_label()).lower()][0]
                arr = c.get_array()
                bat = ds.analysis_batch.to_numpy()[good]
                if arr is not None and len(arr) == len(bat):
                    arr = np.asarray(arr)
                    for b in pd.unique(ds.analysis_batch.dropna()):
                        v = arr[bat == b]
                        if v.size:
                            ctx.expect("batch colours", len(set(v)) == 1 and not np.any(np.isin(arr[bat != b], v)), f"batch {b}: {v}")
                else:
                    cols = [p[3] for p in good_pts]
                    for b in pd.unique(ds.analysis_batch.dropna()):
                        v = {cols[i] for i in np.flatnonzero(bat == b)}
                        ctx.expect("batch colours", len(v) <= 1, f"batch {b}: {v}")
        if other is not None:
            ctx.expect("its own figure", fig is not other and sum(len(a.lines) + len(a.collections) for a in other.axes) == n_other,
                       "drawn on a figure that was open before")
        ctx.expect("the figure saved", all(f is fig and q == str(fname) for f, q in saved), "another figure or file was saved")
        if fname:
            ctx.expect("saved", os.path.exists(fname) and os.path.getsize(fname) > 500, f"{fname} was not written")
            with open(fname, "rb") as f:
                head = f.read(300)
            ok = {"g": b"PNG", "f": b"%PDF"}.get(fname[-1], b"<?xml") in head if not fname.endswith(".svg") else b"xml" in head
            ctx.expect("saved in the format asked for", ok, str(head[:20]))
            ctx.expect("only that file", sorted(f for f in os.listdir(ctx.tmp) if not f.endswith(".dat")) == [os.path.basename(fname)],
                       str(os.listdir(ctx.tmp)))
    finally:
        Figure.savefig = keep
        plt.close("all")
    ctx.state(which, kind, tuple(sorted((k, str(v)) for k, v in kw.items() if k != "figure_fname")), fname and fname[-3:], drop)


# --------------------------------------------------------------- titrations
_cache = []


def titration(ctx, modes=("emf", "emf", "pH", "pH_adjust", "pH_gran")):
    rng = ctx.rng
    mode = pick(rng, modes)
    t = Tit(rng, wild=pick(rng, [0, 0.3, 0.6]))
    meas = t.measurement(mode)
    if flip(rng, 0.7):
        meas = meas + (rng.normal(0, 0.3, meas.size) if mode == "emf" else rng.normal(0, 0.004, meas.size))
    p = ctx.path()
    t.write(p, meas)
    k = int(np.searchsorted(-t.pH, -t.pH_max))
    if flip(rng, 0.15) and t.tm.size - k > 6:
        # recorded from beyond the equivalence point: negative alkalinity
        write_plain(p, (t.amount - t.amount[k])[k:], meas[k:], t.T[k:])
    r = rowdict(t, p, mode, titrant_molinity=t.c)
    kw = {}
    w = [3.0, 4.0]
    if t.window_given:
        w = [t.pH_min, t.pH_max]
    way = pick(rng, ["row", "row", "argument", "missing"])
    if way == "argument":
        w = [float(w[0] + 0.05), float(w[1] - 0.02)]
        kw = {"pH_min": w[0], "pH_max": w[1]} if flip(rng) else {"pH_range": tuple(w)}
    elif way == "missing" and not t.window_given:
        r["pH_min"], r["pH_max"] = nan, nan
    tt = ctx.sut(calk.Titration, pd.Series(r), **kw)
    return t, mode, tt, w


def axes(ctx):
    """New axes, or axes of ours with something else beside."""
    if flip(ctx.rng):
        return None, None
    fig, axs = plt.subplots(1, 2)
    axs[1].plot([0, 1], [0, 1])
    plt.sca(axs[1])  # the current axes are not the ones given
    return axs[0], axs[1]


METHODS = {"emf": "plot_emf", "pH": "plot_pH", "gran_emf0": "plot_emf0_gran", "gran_alkalinity": "plot_alkalinity_gran",
           "alkalinity": "plot_alkalinity", "components": "plot_components"}


def one_plot(ctx, t, mode, tt, w, which):
    rng = ctx.rng
    df = tt.titration
    x = df.titrant_mass.to_numpy(dtype=float) * 1e3
    used = df.used.to_numpy(dtype=bool)
    plt.close("all")
    ax0, other = axes(ctx)
    kw = {}
    if which == "pH" and flip(rng, 0.4):
        kw["show_gran"] = flip(rng)
    if which == "components" and flip(rng, 0.6):
        kw["log_scale"] = flip(rng)
    if ax0 is not None:
        kw["ax"] = ax0
    before = image(df), [repr(v) for v in tt.row], [str(i) for i in tt.row.index]
    figs = len(plt.get_fignums())
    fn = getattr(tt, METHODS[which]) if flip(rng) else lambda **k: getattr(tplot, which)(tt, **k)
    if getattr(fn, "__name__", "") == "<lambda>":
        fn.__name__ = which
    style = look()
    ax = ctx.sut(fn, **kw)
    try:
        ctx.expect("style of later figures unchanged", look() == style, "the plotting defaults were changed")
        ctx.expect("data unchanged", (image(df), [repr(v) for v in tt.row], [str(i) for i in tt.row.index]) == before, "the titration changed")
        if ax0 is not None:
            ctx.expect("axes as given", ax is ax0, "other axes were returned")
            ctx.expect("no other figure", len(plt.get_fignums()) == figs, "a figure was opened")
            ctx.expect("other axes untouched", len(other.lines) == 1 and not other.collections and not other.texts and not other.get_xlabel(),
                       "the other axes were drawn on")
        pts = drawn(ax)
        ctx.expect("x label", "titrant mass" in ax.get_xlabel().lower() and ax.get_xlabel().rstrip().endswith("g")
                   and not ax.get_xlabel().rstrip().endswith("kg"), ax.get_xlabel())
        yl = ax.get_ylabel()
        if which == "emf":
            points(ctx, "EMF plot", pts, x, df.emf)
            ctx.expect("EMF label", "mV" in yl, yl)
        elif which == "pH":
            gran = [p for p in pts if "guess" in str(p[4]).lower()]
            final = [p for p in pts if "guess" not in str(p[4]).lower()]
            points(ctx, "pH plot, used", [p for p in final if p[2]], x[used], df.pH[used])
            points(ctx, "pH plot, unused", [p for p in final if not p[2]], x[~used], df.pH[~used])
            for p in final:
                ctx.expect("legend tells used from unused", ("unused" in p[4].lower()) != p[2], p[4])
            if kw.get("show_gran", True) and "gran_pH" in df:
                gu = df.gran_used.to_numpy(dtype=bool)
                points(ctx, "pH plot, first guess used", [p for p in gran if p[2]], x[gu], df.gran_pH[gu])
                points(ctx, "pH plot, first guess unused", [p for p in gran if not p[2]], x[~gu], df.gran_pH[~gu])
            else:
                ctx.expect("no first guess", not gran, f"{len(gran)} points")
            bands = [c for c in ax.collections if not isinstance(c, PathCollection)]
            ctx.expect("one band", len(bands) == 1, f"{len(bands)} bands")
            v = np.vstack([q.vertices for q in bands[0].get_paths()])
            ctx.close("target range", [np.min(v[:, 1]), np.max(v[:, 1])], w, atol=1e-9)
            ctx.expect("pH label", "pH" in yl, yl)
        elif which in ("gran_emf0", "gran_alkalinity"):
            gu = df.gran_used.to_numpy(dtype=bool)
            y = df.gran_emf0 if which == "gran_emf0" else df.gran_func
            points(ctx, which + ", used", [p for p in pts if p[2]], x[gu], y[gu])
            points(ctx, which + ", unused", [p for p in pts if not p[2]], x[~gu], y[~gu])
            for p in pts:
                ctx.expect("legend tells used from unused", ("unused" in p[4].lower()) != p[2], p[4])
            nums = numbers(ax.get_title().replace("EMF\xb0", "EMF"))
            if which == "gran_emf0":
                ctx.expect("line at the result", has_hline(ax, float(tt.gran_emf0)), "no line at the Gran EMF0")
                ctx.close("title", nums[0], float(tt.gran_emf0), atol=0.00501)
                ctx.expect("EMF0 label", "mV" in yl, yl)
            else:
                res = float(tt.gran_alkalinity) if mode in ("emf", "pH_adjust") else float(tt.alkalinity)
                ctx.close("title", nums[0], res, atol=0.0501)
                s, i = np.polyfit(x[gu], y[gu].to_numpy(dtype=float), 1)
                ctx.expect("line at the end point", has_vline(ax, -i / s, 1e-5), f"no line at {-i / s}")
                fit = [ln for ln in ax.lines if np.size(ln.get_xdata()) >= 2 and np.ptp(np.asarray(ln.get_xdata(), dtype=float)) > 0
                       and np.ptp(np.asarray(ln.get_ydata(), dtype=float)) > 0 and ln.get_transform() == ax.transData]
                ctx.expect("one fitted line", len(fit) == 1, f"{len(fit)} sloping lines")
                fx, fy = np.asarray(fit[0].get_xdata(), dtype=float), np.asarray(fit[0].get_ydata(), dtype=float)
                ctx.close("fitted line", fy, s * fx + i, atol=1e-5 * abs(s) * np.max(x))
                # the end point is the alkalinity in the title
                ctx.close("end point is the result", -i / s * 1e-3 * t.c * t.norm / float(tt.analyte_mass) * 1e6, res, rtol=1e-5)
        elif which == "alkalinity":
            y = df.alkalinity_estimate.to_numpy(dtype=float) * 1e6
            points(ctx, "alkalinity, used", [p for p in pts if p[2]], x[used], y[used])
            points(ctx, "alkalinity, unused", [p for p in pts if not p[2]], x[~used], y[~used])
            for p in pts:
                ctx.expect("legend tells used from unused", ("unused" in p[4].lower()) != p[2], p[4])
            ctx.expect("line at the result", has_hline(ax, float(tt.alkalinity)), "no line at the alkalinity")
            nums = numbers(ax.get_title().split("/kg")[0]) + numbers(ax.get_title().split("n")[-1])
            ctx.close("title: alkalinity", nums[0], float(tt.alkalinity), atol=0.0501)
            sd = float(tt.alkalinity_std) if mode != "pH_gran" else float(np.std(y[used]))
            ctx.close("title: standard deviation", nums[1], sd, atol=0.0502)
            ctx.expect("title: number of points", nums[-1] == used.sum(), ax.get_title())
        else:
            log = kw.get("log_scale", True)
            seen = 0
            groups = {}
            mult = {"CO3": 2, "PO4": 2, "H": -1, "HSO4": -1, "HF": -1, "H3PO4": -1}
            rest = list(pts)
            for var in ("alkalinity_estimate", "HCO3", "CO3", "BOH4", "PO4", "HPO4", "H3PO4", "HSO4", "HF", "H3SiO4", "NH3", "HS", "H",
                        "OH", "alk_alpha", "alk_beta"):
                v = df[var].to_numpy(dtype=float)
                if not (v > 0).all():
                    continue
                m = mult.get(var, 1)
                y = -np.log10(v * abs(m)) if log else v * m * 1e6
                for u in (True, False):
                    for a, b in zip(x[used == u], y[used == u]):
                        groups.setdefault(u, []).append((a, b))
                seen += 1
            for u in (True, False):
                g = groups.get(u, [])
                points(ctx, f"components, {'used' if u else 'unused'}", [p for p in rest if p[2] == u],
                       [a for a, b in g], [b for a, b in g], rtol=1e-8)
            ctx.event("components compared", seen)
            ctx.expect("components label", ("mol" in yl) and (("p(" in yl) == log), yl)
            # the curves pass through the points they belong to
            dup = len(set(x)) < len(x)
            if not dup and not log:
                curves = [ln for ln in ax.lines if np.size(ln.get_xdata()) > 50]
                ctx.expect("one curve for each component", len(curves) == seen, f"{len(curves)} curves, {seen} components")
    finally:
        plt.close("all")
    ctx.state(which, mode, tuple(sorted((k, str(v)) for k, v in kw.items() if k != "ax")), ax0 is None)


def titrations(ctx):
    rng = ctx.rng
    t, mode, tt, w = titration(ctx)
    ctx.note(mode=mode, band=w, **t.summary())
    can = ["pH", "alkalinity", "components"]
    if mode in ("emf", "pH_adjust"):
        can += ["emf", "gran_emf0", "gran_alkalinity"]
    if mode == "pH_gran":
        can += ["gran_alkalinity"]
    for which in can:
        one_plot(ctx, t, mode, tt, w, which)


def repeats(ctx):
    """Several points at the same titrant amount: each is drawn."""
    rng = ctx.rng
    t = Tit(rng, wild=0)
    i = np.sort(np.concatenate([np.arange(t.tm.size), rng.integers(0, t.tm.size, 4)]))
    p = ctx.path()
    write_plain(p, t.amount[i], t.emf[i] + rng.normal(0, 0.1, i.size), t.T[i])
    tt = ctx.sut(calk.Titration, pd.Series(rowdict(t, p, "emf", titrant_molinity=t.c)))
    for which in ("components", "alkalinity", "pH"):
        one_plot(ctx, t, "emf", tt, [t.pH_min, t.pH_max] if t.window_given else [3.0, 4.0], which)


def loss_plots(ctx):
    t, mode, tt, w = titration(ctx, modes=("emf",))
    for which in ("dic_loss", "fCO2_loss"):
        plt.close("all")
        r, e = ctx.sut_raises(getattr(tplot, which), tt)
        plt.close("all")
        ctx.known("KF-LOSSPLOTS", isinstance(e, AttributeError), "loss plots", f"plot.titration.{which} raised {e!r}")
        ctx.expect("refused, not wrong", e is None or isinstance(e, AttributeError), f"{which} raised {e!r}")
    ctx.state("loss plots", e is None)


SCENARIOS = [
    ("tables", tables, 150, 6000),
    ("titrations", titrations, 44, 2500),
    ("repeats", repeats, 8, 400),
    ("loss_plots", loss_plots, 2, 4),
]
