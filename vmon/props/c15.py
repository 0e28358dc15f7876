from ..common import *
from . import formats as F
import pathlib

RULE = ("random series (lengths, signs, magnitudes, repeats) written with write_dat in random number formats and read back; "
        "random plain, PC-LIMS, Tiamo and Excel files built from text whose values are known, read with every option; "
        "every value is compared exactly; a state is (format, options, digits, line ends)")

titrations = calk.read.titrations


def exact(ctx, check, got, want, names=("titrant_amount", "measurement", "temperature"), fields=True):
    ctx.expect(check + ": parts", len(got) == len(want), f"{len(got)} parts instead of {len(want)}")
    for i, n in enumerate(names):
        g = getattr(got, n) if fields else got[i]
        ctx.expect(check + ": length", np.shape(g) == np.shape(want[i]), f"{n} has shape {np.shape(g)} instead of {np.shape(want[i])}")
        ctx.same(check, np.asarray(g, dtype=float), want[i], part=n)
        # tuple access gives the same
        ctx.same(check + " (by position)", np.asarray(got[i], dtype=float), want[i], part=n)


FMT = [".3f", ".0f", ".1f", ".6f", ".10f", ".8e", ".4g", ".15g", "+.3f", "12.5f", ".2E"]


def wild_series(rng):
    n = int(rng.integers(2, 60)) if flip(rng, 0.96) else int(rng.integers(200, 2500))
    a, m, T = F.series(rng, n)
    k = pick(rng, ["real", "real", "signs", "tiny", "huge", "repeat", "nan", "down"])
    if k == "signs":
        a, m, T = (rng.normal(0, 300, n) for _ in range(3))
    elif k == "tiny":
        a, m, T = (x * 1e-4 for x in (a, m, T))
    elif k == "huge":
        m = m * 1e6
    elif k == "repeat":
        a[:] = a[0]
        m = np.round(m)
    elif k == "nan":
        m[rng.integers(n)] = nan
        T[rng.integers(n)] = nan
    elif k == "down":
        a = a[::-1].copy()
    return k, a, m, T


def round_trip(ctx):
    rng = ctx.rng
    k, a, m, T = wild_series(rng)
    p = ctx.path(pick(rng, [".dat", ".txt", "", " with space.dat"]))
    kw = {}
    fmt = {}
    for c in ("titrant_amount", "measurement", "temperature"):
        fmt[c] = ".3f"
        if flip(rng, 0.6):
            fmt[c] = kw[c + "_fmt"] = pick(rng, FMT)
    if flip(rng, 0.3):
        kw["line0"] = pick(rng, ["", "x", "7\t8\t9", "1.0\t2.0\t3.0", "# comment", "Gran.1"])
    if flip(rng, 0.3):
        kw["line1"] = pick(rng, ["", "ml\tmV\tdeg", "1\t2\t3", "#"])
    if flip(rng, 0.3):
        kw["encoding"] = pick(rng, ["utf-8", "latin-1"])
    if flip(rng, 0.2):
        kw["newline"] = "\r\n"
    if flip(rng, 0.2):
        kw["mode"] = pick(rng, ["w", "x", "wt"])
    ctx.note(kind=k, n=len(a), options=kw)
    form = pick(rng, ["array", "list", "series"])
    conv = {"array": lambda x: x.copy(), "list": list,
            "series": lambda x: pd.Series(x, index=range(5, 5 + len(x)))}[form]
    args = [conv(x) for x in (a, m, T)]
    if flip(rng, 0.2):
        p = pathlib.Path(p)
    ctx.sut(calk.write_dat, p, *args, **kw)
    for x, o, n in zip(args, (a, m, T), "amT"):
        ctx.same("given data untouched", np.asarray(x, dtype=float), o, part=n)
    want = [np.array([float(format(float(x), f)) for x in v]) for v, f in zip((a, m, T), fmt.values())]
    got = ctx.sut(calk.read_dat, p, **({"encoding": kw["encoding"]} if "encoding" in kw else {}))
    exact(ctx, "read back", got, want)
    got2 = ctx.sut(calk.read_dat, p, file_type="vindta")
    exact(ctx, "read back as vindta", got2, want)
    # the file: two header lines as given, then one line for every point
    with open(p, newline="") as f:
        lines = f.read().splitlines()
    ctx.expect("lines", len(lines) == len(a) + 2, f"{len(lines)} lines for {len(a)} points")
    ctx.expect("first header line", "line0" not in kw or lines[0] == kw["line0"], f"{lines[0]!r}")
    ctx.expect("second header line", "line1" not in kw or lines[1] == kw["line1"], f"{lines[1]!r}")
    for line, w in zip(lines[2:], zip(*want)):
        v = [float(x) for x in line.split("\t")]
        ctx.expect("line", len(v) == 3 and all(x == y or (x != x and y != y) for x, y in zip(v, w)), f"{line!r} for {w}")
    # default precision: no value moved by more than half a unit of the third decimal
    for g, o, c in zip(got, (a, m, T), fmt):
        if fmt[c] == ".3f":
            with np.errstate(all="ignore"):
                ctx.expect("written precision", np.all((np.abs(g - o) <= 0.5001e-3 + np.abs(o) * 1e-15) | np.isnan(o)), c)
    ctx.state("write", k, tuple(fmt.values()), form, kw.get("newline"))


def overwrite(ctx):
    """Writing where there is a file already."""
    rng = ctx.rng
    _, a, m, T = wild_series(rng)
    p = ctx.path()
    kind = pick(rng, ["ours", "other", "empty", "dir"])
    if kind == "ours":
        ctx.sut(calk.write_dat, p, a, m, T)
    elif kind == "dir":
        os.mkdir(p)
    else:
        with open(p, "w") as f:
            f.write("" if kind == "empty" else "precious\n1\t2\t3\n")
    before = None if kind == "dir" else open(p, "rb").read()
    _, a2, m2, T2 = wild_series(rng)
    kw = pick(rng, [{}, {}, {"line0": "new"}, {"mode": "x"}])
    r, e = ctx.sut_raises(calk.write_dat, p, a2, m2, T2, **kw)
    ctx.expect("refused", e is not None, "an existing file was written to without being asked")
    ctx.expect("kept", os.path.isdir(p) if kind == "dir" else open(p, "rb").read() == before, "the existing file changed")
    if kind != "dir":
        ctx.sut(calk.write_dat, p, a2, m2, T2, mode="w", measurement_fmt=".9f")
        want = [np.array([float(format(float(x), f)) for x in v]) for v, f in zip((a2, m2, T2), (".3f", ".9f", ".3f"))]
        exact(ctx, "overwritten when asked", ctx.sut(calk.read_dat, p), want)
    others = sorted(os.listdir(os.path.dirname(p)))
    ctx.expect("only that file", others == [os.path.basename(p)], str(others))
    ctx.state("overwrite", kind, sorted(kw))


def plain_number(rng, x):
    s = pick(rng, ["{:.3f}", "{:.6f}", "{:.4e}", "{:g}", "{:+.2f}", "{:.0f}", "{!r}"]).format(float(x))
    return s, float(s)


HEAD = ["Sample 12", "date\t12/12/2020", "ml\tmV\tC", "1\t2\t3", "# remark", "", "a,b,c", "1 2 3", "temperature;volume", "1\t2\t3\t4\t5\t6\t7\t8"]


def plain(ctx):
    """Delimited text with any columns, delimiter and header."""
    rng = ctx.rng
    _, a, m, T = wild_series(rng)
    n = len(a)
    ncols = int(rng.integers(3, 9))
    cols = [int(c) for c in rng.permutation(ncols)[:3]] if flip(rng, 0.7) else [0, 1, 2]
    delim = pick(rng, ["\t", "\t", ",", ";", " ", None, "|"])
    nhead = int(pick(rng, [2, 2, 0, 1, 3, 7, 20]))
    foot = int(pick(rng, [0, 0, 0, 1, 4]))
    p = ctx.path()
    gaps = delim in ("\t", ",", ";", "|") and flip(rng, 0.2)
    want = [np.empty(n) for _ in range(3)]
    nl = pick(rng, ["\n", "\r\n"])
    with open(p, "w", newline=nl) as f:
        for _ in range(nhead):
            f.write(pick(rng, HEAD) + "\n")
        for i in range(n):
            cells = [plain_number(rng, rng.normal(0, 100))[0] for _ in range(ncols)]
            if flip(rng, 0.2) and delim not in (" ", None):
                spare = [c for c in range(ncols) if c not in cols]
                if spare:
                    cells[pick(rng, spare)] = pick(rng, ["text", "", "12:30:01"])
            for j, (c, x) in enumerate(zip(cols, (a[i], m[i], T[i]))):
                cells[c], want[j][i] = plain_number(rng, x)
                if gaps and flip(rng, 0.05):
                    cells[c], want[j][i] = "", nan
            sep = pick(rng, ["  ", " ", "\t"]) if delim is None else delim
            f.write(sep.join(cells) + "\n")
        if not foot and flip(rng, 0.3):  # blank lines at the end are no data
            f.write("\n" * int(rng.integers(1, 4)))
        for k in range(foot):
            f.write(delim.join(["0.5"] * ncols) + "\n" if delim else "1.0 " * ncols + "\n")
    kw = {}
    for k, c, d in zip(("col_titrant_amount", "col_measurement", "col_temperature"), cols, (0, 1, 2)):
        if c != d or flip(rng, 0.3):
            kw[k] = pick(rng, [c, c, float(c), np.int64(c), c - ncols])
            if isinstance(kw[k], float) and flip(rng, 0.5):
                kw[k] = int(kw[k])
    if delim != "\t" or flip(rng, 0.3):
        kw["delimiter"] = delim
    if nhead != 2 or flip(rng, 0.3):
        kw["skip_header"] = pick(rng, [nhead, float(nhead)])
    if foot:
        kw["skip_footer"] = foot
    if flip(rng, 0.2):
        kw["encoding"] = pick(rng, ["utf-8", "latin-1"])
    if flip(rng, 0.4):
        kw["file_type"] = pick(rng, ["genfromtxt", "vindta"])
    if not foot and flip(rng, 0.3):  # no line end after the last line
        with open(p, "rb") as f:
            b = f.read().rstrip(b"\r\n")
        with open(p, "wb") as f:
            f.write(b)
    if flip(rng, 0.2):
        p = pathlib.Path(p)
    ctx.note(columns=cols, n_columns=ncols, options=kw, n=n)
    got = ctx.sut(calk.read_dat, p, **kw)
    exact(ctx, "plain file", got, want)
    if "file_type" not in kw:
        ints = {k: int(v) if isinstance(v, float) else v for k, v in kw.items()}
        exact(ctx, "plain reader", ctx.sut(titrations.read_dat_genfromtxt, p, **ints), want)
    ctx.state("plain", delim, ncols, nhead, foot, gaps, nl, tuple(sorted(kw)))


def pclims(ctx):
    rng = ctx.rng
    p = ctx.path(pick(rng, [".txt", ".dat"]))
    kw = {}
    n_cols, cols = 6, (1, 2, 5)
    if flip(rng, 0.5):
        n_cols = int(rng.integers(4, 11))
        cols = tuple(int(c) + 1 for c in rng.permutation(n_cols - 1)[:3])
        kw = dict(zip(("col_titrant_amount", "col_measurement", "col_temperature"), cols))
        if n_cols != 6 or flip(rng):
            kw["n_cols"] = pick(rng, [n_cols, float(n_cols)])
        else:
            kw.pop("n_cols", None)
    want = F.write_pclims(rng, p, n_cols, cols)
    ctx.note(columns=cols, n_columns=n_cols, n=len(want[0]))
    got = ctx.sut(calk.read_dat, p, file_type="pclims", **kw)
    exact(ctx, "PC-LIMS report", got, want)
    ints = {k: int(v) for k, v in kw.items()}
    exact(ctx, "PC-LIMS reader", ctx.sut(titrations.read_dat_pclims, p, **ints), want)
    # a missing value must not make the points after it disappear silently
    n = int(rng.integers(4, 20))
    want = F.write_pclims(rng, p, n_cols, cols, n=n, blank=int(rng.integers(1, n)))
    got, e = ctx.sut_raises(calk.read_dat, p, file_type="pclims", **kw)
    ctx.expect("PC-LIMS gap", e is not None or len(got[0]) == n,
               f"{0 if got is None else len(got[0])} of {n} points read from a report with a missing value")
    ctx.state("pclims", n_cols, cols, np.any(want[1] < 0), np.any(want[2] < 0), len(want[0]) % 7)


def tiamo(ctx):
    rng = ctx.rng
    p = ctx.path(pick(rng, [".txt", ".csv", ".dat"]))
    want = F.write_tiamo(rng, p, blank=int(rng.integers(1, 4)) if flip(rng, 0.15) else None)
    kw = pick(rng, [{}, {}, {"encoding": "latin-1"}, {"encoding": "unicode_escape"}])
    ctx.note(n=len(want[0]), start=want[0][0])
    for check, fn, k in (("Tiamo file", calk.read_dat, dict(kw, file_type="tiamo_de")), ("Tiamo reader", titrations.read_tiamo_de, kw)):
        got = ctx.sut(fn, p, **k)
        for i, n in enumerate(("titrant_amount", "measurement", "temperature")):
            # pandas reads decimal text to within one unit in the last place
            ctx.expect(check + ": length", np.shape(got[i]) == want[i].shape, f"{np.shape(got[i])}")
            ctx.close(check, np.asarray(getattr(got, n), dtype=float), want[i], atol=1e-15, rtol=1e-15 * 4, part=n)
    ctx.state("tiamo", sorted(kw.values()), np.any(want[2] < 0), len(want[0]) % 7)


def excel(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 30))
    d = dict(acid=np.round(np.cumsum(rng.uniform(0, 0.3, n)), 5), base=np.round(np.cumsum(rng.uniform(0, 0.3, n)), 5),
             emf=np.round(rng.normal(0, 300, n), 3), temperature=np.round(rng.normal(5, 20, n), 3))
    for c in d:
        if flip(rng, 0.2):
            d[c][rng.integers(n)] = nan
    df = pd.DataFrame(d)
    for k in range(int(rng.integers(0, 3))):
        df[f"extra{k}"] = rng.normal(0, 1, n)
    df = df[[df.columns[i] for i in rng.permutation(df.shape[1])]]
    p = ctx.path(".xlsx")
    with pd.ExcelWriter(p) as w:
        df.to_excel(w, startrow=1, index=False)
        w.sheets["Sheet1"].cell(1, 1).value = pick(rng, ["Sample 12", "acid", 7.5, None])
    got = ctx.sut(calk.read_dat, p, file_type="orgalk_excel")
    ctx.expect("Excel: parts", len(got) == 4, f"{len(got)} parts")
    for i, c in enumerate(("acid", "base", "emf", "temperature")):
        ctx.same("Excel file", np.asarray(got[i], dtype=float), d[c], part=c)
    ctx.state("excel", df.shape[1], n % 5)


def scale(ctx):
    """A titration that is solved from a written file is the one that was
    written: reading is the identity on the solver's input."""
    rng = ctx.rng
    t = Tit(rng, wild=0.3)
    p = ctx.path()
    ctx.sut(calk.write_dat, p, t.amount, t.emf, t.T, titrant_amount_fmt=".17g", measurement_fmt=".17g", temperature_fmt=".17g")
    exact(ctx, "full precision", ctx.sut(calk.read_dat, p), (t.amount, t.emf, t.T))
    ctx.state("full precision", len(t.amount))


SCENARIOS = [
    ("round_trip", round_trip, 250, 20000),
    ("overwrite", overwrite, 60, 4000),
    ("plain", plain, 300, 25000),
    ("pclims", pclims, 200, 18000),
    ("tiamo", tiamo, 150, 12000),
    ("excel", excel, 40, 2500),
    ("full_precision", scale, 30, 2000),
]
