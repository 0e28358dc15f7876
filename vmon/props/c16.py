import io

from ..common import *
from . import formats as F

RULE = ("random tables (any column types, gaps, text, index columns) written as CSV, Excel, fixed-width and delimited text and "
        "read with random options, compared cell for cell with pandas; random VINDTA databases (run types, bottle names, "
        "blanks, missing dates, options) compared with what the file says; a state is (format, options, kinds of rows)")


def table(rng):
    n = int(rng.integers(1, 15))
    cols = {"file_name": [f"s{i:03d}.dat" for i in range(n)], "salinity": np.round(rng.uniform(0, 40, n), 3)}
    for k in range(int(rng.integers(0, 6))):
        name = pick(rng, ["dic", "analyte_volume", "titrant_molinity", "comment", "bottle", "analysis_batch", "good one", "x.y",
                          "salinity.1", "\xb5mol", " led", "trailed ", "Salinity", "file_good"])
        kind = pick(rng, ["float", "int", "text", "gap", "bool", "zeros", "all missing"])
        if kind == "float":
            v = rng.normal(0, 10.0 ** rng.integers(-6, 7), n)
        elif kind == "int":
            v = rng.integers(-10, 5000, n)
        elif kind == "text":
            v = [pick(rng, ["ab", "red (1)", "x_y", "OK?", "None such", " led", "trailed ", "NA", "n/a", "#4", "a,b", '"q"', "1 000"]) for _ in range(n)]
        elif kind == "gap":
            v = np.where(rng.random(n) < 0.4, nan, rng.uniform(0, 1e3, n))
        elif kind == "bool":
            v = rng.random(n) < 0.5
        elif kind == "zeros":
            v = [f"{i:04d}" for i in rng.integers(0, 99, n)]
        else:
            v = np.full(n, nan)
        cols[name] = v
    df = pd.DataFrame(cols)
    if n > 2 and flip(rng, 0.25):  # an empty line in the table
        df = df.astype(object)
        df.iloc[int(rng.integers(n))] = nan
    if n > 2 and flip(rng, 0.2):  # a line given twice
        df = pd.concat([df, df.iloc[[int(rng.integers(n))]]], ignore_index=True)
    return df[[df.columns[i] for i in rng.permutation(df.shape[1])]]


def same_table(ctx, check, got, want):
    ctx.expect(check + ": kind", isinstance(got, calk.Dataset), f"{type(got)} is not a package table")
    for m in ("calibrate", "solve", "calkulate", "to_Titration", "to_pandas", "plot_titrant_molinity", "plot_alkalinity_offset"):
        ctx.expect(check + ": methods", callable(getattr(got, m, None)), f"the table has no {m}")
    ctx.expect(check + ": columns", list(got.columns) == list(want.columns), f"{list(got.columns)} / {list(want.columns)}")
    ctx.expect(check + ": rows", got.shape == want.shape, f"{got.shape} / {want.shape}")
    ctx.expect(check + ": index", got.index.equals(want.index) and got.index.name == want.index.name, f"{got.index} / {want.index}")
    for i, c in enumerate(want.columns):
        g, w = got.iloc[:, i], want.iloc[:, i]
        ctx.expect(check + ": types", g.dtype == w.dtype, f"column {c} is {g.dtype}, not {w.dtype}")
        ok = [(x is y) or x == y or (pd.isna(x) and pd.isna(y)) for x, y in zip(g, w)]
        ctx.expect(check + ": values", all(ok), f"column {c}: {list(g)[:4]} / {list(w)[:4]}")
    ctx.event("cells compared", int(want.size))
    back = ctx.sut(got.to_pandas)
    ctx.expect(check + ": to_pandas", type(back) is pd.DataFrame and back.equals(pd.DataFrame(want)), "to_pandas differs")
    if len(want) and want.shape[1]:
        back["added"] = 1
        i = next((i for i in range(want.shape[1]) if want.iloc[:, i].dtype.kind == "f"), None)
        if i is not None:
            back.iloc[0, i] = -12345.5
            ctx.expect(check + ": to_pandas is a copy", got.iloc[0, i] != -12345.5, "changing the copy changed the table")
        ctx.expect(check + ": to_pandas is a copy", "added" not in got, "changing the copy changed the table")


def text(ctx):
    rng = ctx.rng
    df = table(rng)
    p = ctx.path(".csv")
    fmt = pick(rng, ["csv", "csv", "table", "table", "fwf"])
    kw = {}
    if fmt == "fwf":
        small = df[[c for c in df if " " not in c]]
        with open(p, "w", encoding="utf-8") as f:
            f.write(small.map(lambda x: str(x).replace(" ", "_")).to_string(index=False) + "\n")
        if flip(rng, 0.3):
            kw["infer_nrows"] = 200
        if flip(rng, 0.3):
            kw["dtype"] = str
    else:
        sep = pick(rng, [",", ";", "\t"])
        if flip(rng, 0.2):
            with open(p, "w", encoding="utf-8") as f:
                f.write("a remark\n")
            kw["skiprows"] = 1
        df.to_csv(p, sep=sep, index=flip(rng, 0.3), mode="a", encoding="utf-8")
        if sep != {"csv": ",", "table": "\t"}[fmt] or flip(rng, 0.2):
            kw[pick(rng, ["sep", "delimiter"])] = sep
        if flip(rng, 0.2):
            kw["nrows"] = int(rng.integers(0, 6))
        if flip(rng, 0.2):
            kw["dtype"] = {"file_name": str, "salinity": float}
        if flip(rng, 0.2):
            kw["index_col"] = pick(rng, [0, "file_name", ["file_name", "salinity"]])
        if flip(rng, 0.1):
            kw["na_values"] = ["ab", "OK?"]
        if flip(rng, 0.1):
            kw["keep_default_na"] = False
        if flip(rng, 0.1):
            kw["usecols"] = ["file_name", "salinity"]
            kw.pop("index_col", None)
    ours = {"csv": calk.read_csv, "table": calk.read_table, "fwf": calk.read_fwf}[fmt]
    theirs = {"csv": pd.read_csv, "table": pd.read_table, "fwf": pd.read_fwf}[fmt]
    ctx.note(format=fmt, options=kw, shape=df.shape)
    try:
        want = theirs(p, **kw)
    except Exception:
        ctx.expect("both refuse", ctx.sut_raises(ours, p, **kw)[1] is not None, "read what pandas refuses")
        return
    src = p
    if flip(rng, 0.2):
        with open(p, encoding="utf-8") as f:
            src = io.StringIO(f.read())
    same_table(ctx, fmt, ctx.sut(ours, src, **kw), want)
    ctx.state(fmt, sorted(kw), len(want), want.shape[1])


def excel(ctx):
    rng = ctx.rng
    df = table(rng)
    p = ctx.path(".xlsx")
    kw = {}
    with pd.ExcelWriter(p) as w:
        df.to_excel(w, sheet_name="one", index=False)
        df.iloc[::-1].to_excel(w, sheet_name="two", startrow=2)
    if flip(rng, 0.4):
        kw = dict(sheet_name=pick(rng, ["two", 1]), skiprows=2, index_col=pick(rng, [0, None]))
    elif flip(rng, 0.4):
        kw = dict(usecols="A:B")
    ctx.note(options=kw)
    same_table(ctx, "excel", ctx.sut(calk.read_excel, p, **kw), pd.read_excel(p, **kw))
    ctx.state("excel", sorted(kw), df.shape)


def clipboard(ctx):
    """The clipboard is replaced by a stand-in with known text."""
    import pandas.io.clipboard as cb

    rng = ctx.rng
    df = table(rng)
    s = df.to_csv(sep="\t", index=False)
    old = cb.clipboard_get
    cb.clipboard_get = lambda: s
    try:
        kw = pick(rng, [{}, {"sep": "\t"}, {"dtype": str}])
        try:
            want = pd.read_clipboard(**kw)
        except Exception:
            want = None
        if want is None:
            ctx.expect("both refuse", ctx.sut_raises(calk.read_clipboard, **kw)[1] is not None, "read what pandas refuses")
        else:
            same_table(ctx, "clipboard", ctx.sut(calk.read_clipboard, **kw), want)
    finally:
        cb.clipboard_get = old
    ctx.state("clipboard", sorted(kw), df.shape)


def expected_name(r, fmt):
    if r["run type"] == "bottle":
        return fmt.format(s=int(r["station"]), c=int(r["cast"]), n=int(r["niskin"]), d=int(float(r["depth"])), b=r["bottle"])
    if r["run type"] == "CRM":
        return f"CRM{r['batch']}{r['bottle']}.dat"
    return ""


FORMATS = ["{s}-{c}  {n}  ({d}){b}.dat", "{s}-{c} {n} ({d}){b}.dat", "{b}.dat", "{s:03d}_{c}_{n}_{d}_{b}.txt", "st{s}/{b}-{n}.dat",
           "fixed.dat", "{d}{n}{c}{s}"]


def check_dbs(ctx, p, rows, kw, got):
    ctx.expect("dbs: kind", isinstance(got, calk.Dataset), f"{type(got)}")
    ctx.expect("dbs: rows", len(got) == len(rows), f"{len(got)} rows instead of {len(rows)}")
    ctx.expect("dbs: index", list(got.index) == list(range(len(rows))), f"{list(got.index)[:5]}")
    for c in rows[0]:
        if c == "file_good":
            continue
        name = "run_type" if c == "run type" else c
        ctx.expect("dbs: columns", name in got, f"no column {name}")
        for i, r in enumerate(rows):
            g = got[name].iloc[i]
            if r[c] == "":
                ctx.expect("dbs: blank cells", pd.isna(g), f"{name} in row {i} is {g!r}, not missing")
            elif c == "bottle":
                ctx.expect("dbs: bottle names", g == r[c], f"bottle {g!r} instead of {r[c]!r}")
            else:
                try:
                    w = float(r[c])
                    ok = float(g) == w
                except ValueError:
                    w, ok = r[c], g == r[c]
                ctx.expect("dbs: cells", ok, f"{name} in row {i} is {g!r}, not {w!r}")
    fmt = kw.get("filename_format", FORMATS[0])
    any_crm = any(r["run type"] == "CRM" for r in rows)
    if any_crm:
        ctx.expect("dbs: certified column", "alkalinity_certified" in got, "no certified values")
    for i, r in enumerate(rows):
        g = got.iloc[i]
        ctx.expect("dbs: file name", g.file_name == expected_name(r, fmt), f"{g.file_name!r} instead of {expected_name(r, fmt)!r}")
        good = r["run type"] in ("bottle", "CRM") and r.get("file_good", "True") == "True"
        ctx.expect("dbs: good flag", bool(g.file_good) == good, f"run type {r['run type']}: file_good {g.file_good}")
        if any_crm:
            w = float(r["cert. CRM AT"]) if r["run type"] == "CRM" and r["cert. CRM AT"] else nan
            ctx.same("dbs: certified alkalinity", float(g.alkalinity_certified), w, row=r)
        if r["date"] and r["time"]:
            mo, da, ye = r["date"].split("/")
            w = pd.Timestamp(f"20{ye}-{mo}-{da} {r['time']}")
            ctx.expect("dbs: date and time", pd.Timestamp(g.analysis_datetime) == w, f"{g.analysis_datetime} instead of {w}")
            num = (w - pd.Timestamp("1970-01-01")) / pd.Timedelta("1D")
            ctx.close("dbs: date number", float(g.analysis_datenum), num, atol=1e-6)
        else:
            ctx.expect("dbs: no date", pd.isna(g.analysis_datetime) and pd.isna(g.analysis_datenum), f"{g.analysis_datetime}")
        if kw.get("analyte_mass") is None:
            ctx.same("dbs: analyte volume", float(g.analyte_volume), kw.get("analyte_volume", 100.0))
        else:
            ctx.same("dbs: analyte mass", float(g.analyte_mass), kw["analyte_mass"])
        if "file_path" in kw and kw["file_path"] is not None:
            ctx.expect("dbs: file path", g.file_path == kw["file_path"], f"{g.file_path!r}")
        ctx.expect("dbs: source", g.dbs_fname == p, f"{g.dbs_fname!r}")
    if kw.get("analyte_mass") is not None:
        ctx.expect("dbs: mass replaces volume", "analyte_volume" not in got or got.analyte_volume.isna().all(), "volume also given")
    else:
        ctx.expect("dbs: volume only", "analyte_mass" not in got or got.analyte_mass.isna().all(), "mass also given")
    if kw.get("file_path") is None:
        ctx.expect("dbs: no file path", "file_path" not in got, "a file path appeared")


def dbs(ctx):
    rng = ctx.rng
    p = ctx.path(".dbs")
    kinds = pick(rng, [("bottle",), ("CRM",), ("bottle", "CRM"), ("bottle", "CRM", "junk", "test", "Bottle", "crm", "blank")])
    rows = F.write_dbs(rng, p, kinds=kinds, blanks=flip(rng, 0.6), layout=True)
    kw = {}
    if flip(rng, 0.3):
        kw["analyte_volume"] = float(np.round(rng.uniform(20, 300), 3))
    if flip(rng, 0.3):
        kw["analyte_mass"] = pick(rng, [0.1, 0.0987, 1.0, None])
    if flip(rng, 0.4):
        kw["file_path"] = pick(rng, ["data/", "/tmp/somewhere", "", None])
    if flip(rng, 0.4):
        kw["filename_format"] = pick(rng, FORMATS)
    with open(p, "rb") as f:
        before = f.read()
    ctx.note(kinds=kinds, options=kw, rows=len(rows))
    got = ctx.sut(calk.read_dbs, p, **kw)
    check_dbs(ctx, p, rows, kw, got)
    with open(p, "rb") as f:
        ctx.expect("dbs: file untouched", f.read() == before, "the database file was changed")
    ctx.state("dbs", kinds, sorted(kw), len(rows), any(not r["batch"] for r in rows), any(not r["bottle"] for r in rows))


def dbs_solve(ctx):
    """From the database to results: each titration is found and solved as
    its own, reference materials calibrate the others, other rows stay out."""
    rng = ctx.rng
    p = ctx.path(".dbs")
    rows = F.write_dbs(rng, p, n=int(rng.integers(2, 6)), kinds=("bottle", "CRM", "CRM", "junk"), blanks=False)
    names = [expected_name(r, FORMATS[0]) for r in rows]
    if len(set(n for n in names if n)) < len([n for n in names if n]):
        rows, names = rows[:1], names[:1]
        F_rows = ctx.path(".dbs")
        with open(p, newline="") as f:
            lines = f.read().splitlines()
        with open(F_rows, "w") as f:
            f.write("\n".join(lines[:2]) + "\n")
        p = F_rows
    d = os.path.join(ctx.tmp, "dats")
    os.makedirs(d)
    c = float(rng.uniform(0.09, 0.12))
    truth = []
    for r, n in zip(rows, names):
        t = Tit(rng, wild=0)
        p2 = os.path.join(d, n or f"junk{len(truth)}.dat")
        m = t.write(p2, t.emf + rng.normal(0, 0.1, t.tm.size))
        truth.append((t, m))
    got = ctx.sut(calk.read_dbs, p, file_path=d)
    got["titrant_molinity"] = c
    ctx.sut(got.solve, pH_range=(3, 4))
    for i, (r, n) in enumerate(zip(rows, names)):
        a = float(got.alkalinity.iloc[i])
        if not n:
            ctx.expect("other runs stay unsolved", np.isnan(a), f"run type {r['run type']} solved")
            continue
        one = ctx.sut(files.solve, os.path.join(d, n), c, float(r["salinity"]), analyte_volume=100.0, pH_min=3, pH_max=4)
        ctx.close("row from its own file", a, float(one.alkalinity), atol=1e-6)
    ctx.note(run_types=[r["run type"] for r in rows])
    ctx.state("dbs to results", tuple(sorted(r["run type"] for r in rows)))


SCENARIOS = [
    ("text", text, 300, 15000),
    ("excel", excel, 50, 2000),
    ("clipboard", clipboard, 50, 2500),
    ("dbs", dbs, 250, 12000),
    ("dbs_solve", dbs_solve, 40, 2000),
]
