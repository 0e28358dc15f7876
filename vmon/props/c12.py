import math

from ..common import *

RULE = ("random batch labels (integer, text, float, date, boolean, category, mixed; missing), flags (absent, "
        "boolean, integer, object, nullable, missing), failures and repeated calibrations; means, spread and count "
        "recomputed independently (exact sums) from the individual values; a state is (label kind, flag kind, number "
        "of batches, rows, history step)")


def _labels(rng, n):
    kind = pick(rng, ["int", "int-gap", "text", "float", "date", "bool", "category", "text", "mixed", "Int64", "neg"])
    nb = int(rng.integers(1, 5))
    pools = {
        "int": list(range(nb)), "int-gap": [7, 3, 1000, 4][:nb], "text": pick(rng, [["b", "A", "a", "10"], ["A", " A", "A ", "a"], ["1", "1.0", "01", "1 "]])[:nb],
        "float": [0.5, 1.5, -2.25, 1e9][:nb], "date": list(pd.to_datetime(["2020-02-01", "2019-01-01", "2021-05-05", "2020-02-02"])[:nb]),
        "bool": [True, False][:nb], "category": ["x", "y", "z", "w"][:nb], "tuple": [(1, 2), (2, 1), (1, 1), (0, 5)][:nb],
        "mixed": ["a", 1, 2.5, "1"][:nb], "Int64": [1, 2, 3, 4][:nb], "neg": [-1, 0, 1, -5][:nb]}
    pool = pools[kind]
    labels = [pick(rng, pool) for _ in range(n)]
    miss = kind not in ("int", "int-gap", "bool", "neg", "tuple", "category") and flip(rng, 0.35)
    if miss:
        labels = [None if flip(rng, 0.2) else x for x in labels]
    if kind == "date":
        col = pd.to_datetime(pd.Series(labels))
    elif kind == "category":
        col = pd.Series(pd.Categorical(labels, categories=pool + ["unused"]))
    elif kind == "Int64":
        col = pd.Series(pd.array(labels, dtype="Int64"))
    elif kind == "float":
        col = pd.Series([nan if x is None else x for x in labels], dtype=float)
    elif kind in ("text", "mixed", "tuple"):
        col = pd.Series(labels, dtype=object)
    else:
        col = pd.Series(labels)
    if kind == "category" and flip(rng):
        col = col.cat.remove_unused_categories()
    return kind + ("+missing" if miss else ""), labels, col


def _flags(rng, n):
    kind = pick(rng, ["none", "none", "bool", "bool", "int", "object", "object-missing", "boolean", "all-false", "float",
                      "float-missing"])
    f = [flip(rng, 0.7) for _ in range(n)]
    if kind == "all-false":
        f = [False] * n
    if kind == "none":
        return kind, None, None
    if kind in ("bool", "all-false"):
        return kind, f, pd.Series(f, dtype=bool)
    if kind == "int":
        return kind, f, pd.Series([int(x) for x in f])
    if kind == "float":
        return kind, f, pd.Series([float(x) for x in f])
    if kind == "float-missing":  # 0 and 1 in a file, nothing for samples
        g = [nan if flip(rng, 0.3) else float(x) for x in f]
        return kind, [x == 1 for x in g], pd.Series(g, dtype=float)
    if kind == "object":
        return kind, f, pd.Series(f, dtype=object)
    if kind == "boolean":
        g = [None if flip(rng, 0.2) else x for x in f]
        return kind, [bool(x) for x in g], pd.Series(pd.array(g, dtype="boolean"))
    g = [nan if flip(rng, 0.3) else x for x in f]
    return kind, [x is True for x in g], pd.Series(g, dtype=object)


def _expected(labels, here, flags):
    """{label: (mean, sample spread, count)} and the mean per row."""
    groups = {}
    for lab, h, f in zip(labels, here, flags):
        if lab is None:
            continue
        g = groups.setdefault(lab, [])
        if f and not math.isnan(h):
            g.append(h)
    stats = {}
    for lab, g in groups.items():
        n = len(g)
        m = math.fsum(g) / n if n else nan
        s = math.sqrt(math.fsum((x - m) ** 2 for x in g) / (n - 1)) if n > 1 else nan
        stats[lab] = (m, s, n)
    return stats, [nan if lab is None else stats[lab][0] for lab in labels]


def _index(rng, n):
    return pick(rng, [None, list(rng.permutation(n) * 3), [f"x{i}" for i in range(n)], [0] * n, list(rng.uniform(0, 1, n))])


def _check_stats(ctx, batches, stats):
    got = dict(zip(list(batches.index), range(len(batches))))
    for lab, (m, s, n) in stats.items():
        ctx.expect("batch listed", lab in got, f"batch {lab!r} is missing from {list(got)}")
        i = got[lab]
        ctx.close("mean", batches.titrant_molinity.iloc[i], m, 0, 1e-12, batch=str(lab))
        # spread of values that are all equal may differ in the last digits
        ctx.close("spread", batches.titrant_molinity__std.iloc[i], s, 1e-12 * (0 if math.isnan(m) else m), 1e-9, batch=str(lab))
        ctx.expect("count", batches.titrant_molinity__count.iloc[i] == n,
                   f"batch {lab!r}: {batches.titrant_molinity__count.iloc[i]} instead of {n}")
    for lab, i in got.items():
        if lab not in stats:
            ctx.expect("no invented batch", batches.titrant_molinity__count.iloc[i] == 0
                       or pd.isnull(batches.titrant_molinity__count.iloc[i]), f"batch {lab!r} does not exist")


def statistics(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 30))
    here = np.where(rng.random(n) < 0.3, nan, rng.uniform(0.05, 0.3, n))
    if flip(rng, 0.2):
        here = np.where(np.isnan(here), nan, 0.1)
    elif flip(rng, 0.3):
        here = np.where(np.isnan(here), nan, rng.choice(rng.uniform(0.05, 0.3, 3), n))  # equal values
    lk, labels, lcol = _labels(rng, n)
    fk, flags, fcol = _flags(rng, n)
    while fk == "none":
        fk, flags, fcol = _flags(rng, n)
    ds = pd.DataFrame(dict(titrant_molinity_here=here))
    ds["analysis_batch"] = lcol
    ds["reference_good"] = fcol
    ds["extra"] = "q"
    idx = _index(rng, n)
    if idx is not None:
        ds.index = idx
    if flip(rng):
        ds = calk.Dataset(ds)
    before = ds.copy()
    ctx.note(labels=labels, flags=flags, here=here)
    batches = ctx.sut(dataset.get_batches, ds)
    stats, _ = _expected(labels, here, flags)
    if stats:
        _check_stats(ctx, batches, stats)
    else:
        ctx.expect("no batches", len(batches) == 0, "batches invented", got=str(batches))
    ctx.expect("table untouched", before.equals(ds), "get_batches changed the table")
    ctx.state(lk, fk, len(stats), n > 10)


def calibrated(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    rows, modes = [], []
    # a few different files; each row is certified differently
    base = []
    for _ in range(min(n, 3)):
        t = Tit(rng, wild=pick(rng, [0, 0.3]))
        mode = pick(rng, ["pH", "pH", "pH_gran", "emf"])
        base.append((t, mode, t.write(ctx.path(), t.emf if mode == "emf" else t.pH)))
    for i in range(n):
        t, mode, p = pick(rng, base)
        r = rowdict(t, p, mode, alkalinity_certified=t.alk * float(rng.uniform(0.8, 1.25)),
                    titrant_molinity_init=t.c * float(rng.uniform(0.8, 1.2)))
        u = rng.random()
        if u < 0.25:
            r["alkalinity_certified"] = None
        elif u < 0.35:
            r["file_name"] = "missing.dat"
        if i and flip(rng, 0.15):  # the same reference listed twice
            j = int(rng.integers(i))
            r, mode = dict(rows[j]), modes[j]
        rows.append(r)
        modes.append(mode)
    for r in rows:
        if r["alkalinity_certified"] is None:
            r["alkalinity_certified"] = nan
    lk, labels, lcol = _labels(rng, n)
    if flip(rng, 0.15):
        lk, labels, lcol = "none", [0] * n, None
    fk, flags, fcol = _flags(rng, n)
    ds = frame(rng, rows)
    if lcol is not None:
        ds["analysis_batch"] = lcol
    if fcol is not None:
        ds["reference_good"] = fcol
    idx = _index(rng, n)
    if idx is not None:
        ds.index = idx
    klass = pick(rng, [None, calk.Dataset])
    if klass is not None:
        ds = klass(ds)
    ctx.note(labels=labels, flags=flags, certified=[r["alkalinity_certified"] for r in rows])
    steps = int(rng.integers(1, 4))
    for step in range(steps):
        if step:
            # the user changes something and calibrates again
            what = pick(rng, ["flags", "labels", "certified", "nothing"])
            if what == "flags":
                fk, flags, fcol = _flags(rng, n)
                while fcol is None:
                    fk, flags, fcol = _flags(rng, n)
                ds["reference_good"] = fcol.set_axis(ds.index) if ds.index.is_unique else fcol.to_numpy()
            elif what == "labels":
                lk, labels, lcol = _labels(rng, n)
                ds["analysis_batch"] = lcol.set_axis(ds.index) if ds.index.is_unique else lcol.to_list()
                if not ds.index.is_unique:
                    # the list may have lost its type; labels compare equal still
                    lk += "*"
            elif what == "certified":
                i = int(rng.integers(n))
                c = ds.alkalinity_certified.to_numpy(copy=True)
                c[i] = nan if flip(rng) else 2000.0
                ds["alkalinity_certified"] = c
        had_flags = "reference_good" in ds
        shown = None
        if had_flags:
            shown = [pd.notnull(x) and bool(x) for x in ds.reference_good]
        fn = pick(rng, ["calibrate", "calkulate"])
        out = ctx.sut(getattr(ds, fn)) if klass is not None and flip(rng) else ctx.sut(getattr(calk, fn), ds)
        here = out.titrant_molinity_here.to_numpy(dtype=float)
        use = shown if had_flags else [True] * n
        stats, want = _expected(labels, here, use)
        ctx.close("rows get their batch", out.titrant_molinity.to_numpy(dtype=float), want, 0, 1e-12, step=step)
        for i in range(n):
            ok = pd.notnull(out.alkalinity.iloc[i])
            ctx.expect("solved or not", not (math.isnan(want[i]) and ok),
                       f"row {i} has no molinity but alkalinity {out.alkalinity.iloc[i]!r}")
            bad = rows[i]["file_name"] == "missing.dat"
            ctx.expect("failed reference", not (bad and not math.isnan(here[i])), f"row {i}: {here[i]!r} from a missing file")
            none = math.isnan(out.alkalinity_certified.iloc[i])
            ctx.expect("no reference", not (none and not math.isnan(here[i])), f"row {i}: {here[i]!r} without certified value")
            if not bad and not none:
                ctx.expect("reference calibrated", not math.isnan(here[i]), f"row {i} was not calibrated")
            if not bad and not math.isnan(want[i]) and modes[i] in ("pH", "pH_gran"):
                ctx.expect("solved", ok, f"row {i} has a molinity but was not solved")
                if modes[i] == "pH_gran":
                    # Gran alkalinity is proportional to the molinity: which one was used shows
                    t = [b for b in base if b[2].endswith(rows[i]["file_name"])][0][0]
                    if not math.isnan(here[i]):
                        ctx.close("molinity used", out.alkalinity.iloc[i],
                                  out.alkalinity_certified.iloc[i] * want[i] / here[i], 0, 2e-5)
        b = ctx.sut(dataset.get_batches, out)
        if stats:
            _check_stats(ctx, b, stats)
        ctx.state(lk, fk, len(stats), n > 4, step, fn)


def no_cross_talk(ctx):
    """Changing one batch leaves all others exactly as they were."""
    rng = ctx.rng
    n = int(rng.integers(3, 25))
    here = np.where(rng.random(n) < 0.2, nan, rng.uniform(0.05, 0.3, n))
    labels = [pick(rng, ["a", "b", "c"]) for _ in range(n)]
    ds = pd.DataFrame(dict(analysis_batch=labels, titrant_molinity_here=here, reference_good=rng.random(n) < 0.8))
    b0 = ctx.sut(dataset.get_batches, ds)
    d2 = ds.copy()
    m = d2.analysis_batch == "b"
    d2.loc[m, "titrant_molinity_here"] = rng.uniform(1, 2, int(m.sum()))
    d2.loc[m, "reference_good"] = rng.random(int(m.sum())) < 0.5
    d2 = d2.iloc[rng.permutation(n)]
    b1 = ctx.sut(dataset.get_batches, d2)
    for lab in "ac":
        if lab in labels:
            for k in ("titrant_molinity", "titrant_molinity__std", "titrant_molinity__count"):
                ctx.close("other batch", b1.loc[lab, k], b0.loc[lab, k], 1e-13, 1e-9, batch=lab)
    ctx.state("cross", n > 10)


# table, file and object may differ in the last digits
ROUNDING = True

SCENARIOS = [
    ("statistics", statistics, 300, 20000),
    ("calibrated", calibrated, 80, 3500),
    ("no_cross_talk", no_cross_talk, 60, 4000),
]
