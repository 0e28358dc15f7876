import contextlib
import io
import sys
import warnings

from ..common import *

RULE = ("tables of good titrations (all modes) with bad ones put between them: file faults (missing, empty, cut off, "
        "garbled, directory, broken link, wrong format, faults injected at the n-th opening) and metadata faults; "
        "solved, calibrated and both, with and without results left from an earlier run; the good rows are compared "
        "with the table without the bad ones and an audit hook watches which files are opened; a state is (call, "
        "mode, fault, position)")
MODES = ["emf", "emf", "pH", "pH_adjust", "pH_gran"]

_hook = dict(on=False, installed=False, opened=[], fault=None, fired=0, last=None)


def _audit(event, args):
    if event != "open" or not _hook["on"]:
        return
    p = args[0]
    if not isinstance(p, str):
        return
    p = os.path.abspath(p)
    _hook["opened"].append(p)
    f = _hook["fault"]
    if f is not None and p == f["path"]:
        f["count"] += 1
        f["failed"] = f["count"] >= f["from"]
        if f["failed"]:
            f["fired"] += 1
            raise f["exc"]("injected fault")


@contextlib.contextmanager
def _watch(fault=None):
    if not _hook["installed"]:
        sys.addaudithook(_audit)
        _hook["installed"] = True
    _hook.update(on=True, opened=[], fault=fault)
    try:
        yield _hook
    finally:
        _hook.update(on=False, fault=None)


def _call(ctx, fn, ds, fault=None, **kw):
    """(table, everything said, files opened)"""
    buf = io.StringIO()
    with _watch(fault) as h, contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), \
            warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = ctx.sut(fn, ds, **kw)
        opened = list(h["opened"])
    return out, buf.getvalue() + "\n".join(str(x.message) for x in w), opened


# -- faults: each changes the row (and its file) so that it cannot be processed
def _path(r):
    return os.path.join(r["file_path"], r["file_name"])


def _rewrite(r, text=None, binary=None):
    os.remove(_path(r))
    if binary is not None:
        with open(_path(r), "wb") as f:
            f.write(binary)
    elif text is not None:
        with open(_path(r), "w") as f:
            f.write(text)


def f_missing(rng, r, mode):
    os.remove(_path(r))


def f_empty(rng, r, mode):
    _rewrite(r, "")


def f_header(rng, r, mode):
    _rewrite(r, "header\n" * int(rng.integers(1, 4)))


def f_one_line(rng, r, mode):
    with open(_path(r)) as f:
        lines = f.read().splitlines()
    _rewrite(r, "\n".join(lines[:3]) + pick(rng, ["", "\n"]))


def f_cut(rng, r, mode):
    """The file ends in the middle of a line."""
    with open(_path(r)) as f:
        lines = f.read().splitlines()
    n = int(rng.integers(4, len(lines)))
    _rewrite(r, "\n".join(lines[:n]) + "\n" + lines[n].rsplit("\t", 1)[0])


def f_text(rng, r, mode):
    _rewrite(r, "\n".join("".join(pick(rng, "abc xyz;,.\t") for _ in range(30)) for _ in range(int(rng.integers(1, 40)))))


def f_binary(rng, r, mode):
    _rewrite(r, binary=bytes(rng.integers(128, 256, 3000, dtype=np.uint8)))


def f_zeros(rng, r, mode):
    _rewrite(r, binary=bytes(4000))


def f_no_numbers(rng, r, mode):
    with open(_path(r)) as f:
        lines = f.read().splitlines()
    col = int(rng.integers(0, 2))
    out = lines[:2]
    for x in lines[2:]:
        c = x.split("\t")
        c[col] = pick(rng, ["n/a", "overload", "nan", ""])
        out.append("\t".join(c))
    _rewrite(r, "\n".join(out))


def f_directory(rng, r, mode):
    os.remove(_path(r))
    os.mkdir(_path(r))


def f_link(rng, r, mode):
    os.remove(_path(r))
    os.symlink(_path(r) + ".nowhere", _path(r))


def f_link_loop(rng, r, mode):
    os.remove(_path(r))
    os.symlink(os.path.basename(_path(r)), _path(r))


def f_long(rng, r, mode):
    r["file_name"] = "x" * int(rng.integers(300, 5000)) + ".dat"


def f_nul(rng, r, mode):
    r["file_name"] = "bad\0name.dat"


def f_no_name(rng, r, mode):
    r["file_name"] = None


def f_empty_name(rng, r, mode):
    r["file_name"] = ""


def f_folder(rng, r, mode):
    r["file_path"] = pick(rng, [os.path.join(r["file_path"], "nowhere"), "/nowhere at all", _path(r)])


def f_format(rng, r, mode):
    r["file_type"] = pick(rng, ["pclims", "tiamo_de", "orgalk_excel"])


def f_salinity_text(rng, r, mode):
    if mode == "pH_gran":  # the Gran method does not need it
        return f_window(rng, r, mode)
    r["salinity"] = pick(rng, ["abc", "35?", ""])


def f_salinity_none(rng, r, mode):
    if mode == "pH_gran":
        return f_window(rng, r, mode)
    r["salinity"] = None


def f_no_amount(rng, r, mode):
    r["analyte_mass"] = r["analyte_volume"] = None


def f_zero_amount(rng, r, mode):
    r["analyte_mass"], r["analyte_volume"] = pick(rng, [(0, None), (0.0, 100.0), (None, 0)])


def f_mode(rng, r, mode):
    r["solve_mode"] = pick(rng, ["foo", "ph gran", "EMF0", " "])


def f_unit(rng, r, mode):
    r["titrant_amount_unit"] = pick(rng, ["l", "mg", "litre", "?"])


def f_window(rng, r, mode):
    r["pH_min"], r["pH_max"] = 4.0, 3.0


def f_bisulfate(rng, r, mode):
    if mode == "pH_gran" or "k_bisulfate" in r:  # not needed then
        return f_mode(rng, r, mode)
    r["opt_k_bisulfate"] = 7


def f_carbonic(rng, r, mode):
    if mode == "pH_gran" or any(k.startswith("k_") for k in r):
        return f_mode(rng, r, mode)
    r["opt_k_carbonic"] = 99


def f_text_value(rng, r, mode):
    if mode == "pH_gran":
        r["pH_min"] = "unknown"
        return
    r[pick(rng, ["dic", "total_silicate", "total_phosphate", "k_water", "total_sulfate", "pH_min",
                 "total_borate"])] = "unknown"


def f_column(rng, r, mode):
    r[pick(rng, ["col_measurement", "col_titrant_amount", "col_temperature"])] = 7


def f_skip(rng, r, mode):
    r["skip_header"] = 1000


def f_delimiter(rng, r, mode):
    r["delimiter"] = pick(rng, [",", ";"])


FAULTS = [f_missing, f_empty, f_header, f_one_line, f_cut, f_text, f_binary, f_zeros, f_no_numbers, f_directory,
          f_link, f_link_loop, f_long, f_nul, f_no_name, f_empty_name, f_folder, f_format, f_salinity_text,
          f_salinity_none, f_no_amount, f_zero_amount, f_mode, f_unit, f_window, f_bisulfate, f_carbonic, f_text_value, f_column,
          f_skip, f_delimiter]
# where the name is unusable or empty, nothing can be asked of the message
NAMELESS = {"f_no_name", "f_empty_name", "f_nul"}


def _row(ctx, mode, call):
    rng = ctx.rng
    t = Tit(rng, wild=pick(rng, [0.0, 0.3, 0.6]))
    if mode == "emf":
        meas = t.emf + rng.normal(0, 0.2, t.tm.size)
    else:
        meas = t.pH + rng.normal(0, 0.004, t.tm.size)
    p = os.path.join(ctx.tmp, f"titration{ctx._tmpn:03d}_{int(rng.integers(1e6))}.dat")
    ctx._tmpn += 1
    t.write(p, meas)
    r = rowdict(t, p, mode)
    if call == "solve":
        r["titrant_molinity"] = t.c
    else:
        r["alkalinity_certified"] = t.alk + float(rng.uniform(-2, 2))
        r["titrant_molinity_init"] = t.c * float(rng.uniform(0.85, 1.2))
    return r


def _stale(rng, ds, call="solve"):
    if call != "solve":  # calibrated before, too
        for k in ("titrant_molinity", "titrant_molinity_here"):
            ds[k] = rng.uniform(0.02, 0.5, len(ds))
    for k in RESULT_COLS:
        ds[k] = rng.uniform(1, 2500, len(ds))
    ds["alkalinity_npts"] = rng.integers(1, 20, len(ds))
    return ds


TOLS = dict(alkalinity_npts=0, alkalinity_std=0.02, alkalinity=TOL_ALK, emf0=TOL_EMF0, gran_alkalinity=1e-5,
            gran_emf0=1e-5, pH_init=TOL_PH, temperature_init=0)


def _blank(ctx, tag, out, i):
    for k in RESULT_COLS:
        v = out[k].iloc[i]
        ctx.expect(tag, (v == 0) if k == "alkalinity_npts" else pd.isnull(v),
                   f"row {i} that cannot be processed has {k} = {v!r}")


def _same_row(ctx, tag, out, i, ref_out, j):
    for k in RESULT_COLS:
        ctx.close(f"{tag}.{k}", out[k].iloc[i], ref_out[k].iloc[j], TOLS[k], row=i)
    if "titrant_molinity_here" in ref_out:
        for k in ("titrant_molinity_here", "titrant_molinity"):
            ctx.close(f"{tag}.{k}", out[k].iloc[i], ref_out[k].iloc[j], 0, 3e-5, row=i)


def _copyfiles(ctx):
    """Room for the scenario's own files (unique directory already)."""
    return ctx.tmp


def _make(ctx, call, n_good, n_bad):
    rng = ctx.rng
    good, bad, kinds = [], [], []
    modes = [pick(rng, MODES) for _ in range(n_good + n_bad)]
    for m in modes[:n_good]:
        good.append(_row(ctx, m, call))
    for m in modes[n_good:]:
        r = _row(ctx, m, call)
        f = pick(rng, FAULTS)
        f(rng, r, m)
        bad.append(r)
        kinds.append((f.__name__, m))
    order = rng.permutation(n_good + n_bad)
    rows = [(good + bad)[i] for i in order]
    where_good = [int(np.flatnonzero(order == i)[0]) for i in range(n_good)]
    where_bad = [int(np.flatnonzero(order == n_good + i)[0]) for i in range(n_bad)]
    nb = int(rng.integers(1, 3))
    if call != "solve":
        for r in rows:
            r["analysis_batch"] = int(rng.integers(nb))
    return good, bad, kinds, rows, where_good, where_bad


def _fn(rng, call, klass):
    return (lambda ds, **kw: getattr(ds, call)(**kw)) if klass is not None and flip(rng) else getattr(calk, call)


def _faults(ctx, call):
    rng = ctx.rng
    n_good, n_bad = int(rng.integers(0, 4)), int(rng.integers(1, 4))
    good, bad, kinds, rows, wg, wb = _make(ctx, call, n_good, n_bad)
    ctx.note(faults=kinds, positions=wb, call=call)
    stale = flip(rng, 0.4)
    ref_out = None
    if good:
        ref_out, said, _ = _call(ctx, getattr(calk, call), frame(rng, good))
        for j, r in enumerate(good):
            # (with the molinity of a batch of unlike titrations there may be no point in the window)
            if call == "solve" or pd.notnull(ref_out.alkalinity.iloc[j]):
                ctx.expect("quiet", f'"{r["file_name"]}"' not in said, "an error is reported for a good file", said=said)
    ds = frame(rng, rows, index=[f"r{i}" for i in range(len(rows))] if flip(rng, 0.3) else None)
    if stale:
        ds = _stale(rng, ds, call)
    klass = pick(rng, [None, calk.Dataset])
    if klass is not None:
        ds = klass(ds)
    out, said, _ = _call(ctx, _fn(rng, call, klass), ds, verbose=flip(rng, 0.2))
    ctx.expect("rows", len(out) == len(rows), "rows lost")
    for (kind, m), i, r in zip(kinds, wb, bad):
        _blank(ctx, "bad row", out, i)
        if call != "solve":
            ctx.expect("bad reference", pd.isnull(out.titrant_molinity_here.iloc[i]),
                       f"{kind}: calibrated {out.titrant_molinity_here.iloc[i]!r}")
        if kind not in NAMELESS and r["file_name"]:
            if call == "solve" or pd.notnull(out.titrant_molinity.iloc[i]) or pd.notnull(r.get("alkalinity_certified")):
                ctx.expect("message", r["file_name"] in said, f"{kind} in mode {m}: nothing said about {r['file_name']}",
                           said=said)
        ctx.state(call, kind, m, i)
    for j, i in enumerate(wg):
        _same_row(ctx, "other rows", out, i, ref_out, j)
    ctx.event("faulty rows", n_bad)
    ctx.event("good rows next to faulty ones", n_good)


def solve_faults(ctx):
    _faults(ctx, "solve")


def calibrate_faults(ctx):
    _faults(ctx, pick(ctx.rng, ["calibrate", "calkulate"]))


def not_opened(ctx):
    """Rows flagged or lacking what they need are never opened and lose
    earlier results; they also never change other rows."""
    rng = ctx.rng
    call = pick(rng, ["solve", "solve", "calibrate", "calkulate"])
    n = int(rng.integers(2, 6))
    rows = [_row(ctx, pick(rng, MODES), call) for _ in range(n)]
    why = [pick(rng, ["good", "flag", "value"]) for _ in range(n)]
    if "good" not in why and flip(rng, 0.7):
        why[0] = "good"
    for r, w in zip(rows, why):
        r["file_good"] = w != "flag"
        if w == "value":
            r["titrant_molinity" if call == "solve" else "alkalinity_certified"] = None
        if call != "solve":
            # rows without certified value share no batch with a reference
            r["analysis_batch"] = {"good": 1, "flag": pick(rng, [1, 2]), "value": 3}[w]
    ctx.note(call=call, why=why)
    if all(w == "value" for w in why) and call == "solve":
        for r in rows:
            r["titrant_molinity"] = nan
    if call != "solve":
        for r in rows:
            if r["alkalinity_certified"] is None:
                r["alkalinity_certified"] = nan
    good = [r for r, w in zip(rows, why) if w == "good"]
    ref_out = _call(ctx, getattr(calk, call), frame(rng, good))[0] if good else None
    ds = frame(rng, rows)
    if flip(rng, 0.6):
        if flip(rng):
            ds = _stale(rng, ds, call)
        else:  # real results of an earlier run with all rows good
            full = frame(rng, rows)
            full["file_good"] = True
            if call == "solve":
                full["titrant_molinity"] = full.titrant_molinity.astype(float).fillna(0.1)
            full = _call(ctx, calk.solve if call == "solve" else calk.calibrate, full)[0]
            for k in RESULT_COLS + (["titrant_molinity_here", "titrant_molinity"] if call != "solve" else []):
                ds[k] = full[k]
    klass = pick(rng, [None, calk.Dataset])
    if klass is not None:
        ds = klass(ds)
    # bool, object and integer flags
    kind = pick(rng, ["bool", "object", "int"])
    if kind != "bool":
        ds["file_good"] = ds.file_good.astype(object if kind == "object" else int)
    if flip(rng, 0.3):  # not filled in where there is nothing to complain about
        kind = pick(rng, ["float-missing", "object-missing", "none-missing", "boolean-missing", "Int64-missing"])
        f = [None if g and flip(rng) else bool(g) for g in ds.file_good]
        if kind == "object-missing":
            f = [nan if g is None else g for g in f]
        elif kind in ("float-missing", "Int64-missing"):
            f = [g if g is None else int(g) for g in f]
        ds["file_good"] = pd.Series(f, index=ds.index, dtype={"float-missing": float, "boolean-missing": "boolean",
                                                              "Int64-missing": "Int64"}.get(kind, object))
    out, said, opened = _call(ctx, _fn(rng, call, klass), ds)
    j = 0
    for i, (r, w) in enumerate(zip(rows, why)):
        p = os.path.abspath(_path(r))
        if w == "good":
            ctx.expect("hook alive", p in opened, "the monitor did not see the file of a good row")
            _same_row(ctx, "other rows", out, i, ref_out, j)
            j += 1
        else:
            ctx.expect("not opened", p not in opened, f"the file of a row with {w} was opened")
            _blank(ctx, "unprocessed row", out, i)
            if call != "solve":
                ctx.expect("unprocessed reference", pd.isnull(out.titrant_molinity_here.iloc[i]),
                           f"calibrated {out.titrant_molinity_here.iloc[i]!r}")
        ctx.state(call, w, kind)
    if "alkalinity_certified" in ds:
        ctx.close("offset", out.alkalinity_offset.to_numpy(dtype=float),
                  (out.alkalinity - out.alkalinity_certified).to_numpy(dtype=float), 0)


EXC = [PermissionError, FileNotFoundError, TimeoutError, InterruptedError, IsADirectoryError, ConnectionResetError]


def injected(ctx):
    """A file that fails from its n-th opening on (a drive going away)."""
    rng = ctx.rng
    call = pick(rng, ["solve", "calibrate", "calkulate"])
    n = int(rng.integers(2, 5))
    rows = [_row(ctx, pick(rng, MODES), call) for _ in range(n)]
    if call != "solve":
        nb = int(rng.integers(1, 3))
        for r in rows:
            r["analysis_batch"] = int(rng.integers(nb))
    i = int(rng.integers(n))
    whole = _call(ctx, getattr(calk, call), frame(rng, rows))[0]
    absent = _call(ctx, getattr(calk, call), frame(rng, rows[:i] + rows[i + 1:]))[0]
    first = int(rng.integers(1, 2 if call == "solve" else 4 if call == "calkulate" else 3))
    fault = dict(path=os.path.abspath(_path(rows[i])), count=0, fired=0, failed=False, exc=pick(rng, EXC))
    fault["from"] = first
    ctx.note(call=call, row=i, first_failing_opening=first, error=fault["exc"].__name__)
    out, said, opened = _call(ctx, getattr(calk, call), frame(rng, rows), fault=fault)
    ctx.event("faults injected", fault["fired"])
    for j in range(n):
        if j == i:
            continue
        if first == 1:
            _same_row(ctx, "other rows (never readable)", out, j, absent, j - (j > i))
        else:
            _same_row(ctx, "other rows (readable at first)", out, j, whole, j)
    if fault["failed"]:
        _blank(ctx, "failing row", out, i)
        ctx.expect("message", rows[i]["file_name"] in said, "nothing said about the failing file", said=said)
    else:
        _same_row(ctx, "fault not reached", out, i, whole, i)
    ctx.state(call, first, fault["exc"].__name__, fault["fired"])


def recovery(ctx):
    """Failing and then repaired: nothing of the failure stays behind."""
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    rows = [_row(ctx, pick(rng, MODES), "solve") for _ in range(n)]
    ds = frame(rng, rows)
    want = _call(ctx, calk.solve, ds.copy())[0]
    i = int(rng.integers(n))
    p = _path(rows[i])
    os.rename(p, p + ".away")
    broken = _call(ctx, calk.solve, ds)[0]
    _blank(ctx, "while broken", broken, i)
    os.rename(p + ".away", p)
    out = _call(ctx, calk.solve, broken)[0]
    for j in range(n):
        _same_row(ctx, "repaired", out, j, want, j)
    # and good -> bad on the very same table
    os.rename(p, p + ".away")
    out = _call(ctx, calk.solve, out)[0]
    _blank(ctx, "broken again", out, i)
    for j in range(n):
        if j != i:
            _same_row(ctx, "still good", out, j, want, j)
    ctx.state("recovery", n, i)


def bad_certified(ctx):
    """A certified value or molinity that is not a number: such a row gives no
    molinity (or no result), all others go on as if it had none."""
    rng = ctx.rng
    call = pick(rng, ["solve", "calibrate", "calkulate"])
    n = int(rng.integers(2, 5))
    rows = [_row(ctx, pick(rng, MODES), call) for _ in range(n)]
    key = "titrant_molinity" if call == "solve" else "alkalinity_certified"
    if call != "solve":
        for r in rows:
            r["analysis_batch"] = int(rng.integers(2))
    i = int(rng.integers(n))
    word = pick(rng, ["unknown", "n/a", "", " ", "2300?", "<LOD"])
    without = [dict(r) for r in rows]
    without[i][key] = None
    want = _call(ctx, getattr(calk, call), frame(rng, without))[0]
    rows[i][key] = word
    ctx.note(call=call, row=i, value=repr(word))
    ds = frame(rng, rows)
    if flip(rng, 0.4):
        ds = _stale(rng, ds, call)
        if call == "solve":
            ds["titrant_molinity"] = [r["titrant_molinity"] for r in rows]
    out, said, _ = _call(ctx, getattr(calk, call), ds)
    ctx.expect("message", rows[i]["file_name"] in said, "nothing said about the unusable value", said=said)
    for j in range(n):
        _same_row(ctx, "other rows", out, j, want, j)
        if call != "solve":
            ctx.close("offset", out.alkalinity_offset.iloc[j], want.alkalinity_offset.iloc[j], TOL_ALK)
    if call != "solve":
        ctx.expect("unusable reference", pd.isnull(out.titrant_molinity_here.iloc[i]), "calibrated")
    ctx.state("bad value", call, repr(word), i)


# table, file and object may differ in the last digits
ROUNDING = True

SCENARIOS = [
    ("solve_faults", solve_faults, 220, 9000),
    ("calibrate_faults", calibrate_faults, 50, 2500),
    ("not_opened", not_opened, 50, 2500),
    ("injected", injected, 40, 2000),
    ("recovery", recovery, 20, 1000),
    ("bad_certified", bad_certified, 20, 1000),
]
