"""Shared by the property modules."""

import os

import calkulate as calk
import calkulate.convert
import calkulate.core
import calkulate.dataset
import calkulate.files
import calkulate.simulate
import numpy as np
import pandas as pd

from . import gen, ref
from .gen import Tit, flip, pick, rowdict, write_plain

core, files, convert, dataset, simulate = (
    calk.core, calk.files, calk.convert, calk.dataset, calk.simulate)
nan = float("nan")

# Tolerances.  The solvers use SciPy's default stopping rules; on noise-free
# data the largest error seen over 3200 titrations was 6e-4 umol/kg, 1.3e-4 mV.
TOL_ALK = 0.02  # umol/kg
TOL_EMF0 = 0.01  # mV
TOL_PH = 3e-4


def dat(amount, meas, T):
    return calk.read.titrations.DatData(
        np.array(amount, dtype=float), np.array(meas, dtype=float), np.array(T, dtype=float))


def core_inputs(ctx, t, meas, with_titrant=True):
    """The array-level inputs as a user of the array level would get them."""
    cv = ctx.sut(convert.amount_units, dat(t.amount, meas, t.T), t.S, **t.analyte_kw, **t.unit_kw)
    totals, ks = ctx.sut(core.totals_ks, cv, **t.kw_totals())
    if with_titrant and t.carried:
        totals = ctx.sut(core.add_titrant_totals, totals, cv.titrant_mass, cv.analyte_mass, t.c,
                         **t.kw_carried())
    return cv, totals, ks


def window_ok(t, used, pH, eps=1e-6):
    """The used points are those inside the window; points closer than eps to
    an edge may go either way."""
    inside = (pH >= t.pH_min + eps) & (pH <= t.pH_max - eps)
    outside = (pH < t.pH_min - eps) | (pH > t.pH_max + eps)
    used = np.asarray(used)
    return bool(np.all(used[inside]) and not np.any(used[outside]))


def settings_of(row):
    return {k: v for k, v in row.items() if not (isinstance(v, float) and np.isnan(v))}


def extra_headers(path, n):
    """Put more header lines at the top of a titration file."""
    with open(path) as f:
        text = f.read()
    with open(path, "w") as f:
        f.write("another header\n" * n + text)


def frame(rng, rows, index=None, klass=None, shuffle_cols=True):
    cols = []
    for r in rows:
        for k in r:
            if k not in cols:
                cols.append(k)
    if shuffle_cols:
        cols = [cols[i] for i in rng.permutation(len(cols))]
    df = pd.DataFrame([{c: r.get(c, None) for c in cols} for r in rows], columns=cols, index=index)
    for c in cols:
        if all(isinstance(r.get(c), (int, float, np.number)) or r.get(c) is None for r in rows) and not all(
                isinstance(r.get(c), bool) for r in rows):
            if any(isinstance(r.get(c), bool) for r in rows):
                continue
            if any(r.get(c) is None for r in rows) or any(isinstance(r.get(c), float) for r in rows):
                df[c] = pd.to_numeric(df[c])
    return df if klass is None else klass(df)


def as_dict(x):
    return {k: np.array(v, dtype=float, copy=True) for k, v in x.items()}


RESULT_COLS = ["alkalinity_npts", "alkalinity_std", "alkalinity", "emf0", "gran_alkalinity",
               "gran_emf0", "pH_init", "temperature_init"]
