"""Writers of the supported file formats, returning what the files hold."""

import numpy as np
import pandas as pd

from ..gen import flip, pick


def series(rng, n=None):
    if n is None:
        n = int(rng.integers(2, 40)) if flip(rng, 0.95) else int(rng.integers(200, 1500))
    amount = np.cumsum(rng.uniform(0.01, 0.3, n)) + rng.uniform(0, 2)
    meas = np.sort(rng.uniform(-400, 700, n)) if flip(rng) else np.sort(rng.uniform(2.5, 8.5, n))[::-1]
    T = rng.uniform(15, 30) + rng.normal(0, 0.2, n)
    if flip(rng, 0.2):
        T = T - 30
    return amount, meas, T


def number(rng, x, decimals=None):
    """x as text and the value that text stands for."""
    d = int(rng.integers(0, 7)) if decimals is None else decimals
    s = f"{x:.{d}f}"
    return s, float(s)


PCLIMS_HEAD = ["$S PC/LIMS V1", "$S Devices V1", "P 5.862.0024\tS 20014", "ADC 3.848.1210\tS 05660", "$E", "S -----\t", "\t",
               "$S Sample data V1", "CRM1\t\t85.9040\tg", "$S MPL V2", "1.5", "12\t3", "$S Mode 1\t07\tMET U\tV1.0", "",
               "Temperatur \xb0C\t21.3", "a\t1\t2\t3\t4\t5\t6"]
PCLIMS_FOOT = ["$E", "$S DETERM V1", "TA-80mL\tsaved\tCRM1-20201211-115353\t200141607687633000", "^\t%\t-1",
               "1416.0\t2\t26\t1\t2\t4\t1\t2\t0", "1\t2\t3\t4\t5\t6", "\t\t6.2000", "$S EP V1", "0\t0\t0\t0\t0\t0\t0\t0\t0"]


def write_pclims(rng, path, n_cols=6, cols=(1, 2, 5), n=None, blank=None):
    amount, meas, T = series(rng, n)
    got = [[], [], []]
    with open(path, "w", encoding="latin-1", newline=pick(rng, ["\n", "\r\n"])) as f:
        for _ in range(int(rng.integers(0, 14))):
            f.write(pick(rng, PCLIMS_HEAD) + "\n")
        for i, (a, m, t) in enumerate(zip(amount, meas, T)):
            line = [str(i + 1)] + [number(rng, rng.normal(0, 100))[0] for _ in range(n_cols - 1)]
            for j, (c, x) in enumerate(zip(cols, (a, m, t))):
                line[c], v = number(rng, x)
                got[j].append(v)
            if blank == i:
                line[int(rng.integers(n_cols))] = ""
            f.write("\t".join(line) + "\n")
        foot = [pick(rng, PCLIMS_FOOT) for _ in range(int(rng.integers(0, 14)))]
        # the block is ended by a line that is not data
        if foot:
            foot[0] = pick(rng, ["$E", "$S DETERM V1", ""])
        for line in foot:
            f.write(line + "\n")
    return tuple(np.array(x) for x in got)


TIAMO = ["Volumen [mL]", "Messwert", "dMW [pH]", "Zeit [s]", "Temperatur [\xb0C]", "Berechnet 1", "Berechnet 2", "Berechnet 3"]


def write_tiamo(rng, path, n=None, blank=None):
    amount, meas, T = series(rng, n)
    start = float(rng.uniform(0, 8))
    if flip(rng, 0.6):
        amount = amount - amount[0]
    got = [[], [], []]
    with open(path, "w", encoding="latin-1", newline=pick(rng, ["\n", "\r\n"])) as f:
        f.write("2024-10-25 11:17:44 UTC+2\n-13f375cc:192c2436d35:-7f6c\n\nSteilheit.1\n")
        f.write("Zeit [s];Messwert;dU/dt [mV/min];Temperatur [\xb0C]\n0.0;5.7;0.0;20.4\n2.0;6.3;-1169.5;20.5\n\n\n")
        f.write("Start pH einstellen.1\nZeit [s];Messwert;Volumen [mL];dV/dt [\xb5L/min];Temperatur [\xb0C]\n")
        k = int(rng.integers(1, 30))
        for i in range(k):
            s, v = number(rng, start * (i + 1) / k)
            f.write(f"{2.0 * i};{7 - 0.1 * i:.3f};{s};{rng.uniform(0, 900):.2f};21.2\n")
        start = v
        f.write("\n\nGran.1\n")
        cols = list(range(8)) if flip(rng, 0.5) else [int(i) for i in rng.permutation(8)]
        f.write(";".join(TIAMO[c] for c in cols) + "\n")
        for a, m, t in zip(amount, meas, T):
            line = [number(rng, rng.normal(0, 50))[0] for _ in range(8)]
            for j, (c, x) in enumerate(zip((0, 1, 4), (a, m, t))):
                line[c], v = number(rng, x, int(rng.integers(3, 15)))
                got[j].append(v)
            if blank == len(got[0]):  # no value at this point
                j = int(rng.integers(3))
                line[(0, 1, 4)[j]], got[j][-1] = "", np.nan
            f.write(";".join(line[c] for c in cols) + "\n")
    a, m, t = (np.array(x) for x in got)
    return a + start, m, t


DBS = ["run type", "bottle", "station", "cast", "niskin", "depth", "i.s. temperature", "salinity", "counts", "run time", "CT",
       "factor CT", "blank", "TCT", "last CRM CT", "cert. CRM CT", "last CRM AT", "cert. CRM AT", "batch", "AT", "factor AT",
       "rms", "calc ID", "Titrino", "sample line", "pip vol", "comment", "Lat.", "Long.", "date", "time", "cell ID"]


def write_dbs(rng, path, n=None, kinds=("bottle", "bottle", "CRM", "junk", "test", "Bottle", "crm"), extra=True, blanks=False, layout=False):
    """A VINDTA database; returns one dict of the values per row."""
    n = int(rng.integers(1, 20)) if n is None else n
    tail = pick(rng, ["", "\t\t"]) if extra else ""
    rows = []
    full = flip(rng)
    cols = list(DBS)
    if layout and flip(rng, 0.3):  # columns in another order
        cols = [DBS[i] for i in rng.permutation(len(DBS))]
    if layout and flip(rng, 0.3):  # columns that the user added
        cols.insert(int(rng.integers(len(cols) + 1)), "my column")
    if layout and flip(rng, 0.3):
        cols.insert(int(rng.integers(len(cols) + 1)), "file_good")
    with open(path, "w", newline=pick(rng, ["\n", "\r\n"])) as f:
        f.write("\t".join(cols) + "\n")
        for i in range(n):
            r = {c: "" for c in DBS}
            r["run type"] = pick(rng, kinds)
            r["bottle"] = pick(rng, ["JUNK1", "0012", "7", "A-3", "NUTS 1", "00", f"{int(rng.integers(1000)):04d}", "CRM#171-0891"])
            for c, hi in (("station", 700), ("cast", 30), ("niskin", 24), ("depth", 6000)):
                r[c] = str(int(rng.integers(0, hi)))
            if flip(rng, 0.3):
                r["depth"] += f".{int(rng.integers(1, 100)):02d}"
            r["i.s. temperature"] = f"{rng.uniform(0, 25):.3f}"
            r["salinity"] = f"{rng.uniform(30, 38):.3f}"
            r["counts"] = str(int(rng.integers(1e5, 2e5)))
            r["run time"] = "12"
            r["CT"] = f"{rng.uniform(1900, 2300):.2f}"
            r["cert. CRM CT"] = f"{rng.uniform(1990, 2100):.2f}"
            r["cert. CRM AT"] = f"{rng.uniform(2180, 2300):.2f}"
            r["batch"] = str(int(rng.integers(100, 210)))
            r["AT"] = f"{rng.uniform(1900, 2500):.2f}"
            r["rms"] = f"{rng.uniform(0, 1e-3):.6f}"
            r["sample line"] = "red (1)"
            r["comment"] = pick(rng, ["", "bubble", "ok?"])
            r["Lat."], r["Long."] = "0.00", f"{rng.uniform(-180, 180):.2f}"
            day = np.datetime64("2000-01-01") + np.timedelta64(int(rng.integers(0, 36525)), "D")
            y, m, d = str(day).split("-")
            r["date"] = f"{m}/{d}/{y[2:]}"
            r["time"] = f"{int(rng.integers(24)):02d}:{int(rng.integers(60)):02d}"
            if flip(rng, 0.1):
                r[pick(rng, ["date", "time"])] = ""
            r["cell ID"] = "C_Aug13-18_1008"
            for c in ("factor CT", "blank", "TCT", "last CRM CT", "last CRM AT", "factor AT", "calc ID", "Titrino", "pip vol"):
                if full:
                    r[c] = f"{rng.uniform(1, 2400):.3f}"
            if blanks:
                if r["run type"] != "bottle" and flip(rng, 0.5):
                    for c in ("station", "cast", "niskin", "depth"):
                        r[c] = ""
                for c in ("batch", "bottle", "salinity", "cert. CRM AT", "counts"):
                    if flip(rng, 0.12):
                        r[c] = ""
            if "my column" in cols:
                r["my column"] = pick(rng, ["1.5", "x", "", "007"])
            if "file_good" in cols:
                r["file_good"] = pick(rng, ["True", "True", "False"])
            if layout and r["time"] and flip(rng, 0.1):
                r["time"] += f":{int(rng.integers(60)):02d}"
            rows.append(r)
            f.write("\t".join(r[c] for c in cols) + tail + "\n")
    return rows
