"""Workload generator: titrations whose truth is known, in the user's units."""

import os

import numpy as np

from . import ref

# 6 and 8 (GEOSECS, freshwater) make PyCO2SYS drop nutrients and water: see C06
OPT_K_CARBONIC = [1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def flip(rng, p=0.5):
    return bool(rng.random() < p)


class Tit:
    """One titration: truth, what the instrument recorded, and the settings a
    user would pass to have it solved."""

    def __init__(self, rng, wild=0.5, pH_min=None, pH_max=None, npts=None, plain=False,
                 carried_ok=True, k_ok=True, opts_ok=True, hi_normality=True, dic_max=3500,
                 T_const=None, mass_only=False):
        self.rng = rng
        p = 0.0 if plain else wild
        f = self.features = set()

        def feat(name, prob):
            if flip(rng, prob):
                f.add(name)
                return True
            return False

        self.S = float(rng.uniform(30, 38)) if plain or not feat("S-wide", p) else float(rng.uniform(4, 43))
        x = 0.08 * (p > 0)  # how often a quantity is far from the usual
        if x and feat("S-extreme", x):
            self.S = float(rng.uniform(0.6, 4))
        self.M = float(rng.uniform(0.05, 0.25))
        if x and feat("M-extreme", x):
            self.M = float(10 ** rng.uniform(-2, 0.3))
        self.c = float(rng.uniform(0.05, 0.25)) if not feat("c-wide", p) else float(10 ** rng.uniform(-1.7, 0))
        if x and feat("c-extreme", x / 2):
            self.c = float(10 ** pick(rng, [rng.uniform(-2, -1.7), rng.uniform(0, 0.4)]))
        self.norm = 1
        self.carried = {}
        if carried_ok and feat("H2SO4", p * 0.5):
            self.norm = 2
            self.carried = {"total_sulfate": 1}
        elif hi_normality and feat("normality", p * 0.5):
            self.norm = float(rng.uniform(0.5, 3))
        if carried_ok and feat("carried", p * 0.4):
            for k in ("total_sulfate", "total_phosphate", "total_fluoride"):
                if flip(rng, 0.5):
                    self.carried[k] = float(rng.uniform(0.02, 0.25)) + (self.carried.get(k, 0))
        self.alk = float(rng.uniform(1900, 2700)) if not feat("alk-wide", p) else float(rng.uniform(400, 4500))
        if x and feat("alk-extreme", x):
            self.alk = float(pick(rng, [rng.uniform(40, 400), rng.uniform(4500, 9000)]))
        self.emf0 = float(rng.uniform(580, 680)) if not feat("emf0-wide", p) else float(rng.uniform(-500, 900))
        self.totals_user = {}
        if not feat("no-dic", 0.25):
            self.totals_user["dic"] = float(rng.uniform(0.8, 1.0) * self.alk) if not feat("dic-wide", p * 0.6) else float(rng.uniform(0, dic_max))
        for k, hi in (("total_silicate", 200), ("total_phosphate", 60), ("total_ammonia", 60),
                      ("total_sulfide", 60), ("total_alpha", 150), ("total_beta", 150)):
            if feat(k, p * 0.6):
                self.totals_user[k] = float(rng.uniform(0.1, hi))
        if "total_alpha" in self.totals_user and "total_beta" in self.totals_user:
            if int(self.totals_user["total_beta"] * 1e6) % 3 == 0:
                # two unknown acids in the same amount
                self.totals_user["total_beta"] = self.totals_user["total_alpha"]
        for k, lo, hi in (("total_borate", 0, 900), ("total_fluoride", 0, 200), ("total_sulfate", 0, 45000)):
            if feat("given-" + k, p * 0.4):
                self.totals_user[k] = float(rng.uniform(lo, hi))
        if self.S < 10 and "total_sulfate" in self.totals_user:
            # the sulfate of seawater in fresh water leaves most protons as bisulfate, the Gran guess
            # (which knows no bisulfate) far away, and no point inside the window there
            self.totals_user["total_sulfate"] *= self.S / 10
        self.opts = {}
        if opts_ok:
            if feat("opt_k_carbonic", p):
                self.opts["opt_k_carbonic"] = int(pick(rng, OPT_K_CARBONIC))
            if feat("opt_k_bisulfate", p):
                self.opts["opt_k_bisulfate"] = int(pick(rng, [1, 2]))
            if feat("opt_k_fluoride", p):
                self.opts["opt_k_fluoride"] = int(pick(rng, [1, 2]))
            if feat("opt_total_borate", p):
                self.opts["opt_total_borate"] = int(pick(rng, [1, 2]))
        self.dilute = feat("dilute-ks", p * 0.5)
        # Window
        self.window_given = pH_min is not None or pH_max is not None
        self.pH_min, self.pH_max = 3.0, 4.0
        if pH_min is not None:
            self.pH_min = pH_min
        if pH_max is not None:
            self.pH_max = pH_max
        if not self.window_given and feat("window", p * 0.6):
            self.window_given = True
            self.pH_min = float(rng.uniform(2.7, 3.3))
            self.pH_max = float(self.pH_min + rng.uniform(0.6, 1.4))
        # Temperature course at the first point; drift is added later
        self.T_first = float(rng.uniform(18, 27)) if not feat("T-wide", p) else float(rng.uniform(3, 38))
        if x and T_const is None and feat("T-extreme", x):
            self.T_first = float(pick(rng, [rng.uniform(1.8, 3), rng.uniform(37, 38.2)]))
        self.k_user = {}
        if k_ok:
            base = ref.constants(self.S, self.T_first, ref.analyte_totals(self.S, {}))
            for k in ref.K_NAMES:
                if k in ("k_alpha", "k_beta"):
                    continue
                if feat(k, p * 0.12):
                    self.k_user[k] = float(base[k] * 10 ** rng.uniform(-0.3, 0.3))
        for a in ("alpha", "beta"):
            if "total_" + a in self.totals_user:
                self.k_user["k_" + a] = float(10 ** -rng.uniform(3.0, 7.5))
        self._make_grid(npts, T_const, p)
        self._units(rng, p, mass_only)

    # -- physics
    def _consts(self, T, tm):
        an = self.analyte
        if self.dilute:
            d = self.M / (self.M + tm)
            an = {k: v * d for k, v in an.items()}
        o = {k: v for k, v in self.opts.items()}
        return ref.constants(self.S, T, an, self.k_user, **o)

    def _make_grid(self, npts, T_const, p):
        rng = self.rng
        self.analyte = ref.analyte_totals(
            self.S, self.totals_user, self.opts.get("opt_k_carbonic", 10),
            self.opts.get("opt_total_borate", 1))
        k1 = {k: float(np.ravel(v)[0]) for k, v in self._consts(np.array([self.T_first]), np.array([0.0])).items()}

        def m_at(pH):
            h = 10.0 ** -pH
            lo, hi = 0.0, 20 * self.M
            for _ in range(48):
                m = 0.5 * (lo + hi)
                tot = ref.mixture_totals(self.analyte, m, self.M, self.c, self.carried)
                a = (self.alk * 1e-6 * self.M - m * self.c * self.norm) / (self.M + m)
                if a > ref.alkalinity(h, tot, k1):
                    lo = m
                else:
                    hi = m
            return hi

        m_hi, m_end = m_at(self.pH_max), m_at(self.pH_min - 0.12)
        if p > 0 and flip(rng, 0.1):
            self.features.add("beyond the window")
            m_end = m_at(self.pH_min - 0.12 - float(rng.uniform(0.05, 0.35)))
        n2 = int(rng.integers(9, 28)) if npts is None else max(6, npts // 2)
        n1 = int(rng.integers(3, 25)) if npts is None else max(3, npts - n2)
        if p > 0 and npts is None and flip(rng, 0.06):
            self.features.add("many points")
            n1, n2 = int(rng.integers(20, 120)), int(40 * 12 ** rng.uniform())
        style = pick(rng, ["uniform", "stage", "jitter"]) if p > 0 else "stage"
        self.features.add("grid-" + style)
        if style == "uniform":
            n = max(12, int(np.ceil(m_end / max(m_end - m_hi, 1e-12) * 8)))
            n = min(n, 120)
            tm = np.linspace(0, m_end, n)
        else:
            tm = np.concatenate([np.linspace(0, m_hi, n1, endpoint=False), np.linspace(m_hi, m_end, n2)])
            if style == "jitter":
                step = np.min(np.diff(tm))
                tm = tm + rng.uniform(0, 0.8, tm.size) * step
        if np.sum((tm > m_hi) & (tm < m_end)) < 6:
            tm = np.sort(np.concatenate([tm, np.linspace(m_hi, m_end, 10)[1:-1]]))
        if "beyond the window" in self.features:
            # readings past the window do not count; the window is first
            # judged with the Gran guess, so it may lie a little elsewhere
            m_in = m_at(self.pH_min)
            if np.sum((tm > m_hi) & (tm < m_in)) < 6:
                tm = np.sort(np.concatenate([tm, np.linspace(m_hi, m_in, 10)[1:-1]]))
        if p > 0 and npts is None and flip(rng, 0.1):
            # as in an open cell: the first reading is close to the window
            m_start = m_at(min(self.pH_max + float(rng.uniform(0.02, 0.8)), 5.0))
            if np.sum(tm > m_start) >= 9:
                self.features.add("starts acid")
                tm = tm[tm > m_start]
        if p > 0 and flip(rng, 0.15):
            # several readings at the same titrant amount
            self.features.add("repeats")
            tm = np.sort(np.concatenate([tm, rng.choice(tm, int(rng.integers(1, 8)))]))
        self.tm = tm
        n = tm.size
        T = np.full(n, self.T_first)
        if T_const is not None:
            T = np.full(n, float(T_const))
        elif flip(rng, 0.6 if p else 0.3):
            self.features.add("T-drift")
            T = T + np.linspace(0, rng.uniform(-1.5, 1.5), n) + rng.normal(0, 0.05, n) * flip(rng)
        self.T = T
        self.totals = ref.mixture_totals(self.analyte, tm, self.M, self.c, self.carried)
        self.ks = self._consts(T, tm)
        a = (self.alk * 1e-6 * self.M - tm * self.c * self.norm) / (self.M + tm)
        self.alk_mix = a
        self.h = ref.solve_h(a, self.totals, self.ks)
        self.pH = -np.log10(self.h)
        self.emf = ref.emf_of_h(self.h, self.emf0, T)

    # -- what the user passes
    def _units(self, rng, p, mass_only=False):
        self.unit_kw = {}
        u = pick(rng, ["ml", "ml-density", "g", "kg", "ml-mol"])
        if "H2SO4" in self.features and flip(rng, 0.5):
            u = "ml-h2so4"
        if mass_only:
            u = "kg"
        self.unit = u
        if u == "ml":
            rho = ref.rho_hcl_nacl(0.1, 0.6)
            if flip(rng, 0.3):
                self.unit_kw["titrant_amount_unit"] = pick(rng, ["ml", "mL", "ML"])
        elif u == "ml-density":
            rho = float(rng.uniform(0.99, 1.06))
            if int(rho * 1e6) % 8 == 0:  # (no further random number is drawn)
                rho = 1.0
            self.unit_kw["titrant_density"] = rho
        elif u == "ml-mol":
            a, b = float(rng.uniform(0.02, 0.5)), float(rng.uniform(0.05, 0.9))
            rho = ref.rho_hcl_nacl(a, b)
            self.unit_kw.update(molinity_HCl=a, molinity_NaCl=b)
        elif u == "ml-h2so4":
            a = float(rng.uniform(0.06, 1.0))
            rho = ref.rho_h2so4(a)
            self.unit_kw.update(titrant=pick(rng, ["H2SO4", "h2so4"]), molinity_H2SO4=a)
        elif u == "g":
            rho = 1.0
            self.unit_kw["titrant_amount_unit"] = pick(rng, ["g", "G"])
        else:
            rho = 1e-3 * 1e3 * 1e3  # kg: amount = kg
            self.unit_kw["titrant_amount_unit"] = pick(rng, ["kg", "KG", "Kg"])
        self.amount = self.tm.copy() if u == "kg" else self.tm * 1e3 / rho
        self.features.add("unit-" + u)
        if flip(rng, 0.4) and not mass_only:
            self.features.add("by-volume")
            self.analyte_kw = {"analyte_volume": self.M * 1e3 / float(ref.rho_seawater(self.T[0], self.S))}
        else:
            self.analyte_kw = {"analyte_mass": self.M}
            if flip(rng, 0.2):
                self.features.add("mass-and-volume")
                self.analyte_kw["analyte_volume"] = float(rng.uniform(20, 400))

    def kw(self, mode="emf", window=True):
        """Settings as keyword arguments of the file-level functions (without
        molinity, certified value and salinity)."""
        k = dict(self.analyte_kw)
        k.update(self.unit_kw)
        k.update(self.totals_user)
        k.update(self.k_user)
        k.update(self.opts)
        if self.dilute:
            k["dilute_totals_for_ks"] = True
        if self.norm != 1:
            k["titrant_normality"] = self.norm
        for t, f in self.carried.items():
            k["titrant_" + t] = f
        if self.window_given and window:
            k["pH_min"], k["pH_max"] = self.pH_min, self.pH_max
        if mode != "emf":
            k["solve_mode"] = mode
        return k

    def kw_totals(self):
        k = dict(self.totals_user)
        k.update(self.k_user)
        k.update(self.opts)
        if self.dilute:
            k["dilute_totals_for_ks"] = True
        return k

    def kw_carried(self):
        return {"titrant_" + t: f for t, f in self.carried.items()}

    def measurement(self, mode="emf", pH_error=0.0):
        if mode == "emf":
            return self.emf
        return self.pH + pH_error

    def write(self, path, meas=None, header=2):
        meas = self.emf if meas is None else meas
        write_plain(path, self.amount, meas, self.T, header)
        return path

    def signature(self):
        return tuple(sorted(self.features))

    def summary(self):
        return dict(S=self.S, M=self.M, c=self.c, norm=self.norm, carried=self.carried, alk=self.alk,
                    emf0=self.emf0, totals=self.totals_user, k=self.k_user, opts=self.opts,
                    dilute=self.dilute, window=[self.pH_min, self.pH_max], unit=self.unit_kw,
                    analyte=self.analyte_kw, n=int(self.tm.size), T=[float(self.T[0]), float(self.T[-1])],
                    pH=[float(self.pH[0]), float(self.pH[-1])], features=sorted(self.features))


# Set by the harness while it repeats a case with imperceptibly different
# measurements (see harness.hangs_on_rounding)
JITTER = None


def write_plain(path, amount, meas, T, header=2):
    if JITTER is not None:
        meas = np.asarray(meas, dtype=float)
        # 5e-7 pH units, or as much in mV
        unit = 5e-7 if np.all(np.abs(meas[np.isfinite(meas)]) < 20) else 3e-5
        meas = meas + unit * JITTER.uniform(-1, 1, meas.shape)
    with open(path, "w") as f:
        for i in range(header):
            f.write(f"header line {i}\n")
        for a, m, t in zip(amount, meas, T):
            f.write(f"{float(a)!r}\t{float(m)!r}\t{float(t)!r}\n")


def rowdict(t, path, mode="emf", **more):
    """A metadata-table row for titration `t` stored at `path`."""
    d = dict(file_name=os.path.basename(path), file_path=os.path.dirname(path), salinity=t.S)
    d.update(t.kw(mode))
    d.update(more)
    return d
