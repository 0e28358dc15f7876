from ..common import *

RULE = ("random EMF, EMF0, temperature, pH and hydrogen ion contents (scalars, arrays of several shapes, pandas "
        "columns, integers; -2 to 60 degC, EMF0 -2000 to 2000 mV), each conversion against the Nernst equation with "
        "the documented constants and against its inverse; a state is (function, shapes, types, ranges)")


def _arg(rng, lo, hi, shape, integer=False):
    v = rng.uniform(lo, hi, shape)
    if integer:
        v = np.rint(v).astype(int)
        return int(v) if shape == () else v
    return float(v) if shape == () else v


def conversions(ctx):
    rng = ctx.rng
    shape = pick(rng, [(), (1,), (11,), (2, 3)])

    def sh():
        return shape if flip(rng) else ()

    i = [flip(rng, 0.2) for _ in range(3)]
    T = _arg(rng, -2, 60, sh(), i[0])
    e0 = _arg(rng, -2000, 2000, sh(), i[1])
    pH = _arg(rng, -1, 15, sh(), i[2])
    ctx.note(T=T, emf0=e0, pH=pH)
    s = ref.nernst(T) * np.log(10)
    emf = ctx.sut(convert.pH_to_emf, pH, e0, T)
    full = np.broadcast_shapes(np.shape(pH), np.shape(e0), np.shape(T))
    ctx.expect("shape", np.shape(emf) == full, f"shape {np.shape(emf)} for {full}")
    ctx.close("pH_to_emf", emf, np.asarray(e0 - s * pH) + np.zeros(full), 1e-9)
    ctx.close("pH round trip", ctx.sut(convert.emf_to_pH, emf, e0, T), pH + np.zeros(full), 1e-10)
    h = 10.0 ** (-np.asarray(pH, dtype=float))
    ctx.close("h_to_emf", ctx.sut(convert.h_to_emf, h, e0, T), np.asarray(e0 - s * pH) + np.zeros(full), 1e-9)
    ctx.close("emf_to_h", ctx.sut(convert.emf_to_h, emf, e0, T), h + np.zeros(full), 0, 1e-9)
    # From the EMF side, any EMF within the range of a double
    x = _arg(rng, -0.6, 0.6, sh()) * 1000
    e = e0 + x
    h = ctx.sut(convert.emf_to_h, e, e0, T)
    full = np.broadcast_shapes(np.shape(e), np.shape(e0), np.shape(T))
    ctx.close("Nernst", np.log(h), np.asarray((e - np.asarray(e0)) / ref.nernst(T)) + np.zeros(full), 1e-10, 1e-12)
    ctx.close("emf round trip", ctx.sut(convert.h_to_emf, h, e0, T), np.asarray(e) + np.zeros(full), 1e-9)
    p = ctx.sut(convert.emf_to_pH, e, e0, T)
    ctx.close("emf_to_pH", p, -np.log10(h), 1e-12, 1e-12)
    ctx.close("emf-pH round trip", ctx.sut(convert.pH_to_emf, p, e0, T), np.asarray(e) + np.zeros(full), 1e-9)
    # one pH unit is one slope
    p2 = ctx.sut(convert.emf_to_pH, e - s, e0, T)
    ctx.close("slope", p2 - p, np.ones(np.shape(p2)), 1e-9)
    ctx.state("conversions", shape, tuple(i), np.shape(T), np.shape(e0), np.shape(pH))


def f_factor(ctx):
    rng = ctx.rng
    shape = pick(rng, [(), (5,), (2, 2)])
    f = _arg(rng, 0.2, 5, shape) if flip(rng) else 10 ** np.asarray(_arg(rng, -4, 4, shape))
    T = _arg(rng, -2, 60, shape if flip(rng) else (), flip(rng, 0.2))
    e0 = _arg(rng, -900, 900, ())
    e = e0 + _arg(rng, -400, 0, ())
    ctx.note(f=f, T=T, emf0=e0, emf=e)
    d = ctx.sut(convert.f_to_demf0, f, T)
    ctx.close("f.nernst", d, ref.nernst(T) * np.log(f), 1e-9, 1e-12)
    h0 = ctx.sut(convert.emf_to_h, e, e0, T)
    h1 = ctx.sut(convert.emf_to_h, e + d, e0, T)
    ctx.close("f.multiplies_h", h1 / h0, np.asarray(f) + np.zeros(np.shape(h1)), 0, 1e-9)
    h2 = ctx.sut(convert.emf_to_h, e, e0 - d, T)
    ctx.close("f.shift_of_emf0", h2 / h0, np.asarray(f) + np.zeros(np.shape(h1)), 0, 1e-9)
    ctx.close("f.unity", ctx.sut(convert.f_to_demf0, 1.0, T), np.zeros(np.shape(T)), 1e-12)
    ctx.state("f", shape, np.shape(T))


def in_the_solver(ctx):
    """The pH reported by the solvers is the Nernst pH of the EMF with the
    reported EMF0; in the adjustable pH mode the EMF are the Nernst EMF of the
    pH data, through a file and a table."""
    rng = ctx.rng
    t = Tit(rng, wild=0.5)
    meas = t.emf + rng.normal(0, 0.2, t.emf.size)
    mode = pick(rng, ["emf", "pH_adjust"])
    if mode == "pH_adjust":
        meas = t.pH + rng.normal(0, 0.002, t.pH.size)
    ctx.note(mode=mode, **t.summary())
    path = t.write(ctx.path(), meas)
    sr = ctx.sut(files.solve, path, t.c, t.S, **t.kw(mode))
    ctx.close("solver.pH", sr.pH, ref.pH_of_emf(sr.emf, sr.emf0, t.T), 1e-9)
    ctx.close("solver.gran_pH", sr.ggr.pH, ref.pH_of_emf(sr.emf, sr.ggr.emf0, t.T), 1e-9)
    if mode == "pH_adjust":
        ctx.close("solver.emf", sr.emf, -ref.nernst(t.T) * np.log(10) * meas, 1e-8)
        # a common pH error of one part of a slope is an EMF0 shift
        ctx.close("solver.shift", sr.pH - meas, sr.emf0 / (ref.nernst(t.T) * np.log(10)), 1e-9)
    else:
        ctx.same("solver.emf", sr.emf, meas)
    ds = pd.DataFrame([rowdict(t, path, mode, titrant_molinity=t.c)])
    out = ctx.sut(calk.solve, ds)
    ctx.close("table.pH_init", out.pH_init.iloc[0], ref.pH_of_emf(sr.emf[0], out.emf0.iloc[0], t.T[0]), 1e-9)
    ctx.state("solver", mode, t.signature())


SCENARIOS = [
    ("conversions", conversions, 3000, 200000),
    ("f_factor", f_factor, 800, 60000),
    ("in_the_solver", in_the_solver, 60, 3000),
]
