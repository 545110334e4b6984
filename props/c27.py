"""C27: precision - the output has the precision of the input, and single precision agrees with
double precision."""
from hypothesis import strategies as st

import torchiva
from vlib import algos
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_dtype, expect_shape, relerr, tonp
from vlib.signals import T, flavours, rng_of, seeds, stft_like

RULE = ("Random algorithm, configuration and data in complex64 and complex128; ambient default dtype "
        "float32 or float64")
ASSUMPTIONS = ["agreement is required where the double precision output amplifies a 1e-6 relative "
               "change of the input by less than 1e3 (tolerance 3e-5 times the amplification, at "
               "least 5e-3)",
               "smooth: the double precision output along a line X (1 + k 1e-7 D) has second "
               "differences below 1e-9 (or 300 (amplification 1e-7)^2) where it amplifies the "
               "perturbation by less than 300"]


@st.composite
def case(draw):
    c = draw(st.one_of(algos.iva_config(max_chan=3, max_iter=4), algos.bf_config(max_chan=3)))
    nm = algos.min_frames(c)
    c.update(F=draw(st.integers(2, 5)), N=draw(st.integers(nm, nm + 25)), flavour=draw(flavours),
             gain=draw(st.sampled_from([1.0, 1.0, 8.0])), seed=draw(seeds),
             ambient=draw(st.sampled_from(["f32", "f32", "f64"])))
    return c


def run(c, X, dtype):
    alg = algos.build(c, dtype=dtype.to_real())
    with torch.no_grad():
        return call(alg, T(X).to(dtype))


def check(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    X = X.astype(np.complex64).astype(np.complex128)
    old = torch.get_default_dtype()
    try:
        torch.set_default_dtype(torch.float64 if c["ambient"] == "f64" else torch.float32)
        Yd = run(c, X, torch.complex128)
        Ys = run(c, X, torch.complex64)
    finally:
        torch.set_default_dtype(old)
    shape = (algos.n_out(c), c["F"], c["N"])
    expect_shape(Yd, shape, "double precision output")
    expect_shape(Ys, shape, "single precision output")
    expect_dtype(Yd, torch.complex128, "output for complex128")
    expect_dtype(Ys, torch.complex64, "output for complex64")
    if not algos.gauge_free(c):
        return [algos.label(c), "types only"]
    rng = rng_of(c["seed"], 12)
    amp = 0.0
    yd, ys = tonp(Yd), tonp(Ys)
    for _ in range(2):
        D = rng.standard_normal(X.shape) + 1j * rng.standard_normal(X.shape)
        Yp = tonp(run(c, X * (1 + 1e-6 * D), torch.complex128))
        amp = max(amp, relerr(Yp, yd) / 1e-6)
    if not amp < 1e3:
        return [algos.label(c), "types only"]
    e = relerr(ys, yd)
    if not e <= max(5e-3, 3e-5 * amp):
        raise Violation("single and double precision differ by %.2g (amplification %.2g)" % (e, amp))
    return [algos.label(c), "agree", "ambient-" + c["ambient"]]


H = 1e-7


def check_smooth(c):
    """an internal quantity rounded to single precision makes the double precision output jump by
    about 6e-8 under perturbations of that size, where a double precision computation is smooth"""
    if not algos.gauge_free(c):
        raise Skip("gauge")
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    rng = rng_of(c["seed"], 13)
    D = rng.standard_normal(X.shape) + 1j * rng.standard_normal(X.shape)
    old = torch.get_default_dtype()
    try:
        torch.set_default_dtype(torch.float64 if c["ambient"] == "f64" else torch.float32)
        y0, y1, y2, y3 = (tonp(run(c, X * (1 + k * H * D), torch.complex128)) for k in range(4))
    finally:
        torch.set_default_dtype(old)
    n = np.abs(y0).max()
    amp = max(np.abs(y1 - y0).max(), np.abs(y3 - y2).max()) / n / H
    if not amp < 300:
        return [algos.label(c), "sensitive"]
    e = max(np.abs(y2 - 2 * y1 + y0).max(), np.abs(y3 - 2 * y2 + y1).max()) / n
    if not e <= max(SMOOTH_TOL, 300 * (amp * H) ** 2):
        raise Violation("the double precision output is not smooth at a scale of 1e-7: second "
                        "difference %.2g (amplification %.2g)" % (e, amp))
    return [algos.label(c), "smooth"]


SMOOTH_TOL = 1e-9
FACETS = [Facet("agree", case(), check, cases=(9000, 40000),
                nontrivial=lambda c, l: "agree" in l, rule="the values were compared"),
          Facet("smooth", case(), check_smooth, cases=(4000, 20000),
                nontrivial=lambda c, l: "smooth" in l, rule="the values were compared")]
