"""C28: degenerate but ordinary recordings never produce NaN, infinity or an exception."""
from hypothesis import strategies as st

import torchiva
from torchiva.nn import BSSSeparator
from vlib import algos
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_finite, expect_shape, tonp
from vlib.signals import T, flavours, rng_of, seeds, stft_like

RULE = ("Random algorithm and configuration, up to the documented default number of iterations, single "
        "and double precision, on data with exact degeneracies: silence, dead channels, duplicated or "
        "scaled channels, empty bins, silent stretches, very short or very quiet or loud signals")
ASSUMPTIONS = ["T-ISS: fewer than three non-zero frames per filter coefficient is outside the domain "
               "(the sources then vanish up to rounding, and in single precision the unbounded "
               "normalisation overflows after about eight iterations)"]

KINDS = ["silence", "dead", "dead-all-but-one", "copy", "scaled-copy", "negative-copy", "zero-dc",
         "zero-bins", "half-silent", "quiet", "quiet-channel", "quiet-bin", "short", "loud", "sparse",
         "silent-item"]


@st.composite
def case(draw):
    c = draw(st.one_of(algos.iva_config(max_chan=4, max_iter=12, max_taps=2,
                                        models=("laplace", "gauss", "laplace", "nmf")),
                       algos.bf_config(max_chan=4)))
    c["kindx"] = draw(st.sampled_from(KINDS))
    c.update(F=draw(st.integers(2, 5)), N=draw(st.integers(20, 60)), flavour=draw(flavours),
             seed=draw(seeds), single=draw(st.booleans()), which=draw(st.integers(0, 3)))
    return c


def degenerate(X, c):
    k, C = c["kindx"], X.shape[-3]
    w = c["which"] % C
    rng = rng_of(c["seed"], 31)
    X = X.copy()
    if k == "silence":
        X[:] = 0
    elif k == "dead":
        X[w] = 0
    elif k == "dead-all-but-one":
        keep = X[w].copy()
        X[:] = 0
        X[w] = keep
    elif k in ("copy", "scaled-copy", "negative-copy") and C > 1:
        s = dict(copy=1.0, **{"scaled-copy": 0.25, "negative-copy": -1.0})[k]
        X[w] = s * X[(w + 1) % C]
    elif k == "zero-dc":
        X[:, 0] = 0
    elif k == "zero-bins":
        X[:, rng.uniform(size=X.shape[1]) < 0.6] = 0
    elif k == "half-silent":
        h = X.shape[-1] // 2
        X[..., :h] = 0
    elif k == "quiet":
        X *= 1e-6
    elif k == "quiet-channel":
        X[w] *= 1e-7
    elif k == "quiet-bin":
        X[:, 0] *= 1e-8
    elif k == "short":
        X = X[..., :1 + c["which"]]
    elif k == "loud":
        X *= 1e5 if c["which"] else 3e3
    elif k == "sparse":
        X[:, :, rng.uniform(size=X.shape[-1]) < 0.7] = 0
    return X


def check(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"])
    X = degenerate(X, c)
    if c["algo"] == "tiss" and c["kindx"] in ("short", "sparse", "half-silent"):
        live = int((np.abs(X).max(axis=(0, 1)) > 0).sum())
        if live < 3 * c["C"] * (c["n_taps"] + 1):
            raise Skip("T-ISS with hardly more non-zero frames than filter coefficients")
    if c["kindx"] == "silent-item":
        X = np.stack([X, np.zeros_like(X)])
    dt = torch.complex64 if c["single"] else torch.complex128
    alg = algos.build(c, dtype=dt.to_real())
    with torch.no_grad():
        Y = call(alg, T(X).to(dt))
    expect_shape(Y, X.shape[:-3] + (algos.n_out(c),) + X.shape[-2:], "output")
    expect_finite(Y, "output")
    if c["kindx"] == "silence" and float(Y.abs().max()) != 0:
        raise Violation("silence in, %.2g out" % float(Y.abs().max()))
    return [algos.label(c), c["kindx"], "single" if c["single"] else "double"]


@st.composite
def bss_case(draw):
    a = draw(st.sampled_from(["tiss", "ip2", "five"]))
    return dict(algo=a, C=2 if a == "ip2" else draw(st.integers(2, 3)),
                kind=draw(st.sampled_from(["silence", "dead", "copy", "start", "end", "int"])),
                n_iter=draw(st.sampled_from([2, 10, 20])), taps=draw(st.integers(0, 2)),
                n_src=draw(st.sampled_from([None, 1])),
                n_fft=draw(st.sampled_from([32, 64])), hop4=draw(st.booleans()),
                L=draw(st.integers(700, 1500)), seed=draw(seeds))


def check_bss(c):
    rng = rng_of(c["seed"], 3)
    x = rng.standard_normal((c["C"], c["L"]))
    x = (np.eye(c["C"]) + 0.5 * rng.standard_normal((c["C"], c["C"]))) @ x * 0.1
    if c["kind"] == "silence":
        x[:] = 0
    elif c["kind"] == "dead":
        x[c["seed"] % c["C"]] = 0
    elif c["kind"] == "copy":
        x[-1] = x[0]
    elif c["kind"] == "start":
        x[:, : c["L"] // 2] = 0
    elif c["kind"] == "end":
        x[:, c["L"] // 2:] = 0
    elif c["kind"] == "int":
        x = np.round(x * 3000)
    sep = BSSSeparator(c["n_fft"], n_iter=c["n_iter"], n_taps=c["taps"], n_delay=1, algo=c["algo"],
                       n_src=c["n_src"] if c["algo"] == "tiss" else None,
                       hop_length=c["n_fft"] // 4 if c["hop4"] else None)
    with torch.no_grad():
        y = call(sep, T(x).to(torch.float32))
    if y.shape[-1] != c["L"]:
        raise Violation("output of %d samples for %d" % (y.shape[-1], c["L"]))
    expect_finite(y, "separated signal")
    if c["kind"] == "silence" and float(y.abs().max()) != 0:
        raise Violation("silence in, %.2g out" % float(y.abs().max()))
    return [c["algo"], c["kind"]]


FACETS = [
    Facet("stft-domain", case(), check, cases=(12000, 80000), weight=2,
          rule="every case: each is degenerate by construction"),
    Facet("time-domain", bss_case(), check_bss, cases=(1200, 6000), weight=3),
]
