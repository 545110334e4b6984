"""C13: projection back - sources add up to the reference microphone; level and phase of the input
carry over to the output."""
from hypothesis import strategies as st

import torchiva
from vlib import algos, refs
from vlib.boot import np, torch
from vlib.diff import PERT
from vlib.harness import Facet, Skip, Violation, call, expect_close, relerr, tonp
from vlib.signals import T, flavours, rng_of, seeds, stft_like

RULE = ("Random configuration and data; the sum of the projected sources is compared with the "
        "reference channel, and the output for a complex multiple of the input with the multiple of "
        "the output")
ASSUMPTIONS = ["double precision", "the diagonal loading (1e-5) of the projection limits the first "
               "identity to 2e-4 over the squared smallest singular value of the normalised demixing "
               "matrix",
               "gains between 1/4 and 100 (up to 1e4 for the algorithms without absolute thresholds)"]


@st.composite
def sum_case(draw):
    c = draw(algos.iva_config(algos=("tiss", "tiss", "ip", "ip2"), max_chan=4, max_iter=5,
                              models=("laplace", "gauss", "invpow")))
    if "n_src" in c:
        c["n_src"] = draw(st.sampled_from([None, c["C"]]))
    c["ref"] = draw(st.integers(0, c["C"] - 1))
    nm = algos.min_frames(c)
    c.update(F=draw(st.integers(1, 4)), N=draw(st.integers(nm, nm + 30)), seed=draw(seeds),
             flavour=draw(flavours), gain=draw(st.sampled_from([1.0, 0.3, 10.0, 100.0])))
    return c


def check_sum(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    Y = tonp(call(algos.build(c), T(X)))
    Y0 = tonp(call(algos.build(dict(c, ref=None)), T(X)))
    taps = c.get("n_taps", 0)
    worst = 0.0
    for f in range(c["F"]):
        B = X[:, f]
        if taps:
            B = np.concatenate((B, refs.delayed(X, taps, c["n_delay"])[:, f].reshape(
                c["C"] * taps, -1)))
        s = np.linalg.svd(B, compute_uv=False)
        if s[-1] < 1e-3 * s[0]:
            raise Skip("rank-deficient data")
        G = np.linalg.lstsq(B.T, Y[:, f].T, rcond=None)[0].T  # (S, C + C taps)
        if np.linalg.norm(G @ B - Y[:, f]) > 1e-6 * np.linalg.norm(Y[:, f]):
            raise Violation("the sources are not linear in the (delayed) channels")
        P = G[:, : c["C"]]
        W = np.linalg.lstsq(B.T, Y0[:, f].T, rcond=None)[0].T[:, : c["C"]]
        cols = W / np.linalg.norm(W, axis=0, keepdims=True)
        ratio = np.linalg.norm(W, axis=0).max() / np.linalg.norm(W[:, c["ref"]])
        k = 1.0 / np.linalg.svd(cols, compute_uv=False)[-1]
        if k > 30:
            continue
        worst = max(worst, 1.0)
        e = np.zeros(c["C"])
        e[c["ref"]] = 1.0
        # the filters of the sources add up to "pick the reference microphone" at lag 0
        d = np.linalg.norm(P.sum(axis=0) - e)
        tol = 1e-7 * k if c["algo"] == "ip2" else 2e-4 * k ** 2 * ratio
        if not d <= tol * max(1.0, np.linalg.norm(P)):
            raise Violation("the projected sources add up to the reference microphone only to "
                            "%.3g (tolerance %.3g)" % (d, tol))
    if not worst:
        raise Skip("ill conditioned")
    return [algos.label(c), "ref%d" % c["ref"]]


@st.composite
def gain_case(draw):
    c = draw(st.one_of(
        algos.iva_config(algos=("tiss", "tiss", "ip", "ip2", "five"), max_chan=4, max_iter=4,
                         models=("laplace", "gauss")),
        algos.iva_config(algos=("wpe",), max_iter=3).filter(lambda c: c["C"] > 1),
        algos.bf_config()))
    if "ref" in c and c["ref"] is None:
        c["ref"] = 0
    if c["algo"] == "wpe":
        c["model"] = "none"
    nm = algos.min_frames(c)
    c.update(F=draw(st.integers(3, 5)), N=draw(st.integers(nm, nm + 30)), seed=draw(seeds),
             flavour=draw(flavours.filter(lambda f: f != "bursts")), g=draw(st.sampled_from([0.25, 0.5, 2.0, 10.0, 100.0])),
             phase=draw(st.sampled_from([0.0, 0.5, 1.0, 0.123])))
    return c


def run(c, X, masks=None):
    if masks is not None:
        from vlib.bf import FixedMasks
        return tonp(call(algos.build(c, model=FixedMasks(masks)), T(X)))
    return tonp(call(algos.build(c), T(X)))


def check_gain(c):
    # weights clamp the power at 1e-5: stay well above
    base = dict(wpe=30.0, five=3.0).get(c["algo"], 1.0)
    if c["algo"] == "five" and c["g"] * base > 50:
        c["g"] = 10.0
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], base)
    masks = None
    if c["algo"] in ("mvdr", "mwf", "gev"):
        from vlib.bf import n_masks_of
        masks = algos.MaskNet(c["n_src"], n_masks_of(c), seed=c["mseed"])(T(X[c["ref"]])).detach()
    g = c["g"] * np.exp(2j * np.pi * c["phase"])
    Y = run(c, X, masks)
    if c["algo"] == "wpe":
        w = 1.0 / np.maximum((np.abs(Y) ** 2).mean(axis=0), 1e-5)
        if (w > 0.3 * w.sum(axis=-1, keepdims=True)).any():
            raise Skip("weights degenerate to a single frame")
    rng = rng_of(c["seed"], 3)
    D = rng.standard_normal(X.shape) + 1j * rng.standard_normal(X.shape)
    # how much the output moves for a relative change of 1e-7 of the input
    amp = relerr(run(c, X * (1 + 1e-7 * D), masks), Y) / 1e-7
    tol = (3e-2 if c["algo"] == "five" else 5e-3) * max(1.0, amp)
    if tol > 0.3:
        raise Skip("ill conditioned")
    Yg = run(c, g * X, masks)
    expect_close(Yg, g * Y, tol, "output for a multiplied input")
    return [algos.label(c), "g%g" % c["g"]]


@st.composite
def large_sum(draw):
    return algos.enlarge(draw, draw(sum_case()), ("bins", "frames", "iter"))


@st.composite
def large_gain(draw):
    return algos.enlarge(draw, draw(gain_case()), ("bins", "frames"))


FACETS = [
    Facet("sum", sum_case(), check_sum, cases=(4800, 40000),
          rule="demixing filters of condition number below 30 in some bin"),
    Facet("gain", gain_case(), check_gain, cases=(4800, 40000), weight=2,
          rule="sensitivity of the output to the input below 60 (10 for FIVE)"),
    Facet("large-sum", large_sum(), check_sum, cases=(480, 4000), weight=4,
          rule="demixing filters of condition number below 30 in some bin"),
    Facet("large-gain", large_gain(), check_gain, cases=(480, 4000), weight=4,
          rule="sensitivity of the output to the input below 60 (10 for FIVE)"),
]
