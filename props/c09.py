"""C09: WPE is iteratively reweighted delayed linear prediction."""
from hypothesis import strategies as st

import torchiva
from vlib import refs
from vlib.algos import WpeWeights, enlarge, np_wpe_weights
from vlib.boot import np
from vlib.diff import compare_with_reference
from vlib.harness import Facet, call, expect_close, tonp
from vlib.signals import T, flavours, gains, seeds, stft_like

RULE = "Random STFT data, channels 1-4, taps 1-4, delays 0-4, default or user weights"
ASSUMPTIONS = ["double precision inputs", "documented regularisation (eps) is part of the model"]


@st.composite
def case(draw):
    C = draw(st.integers(1, 4))
    taps = draw(st.integers(1, 4))
    delay = draw(st.integers(0, 4))
    return dict(C=C, taps=taps, delay=delay, F=draw(st.integers(1, 4)),
                N=draw(st.integers(3 * C * taps + delay + 8, 3 * C * taps + delay + 50)),
                n_iter=draw(st.sampled_from([1, 2, 3, 1, 2, 0])),
                model=draw(st.sampled_from(["default", "user"])),
                eps=draw(st.sampled_from([None, None, 1e-4, 1e-7])),
                via=draw(st.sampled_from(["init", "forward"])), flavour=draw(flavours),
                gain=draw(gains), seed=draw(seeds))


@st.composite
def large_case(draw):
    return enlarge(draw, draw(case()), kinds=("chan", "bins", "frames", "iter", "taps"))


def check(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    model = None if c["model"] == "default" else WpeWeights()
    kw = dict(n_iter=c["n_iter"], n_taps=c["taps"], n_delay=c["delay"])
    if c["eps"] is not None:
        kw["eps"] = c["eps"]
    if c["via"] == "init":
        alg = torchiva.WPE(model=model, **kw)
        run = lambda: alg(T(X))
    else:
        alg = torchiva.WPE(n_iter=2, n_taps=6, n_delay=5)
        run = lambda: alg(T(X), model=model, **kw)
    ref = lambda Z: refs.wpe(Z, c["n_iter"], c["taps"], c["delay"],
                             None if model is None else np_wpe_weights,
                             eps=1e-5 if c["eps"] is None else c["eps"])
    compare_with_reference(run, ref, X, "WPE output")
    return [c["model"], c["via"], "C%d" % c["C"], "delay%d" % min(c["delay"], 2),
            "it%d" % min(c["n_iter"], 2),
            "large-" + c.get("large", "none")]


FACETS = [
    Facet("reference", case(), check, cases=(14400, 60000),
                nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration was run"),
    Facet("large", large_case(), check, cases=(1200, 12000), weight=6,
          nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration was run"),
]
