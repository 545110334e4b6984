"""C05: T-ISS computes the published iterative-source-steering updates."""
from hypothesis import strategies as st

import torchiva
from vlib import refs
from vlib.algos import enlarge, make_model
from vlib.boot import np, torch
from vlib.diff import compare_with_reference
from vlib.harness import Facet
from vlib.signals import T, flavours, np_gauss, np_invpow, np_laplace, seeds, stft_like, gains

RULE = ("Random configuration (channels, sources, taps, delay, iterations, reference microphone, "
        "source model, eps) and random convolutive-like STFT data; non-trivial when at least one "
        "iteration ran and the reference output differs from the input by more than 1e-3")
ASSUMPTIONS = ["double precision inputs", "the documented regularisation constants (1e-5, 1e-3 for "
               "the background update) are part of the reference model"]

WF = {"laplace": np_laplace, "gauss": np_gauss, "invpow": np_invpow}


@st.composite
def case(draw):
    C = draw(st.sampled_from([2, 3, 3, 4, 2, 1]))
    n_src = draw(st.sampled_from([None] + list(range(1, C + 1))))
    taps = draw(st.integers(0, 4))
    delay = draw(st.integers(0, 3))
    F = draw(st.integers(1, 5))
    N = draw(st.integers(6 * C + 3 * C * taps + 6, 6 * C + 3 * C * taps + 40))
    return dict(C=C, n_src=n_src, taps=taps, delay=delay, F=F, N=N,
                n_iter=draw(st.sampled_from([1, 2, 3, 2, 3, 4, 5, 0])),
                eps=draw(st.sampled_from([None, None, 1e-4, 1e-7])),
                ref=draw(st.sampled_from([None] + 3 * list(range(C)))),
                model=draw(st.sampled_from(["laplace", "gauss", "invpow"])),
                dmc=draw(st.booleans()), via=draw(st.sampled_from(["init", "forward"])),
                flavour=draw(flavours), gain=draw(gains), seed=draw(seeds))


@st.composite
def large_case(draw):
    return enlarge(draw, draw(case()), kinds=("chan", "bins", "frames", "iter", "taps"))


def check(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    model = make_model(c["model"])
    kw = dict(n_iter=c["n_iter"], n_taps=c["taps"], n_delay=c["delay"], n_src=c["n_src"],
              use_dmc=c["dmc"], eps=c["eps"])
    if c["via"] == "init":
        alg = torchiva.T_ISS(model=model, proj_back_mic=c["ref"], **kw)
        run = lambda: alg(T(X))
    else:
        alg = torchiva.T_ISS(proj_back_mic=c["ref"], n_iter=7, n_taps=1, n_delay=1)
        run = lambda: alg(T(X), model=model, **kw)
    ref = lambda Z: refs.tiss(Z, c["n_iter"], c["taps"], c["delay"], c["n_src"],
                              WF[c["model"]](), c["ref"],
                              eps=1e-5 if c["eps"] is None else c["eps"])
    compare_with_reference(run, ref, X, "T_ISS output")
    S = c["C"] if c["n_src"] is None else c["n_src"]
    lab = ["det" if S == c["C"] else "over", "taps%d" % min(c["taps"], 2),
           "ref-none" if c["ref"] is None else ("ref-tgt" if c["ref"] < S else "ref-bg"),
           "dmc" if c["dmc"] else "nodmc", c["model"], c["via"]]
    if c["n_iter"] == 0:
        lab.append("no-iteration")
    if "large" in c:
        lab.append("large-" + c["large"])
    return lab


FACETS = [
    Facet("reference", case(), check, cases=(4800, 60000),
                nontrivial=lambda c, l: c["n_iter"] > 0,
                rule="at least one iteration was run"),
    Facet("large", large_case(), check, cases=(640, 6000), weight=6,
          nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration was run"),
]
