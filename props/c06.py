"""C06: AuxIVA-IP / OverIVA-IP compute the published iterative-projection updates."""
from hypothesis import strategies as st

import torchiva
from vlib import refs
from vlib.algos import enlarge, make_model
from vlib.diff import compare_with_reference
from vlib.harness import Facet
from vlib.signals import T, flavours, gains, np_gauss, np_invpow, np_laplace, seeds, stft_like

RULE = ("Random configuration (channels, sources, iterations, reference microphone, source model, "
        "eps) and random STFT data")
ASSUMPTIONS = ["double precision inputs", "documented regularisation (eps) is part of the model"]
WF = {"laplace": np_laplace, "gauss": np_gauss, "invpow": np_invpow}


@st.composite
def case(draw):
    C = draw(st.sampled_from([2, 3, 3, 4, 2, 1]))
    return dict(C=C, n_src=draw(st.sampled_from([None] + 2 * list(range(1, C + 1)))),
                F=draw(st.integers(1, 5)), N=draw(st.integers(8 * C + 4, 8 * C + 40)),
                n_iter=draw(st.sampled_from([1, 2, 3, 2, 3, 4, 5, 0])),
                ref=draw(st.sampled_from([None] + 3 * list(range(C)))),
                eps=draw(st.sampled_from([None, None, 1e-4, 1e-7])),
                model=draw(st.sampled_from(["laplace", "gauss", "invpow"])),
                via=draw(st.sampled_from(["init", "forward"])),
                flavour=draw(flavours), gain=draw(gains), seed=draw(seeds))


@st.composite
def large_case(draw):
    return enlarge(draw, draw(case()))


def check(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    model = make_model(c["model"])
    kw = dict(n_iter=c["n_iter"], n_src=c["n_src"], eps=c["eps"])
    if c["via"] == "init":
        alg = torchiva.AuxIVA_IP(model=model, proj_back_mic=c["ref"], **kw)
        run = lambda: alg(T(X))
    else:
        alg = torchiva.AuxIVA_IP(proj_back_mic=c["ref"], n_iter=7)
        run = lambda: alg(T(X), model=model, **kw)
    ref = lambda Z: refs.auxiva_ip(Z, c["n_iter"], c["n_src"], WF[c["model"]](), c["ref"],
                                   eps=1e-5 if c["eps"] is None else c["eps"])
    compare_with_reference(run, ref, X, "AuxIVA_IP output")
    S = c["C"] if c["n_src"] is None else c["n_src"]
    lab = ["det" if S == c["C"] else "over",
           "ref-none" if c["ref"] is None else ("ref-tgt" if c["ref"] < S else "ref-bg"),
           c["model"], c["via"]]
    if c["n_iter"] == 0:
        lab.append("no-iteration")
    if "large" in c:
        lab.append("large-" + c["large"])
    return lab


FACETS = [
    Facet("reference", case(), check, cases=(9600, 60000),
                nontrivial=lambda c, l: c["n_iter"] > 0,
                rule="at least one iteration was run"),
    Facet("large", large_case(), check, cases=(1200, 12000), weight=6,
          nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration was run"),
]
