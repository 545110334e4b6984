"""C07: AuxIVA-IP2 computes the exact two-source update."""
from hypothesis import strategies as st

import torchiva
from vlib import refs
from vlib.algos import enlarge, make_model
from vlib.boot import np
from vlib.diff import sensitivity
from vlib.harness import Facet, Skip, call, expect_close, expect_shape, tonp
from vlib.signals import T, flavours, np_gauss, np_invpow, np_laplace, seeds, stft_like

RULE = "Random two-channel STFT data over several orders of magnitude of level"
ASSUMPTIONS = ["double precision inputs"]
WF = {"laplace": np_laplace, "gauss": np_gauss, "invpow": np_invpow}


@st.composite
def case(draw):
    return dict(F=draw(st.integers(1, 6)), N=draw(st.integers(16, 70)),
                n_iter=draw(st.sampled_from([1, 2, 3, 2, 3, 4, 5, 0])),
                ref=draw(st.sampled_from([None, 0, 0, 1, 1])),
                model=draw(st.sampled_from(["laplace", "gauss", "invpow"])),
                via=draw(st.sampled_from(["init", "forward"])), flavour=draw(flavours),
                gain=draw(st.sampled_from([1.0, 1.0, 0.1, 0.01, 1e-3, 10.0, 300.0, 3e4])),
                seed=draw(seeds))


@st.composite
def large_case(draw):
    return enlarge(draw, draw(case()), kinds=("bins", "frames", "iter"))


def check(c):
    X = stft_like(c["seed"], 2, c["F"], c["N"], c["flavour"], c["gain"])
    model = make_model(c["model"])
    if c["via"] == "init":
        alg = torchiva.AuxIVA_IP2(model=model, proj_back_mic=c["ref"], n_iter=c["n_iter"])
        run = lambda: alg(T(X))
    else:
        alg = torchiva.AuxIVA_IP2(proj_back_mic=c["ref"], n_iter=7)
        run = lambda: alg(T(X), model=model, n_iter=c["n_iter"])
    cond = [1.0]

    def ref(Z):
        Y, k = refs.auxiva_ip2(Z, c["n_iter"], WF[c["model"]](), c["ref"])
        cond[0] = max(cond[0], k)
        return Y

    Y0, amp = sensitivity(ref, X) if c["ref"] is not None else (ref(X), 1.0)
    if c["ref"] is None:
        # only the magnitudes are determined: the phase of an eigenvector is arbitrary
        f = lambda Z: np.abs(ref(Z))
        Y0, amp = sensitivity(f, X)
    if amp > 1e5 or cond[0] > 1e4:
        raise Skip("ill conditioned (nearly equal eigenvalues)")
    Y = call(run)
    expect_shape(Y, X.shape, "AuxIVA_IP2 output")
    Y = tonp(Y)
    tol = 1e-8 * max(1.0, amp, cond[0])
    if c["ref"] is None:
        Y = np.abs(Y)
    expect_close(Y, Y0, tol, "AuxIVA_IP2 output", axis=(0, 2))
    lab = ["ref-none" if c["ref"] is None else "ref-%d" % c["ref"], c["model"], c["via"],
           "gain%g" % c["gain"]]
    if c["n_iter"] == 0:
        lab.append("no-iteration")
    if "large" in c:
        lab.append("large-" + c["large"])
    return lab


FACETS = [
    Facet("reference", case(), check, cases=(9600, 60000),
                nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration was run"),
    Facet("large", large_case(), check, cases=(1200, 12000), weight=6,
          nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration was run"),
]
