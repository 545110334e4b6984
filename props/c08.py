"""C08: FIVE extracts the source of the minimum-eigenvalue filter after whitening."""
from hypothesis import strategies as st

import torchiva
from vlib import refs
from vlib.algos import enlarge, make_model
from vlib.boot import np
from vlib.diff import sensitivity
from vlib.harness import Facet, Skip, Violation, call, expect_close, expect_shape, tonp
from vlib.signals import T, flavours, gains, np_gauss, np_invpow, np_laplace, seeds, stft_like

RULE = "Random multichannel STFT data, 2 to 4 channels, with eigen or power iteration"
ASSUMPTIONS = ["double precision inputs", "cases with (nearly) repeated eigenvalues are outside "
               "the domain: the extracted filter is not determined there"]
WF = {"laplace": np_laplace, "gauss": np_gauss, "invpow": np_invpow}


@st.composite
def case(draw):
    C = draw(st.integers(2, 4))
    return dict(C=C, F=draw(st.integers(2, 6)), N=draw(st.integers(8 * C, 8 * C + 50)),
                n_iter=draw(st.sampled_from([1, 2, 3, 2, 3, 4, 0])),
                ref=draw(st.sampled_from([None] + 3 * list(range(C)))),
                model=draw(st.sampled_from(["laplace", "gauss", "invpow"])),
                via=draw(st.sampled_from(["init", "forward"])),
                power=draw(st.sampled_from([None, None, None, 400])),
                flavour=draw(flavours), gain=draw(gains), seed=draw(seeds))


@st.composite
def large_case(draw):
    return enlarge(draw, draw(case()))


def check(c):
    if c["power"] is not None and c["gain"] > 300:
        raise Skip("the power method loads its matrix with an absolute constant")
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    model = make_model(c["model"])
    kw = dict(n_iter=c["n_iter"], n_power_iter=c["power"])
    if c["via"] == "init":
        alg = torchiva.FIVE(model=model, proj_back_mic=c["ref"], **kw)
        run = lambda: alg(T(X))
    else:
        alg = torchiva.FIVE(proj_back_mic=c["ref"], n_iter=7)
        run = lambda: alg(T(X), model=model, **kw)
    cond, starts = [1.0], [1.0]

    def ref(Z):
        Y, k = refs.five(Z, c["n_iter"], WF[c["model"]](), c["ref"], starts)
        cond[0] = max(cond[0], k)
        return np.abs(Y) if c["ref"] is None else Y

    Y0, amp = sensitivity(ref, X)
    if amp > 1e5 or cond[0] > (1e4 if c["power"] is None else 20.0):
        raise Skip("nearly repeated eigenvalues")
    if c["power"] is not None and min(starts) < 1e-6:
        # quiet signals under the floor of the weights: the whitened covariance stays diagonal
        raise Skip("the start of the power iteration is orthogonal to the filter it looks for")
    Y = call(run)
    expect_shape(Y, (1, c["F"], c["N"]), "FIVE output")
    Y = tonp(Y)
    if c["ref"] is None:
        Y = np.abs(Y)
    tol = 1e-8 * max(1.0, amp, cond[0])
    if c["power"] is not None:
        # the power method inverts a matrix loaded with 1e-5 of its largest entry
        tol = max(tol, 1e-3 * max(1.0, min(amp, 30.0)))
    expect_close(Y, Y0, tol, "FIVE output", axis=(0, 2), floor=1e-9)
    if np.abs(Y[:, 0]).max() != 0.0:
        raise Violation("the DC bin of the FIVE output is not zero")
    return ["C%d" % c["C"], "ref-none" if c["ref"] is None else "ref", c["model"], c["via"],
            "eigh" if c["power"] is None else "power", "it%d" % min(c["n_iter"], 2),
            "large-" + c.get("large", "none")]


FACETS = [
    Facet("reference", case(), check, cases=(9600, 60000),
                nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration was run"),
    Facet("large", large_case(), check, cases=(1200, 12000), weight=6,
          nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration was run"),
]
