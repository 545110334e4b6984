"""shared parts of the beamformer properties"""
from hypothesis import strategies as st

from . import refs
from .algos import MaskNet, bf_config, build
from .boot import np, torch
from .harness import Violation, call, expect_shape, tonp
from .signals import T, flavours, rng_of, seeds, stft_like


class FixedMasks(torch.nn.Module):
    """oracle masks; records what the beamformer showed to the mask model"""

    def __init__(self, m):
        super().__init__()
        self.m = m
        self.seen = []

    def forward(self, X):
        self.seen.append(X.detach().clone())
        return self.m


def regularized(c):
    """eps is the (relative) diagonal loading of these"""
    return c["algo"] == "mwf" or (c["algo"] == "mvdr" and c["kind"] != "scm")


@st.composite
def bf_case(draw, algos):
    c = draw(bf_config(algos=algos))
    c.update(F=draw(st.integers(1, 4)), N=draw(st.integers(10 * c["C"], 10 * c["C"] + 40)),
             flavour=draw(flavours), gain=draw(st.sampled_from([1.0, 1.0, 0.3, 10.0, 1e3, 1e-2, 1e-4, 1e-5])),
             near=draw(st.sampled_from([0, 0, 0, 0.1, 0.03] if c["C"] == 2 else
                                       [0, 0, 0, 0.03, 3e-3])),
             depth=draw(st.sampled_from([1.0, 3.0, 6.0])),
             mscale=draw(st.sampled_from([1.0, 1.0, 1.0, 30.0, 0.01])), seed=draw(seeds))
    if c.get("n_power_iter") == 5:
        c["n_power_iter"] = draw(st.sampled_from([5, 300]))
    c["eps"] = draw(st.sampled_from([None, None, 1e-3, 0.1])) if regularized(c) else None
    return c


@st.composite
def large_case(draw, algos):
    """one dimension well beyond those of bf_case"""
    c = draw(bf_case(algos))
    kind = c["large"] = draw(st.sampled_from(["chan", "bins", "frames", "src"]))
    if kind == "chan":
        c["C"] = draw(st.sampled_from([5, 6, 7, 8, 9]))
        c["ref"] = draw(st.integers(0, c["C"] - 1))
        c["N"] = draw(st.integers(12 * c["C"], 15 * c["C"]))
        c["near"] = 0
    elif kind == "bins":
        c["F"] = draw(st.sampled_from([17, 33, 64, 65, 129, 257, 257, 513, 1025]))
    elif kind == "frames":
        c["N"] = draw(st.sampled_from([150, 257, 500, 512, 700, 1030, 1500, 2600, 4100]))
    else:
        c["n_src"] = draw(st.integers(4, 9))
    return c


def n_masks_of(c):
    if c["algo"] == "mvdr":
        return 3 if c["kind"] == "three" else 2
    if c["algo"] == "mwf":
        return 2 if c["ti"] else 4
    return 2


def setup(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    if c["near"]:
        # the last microphone nearly is a combination of the others
        rng = rng_of(c["seed"], 66)
        a = 1.0 + rng.uniform(size=(c["C"] - 1, c["F"], 1))
        X[-1] = (a * X[:-1]).sum(axis=0) + c["near"] * X[-1]
    net = MaskNet(c["n_src"], n_masks_of(c), seed=c["mseed"], depth=c["depth"])
    # the covariances are those of the masks, even if these exceed one
    m = net(T(X[c["ref"]] / c["gain"])).detach() * c["mscale"]
    return X, m


def closed_form(c, X, m):
    """what the closed form for two channels, which squares the condition number, may lose"""
    if c["C"] != 2:
        return 0.0
    M = m.numpy()
    k = max(np.linalg.cond(refs.weighted_cov(M[:, i], X)).max() for i in range(1, M.shape[1]))
    return 1e-14 * k * k


def run(c, X, m):
    fm = FixedMasks(m)
    alg = build(c, model=fm)
    Y = call(alg, T(X))
    expect_shape(Y, (c["n_src"], c["F"], c["N"]), "beamformer output")
    if not fm.seen or any(not np.allclose(tonp(s), X[c["ref"]]) for s in fm.seen):
        raise Violation("the mask model was not given the reference channel")
    return tonp(Y)


def filters(Y, X):
    """recover the time-invariant filter of every source and bin from input and output"""
    S, F = Y.shape[:2]
    W = np.zeros((S, F, X.shape[0]), dtype=complex)
    for f in range(F):
        sol = np.linalg.lstsq(X[:, f].T, Y[:, f].T, rcond=None)[0].T
        W[:, f] = sol
        res = np.linalg.norm(sol @ X[:, f] - Y[:, f])
        if res > 1e-6 * (np.linalg.norm(Y[:, f]) + 1e-30):
            raise Violation("the output is not a time-invariant linear filter of the input "
                            "(relative residual %.2g)" % (res / np.linalg.norm(Y[:, f])))
    return W.conj()  # y = w^H x
