"""C20: resolving the scale ambiguity against a reference signal."""
from hypothesis import strategies as st

import torchiva
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_close, expect_shape, relerr, tonp
from vlib.signals import (ParamModel, T, crandn, flavours, np_gauss, np_laplace, rng_of, seeds, stft_like)

RULE = ("Random STFT data and references (correlated, exact multiples, with outliers), exponents "
        "p, q, leading dimensions; optimality against perturbed filters, closed forms and "
        "equivariance")
ASSUMPTIONS = ["double precision", "levels around one (the code clamps powers at 1e-5)"]


def arr(c, extra=0):
    X = stft_like(c["seed"] + extra, c["C"], c["F"], c["N"], c["flavour"])
    rng = rng_of(c["seed"], 2 + extra)
    h = crandn(rng, c["C"], c["F"], 1)
    ref = (h * X).sum(axis=0) + 0.3 * crandn(rng, c["F"], c["N"])
    return X, ref


@st.composite
def case(draw, cmin=1):
    C = draw(st.integers(cmin, 4))
    return dict(C=C, F=draw(st.integers(1, 5)), N=draw(st.integers(4 * C + 4, 40 + 4 * C)),
                flavour=draw(flavours), seed=draw(seeds),
                p=draw(st.sampled_from([None, None, 2.0, 1.0, 1.0, 0.5, 1.5, 1.9])),
                q=draw(st.sampled_from([None, None, 2.0, 2.0, 1.0, 1.5])),
                outliers=draw(st.booleans()),
                phase=draw(st.floats(0, 1)), mag=draw(st.sampled_from([0.5, 1.0, 2.0, 10.0])))


@st.composite
def large_case(draw, cmin=1):
    c = draw(case(cmin=cmin))
    what = c["large"] = draw(st.sampled_from(["chan", "bins", "frames"]))
    if what == "chan":
        c["C"] = draw(st.integers(5, 8))
        c["N"] += 32
    elif what == "bins":
        c["F"] = draw(st.sampled_from([17, 33, 64, 65, 129, 257, 257, 513, 1025]))
    else:
        c["N"] = draw(st.sampled_from([150, 257, 512, 700, 1030, 1500, 2600, 4100]))
    return c


def filt(Z, Y):
    """the per-channel, per-bin factor Z = c Y; and that Z is such a multiple"""
    n = (np.abs(Y) ** 2).sum(axis=-1)
    k = (Z * Y.conj()).sum(axis=-1) / n
    r = relerr(Z, k[..., None] * Y)
    if r > 1e-8:
        raise Violation("the output is not the input times one factor per channel and bin "
                        "(residual %.3g)" % r)
    return k


def check_l2(c):
    X, ref = arr(c)
    Y = tonp(call(torchiva.minimum_distortion, T(X), T(ref)))
    if Y.shape != X.shape:
        raise Violation("shape %s for %s" % (Y.shape, X.shape))
    k = filt(Y, X)
    want = (ref[None] * X.conj()).sum(axis=-1) / (np.abs(X) ** 2).sum(axis=-1)
    expect_close(k, want, 1e-9, "least-squares factor")
    Y2 = tonp(call(torchiva.minimum_distortion, T(X), T(ref), p=2.0))
    expect_close(Y2, Y, 1e-9, "p = 2")
    # idempotent; independent of the scale of the separated signals
    Y3 = tonp(call(torchiva.minimum_distortion, T(Y), T(ref)))
    if np.abs(want).min() > 1e-2:
        expect_close(Y3, Y, 1e-7, "second application")
    rng = rng_of(c["seed"], 9)
    g = np.exp(rng.uniform(-1, 1, size=(c["C"], c["F"], 1)) + 2j * np.pi * rng.uniform(
        size=(c["C"], c["F"], 1)))
    expect_close(tonp(call(torchiva.minimum_distortion, T(g * X), T(ref))), Y, 1e-8,
                 "rescaled separated signals")
    return ["l2", c["flavour"]]


def cost_of(E, p, q):
    """E (C,F,N). p alone: sum |E|^p; mixed: sum over frames of (sum_f |E|^q)^(p/q). Near zero
    the norms are smoothed, with constants small for the signals here, as the weights of the
    iterations have to be bounded"""
    a = np.abs(E)
    if q is None or p == q:
        t = (0.5e-5) ** (1.0 / (2.0 - p))
        return np.where(a > t, a ** p, t ** p + p * 1e5 * (a ** 2 - t ** 2)).sum(axis=-1)  # (C, F)
    return ((((a + 1e-5) ** q + 1e-5).sum(axis=-2)) ** (p / q)).sum(axis=-1)  # (C,)


def check_lp(c):
    p, q = c["p"], c["q"]
    if p is None or (p == 2.0):
        raise Skip("least squares")
    if q is not None and q < p:
        q = None
    X, ref = arr(c)
    if c["outliers"]:
        rng = rng_of(c["seed"], 21)
        idx = rng.uniform(size=c["N"]) < 0.15
        ref = ref + idx * 20 * crandn(rng, c["F"], c["N"])
    prev = None
    for it in (1, 2, 3, 5, 10, 40):
        Y = tonp(call(torchiva.minimum_distortion, T(X), T(ref), p=p, q=q, max_iter=it, rtol=0.0))
        filt(Y, X)
        J = cost_of(ref[None] - Y, p, q)
        if prev is not None and not np.all(J <= prev * (1 + 1e-4) + 1e-5):
            raise Violation("the distortion increased with iterations: %.9g to %.9g"
                            % (prev.max(), J.max()))
        prev = J
    # no worse than the least-squares solution when started long enough, for convex norms
    if p >= 1.0:
        L2 = tonp(call(torchiva.minimum_distortion, T(X), T(ref)))
        J2 = cost_of(ref[None] - L2, p, q)
        if not np.all(prev <= J2 * 1.01 + 1e-3):
            raise Violation("the l_p solution is worse than least squares in its own norm")
    # the stopping rule ends close to the limit
    Yr = tonp(call(torchiva.minimum_distortion, T(X), T(ref), p=p, q=q, max_iter=200, rtol=1e-2))
    Jr = cost_of(ref[None] - Yr, p, q)
    if p >= 1.0 and not np.all(Jr <= prev * 1.3 + 1e-3):
        raise Violation("stopped far from the optimum: %.6g against %.6g" % (Jr.max(), prev.max()))
    return ["p%g" % p, "q%s" % q, "outliers" if c["outliers"] else "clean"]


def check_exact(c):
    """a reference that is a multiple of every channel is matched exactly, whatever the norm"""
    rng = rng_of(c["seed"], 31)
    s = stft_like(c["seed"], 1, c["F"], c["N"], "mix")[0]
    h = np.exp(rng.uniform(-1, 1, size=(c["C"], c["F"], 1)) + 2j * np.pi * rng.uniform(
        size=(c["C"], c["F"], 1)))
    X = h * s
    p, q = c["p"], c["q"]
    if p is None or p == 2.0:
        kw = {}
    else:
        kw = dict(p=p, q=q if q is None or q >= p else None, max_iter=60, rtol=0.0)
    Y = tonp(call(torchiva.minimum_distortion, T(X), T(s), **kw))
    expect_close(Y, np.broadcast_to(s, Y.shape), 1e-3 if kw else 1e-9, "exact multiple")
    return ["exact", str(sorted(kw))]


def check_phase(c):
    X, ref = arr(c)
    Y = tonp(call(torchiva.minimum_distortion_l2_phase, T(X), T(ref)))
    corr = (ref[None] * X.conj()).mean(axis=-1)
    if np.abs(corr).min() < 1e-4:
        raise Skip("uncorrelated with the reference")
    k = filt(Y, X)
    expect_close(np.abs(k), np.ones_like(np.abs(k)), 1e-9, "magnitude of the phase correction")
    expect_close(k, corr / np.abs(corr), 1e-9, "phase correction")
    return ["phase"]


def check_projback(c):
    """signals that are an invertible mixture of channels, one of which is the reference"""
    C = c["C"]
    X = stft_like(c["seed"], C, c["F"], c["N"], "mix" if c["flavour"] == "bursts" else c["flavour"])
    rng = rng_of(c["seed"], 41)
    from vlib.signals import mixing
    W = mixing(rng, c["F"], C, 0.5)
    Y = np.einsum("fsc,cfn->sfn", W, X)
    r = c["seed"] % C
    Z = tonp(call(torchiva.projection_back, T(Y), T(X[r])))
    if Z.shape != Y.shape:
        raise Violation("shape %s for %s" % (Z.shape, Y.shape))
    k = filt(Z, Y)
    want = np.linalg.inv(W)[:, r, :].T  # (C, F)
    # it solves one C x C system of the strongest frames; its conditioning limits the accuracy
    s = np.sort(np.abs(Y.transpose(1, 0, 2)).sum(axis=(0, 1)))
    idx = np.argsort(np.abs(Y).sum(axis=(0, 1)))[-C:]
    worst = max(np.linalg.cond(Y[:, f][:, idx]) / np.linalg.norm(Y[:, f][:, idx], 2)
                for f in range(c["F"]))
    if worst > 100:
        raise Skip("ill-conditioned frames")
    expect_close(k, want, 5e-5 * max(1.0, worst) * C, "projection back factors",
                 floor=np.abs(want).max())
    expect_close(Z.sum(axis=0), X[r], 1e-4 * max(1.0, worst) * C, "sum of projected sources")
    return ["C%d" % C]


@st.composite
def batch_case(draw):
    c = draw(case())
    c["fn"] = draw(st.sampled_from(["md", "phase", "pb", "lp"]))
    return c


def check_linear_ref(c):
    """multiplying the reference multiplies the result (phase correction: rotates it)"""
    X, ref = arr(c)
    g = c["mag"] * np.exp(2j * np.pi * c["phase"])
    f = dict(md=torchiva.minimum_distortion, phase=torchiva.minimum_distortion_l2_phase,
             pb=torchiva.projection_back,
             lp=lambda Y, r: torchiva.minimum_distortion(Y, r, p=1.0, max_iter=1))[c["fn"]]
    if c["fn"] == "lp":
        # invariance to a common rotation of signal and reference
        u = np.exp(2j * np.pi * c["phase"])
        a = tonp(call(f, T(u * X), T(u * ref)))
        expect_close(a, u * tonp(call(f, T(X), T(ref))), 1e-8, "common rotation")
        return ["lp"]
    a = tonp(call(f, T(X), T(g * ref)))
    b = tonp(call(f, T(X), T(ref)))
    if c["fn"] == "phase":
        corr = (ref[None] * X.conj()).mean(axis=-1)
        if np.abs(corr).min() < 1e-4:
            raise Skip("uncorrelated with the reference")
        g = g / abs(g)
    expect_close(a, g * b, 1e-8, "multiplied reference")
    return [c["fn"]]


@st.composite
def step_case(draw):
    c = draw(case())
    c["p"] = draw(st.sampled_from([0.3, 0.5, 0.8, 1.0, 1.0, 1.5, 1.9]))
    c["q"] = draw(st.sampled_from([None, 2.0, 2.0, 1.0, 1.5]))
    c["n"] = draw(st.sampled_from([1, 1, 2, 2, 3, 5, 8, 10, 11, 19, 20, 21, 22, 30, 49, 50, 51, 52,
                                   64, 99, 100, 101, 102, 128, 150, 201]))
    c["lead"] = draw(st.sampled_from([[], [], [], [2], [1, 2]]))
    c["model"] = draw(st.sampled_from([None, None, None, "laplace", "gauss", "soft", "param"]))
    return c


class Soft(torch.nn.Module):
    def forward(self, E):
        return 1.0 / (0.2 + E.abs())


def weight_model(name):
    """the same weights for tensors and for arrays; another one for every bin and source"""
    if name == "laplace":
        return torchiva.LaplaceModel(), np_laplace()
    if name == "gauss":
        return torchiva.GaussModel(), np_gauss()
    if name == "soft":
        return Soft(), lambda E: 1.0 / (0.2 + np.abs(E))
    m = ParamModel(5)
    return m, lambda E: tonp(m(T(E)))


def mm_step(X, ref, k, p, q, model=None):
    """one step of the minimisation from the factors k (C, F): weighted least squares with the
    weights that majorise the norm at the current error"""
    E = np.abs(ref[None] - k[..., None] * X)  # (C, F, N)
    if model is not None:
        w = model(ref[None] - k[..., None] * X)
        w = w / np.maximum(w.sum(axis=-1, keepdims=True), 1e-5)
    elif q is None or p == q:
        w = p / np.maximum(2.0 * E ** (2.0 - p), 1e-5)
    else:
        E = E + 1e-5
        r = (E ** q + 1e-5).sum(axis=-2, keepdims=True) ** (1.0 - p / q)
        w = p / np.maximum(2.0 * r * E ** (2.0 - q), 1e-5)
    num = (ref[None] * X.conj() * w).sum(axis=-1)
    return num / np.maximum((np.abs(X) ** 2 * w).sum(axis=-1), 1e-5)


def check_step(c):
    """as many iterations as asked for: what n iterations give is one step from what n - 1 give"""
    p, q = c["p"], c["q"]
    if q is not None and q < p:
        q = None
    X, ref = arr(c)
    if c["outliers"]:
        rng = rng_of(c["seed"], 21)
        idx = rng.uniform(size=c["N"]) < 0.15
        ref = ref + idx * 20 * crandn(rng, c["F"], c["N"])
    kw, npm = dict(p=p, q=q, rtol=0.0), None
    if c.get("model"):
        kw["model"], npm = weight_model(c["model"])
        if c["n"] % 2:
            del kw["p"], kw["q"]
    lead = tuple(c["lead"])
    XX, RR = np.broadcast_to(X, lead + X.shape).copy(), np.broadcast_to(ref, lead + ref.shape).copy()
    if lead:
        # the other items are other signals; the last one is compared
        XX.reshape((-1,) + X.shape)[:-1] *= 0.5
        RR.reshape((-1,) + ref.shape)[:-1, ..., ::-1] += XX.reshape((-1,) + X.shape)[:-1, 0]
    XX, RR = T(XX), T(RR)

    def factor(n):
        Y = tonp(call(torchiva.minimum_distortion, XX, RR, max_iter=n, **kw))
        return filt(Y.reshape((-1,) + X.shape)[-1], X)

    n = c["n"]
    k0 = np.ones(X.shape[:2]) if n == 1 else factor(n - 1)
    k1 = factor(n)
    want = mm_step(X, ref, k0, p, q, npm)
    expect_close(k1, want, 1e-7, "factor after %d iterations, from the one after %d" % (n, n - 1))
    moving = relerr(k1, k0) > 1e-5
    return ["moving" if moving else "converged", "n%d" % n, "p%g" % p, "q%s" % q,
            "model-%s" % c.get("model")]


FACETS = [
    Facet("steps", step_case(), check_step, cases=(2400, 20000), weight=2,
          nontrivial=lambda c, l: "moving" in l, rule="the iterations have not converged yet"),
    Facet("least-squares", case(), check_l2, cases=(2400, 20000)),
    Facet("lp", case(), check_lp, cases=(3000, 20000), weight=3, rule="p given and below 2"),
    Facet("exact", case(), check_exact, cases=(1800, 15000)),
    Facet("phase", case(), check_phase, cases=(1500, 10000), rule="correlated with the reference"),
    Facet("projection-back", case(cmin=2), check_projback, cases=(2400, 20000),
          rule="well-conditioned frames"),
    Facet("reference-linearity", batch_case(), check_linear_ref, cases=(1800, 15000)),
    Facet("least-squares-large", large_case(), check_l2, cases=(320, 3000), weight=4),
    Facet("lp-large", large_case(), check_lp, cases=(320, 3000), weight=4,
          rule="p given and below 2"),
    Facet("exact-large", large_case(), check_exact, cases=(240, 2000), weight=4),
    Facet("phase-large", large_case(), check_phase, cases=(240, 2000), weight=4,
          rule="correlated with the reference"),
    Facet("projection-back-large", large_case(cmin=2), check_projback, cases=(320, 3000),
          weight=4, rule="well-conditioned frames"),
]
