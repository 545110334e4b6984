"""C21: the classic source models."""
from hypothesis import strategies as st

import torchiva
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_close, expect_dtype, expect_shape, tonp
from vlib.signals import T, flavours, rng_of, seeds, stft_like

RULE = "Random signals with silence, wide dynamics, real and complex, leading dimensions, eps"
ASSUMPTIONS = ["NMF: n_basis 1 to 4, the documented lower clamp eps on factors and estimate"]


@st.composite
def case(draw):
    return dict(model=draw(st.sampled_from(["laplace", "gauss"])),
                batch=draw(st.sampled_from([[1], [2], [3], [2, 2], []])),
                F=draw(st.integers(1, 6)), N=draw(st.integers(1, 20)),
                dtype=draw(st.sampled_from(["c128", "c64", "f64", "f32"])),
                eps=draw(st.sampled_from([None, None, 1e-3, 1e-8])),
                flavour=draw(flavours), zero=draw(st.sampled_from(["none", "frame", "all", "bin"])),
                gain=draw(st.sampled_from([1.0, 1e-3, 1e3])), seed=draw(seeds))


DT = dict(c128=torch.complex128, c64=torch.complex64, f64=torch.float64, f32=torch.float32)


def signal(c):
    n = int(np.prod(c["batch"], dtype=int))
    X = stft_like(c["seed"], max(n, 1), c["F"], c["N"], c["flavour"], c["gain"])
    X = X.reshape(tuple(c["batch"]) + (c["F"], c["N"]))
    if not c["dtype"].startswith("c"):
        X = X.real.copy()
    if c["zero"] == "frame":
        X[..., c["seed"] % c["N"]] = 0
    elif c["zero"] == "bin":
        X[..., c["seed"] % c["F"], :] = 0
    elif c["zero"] == "all":
        X[...] = 0
    return X


def check(c):
    X = signal(c)
    t = T(X, DT[c["dtype"]])
    cls = dict(laplace=torchiva.LaplaceModel, gauss=torchiva.GaussModel)[c["model"]]
    m = call(cls, eps=c["eps"])
    w = call(m, t)
    expect_shape(w, X.shape, "weights")
    expect_dtype(w, torch.float64 if c["dtype"] in ("c128", "f64") else torch.float32, "weights")
    eps = 1e-5 if c["eps"] is None else c["eps"]
    P = np.abs(X) ** 2
    if c["model"] == "laplace":
        r = 2 * np.sqrt(P.sum(axis=-2, keepdims=True))
    else:
        r = P.mean(axis=-2, keepdims=True)
    want = np.broadcast_to(1.0 / np.maximum(r, eps), X.shape)
    expect_close(w, want, 1e-9 if w.dtype == torch.float64 else 1e-4, "weights", axis=())
    return [c["model"], c["dtype"], "zero-" + c["zero"]]


def check_cost(c):
    """LaplaceModel.cost: mean over frames of the frame norm, summed over sources"""
    X = signal(dict(c, batch=c["batch"] or [1]))
    t = T(X, DT[c["dtype"]])
    v = call(torchiva.LaplaceModel().cost, t)
    want = np.sqrt((np.abs(X) ** 2).sum(axis=-2)).mean(axis=-1).sum(axis=-1)
    expect_close(tonp(v), want, 1e-4 if c["dtype"] in ("c64", "f32") else 1e-9, "cost")
    return ["cost"]


# ------------------------------------------------------------------ NMF
@st.composite
def nmf_case(draw):
    return dict(batch=draw(st.sampled_from([[1], [2], [3], [2, 2]])), F=draw(st.integers(2, 8)),
                N=draw(st.integers(2, 20)), basis=draw(st.integers(1, 4)),
                iters=draw(st.integers(1, 8)), flavour=draw(flavours), seed=draw(seeds),
                tseed=draw(st.integers(0, 1000)), low=draw(st.booleans()),
                dtype=draw(st.sampled_from(["c128", "c64"])))


def check_nmf(c):
    X = signal(dict(c, dtype=c["dtype"], zero="none", gain=1.0))
    rng = rng_of(c["seed"], 51)
    n = int(np.prod(c["batch"], dtype=int))
    if c["low"]:
        # power spectrum exactly of rank n_basis
        Tm = rng.uniform(0.2, 2, size=(n, c["F"], c["basis"]))
        Vm = rng.uniform(0.2, 2, size=(n, c["basis"], c["N"]))
        ph = np.exp(2j * np.pi * rng.uniform(size=(n, c["F"], c["N"])))
        X = (np.sqrt(Tm @ Vm) * ph).reshape(X.shape)
    t = T(X, DT[c["dtype"]])
    P = np.maximum(np.abs(tonp(t)).astype(float) ** 2, 1e-300)
    torch.manual_seed(c["tseed"])
    m = call(torchiva.NMFModel, n_basis=c["basis"])
    prev = None
    tol = 1e-9 if c["dtype"] == "c128" else 1e-4
    for it in range(c["iters"]):
        w = call(m, t)
        expect_shape(w, X.shape, "weights")
        w = tonp(w).astype(float)
        if not (np.all(np.isfinite(w)) and np.all(w > 0)):
            raise Violation("weights are not positive and finite")
        R = 1.0 / w
        if R.min() < 1.01e-5:
            raise Skip("estimate at the clamp")
        # the estimate has rank n_basis
        s = np.linalg.svd(R.reshape(n, c["F"], c["N"]), compute_uv=False)
        if s.shape[-1] > c["basis"]:
            if (s[..., c["basis"]] / s[..., 0]).max() > (1e-6 if c["dtype"] == "c128" else 1e-3):
                raise Violation("the variance estimate is not of rank n_basis = %d" % c["basis"])
        # Itakura-Saito divergence / Gaussian negative log-likelihood, per item
        J = (P * w - np.log(w)).reshape(n, -1).sum(axis=-1)
        if prev is not None and not np.all(J <= prev + tol * np.abs(prev) + tol):
            raise Violation("the divergence of the NMF model increased in update %d" % (it + 1))
        prev = J
    # reset forgets: same draw, same result
    m.reset()
    torch.manual_seed(c["tseed"])
    w1 = tonp(call(m, t))
    torch.manual_seed(c["tseed"])
    w2 = tonp(call(torchiva.NMFModel(n_basis=c["basis"]), t))
    expect_close(w1, w2, 1e-6, "weights after reset")
    # after a reset other dimensions are accepted
    m.reset()
    call(m, t[..., : max(1, c["F"] - 1), :])
    return ["basis%d" % c["basis"], "exact-rank" if c["low"] else "full", c["dtype"]]


def nmf_update(P, Tm, Vm, eps):
    """one sequential multiplicative update of the Itakura-Saito divergence, square root form"""
    R = np.maximum(Tm @ np.swapaxes(Vm, -1, -2), eps)
    Tm = np.maximum(Tm * np.sqrt(((P / R**2) @ Vm) / ((1 / R) @ Vm)), eps)
    R = np.maximum(Tm @ np.swapaxes(Vm, -1, -2), eps)
    Rt = np.swapaxes(R, -1, -2)
    Pt = np.swapaxes(P, -1, -2)
    Vm = np.maximum(Vm * np.sqrt(((Pt / Rt**2) @ Tm) / ((1 / Rt) @ Tm)), eps)
    return Tm, Vm, np.maximum(Tm @ np.swapaxes(Vm, -1, -2), eps)


def check_step(c):
    """every further update: from the factors the model holds, basis first, then activations"""
    X = signal(dict(c, gain=c["gain"]))
    t = T(X, DT[c["dtype"]])
    P = (np.abs(tonp(t)).astype(float) ** 2).reshape((-1,) + X.shape[-2:])
    torch.manual_seed(c["tseed"])
    kw = {} if c["eps"] is None else dict(eps=c["eps"])
    m = call(torchiva.NMFModel, n_basis=c["basis"], **kw)
    eps = 1e-5 if c["eps"] is None else c["eps"]
    call(m, t)
    n = 0
    for it in range(c["iters"]):
        if getattr(m, "T", None) is None or getattr(m, "V", None) is None:
            raise Skip("the model does not expose its factors")
        Tm, Vm = tonp(m.T).astype(float), tonp(m.V).astype(float)
        w = call(m, t)
        expect_shape(w, X.shape, "weights")
        w = tonp(w).astype(float)
        Tw, Vw, R = nmf_update(P, Tm, Vm, eps)
        tol = 1e-8 if c["dtype"] == "c128" else 2e-3
        expect_close(w.reshape(R.shape) * R, np.ones_like(R), tol, "weights after an update")
        n += 1
    return ["step", "zero-" + c["zero"], c["dtype"]] + (["clamped"] if R.min() <= eps else [])


@st.composite
def step_case(draw):
    c = draw(nmf_case())
    c.update(zero=draw(st.sampled_from(["none", "frame", "all", "bin"])),
             gain=draw(st.sampled_from([1.0, 1e-2, 1e2])), eps=draw(st.sampled_from([None, 1e-3, 1e-8])),
             iters=draw(st.integers(1, 4)), dtype=draw(st.sampled_from(["c128", "c128", "c64"])))
    return c


def check_fit(c):
    """with the true rank and enough updates, the model approaches the power spectrum"""
    n = 1
    rng = rng_of(c["seed"], 52)
    Tm = rng.uniform(0.2, 2, size=(1, c["F"], 1))
    Vm = rng.uniform(0.2, 2, size=(1, 1, c["N"]))
    P = Tm @ Vm
    X = np.sqrt(P) * np.exp(2j * np.pi * rng.uniform(size=P.shape))
    torch.manual_seed(c["tseed"])
    m = torchiva.NMFModel(n_basis=1)
    for _ in range(60):
        w = call(m, T(X))
    expect_close(1.0 / tonp(w), P, 1e-3, "rank-one variance estimate")
    return ["fit"]


@st.composite
def large(draw, base):
    c = draw(base)
    what = draw(st.sampled_from(["batch", "bins", "frames"]))
    if what == "batch":
        c["batch"] = draw(st.sampled_from([[7], [33], [5, 9], [2, 3, 2], [70], [130]]))
    elif what == "bins":
        c["F"] = draw(st.sampled_from([17, 33, 64, 65, 129, 257, 257, 513, 1025]))
    else:
        c["N"] = draw(st.sampled_from([64, 150, 257, 512, 1030, 2600]))
    if "basis" in c:
        c["basis"] = draw(st.sampled_from([c["basis"], 6, 10]))
        c["iters"] = draw(st.sampled_from([c["iters"], 15, 30]))
    return c


FACETS = [
    Facet("weights", case(), check, cases=(9600, 60000)),
    Facet("cost", case(), check_cost, cases=(1200, 5000)),
    Facet("nmf", nmf_case(), check_nmf, cases=(3200, 20000),
          nontrivial=lambda c, l: c["iters"] > 1, rule="two or more updates"),
    Facet("nmf-step", step_case(), check_step, cases=(3200, 20000),
          nontrivial=lambda c, l: "all" not in c["zero"], rule="a signal that is not all zero"),
    Facet("nmf-fit", nmf_case(), check_fit, cases=(240, 1000)),
    Facet("weights-large", large(case()), check, cases=(800, 6000), weight=3),
    Facet("cost-large", large(case()), check_cost, cases=(200, 2000), weight=3),
    Facet("nmf-large", large(nmf_case()), check_nmf, cases=(320, 3000), weight=4,
          nontrivial=lambda c, l: c["iters"] > 1, rule="two or more updates"),
    Facet("nmf-step-large", large(step_case()), check_step, cases=(320, 3000), weight=4,
          nontrivial=lambda c, l: "all" not in c["zero"], rule="a signal that is not all zero"),
]
