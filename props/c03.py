"""C03: demixing-matrix checkpointing changes memory use, not results."""
from hypothesis import strategies as st

import torchiva
from vlib import algos
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_close, relerr, tonp
from vlib.signals import ParamModel, T, flavours, rng_of, seeds, stft_like

RULE = ("Random T-ISS configuration, trainable source model (with and without dropout) and loss; "
        "outputs and gradients with use_dmc on and off")
ASSUMPTIONS = ["double precision", "stateless source models (NMF and batch normalisation in "
               "training mode keep state, which re-evaluation changes)"]


class DropModel(torch.nn.Module):
    """weights with dropout: the recomputation has to see the same random numbers"""

    def __init__(self, seed):
        super().__init__()
        self.core = ParamModel(seed)
        self.drop = torch.nn.Dropout(p=0.3)

    def forward(self, X):
        return 0.1 + self.drop(self.core(X))


class GluModel(torch.nn.Module):
    def __init__(self, F, seed):
        super().__init__()
        torch.manual_seed(seed % 9973)
        self.net = torchiva.models.GLUMask(F, 3).double().eval()

    def forward(self, X):
        return 1.0 / self.net(X)


@st.composite
def case(draw):
    C = draw(st.integers(1, 3))
    taps = draw(st.integers(0, 3))
    delay = draw(st.integers(0, 2))
    model = draw(st.sampled_from(["param", "param", "dropout", "glu", "laplace"]))
    return dict(C=C, n_src=draw(st.sampled_from([None] + list(range(1, C + 1)))), taps=taps,
                delay=delay, F=draw(st.integers(2, 3)),
                N=draw(st.integers(8 * C + 3 * C * taps + 6, 8 * C + 3 * C * taps + 26)),
                n_iter=draw(st.sampled_from([1, 2, 3, 4, 2, 3, 0])),
                ref=draw(st.sampled_from([None] + 2 * list(range(C)))),
                eps=draw(st.sampled_from([None, None, 1e-7, 1e-3, 1e-2, 0.1])),
                gain=draw(st.sampled_from([1.0, 1.0, 0.1, 0.01, 10.0])),
                model=model, xgrad=True if model == "laplace" else draw(st.booleans()), batch=draw(st.sampled_from([[], [2]])),
                via=draw(st.sampled_from(["init", "forward"])), flavour=draw(flavours),
                use=draw(st.sampled_from(["plain", "plain", "frozen", "front", "twice"])),
                seed=draw(seeds))


def one(c, X, R, dmc, pert=None):
    if c["model"] == "param":
        model = ParamModel(c["seed"])
    elif c["model"] == "dropout":
        model = DropModel(c["seed"])
    elif c["model"] == "glu":
        model = GluModel(c["F"], c["seed"])
    else:
        model = torchiva.LaplaceModel()
    kw = dict(n_iter=c["n_iter"], n_taps=c["taps"], n_delay=c["delay"], n_src=c["n_src"],
              model=model, proj_back_mic=c["ref"], eps=c["eps"])
    t = T(X)
    if c["xgrad"]:
        t.requires_grad_()
    g, u = torch.ones((), dtype=torch.float64), t
    if c["use"] == "frozen":
        # fine-tuning: some of the parameters are not trained
        for q in list(model.parameters())[::2]:
            q.requires_grad_(False)
    elif c["use"] == "front":
        # trainable processing ahead of the separation
        g.requires_grad_()
        u = t * (0.5 + g)
    torch.manual_seed(99)
    if c["via"] == "init":
        alg = torchiva.T_ISS(use_dmc=dmc, **kw)
        run = lambda z: call(alg, z)
    else:
        alg = torchiva.T_ISS(use_dmc=not dmc, **kw)
        run = lambda z: call(alg, z, use_dmc=dmc)
    Y = run(u)
    loss = (torch.view_as_real(Y) * R).sum() + Y.abs().square().mean()
    if c["use"] == "twice":
        # two recordings in one loss
        loss = loss + (torch.view_as_real(run(u.flip(-1))) * R).sum()
    torch.manual_seed(4321)  # whatever happens to the generator between forward and backward
    if loss.requires_grad:
        call(loss.backward)
    g = [t.grad, g.grad] + [p.grad for p in model.parameters()]
    return tonp(Y), [None if x is None else tonp(x) for x in g]


def check(c):
    n = int(np.prod(c["batch"])) if c["batch"] else 1
    X = np.stack([stft_like(c["seed"] + i, c["C"], c["F"], c["N"], c["flavour"], c["gain"])
                  for i in range(n)])
    X = X.reshape(tuple(c["batch"]) + X.shape[1:])
    S = c["C"] if c["n_src"] is None else c["n_src"]
    rng = rng_of(c["seed"], 6)
    R = T(rng.standard_normal(tuple(c["batch"]) + (S, c["F"], c["N"], 2)))
    Y0, g0 = one(c, X, R, False)
    Y1, g1 = one(c, X, R, True)
    D = rng.standard_normal(X.shape)
    Y2, g2 = one(c, X * (1 + 1e-10 * D), R, False)
    amp = relerr(Y2, Y0) / 1e-10
    if not amp < 1e5:
        raise Skip("ill conditioned")
    expect_close(Y1, Y0, 1e-9 * max(1, amp), "output with use_dmc=True")
    for i, (a, b, d) in enumerate(zip(g0, g1, g2)):
        what = "gradient of %s with use_dmc=True" % (
            ["the input", "the processing ahead"] + ["parameter %d" % j for j in range(len(g0))])[i]
        if a is None:
            if b is not None and np.abs(b).max() > 0:
                raise Violation(what + " exists only with DMC")
            continue
        if b is None:
            if np.abs(a).max() > 0:
                raise Violation(what + " is missing")
            continue
        ga = relerr(d, a, floor=1e-6) / 1e-10
        if not ga < 1e6:
            continue
        expect_close(b, a, 1e-9 * max(1, ga), what, floor=1e-6)
    over = S < c["C"]
    return [c["model"], "over" if over else "det", "taps" if c["taps"] else "notaps", c["via"],
            "xgrad" if c["xgrad"] else "params-only", c["use"], "it%d" % min(c["n_iter"], 2)]


FACETS = [Facet("dmc", case(), check, cases=(1600, 40000),
                nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration")]
