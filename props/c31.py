"""C31: memory - checkpointed training, inference and repeated calls do not pile up spectrograms."""
import gc
import os

from hypothesis import strategies as st

import torchiva
from torchiva.nn import BSSSeparator
from vlib import algos
from vlib.boot import np, torch
from vlib.harness import Facet, Violation, call
from vlib.signals import ParamModel, T, flavours, real_signal, rng_of, seeds, stft_like

RULE = ("Random configuration and recording; every allocation and release of the library is recorded by the "
        "profiler of torch, for few and for many iterations (or calls)")
ASSUMPTIONS = ["memory of tensors (the allocations of torch), CPU", "spectrograms much larger than the demixing "
               "matrices and than the state of the random generator (5 kB)"]


def ledger(fn):
    """(bytes kept, peak bytes) of fn(), its result being kept"""
    with open(os.devnull, "w") as null:
        old = os.dup(2)
        os.dup2(null.fileno(), 2)  # the profiler complains that there is no GPU
        try:
            gc.collect()
            with torch.profiler.profile(activities=[torch.profiler.ProfilerActivity.CPU],
                                        profile_memory=True) as p:
                out = fn()
                gc.collect()
        finally:
            os.dup2(old, 2)
            os.close(old)
    ev = [e for e in p.profiler.kineto_results.events() if e.name() == "[memory]"]
    ev.sort(key=lambda e: e.start_ns())
    cur = peak = 0
    for e in ev:
        cur += e.nbytes()
        peak = max(peak, cur)
    return cur, peak, out, len(ev)


def glu(F, seed):
    torch.manual_seed(seed % 9973)
    return torchiva.models.GLUMask(F, 4, dropout_p=0.3).double()


class Inv(torch.nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, X):
        return 1.0 / self.net(X)


def model_of(name, F, seed):
    if name == "glu":
        return Inv(glu(F, seed))
    return algos.make_model(name, seed)


@st.composite
def train_case(draw):
    C = draw(st.integers(1, 4))
    taps = draw(st.sampled_from([0, 0, 1, 2, 3]))
    model = draw(st.sampled_from(["param", "glu", "glu", "laplace", "gauss", "invpow"]))
    n1 = draw(st.integers(3, 4))
    batch = draw(st.sampled_from([[], [], [2], [1, 2]]))
    return dict(C=C, n_src=draw(st.sampled_from([None] + list(range(1, C + 1)))), taps=taps,
                delay=draw(st.integers(0, 2)), F=draw(st.sampled_from([5, 9, 17])),
                N=draw(st.integers(300, 500)) + 60 * C * (1 + taps), n1=n1,
                n2=n1 + draw(st.integers(4, 12)), ref=draw(st.sampled_from([None] + list(range(C)))),
                model=model, batch=batch, xgrad=draw(st.booleans()) or model not in ("glu", "param"),
                via=draw(st.sampled_from(["init", "forward", "time"])), train=draw(st.booleans()),
                flavour=draw(flavours), seed=draw(seeds))


def data(c):
    n = int(np.prod(c["batch"])) if c["batch"] else 1
    X = np.stack([stft_like(c["seed"] + i, c["C"], c["F"], c["N"], c["flavour"]) for i in range(n)])
    return X.reshape(tuple(c["batch"]) + X.shape[1:])


def check_train(c):
    time = c["via"] == "time"
    if time:
        n_fft = 2 * (c["F"] - 1)
        x = T(real_signal(c["seed"], tuple(c["batch"]) + (c["C"], c["N"] * n_fft // 2)))
        grid = (c["F"], c["N"])
    else:
        x = T(data(c))
    size = int(np.prod(c["batch"] + [c["C"], c["F"], c["N"]])) * 16  # one spectrogram

    def run(n):
        model = model_of(c["model"], c["F"], c["seed"])
        model.train(c["train"])
        kw = dict(n_src=c["n_src"], n_taps=c["taps"], n_delay=c["delay"], proj_back_mic=c["ref"])
        if time:
            # the window and the linear layers of the models are double here
            sep = BSSSeparator(2 * (c["F"] - 1), n_iter=n, source_model=model, use_dmc=True, **kw)
            sep = sep.double()
        else:
            sep = torchiva.T_ISS(n_iter=n, model=model, use_dmc=c["via"] == "init", **kw)
        opt = dict(use_dmc=True) if c["via"] == "forward" else {}
        t = x.clone()
        if c["xgrad"]:
            t.requires_grad_()

        def fn():
            y = call(sep, t, **opt)
            return (y.real ** 2).sum() + (y * y.conj()).real.mean()
        kept, _, loss, ne = ledger(fn)
        if not ne:
            raise RuntimeError("the profiler recorded nothing")
        if not loss.requires_grad:
            return kept, 0
        _, peak, _, _ = ledger(lambda: call(loss.backward))
        return kept, max(0, peak)

    k1, p1 = run(c["n1"])
    k2, p2 = run(c["n2"])
    d = c["n2"] - c["n1"]
    for what, a, b in (("kept for back-propagation", k1, k2), ("needed by back-propagation", p1, p2)):
        grow = (b - a) / d
        if grow > 0.25 * size + 12000:
            raise Violation("with use_dmc, the memory %s grows by %.2f spectrograms per iteration "
                            "(%d bytes with %d iterations, %d with %d)"
                            % (what, grow / size, a, c["n1"], b, c["n2"]))
    S = c["C"] if c["n_src"] is None else c["n_src"]
    return [c["model"], c["via"], "over" if S < c["C"] else "det", "taps" if c["taps"] else "notaps",
            "xgrad" if c["xgrad"] else "params-only", "batch" if c["batch"] else "single"]


# ------------------------------------------------------------------ inference
@st.composite
def infer_case(draw):
    cfg = draw(algos.iva_config(models=("laplace", "gauss", "invpow", "nmf", "param")))
    n1 = draw(st.integers(3, 4))
    mode = draw(st.sampled_from(["no_grad", "inference", "plain"]))
    return dict(cfg=cfg, F=draw(st.sampled_from([5, 9, 17])),
                N=draw(st.integers(300, 500)) + 60 * cfg["C"] * (1 + cfg.get("n_taps", 0)),
                n1=n1, n2=n1 + draw(st.integers(4, 12)), batch=draw(st.sampled_from([[], [], [2]])),
                mode=mode, dmc=draw(st.booleans()), flavour=draw(flavours), seed=draw(seeds))


def quiet(mode):
    return {"no_grad": torch.no_grad, "inference": torch.inference_mode}[mode]()


def check_infer(c):
    cfg = c["cfg"]
    x = T(data(dict(c, C=cfg["C"])))
    size = int(np.prod(c["batch"] + [cfg["C"], c["F"], c["N"]])) * 16

    def run(n):
        alg = algos.build(dict(cfg, n_iter=n), use_dmc=c["dmc"])
        for p in alg.parameters():
            p.requires_grad_(False)

        def fn():
            if c["mode"] == "plain":
                return call(alg, x)
            with quiet(c["mode"]):
                return call(alg, x)
        kept, peak, y, ne = ledger(fn)
        if not ne:
            raise RuntimeError("the profiler recorded nothing")
        return kept, peak, y.numel() * y.element_size(), alg

    k1, p1, out, _ = run(c["n1"])
    k2, p2, _, _ = run(c["n2"])
    d = c["n2"] - c["n1"]
    if (p2 - p1) / d > 0.25 * size:
        raise Violation("without gradients, the memory in use grows by %.2f spectrograms per iteration "
                        "(%d bytes with %d iterations, %d with %d)"
                        % ((p2 - p1) / d / size, p1, c["n1"], p2, c["n2"]))
    if (k2 - k1) / d > 0.25 * size:
        raise Violation("without gradients, the memory kept after the call grows by %.2f spectrograms per "
                        "iteration" % ((k2 - k1) / d / size))
    return [algos.label(cfg), c["mode"]]


# ------------------------------------------------------------------ repeated calls
@st.composite
def again_case(draw):
    cfg = draw(st.one_of(algos.iva_config(models=("laplace", "gauss", "invpow", "nmf", "param")),
                         algos.bf_config()))
    return dict(cfg=cfg, F=draw(st.sampled_from([5, 9])),
                N=draw(st.integers(200, 300)) + 40 * cfg["C"] * (1 + cfg.get("n_taps", 0)),
                calls=draw(st.integers(3, 6)), grad=draw(st.booleans()), dmc=draw(st.booleans()),
                vary=draw(st.booleans()), flavour=draw(flavours), seed=draw(seeds))


def check_again(c):
    cfg = c["cfg"]
    # signals of other lengths keep caches by shape apart from caches by content
    xs = [T(stft_like(c["seed"] + i, cfg["C"], c["F"], c["N"] + (10 * i if c["vary"] else 0),
                      c["flavour"])) for i in range(2 + c["calls"])]
    size = int(np.prod([cfg["C"], c["F"], c["N"]])) * 16
    alg = algos.build(cfg, use_dmc=c["dmc"])
    grad = c["grad"] and not (cfg.get("model") == "nmf")

    def one(x):
        x = x.clone()
        if grad:
            x.requires_grad_()
            y = call(alg, x)
            call((y * y.conj()).real.sum().backward)
        else:
            with torch.no_grad():
                call(alg, x)
        for p in alg.parameters():
            p.grad = None

    def many(zs):
        for z in zs:
            one(z)
    many(xs[:2])
    first, _, _, ne = ledger(lambda: many(xs[2:3]))
    kept, _, _, ne = ledger(lambda: many(xs[2:]))
    if not ne:
        raise RuntimeError("the profiler recorded nothing")
    kept -= first
    if kept > (0.25 * size) * c["calls"] + 12000 * cfg.get("n_iter", 1) * c["calls"]:
        raise Violation("each further call keeps %.2f spectrograms (%d bytes after %d calls)"
                        % (kept / size / c["calls"], kept, c["calls"]))
    return [algos.label(cfg), "grad" if grad else "nograd"]


FACETS = [
    Facet("checkpointing", train_case(), check_train, cases=(48, 1200), weight=8),
    Facet("inference", infer_case(), check_infer, cases=(60, 1500), weight=5),
    Facet("repeated", again_case(), check_again, cases=(60, 1500), weight=5),
]
