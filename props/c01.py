"""C01: batching is transparent."""
import contextlib
import io

from hypothesis import strategies as st

import torchiva
from vlib import algos
from vlib.boot import np, torch
from vlib.harness import (Facet, Skip, Violation, call, expect_close, expect_shape, relerr, tonp)
from vlib.signals import (BATCHES, InvPow, T, flavours, gains, real_signal, rng_of, seeds, stft_like)

RULE = ("A batch of independent random items (different data, level and character per item) with "
        "random leading dimensions; non-trivial when there is more than one item")
ASSUMPTIONS = ["double precision", "NMF is excluded: its random initialisation is drawn per call",
               "minimum_distortion is called with rtol=0 (its stopping rule looks at the batch)"]

batches = st.sampled_from([b for b in BATCHES if b] + [[2], [3], [2, 2]])


def items(c, C, F, N):
    """one STFT-like array per batch item"""
    n = int(np.prod(c["batch"]))
    rng = rng_of(c["seed"], 1)
    fl = ["mix", "noise", "corr", "bursts", "dyn", "inst", "realdc"]
    out = []
    for i in range(n):
        out.append(stft_like(int(rng.integers(2**31)), C, F, N, fl[int(rng.integers(len(fl)))],
                             float(np.exp(rng.uniform(-1.5, 1.5)))))
    return out


def some(c, n):
    """the items to compare: all, or the first, the last and a few others"""
    if n <= 9:
        return range(n)
    more = rng_of(c["seed"], 5).permutation(n - 2)[:5] + 1
    return [0, n - 1] + [int(i) for i in more]


def stack(c, xs):
    return np.stack(xs).reshape(tuple(c["batch"]) + xs[0].shape)


@st.composite
def sep_case(draw):
    c = draw(st.one_of(algos.iva_config(), algos.iva_config(), algos.bf_config()))
    nm = algos.min_frames(c)
    c.update(F=draw(st.integers(2, 4)), N=draw(st.integers(nm, nm + 20)), batch=draw(batches),
             seed=draw(seeds), silent=draw(st.sampled_from([False, False, True])))
    return c


@st.composite
def large_case(draw):
    c = draw(sep_case())
    what = draw(st.sampled_from(["batch", "bins", "frames", "chan"]))
    if what == "batch":
        c["batch"] = draw(st.sampled_from([[5], [8], [9], [17], [3, 4], [2, 2, 2], [33], [70],
                                            [130], [9, 15]]))
    elif what == "chan" and c["algo"] not in ("ip2",):
        c["C"] = draw(st.integers(5, 6))
        if c.get("n_src") is not None and c["algo"] in ("tiss", "ip"):
            c["n_src"] = draw(st.sampled_from([None] + list(range(1, c["C"] + 1))))
        if c.get("ref") is not None:
            c["ref"] = draw(st.integers(0, c["C"] - 1))
        c["N"] = algos.min_frames(c) + 5
    elif what == "bins":
        c["F"] = draw(st.sampled_from([17, 33, 65, 129, 257]))
    else:
        c["N"] = draw(st.sampled_from([150, 257, 512, 1030]))
    return c


def amplification(alg, x, y):
    rng = rng_of(3, 3)
    D = rng.standard_normal(x.shape) + 1j * rng.standard_normal(x.shape)
    y1 = tonp(call(alg, T(x * (1 + 1e-10 * D))))
    return relerr(np.abs(y1), np.abs(y)) / 1e-10


def check_sep(c):
    xs = items(c, c["C"], c["F"], c["N"])
    alg = algos.build(c)
    silent = None
    if c["silent"] and len(xs) > 1 and c["algo"] in ("tiss", "ip", "wpe", "mwf"):
        silent = c["seed"] % len(xs)
        xs[silent] = np.zeros_like(xs[silent])
    # the report of the cost is for any batch too
    kw = dict(verbose=True) if c["algo"] == "ip" and c["seed"] % 3 == 0 else {}
    with contextlib.redirect_stdout(io.StringIO()):
        Y = call(alg, T(stack(c, xs)), **kw)
    expect_shape(Y, tuple(c["batch"]) + (algos.n_out(c), c["F"], c["N"]), "batched output")
    Yb = tonp(Y).reshape((len(xs), algos.n_out(c), c["F"], c["N"]))
    gf = algos.gauge_free(c) or c["algo"] not in ("ip2", "five")
    used = 0
    for i in some(c, len(xs)):
        if i == silent:
            continue
        x = xs[i]
        y = tonp(call(alg, T(x)), "single output")
        amp = amplification(alg, x, y)
        if not amp < 1e6:
            continue
        used += 1
        a, b = (Yb[i], y) if gf else (np.abs(Yb[i]), np.abs(y))
        expect_close(a, b, 1e-10 * max(1.0, amp) + 1e-9,
                     "item %d of a batch, compared to that item alone" % i)
    if not used:
        raise Skip("ill conditioned")
    return [algos.label(c), "batch%d" % len(c["batch"])] + (["silent-item"] if silent is not None
                                                            else [])


# ---------------------------------------------------------------- functions
FUNCS = ["stft", "istft", "fftconvolve", "mdp-l2", "mdp-phase", "mdp-lp", "mdp-lpq", "mdp-model", "projback",
         "energetic", "laplace", "gauss", "glu", "blstm", "simple", "mvdrnet"]


@st.composite
def fun_case(draw):
    return dict(fn=draw(st.sampled_from(FUNCS)), batch=draw(batches), seed=draw(seeds),
                C=draw(st.integers(1, 3)), F=draw(st.integers(2, 6)), N=draw(st.integers(12, 30)),
                k=draw(st.integers(0, 3)))


@st.composite
def large_fun(draw):
    c = draw(fun_case())
    what = draw(st.sampled_from(["batch", "batch", "bins", "frames", "chan"]))
    if what == "batch":
        c["batch"] = draw(st.sampled_from([[17], [33], [70], [130], [9, 15]]))
    elif what == "bins":
        c["F"] = draw(st.sampled_from([33, 65, 129, 257, 513]))
    elif what == "frames":
        c["N"] = draw(st.sampled_from([150, 257, 512, 1030]))
    else:
        c["C"] = draw(st.integers(4, 8))
    return c


_nets = {}


def net(name, F):
    if (name, F) not in _nets:
        torch.manual_seed(7)
        m = torchiva.models
        if name == "glu":
            n = m.GLUMask(F, 4, n_sublayers=1 + F % 2)
        elif name == "blstm":
            n = m.BLSTMMask(F, 3, n_hidden=5)
        elif name == "simple":
            n = m.SimpleModel(n_freq=F, n_mels=3)
        else:
            n = m.MaskMVDRSupport(n_input=F, n_hidden=5, n_src=2, n_masks=2, n_layers=2)
        _nets[(name, F)] = n.double().eval()
    return _nets[(name, F)]


def function(c):
    """-> (f, item maker)"""
    fn, C, F, N, k = c["fn"], c["C"], c["F"], c["N"], c["k"]
    cx = lambda i: [T(stft_like(c["seed"] + i, C, F, N))]
    if fn == "stft":
        s = torchiva.STFT(16, 4 + 4 * (k % 2)).double()
        return s, lambda i: [T(real_signal(c["seed"] + i, (C, 40 + 3 * N)))]
    if fn == "istft":
        s = torchiva.STFT(16, 4 + 4 * (k % 2)).double()
        return s.inv, lambda i: [T(stft_like(c["seed"] + i, C, 9, N))]
    if fn == "fftconvolve":
        mode = ["full", "same", "valid", "full"][k]
        f = lambda a, b: torchiva.fftconvolve(a, b, mode=mode)
        return f, lambda i: [T(real_signal(c["seed"] + i, (C, N))),
                             T(real_signal(c["seed"] + i + 991, (C, 2 + k * 3)))]
    ref = lambda i: T(stft_like(c["seed"] + i + 77, 1, F, N)[0])
    if fn == "mdp-l2":
        return torchiva.minimum_distortion, lambda i: cx(i) + [ref(i)]
    if fn == "mdp-phase":
        return torchiva.minimum_distortion_l2_phase, lambda i: cx(i) + [ref(i)]
    if fn == "mdp-lp":
        p = [0.5, 1.0, 1.5, 1.2][k]
        return (lambda a, b: torchiva.minimum_distortion(a, b, p=p, rtol=0.0, max_iter=4),
                lambda i: cx(i) + [ref(i)])
    if fn == "mdp-lpq":
        p, q = [(0.5, 1.0), (1.0, 2.0), (1.0, 1.5), (0.7, 2.0)][k]
        return (lambda a, b: torchiva.minimum_distortion(a, b, p=p, q=q, rtol=0.0, max_iter=4),
                lambda i: cx(i) + [ref(i)])
    if fn == "mdp-model":
        w = [torchiva.LaplaceModel(), torchiva.GaussModel(), InvPow(), torchiva.LaplaceModel()][k]
        return (lambda a, b: torchiva.minimum_distortion(a, b, model=w, rtol=0.0, max_iter=4),
                lambda i: cx(i) + [ref(i)])
    if fn == "projback":
        return torchiva.projection_back, lambda i: cx(i) + [ref(i)]
    if fn == "energetic":
        return (lambda a: torchiva.select_most_energetic(a, num=1 + k % C),
                lambda i: [T(real_signal(c["seed"] + i, (C, N)))])
    if fn == "laplace":
        return torchiva.LaplaceModel(), cx
    if fn == "gauss":
        return torchiva.GaussModel(), cx
    m = net(fn, F)
    if fn == "mvdrnet":
        return (lambda a: m(a[..., 0, :, :])), cx
    return m, cx


def check_fun(c):
    f, make = function(c)
    n = int(np.prod(c["batch"]))
    its = [make(1000 * i) for i in range(n)]
    args = [torch.stack([it[j] for it in its]).reshape(tuple(c["batch"]) + its[0][j].shape)
            for j in range(len(its[0]))]
    Y = call(f, *args)
    y0 = call(f, *its[0])
    expect_shape(Y, tuple(c["batch"]) + tuple(y0.shape), "batched " + c["fn"])
    Yb = tonp(Y).reshape((n,) + tuple(y0.shape))
    for i in some(c, n):
        y = tonp(call(f, *its[i]))
        expect_close(Yb[i], y, 1e-7, "%s, item %d of the batch" % (c["fn"], i))
    return [c["fn"], "batch%d" % len(c["batch"])]


# ---------------------------------------------------------------- time-domain separator
@st.composite
def bss_case(draw):
    a = draw(st.sampled_from(["tiss", "ip2", "five", "mvdr", "mwf", "gev"]))
    return dict(algo=a, C=2 if a == "ip2" else draw(st.integers(2, 3)), batch=draw(batches),
                taps=draw(st.integers(0, 1)), n_iter=draw(st.integers(1, 3)), seed=draw(seeds),
                n_src=draw(st.integers(1, 2)), L=draw(st.integers(300, 400)))


def check_bss(c):
    bf = c["algo"] in ("mvdr", "mwf", "gev")
    model = algos.MaskNet(c["n_src"], 2, seed=c["seed"] % 1000) if bf else torchiva.LaplaceModel()
    sep = torchiva.nn.BSSSeparator(16, n_iter=c["n_iter"], hop_length=4, n_taps=c["taps"],
                                   n_src=c["n_src"], algo=c["algo"], source_model=model).double()
    n = int(np.prod(c["batch"]))
    xs = [real_signal(c["seed"] + 7 * i, (c["C"], c["L"])) * (1 + i) for i in range(n)]
    with torch.no_grad():
        Y = tonp(call(sep, T(stack(c, xs))))
        for i, x in enumerate(xs):
            y = tonp(call(sep, T(x)))
            if Y.shape != tuple(c["batch"]) + y.shape:
                raise Violation("shape %s for batch %s, %s for one item"
                                % (Y.shape, c["batch"], y.shape))
            rng = rng_of(1, 2)
            y1 = tonp(call(sep, T(x * (1 + 1e-9 * rng.standard_normal(x.shape)))))
            amp = relerr(y1, y) / 1e-9
            if amp < 1e5:
                expect_close(Y.reshape((n,) + y.shape)[i], y, 1e-9 * max(1, amp),
                             "BSSSeparator(%s), item %d" % (c["algo"], i))
    return [c["algo"]]


FACETS = [
    Facet("separators", sep_case(), check_sep, cases=(4000, 50000), weight=3,
          nontrivial=lambda c, l: np.prod(c["batch"]) > 1, rule="more than one item"),
    Facet("functions", fun_case(), check_fun, cases=(3200, 30000),
          nontrivial=lambda c, l: np.prod(c["batch"]) > 1, rule="more than one item"),
    Facet("functions-large", large_fun(), check_fun, cases=(400, 5000), weight=3,
          nontrivial=lambda c, l: np.prod(c["batch"]) > 1, rule="more than one item"),
    Facet("time-domain", bss_case(), check_bss, cases=(800, 8000), weight=2,
          nontrivial=lambda c, l: np.prod(c["batch"]) > 1, rule="more than one item"),
    Facet("separators-large", large_case(), check_sep, cases=(400, 5000), weight=6,
          nontrivial=lambda c, l: np.prod(c["batch"]) > 1, rule="more than one item"),
]
