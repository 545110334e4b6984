"""C30: an option left out has its documented default."""
from hypothesis import strategies as st

import torchiva
from vlib.algos import MaskNet, WpeWeights, make_model
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_close, relerr, tonp
from vlib.signals import T, crandn, flavours, rng_of, seeds, stft_like

RULE = ("Random algorithm or function, random subset of the options given (with random values) and "
        "the others left out, random data; compared to the call that spells the defaults out")
ASSUMPTIONS = ["double precision; the documented defaults are those of the docstrings and of the "
               "signatures"]

# documented defaults
DOC = {
    "tiss": dict(n_iter=10, n_taps=0, n_delay=0, n_src=None, model="laplace", proj_back_mic=0,
                 use_dmc=False, eps=1e-5),
    "ip": dict(n_iter=10, n_src=None, model="laplace", proj_back_mic=0, eps=1e-5),
    "ip2": dict(n_iter=10, model="laplace", proj_back_mic=0, eps=1e-5),
    "five": dict(n_iter=10, model="laplace", proj_back_mic=0, eps=1e-5, n_power_iter=None),
    "wpe": dict(n_iter=3, n_delay=3, n_taps=5, model=None, eps=1e-5),
    "mvdr": dict(ref_mic=0, eps=1e-5, mvdr_type="rtf", n_power_iter=None),
    "mwf": dict(ref_mic=0, eps=1e-5, time_invariant=True),
    "gev": dict(ref_mic=0, eps=1e-5),
}
# values that change the output, to be given explicitly
GIVEN = {
    "n_iter": [1, 2, 4], "n_taps": [1, 2], "n_delay": [1, 2], "n_src": [1, 2], "model": ["gauss"],
    "proj_back_mic": [0, 1], "use_dmc": [True, False], "eps": [1e-4, 1e-6, 1e-2],
    "n_power_iter": [3, 20], "ref_mic": [0, 1], "mvdr_type": ["rtf", "scm"],
    "time_invariant": [True, False],
}
CLS = dict(tiss="T_ISS", ip="AuxIVA_IP", ip2="AuxIVA_IP2", five="FIVE", wpe="WPE",
           mvdr="MVDRBeamformer", mwf="MWFBeamformer", gev="GEVBeamformer")


@st.composite
def case(draw):
    a = draw(st.sampled_from(sorted(DOC)))
    given = {}
    for k in sorted(DOC[a]):
        if draw(st.booleans()):
            given[k] = draw(st.sampled_from(GIVEN[k]))
    C = 2 if a == "ip2" else draw(st.integers(2, 3))
    return dict(algo=a, given=given, C=C, F=draw(st.integers(2, 4)),
                N=draw(st.integers(45, 70)), flavour=draw(flavours),
                gain=draw(st.sampled_from([1.0, 1.0, 0.03, 0.01])), seed=draw(seeds))


def construct(c, kw):
    kw = dict(kw)
    if "model" in kw and kw["model"] is not None:
        kw["model"] = WpeWeights() if c["algo"] == "wpe" else make_model(kw["model"])
    cls = getattr(torchiva, CLS[c["algo"]])
    if c["algo"] in ("mvdr", "mwf", "gev"):
        return call(cls, MaskNet(2, 4 if c["algo"] == "mwf" else 2, seed=c["seed"] % 1000), **kw)
    return call(cls, **kw)


def check(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    full = dict(DOC[c["algo"]])
    full.update(c["given"])
    Y0 = tonp(call(construct(c, full), T(X)))
    Y1 = tonp(call(construct(c, c["given"]), T(X)))
    D = rng_of(c["seed"], 8).standard_normal(X.shape)
    Y2 = tonp(call(construct(c, full), T(X * (1 + 1e-10 * D))))
    amp = relerr(np.abs(Y2), np.abs(Y0)) / 1e-10
    if not amp < 1e6:
        raise Skip("ill conditioned")
    expect_close(Y1, Y0, 1e-12 * max(1.0, amp), "%s with %s, the other options left out" % (
        CLS[c["algo"]], sorted(c["given"])))
    return [c["algo"]] + ["omitted-%s" % k for k in DOC[c["algo"]] if k not in c["given"]]


# ------------------------------------------------------------------ functions and engines
FUNCS = ["stft", "fftconvolve", "select", "mindist", "laplace", "gauss", "nmf", "separator",
         "parser"]


@st.composite
def fn_case(draw):
    return dict(fn=draw(st.sampled_from(FUNCS)), C=draw(st.integers(2, 3)),
                F=draw(st.integers(2, 4)), N=draw(st.integers(12, 40)),
                n_fft=draw(st.sampled_from([16, 32, 24])),
                mask=draw(st.integers(0, 255)), p=draw(st.sampled_from([0.5, 1.0, 1.5])),
                gain=draw(st.sampled_from([1.0, 1e-2, 1e-3])), seed=draw(seeds))


def pick(c, given, default):
    """leave out the options of which the bit is not set"""
    kw = {k: v for i, (k, v) in enumerate(sorted(given.items())) if c["mask"] >> i & 1}
    full = dict(default)
    full.update(kw)
    return kw, full


def check_fn(c):
    rng = rng_of(c["seed"], 14)
    fn, C, F, N = c["fn"], c["C"], c["F"], c["N"]
    X = T(c["gain"] * crandn(rng, C, F, N))
    if fn == "stft":
        kw, full = pick(c, dict(hop_length=c["n_fft"] // 2, window="hamming",
                                dtype=torch.float64),
                        dict(hop_length=c["n_fft"] // 4, window="hann", dtype=torch.float32))
        x = torch.from_numpy(rng.standard_normal((C, 5 * c["n_fft"]))).to(full["dtype"])
        a = call(torchiva.STFT(c["n_fft"], **kw), x)
        b = call(torchiva.STFT(c["n_fft"], **full), x)
        if a.dtype != b.dtype:
            raise Violation("default dtype of the STFT engine: %s" % a.dtype)
    elif fn == "fftconvolve":
        x, h = rng.standard_normal((C, N)), rng.standard_normal((C, F))
        a = call(torchiva.fftconvolve, T(x), T(h))
        b = np.stack([np.convolve(u, v) for u, v in zip(x, h)])
    elif fn == "select":
        kw, full = pick(c, dict(dim=0, dim_reduc=1), dict(dim=-2, dim_reduc=-1))
        if full["dim"] == 0:
            full["dim_reduc"] = kw["dim_reduc"] = 1
        elif "dim_reduc" in kw:
            full["dim_reduc"] = kw["dim_reduc"] = 0
        a = call(torchiva.select_most_energetic, X, 1, **kw)
        p = (X.abs() ** 2).mean(dim=full["dim_reduc"], keepdim=True)
        i = p.argmax(dim=full["dim"], keepdim=True)
        shape = list(X.shape)
        shape[full["dim"]] = 1
        b = torch.gather(X, full["dim"], i.expand(shape))
    elif fn == "mindist":
        ref = T(c["gain"] * crandn(rng, F, N))
        kw, full = pick(c, dict(max_iter=3, p=c["p"], q=2.0, rtol=1e-5),
                        dict(max_iter=100, p=None, q=None, rtol=1e-2, model=None))
        if full["p"] is None:
            kw.pop("q", None)
            full["q"] = None
        a = call(torchiva.minimum_distortion, X, ref, **kw)
        b = call(torchiva.minimum_distortion, X, ref, **full)
    elif fn in ("laplace", "gauss"):
        cls = torchiva.LaplaceModel if fn == "laplace" else torchiva.GaussModel
        a, b = call(cls(), 1e-3 * X), call(cls(eps=1e-5), 1e-3 * X)
    elif fn == "nmf":
        kw, full = pick(c, dict(n_basis=3, eps=1e-2), dict(n_basis=2, eps=1e-5))
        torch.manual_seed(5)
        a = call(torchiva.NMFModel(**kw), X)
        torch.manual_seed(5)
        b = call(torchiva.NMFModel(**full), X)
    elif fn == "separator":
        x = torch.from_numpy(rng.standard_normal((2, 14 * c["n_fft"]))).to(torch.float32)
        x = x + 0.5 * x.flip(0) * torch.sin(torch.arange(x.shape[-1]) / 40.0)
        kw, full = pick(
            c, dict(n_iter=3, hop_length=c["n_fft"] // 2, window="hamming", n_taps=1, n_delay=1,
                    n_src=1, proj_back_mic=1, algo="five"),
            dict(n_iter=20, hop_length=c["n_fft"] // 4, window="hann", n_taps=0, n_delay=0,
                 n_src=None, algo="tiss", proj_back_mic=0, use_dmc=False, n_power_iter=None,
                 eps=1e-5))
        if full["algo"] == "five":
            kw.pop("n_src", None)
            full["n_src"] = None
        torch.manual_seed(0)
        a = call(call(torchiva.nn.BSSSeparator, c["n_fft"], **kw), x)
        b = call(call(torchiva.nn.BSSSeparator, c["n_fft"], source_model=torchiva.LaplaceModel(),
                      **full), x)
    else:
        from torchiva import separate
        given = {"--mic": ["3"], "--src": ["1"], "--nfft": ["512"], "--n_iter": ["7"],
                 "--taps": ["4"], "--delay": ["2"], "--ref": ["1"], "--n-basis": ["9"]}
        default = {"--mic": 2, "--src": 2, "--nfft": 2048, "--n_iter": 20, "--taps": 0,
                   "--delay": 0, "--ref": 0, "--n-basis": 2}
        argv, want = ["in.wav", "out.wav"], {}
        for i, k in enumerate(sorted(default)):
            on = c["mask"] >> i & 1
            if on:
                argv += [k] + given[k]
            want[k] = int(given[k][0]) if on else default[k]
        ns = call(separate.get_parser().parse_args, argv)
        for k, v in want.items():
            got = getattr(ns, k.strip("-").replace("-", "_"))
            if got != v:
                raise Violation("%s is %r, not %r, for %s" % (k, got, v, argv))
        if ns.quiet or ns.algo is not None or ns.model_type != "nn":
            raise Violation("defaults of the command: %s" % ns)
        return ["parser"]
    expect_close(a, b, 1e-5 if fn == "separator" else 1e-9, fn + " with options left out")
    return [fn]


# ------------------------------------------------------------------ mask models
# options: documented default, other values, how often it is left out (1 in ...)
MASKS = {
    "GLUMask": dict(pool_size=(2, [1, 3], 2), kernel_size=(3, [1, 5], 2),
                    dropout_p=(0.5, [0.0, 0.2], 2), mag_spec=(True, [False], 2),
                    log_spec=(True, [False], 2), n_sublayers=(1, [2], 2)),
    "BLSTMMask": dict(n_hidden=(256, [3, 5], 12), dropout_p=(0.5, [0.0, 0.2], 2),
                      n_sources=(2, [1, 3], 2), mag_spec=(True, [False], 2),
                      log_spec=(False, [True], 2)),
    "MaskMVDRSupport": dict(n_src=(2, [1, 3], 2), n_masks=(3, [2, 4], 2),
                            n_input=(512, [9, 17], 12), n_hidden=(600, [3, 5], 25),
                            dropout_p=(0.5, [0.0, 0.2], 2), n_layers=(3, [1, 2], 2),
                            eps=(1e-3, [1e-2, 0.1], 2)),
    "SimpleModel": dict(n_freq=(257, [17, 33], 3), n_mels=(64, [5, 9], 3),
                        n_hidden=(None, [4, 7], 2), eps=(1e-6, [1e-3, 0.1], 2)),
}


@st.composite
def mask_case(draw):
    m = draw(st.sampled_from(sorted(MASKS)))
    given = {}
    for k, (_, vals, often) in sorted(MASKS[m].items()):
        if draw(st.integers(1, often)) > 1:
            given[k] = draw(st.sampled_from(vals))
    return dict(model=m, given=given, F=draw(st.sampled_from([9, 17])),
                n_bottleneck=draw(st.integers(3, 5)), N=draw(st.integers(12, 30)),
                B=draw(st.integers(1, 2)), train=draw(st.booleans()), seed=draw(seeds))


def check_masks(c):
    full = {k: v[0] for k, v in MASKS[c["model"]].items()}
    full.update(c["given"])
    F = full.get("n_freq", full.get("n_input", c["F"]))
    cls = getattr(torchiva.models, c["model"])
    args = (c["F"], c["n_bottleneck"]) if c["model"] in ("GLUMask", "BLSTMMask") else ()
    rng = rng_of(c["seed"], 15)
    X = torch.from_numpy(crandn(rng, c["B"], F, c["N"])).to(torch.complex64)
    out = []
    for kw in (c["given"], full):
        torch.manual_seed(c["seed"] % 2**31)
        m = call(cls, *args, **kw).train(c["train"])
        torch.manual_seed(c["seed"] % 2**31 + 1)
        with torch.no_grad():
            y = call(m, X)
        out.append((m, y))
    (a, ya), (b, yb) = out
    sa = {k: tuple(v.shape) for k, v in a.state_dict().items()}
    sb = {k: tuple(v.shape) for k, v in b.state_dict().items()}
    if sa != sb:
        raise Violation("the parameters with options left out are %s, with the defaults %s"
                        % (sorted(set(sa.items()) - set(sb.items())),
                           sorted(set(sb.items()) - set(sa.items()))))
    if ya.shape != yb.shape:
        raise Violation("shape %s, with the defaults %s" % (tuple(ya.shape), tuple(yb.shape)))
    expect_close(ya, yb, 1e-5, "%s with %s left out" % (
        c["model"], sorted(set(full) - set(c["given"]))))
    return [c["model"], "train" if c["train"] else "eval"] + [
        "omitted-%s" % k for k in full if k not in c["given"]]


FACETS = [
    Facet("separators", case(), check, cases=(3200, 30000),
          nontrivial=lambda c, l: len(c["given"]) < len(DOC[c["algo"]]), rule="an option is left out"),
    Facet("functions", fn_case(), check_fn, cases=(1800, 12000)),
    Facet("masks", mask_case(), check_masks, cases=(480, 4000), weight=4,
          nontrivial=lambda c, l: len(c["given"]) < len(MASKS[c["model"]]),
          rule="an option is left out"),
]
