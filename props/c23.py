"""C23: the time-domain separator is STFT, the selected algorithm with the given options, inverse
STFT; the output has the length of the input."""
from hypothesis import strategies as st

import torchiva
from torchiva.nn import BSSSeparator, SepAlgo
from vlib.algos import MaskNet
from vlib.boot import np, torch
from vlib.harness import (Facet, Skip, Violation, call, expect_close, expect_dtype, expect_finite,
                          expect_shape, tonp)
from vlib.signals import T, mixing, real_signal, rng_of, seeds

RULE = ("Random algorithm, options, FFT size, hop, number of channels and of samples (multiples of the "
        "hop or not), leading dimensions; compared with the composition of the public parts")
ASSUMPTIONS = ["signals longer than half a frame (reflection padding)"]

ALGOS = ["tiss", "tiss", "tiss", "ip2", "five", "mvdr", "mwf", "gev"]


@st.composite
def case(draw):
    a = draw(st.sampled_from(ALGOS))
    n_fft = draw(st.sampled_from([16, 32, 64, 48]))
    C = 2 if a == "ip2" else draw(st.integers(2, 4)) if a != "tiss" else draw(st.integers(1, 4))
    hop = draw(st.sampled_from([None, n_fft // 2, n_fft // 4]))
    c = dict(algo=a, as_enum=draw(st.booleans()), n_fft=n_fft, hop=hop, C=C,
             L=draw(st.integers(8 * n_fft, 22 * n_fft)),
             batch=draw(st.sampled_from([[], [], [1], [2], [2, 2]])),
             window=draw(st.sampled_from([None, "hann", "hamming", "blackman"])),
             n_iter=draw(st.integers(0, 4)), ref=draw(st.integers(0, C - 1)),
             dtype=draw(st.sampled_from(["f64", "f64", "f32"])),
             default_eps=draw(st.booleans()), seed=draw(seeds))
    if a == "tiss":
        c.update(n_src=draw(st.sampled_from([None] + list(range(1, C + 1)))),
                 n_taps=draw(st.integers(0, 3)), n_delay=draw(st.integers(0, 2)),
                 dmc=draw(st.booleans()),
                 model=draw(st.sampled_from(["default", "laplace", "gauss", "dict", "glu"])))
        if draw(st.integers(0, 4)) == 0:
            c["ref"] = None
    elif a in ("ip2", "five"):
        c.update(model=draw(st.sampled_from(["default", "gauss", "dict"])))
        if a == "five":
            c["n_power_iter"] = draw(st.sampled_from([None, 3]))
    else:
        c.update(n_src=draw(st.integers(1, 3)), model="mask")
        if a == "mvdr":
            c["n_power_iter"] = draw(st.sampled_from([None, None, 3]))
    return c


def signal(c):
    rng = rng_of(c["seed"], 5)
    n = int(np.prod(c["batch"])) if c["batch"] else 1
    x = rng.standard_normal((n, c["C"], c["L"])) * np.exp(
        rng.normal(0, 0.7, size=(n, c["C"], c["L"] // 40 + 1))).repeat(40, axis=-1)[..., :c["L"]]
    A = np.eye(c["C"]) + 0.4 * rng.standard_normal((n, c["C"], c["C"]))
    x = A @ x
    return x.reshape(tuple(c["batch"]) + (c["C"], c["L"]))


def model_of(c, dtype):
    m = c["model"]
    if m == "default":
        return None, torchiva.models.LaplaceModel()
    if m == "laplace":
        return torchiva.models.LaplaceModel(), torchiva.models.LaplaceModel()
    if m == "gauss":
        return torchiva.models.GaussModel(), torchiva.models.GaussModel()
    if m == "dict":
        return (dict(name="torchiva.models.GaussModel", kwargs=dict(eps=1e-4)),
                torchiva.models.GaussModel(eps=1e-4))
    if m == "glu":
        torch.manual_seed(c["seed"] % 1000)
        g = torchiva.models.GLUMask(c["n_fft"] // 2 + 1, 4, n_sublayers=1).to(dtype).eval()
        return g, g
    g = MaskNet(c["n_src"], 2, seed=c["seed"] % 1000)
    return g, g


def check(c):
    dt = torch.float64 if c["dtype"] == "f64" else torch.float32
    x = T(signal(c)).to(dt)
    arg, model = model_of(c, dt)
    a = c["algo"]
    eps = 1e-5 if c["default_eps"] else 1e-4
    kw = dict(n_iter=c["n_iter"], hop_length=c["hop"], window=c["window"],
              algo=SepAlgo(a) if c["as_enum"] else a, source_model=arg, proj_back_mic=c["ref"])
    if not c["default_eps"]:
        kw["eps"] = eps
    if a == "tiss":
        kw.update(n_src=c["n_src"], n_taps=c["n_taps"], n_delay=c["n_delay"], use_dmc=c["dmc"])
    if c.get("n_power_iter") is not None:
        kw["n_power_iter"] = c["n_power_iter"]
    sep = call(BSSSeparator, c["n_fft"], **kw)
    if c["model"] == "mask":
        sep = sep  # MaskNet keeps its own precision
    with torch.no_grad():
        x0 = x.clone()
        y = call(sep, x)
        if not torch.equal(x, x0):
            raise Violation("the input was changed")
        # the composition
        st_ = torchiva.STFT(c["n_fft"], hop_length=c["hop"], window=c["window"])
        X = call(st_, x)
        if a == "tiss":
            alg = torchiva.T_ISS(n_iter=c["n_iter"], n_taps=c["n_taps"], n_delay=c["n_delay"],
                                 n_src=c["n_src"], model=model, proj_back_mic=c["ref"], eps=eps)
            ns = c["C"] if c["n_src"] is None else c["n_src"]
        elif a == "ip2":
            alg = torchiva.AuxIVA_IP2(n_iter=c["n_iter"], model=model, proj_back_mic=c["ref"],
                                      eps=eps)
            ns = 2
        elif a == "five":
            alg = torchiva.FIVE(n_iter=c["n_iter"], model=model, proj_back_mic=c["ref"], eps=eps,
                                n_power_iter=c["n_power_iter"])
            ns = 1
        else:
            ns = c["n_src"]
            cls = dict(mvdr=torchiva.MVDRBeamformer, mwf=torchiva.MWFBeamformer,
                       gev=torchiva.GEVBeamformer)[a]
            k2 = dict(n_power_iter=c["n_power_iter"]) if a == "mvdr" else {}
            alg = cls(model, ref_mic=c["ref"], eps=eps, **k2)
        Z = call(st_.inv, call(alg, X))
    expect_shape(y, tuple(c["batch"]) + (ns, c["L"]), "separated signal")
    expect_dtype(y, dt, "separated signal")
    expect_finite(y, "separated signal")
    z = tonp(Z)
    m = min(z.shape[-1], c["L"])
    y = tonp(y)
    scale = np.linalg.norm(z) + 1e-30
    if np.linalg.norm(y[..., :m] - z[..., :m]) > (1e-9 if c["dtype"] == "f64" else 1e-3) * scale:
        raise Violation("differs from STFT, algorithm, inverse STFT with the same options (%.2g)"
                        % (np.linalg.norm(y[..., :m] - z[..., :m]) / scale))
    if np.any(y[..., m:] != 0):
        raise Violation("samples after the last frame are not zero")
    hop = c["hop"] or c["n_fft"] // 2
    return [a, "L%%hop=%d" % (c["L"] % hop != 0), "model-" + c["model"], c["dtype"],
            "padded" if m < c["L"] else "not padded"]


@st.composite
def large_case(draw):
    c = draw(case())
    what = draw(st.sampled_from(["batch", "length", "fft", "iter"]))
    if what == "batch":
        c["batch"] = draw(st.sampled_from([[5], [9], [3, 4], [33], [70]]))
    elif what == "length":
        c["L"] = draw(st.sampled_from([100, 400, 1500])) * c["n_fft"] + draw(
            st.integers(0, 300 * c["n_fft"]))
    elif what == "fft":
        c["n_fft"] = draw(st.sampled_from([128, 256, 512, 1024, 2048]))
        c["hop"] = draw(st.sampled_from([None, c["n_fft"] // 2, c["n_fft"] // 4]))
        c["L"] = draw(st.integers(8 * c["n_fft"], 20 * c["n_fft"] if c["n_fft"] < 1024
                                  else 10 * c["n_fft"]))
    else:
        c["n_iter"] = draw(st.integers(5, 20))
    return c


@st.composite
def bad_case(draw):
    return dict(what=draw(st.sampled_from(["algo", "n_src"])), name=draw(st.text(max_size=5)),
                C=draw(st.integers(1, 3)), extra=draw(st.integers(1, 3)), seed=draw(seeds))


def check_bad(c):
    if c["what"] == "algo":
        if c["name"] in [a.value for a in SepAlgo]:
            raise Skip("valid name")
        try:
            BSSSeparator(32, algo=c["name"])
        except ValueError:
            return ["unknown algorithm"]
        raise Violation("unknown algorithm %r was accepted" % c["name"])
    x = T(rng_of(c["seed"], 1).standard_normal((c["C"], 400)))
    for alg in (BSSSeparator(32, algo="tiss", n_src=c["C"] + c["extra"], n_iter=1),):
        try:
            alg(x)
        except ValueError:
            return ["too many sources"]
        raise Violation("more sources than channels accepted")


FACETS = [
    Facet("pipeline", case(), check, cases=(2000, 25000), weight=3,
          nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration"),
    Facet("rejects", bad_case(), check_bad, cases=(160, 500)),
    Facet("pipeline-large", large_case(), check, cases=(320, 4000), weight=5,
          nontrivial=lambda c, l: c["n_iter"] > 0, rule="at least one iteration"),
]
