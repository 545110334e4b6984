"""C16: the STFT engine - definition, inverse, layout."""
from hypothesis import strategies as st

import torchiva
from vlib.boot import np, torch
from vlib.harness import (Facet, Skip, Violation, call, expect_close, expect_dtype, expect_shape,
                          tonp)
from vlib.signals import T, real_signal, rng_of, seeds

RULE = ("Random FFT size, hop, window (named, numpy, torch), signal length, leading dimensions and "
        "signal; compared with a frame-by-frame DFT, and with the signal after inversion")
ASSUMPTIONS = ["signals longer than half a frame (reflection padding)",
               "inverse: hop and window that satisfy the overlap-add condition of torch.istft"]

NAMES = ["hann", "hamming", "blackman", "bartlett", "boxcar", "cosine"]


def np_window(name, n):
    """periodic windows"""
    k = np.arange(n)
    if name == "hann":
        return 0.5 - 0.5 * np.cos(2 * np.pi * k / n)
    if name == "hamming":
        return 0.54 - 0.46 * np.cos(2 * np.pi * k / n)
    if name == "blackman":
        return 0.42 - 0.5 * np.cos(2 * np.pi * k / n) + 0.08 * np.cos(4 * np.pi * k / n)
    if name == "boxcar":
        return np.ones(n)
    if name == "bartlett":
        # periodic: symmetric window of n + 1 points without the last
        m = n + 1
        j = np.arange(m)
        w = np.where(j <= (m - 1) / 2, 2 * j / (m - 1), 2 - 2 * j / (m - 1))
        return w[:n]
    if name == "cosine":
        return np.sin(np.pi / (n + 1) * (k + 0.5))
    raise KeyError(name)


@st.composite
def case(draw):
    n_fft = draw(st.sampled_from([8, 12, 16, 20, 32, 64, 15, 9]))
    hop = draw(st.sampled_from([None, n_fft // 4, n_fft // 2, max(1, n_fft // 8), 3, 1]))
    if hop is not None:
        hop = max(1, hop)
    win = draw(st.sampled_from([None] + NAMES + ["numpy", "torch"]))
    return dict(n_fft=n_fft, hop=hop, win=win,
                L=draw(st.integers(n_fft, 8 * n_fft)),
                batch=draw(st.sampled_from([[], [1], [2], [3], [2, 2], [2, 1, 3]])),
                dtype=draw(st.sampled_from(["f32", "f64"])), given=draw(st.booleans()),
                flavour=draw(st.sampled_from(["noise", "noise", "impulse", "ramp"])),
                seed=draw(seeds))


@st.composite
def large_case(draw):
    c = draw(case())
    n = c["n_fft"] = draw(st.sampled_from([128, 256, 512, 1024, 2048, 4096, 100, 129, 513]))
    c["hop"] = draw(st.sampled_from([None, n // 4, n // 2, n // 8, n // 3]))
    c["L"] = draw(st.integers(n, 40 * n if n < 2000 else 12 * n))
    c["batch"] = draw(st.sampled_from([[], [2], [17], [3, 5], [2, 1, 3], [70]] if n < 2000
                                      else [[], [2], [3]]))
    return c


def build(c):
    dt = torch.float64 if c["dtype"] == "f64" else torch.float32
    n = c["n_fft"]
    if c["win"] in ("numpy", "torch"):
        w = 0.4 + rng_of(c["seed"], 4).uniform(size=n)
        arg = torch.from_numpy(w.copy())
        if not c.get("given", True):
            # without a dtype, the engine has the one of the window
            arg = arg.to(dt)
        if c["win"] == "numpy":
            arg = arg.numpy()
        eng = call(torchiva.STFT, n, hop_length=c["hop"], window=arg,
                   **(dict(dtype=dt) if c.get("given", True) else {}))
        if eng.window_type != "custom":
            raise Violation("window_type of a custom window is %r" % (eng.window_type,))
    else:
        w = np_window(c["win"] or "hann", n)
        if c.get("given", True):
            eng = call(torchiva.STFT, n, hop_length=c["hop"], window=c["win"], dtype=dt)
        else:
            torch.set_default_dtype(dt)
            try:
                eng = call(torchiva.STFT, n, hop_length=c["hop"], window=c["win"])
            finally:
                torch.set_default_dtype(torch.float32)
        if eng.window_type != (c["win"] or "hann"):
            raise Violation("window_type is %r" % (eng.window_type,))
    if eng.n_fft != n or eng.n_freq != n // 2 + 1 or eng.hop_length != c["hop"]:
        raise Violation("properties of the engine do not match its arguments")
    expect_dtype(eng.window, dt, "window")
    expect_close(eng.window, w, 1e-6 if dt == torch.float32 else 1e-12, "window")
    return eng, w, dt


def np_stft(x, n, hop, w):
    x = np.pad(x, [(0, 0)] * (x.ndim - 1) + [(n // 2, n // 2)], mode="reflect")
    nf = 1 + (x.shape[-1] - n) // hop
    out = np.zeros(x.shape[:-1] + (n // 2 + 1, nf), dtype=complex)
    E = np.exp(-2j * np.pi * np.outer(np.arange(n // 2 + 1), np.arange(n)) / n)
    for t in range(nf):
        out[..., t] = (x[..., t * hop:t * hop + n] * w) @ E.T
    return out


def check_def(c):
    eng, w, dt = build(c)
    hop = c["hop"] if c["hop"] is not None else c["n_fft"] // 4
    x = real_signal(c["seed"], tuple(c["batch"]) + (c["L"],), c["flavour"])
    X = call(eng, T(x, dt))
    want = np_stft(x, c["n_fft"], hop, w)
    expect_shape(X, want.shape, "STFT")
    expect_dtype(X, torch.complex128 if dt == torch.float64 else torch.complex64, "STFT")
    tol = 1e-9 if dt == torch.float64 else 2e-5
    if c["win"] not in ("numpy", "torch"):
        tol = max(tol, 1e-9)
    expect_close(X, want, tol, "STFT")
    # linear: the transform of a sum is the sum of the transforms
    return ["hop-" + ("default" if c["hop"] is None else "given"), str(c["win"]),
            "odd" if c["n_fft"] % 2 else "even", c["dtype"], "dims%d" % len(c["batch"])]


def check_inv(c):
    eng, w, dt = build(c)
    n = c["n_fft"]
    hop = c["hop"] if c["hop"] is not None else n // 4
    # overlap-add denominator over the interior
    nf = 1 + (c["L"] + 2 * (n // 2) - n) // hop
    den = np.zeros((nf - 1) * hop + n)
    for t in range(nf):
        den[t * hop:t * hop + n] += w ** 2
    tot = (nf - 1) * hop
    inner = den[n // 2: n // 2 + tot] if n % 2 == 0 else den[n // 2: den.size - n // 2]
    if inner.size == 0 or inner.min() < 1e-3:
        raise Skip("window and hop do not overlap-add")
    x = real_signal(c["seed"], tuple(c["batch"]) + (c["L"],), c["flavour"])
    y = call(eng.inv, call(eng, T(x, dt)))
    expect_dtype(y, dt, "inverse")
    if tuple(y.shape[:-1]) != tuple(c["batch"]):
        raise Violation("inverse has leading dimensions %s" % (tuple(y.shape[:-1]),))
    m = y.shape[-1]
    if not (c["L"] - hop - (n % 2) <= m <= c["L"]):
        raise Violation("inverse has %d samples for %d" % (m, c["L"]))
    tol = 1e-8 if dt == torch.float64 else 2e-4
    expect_close(y, x[..., :m], tol, "inverse of the STFT", floor=1e-3)
    # projection: analysing the resynthesised signal again
    rng = rng_of(c["seed"], 5)
    a = float(rng.uniform(-2, 2))
    X = call(eng, T(x, dt))
    Z = torch.complex(torch.from_numpy(rng.standard_normal(X.shape)).to(dt),
                      torch.from_numpy(rng.standard_normal(X.shape)).to(dt))
    lhs = call(eng.inv, X + a * Z)
    rhs = y + a * call(eng.inv, Z)
    expect_close(lhs, rhs, 1e-8 if dt == torch.float64 else 1e-3, "linearity of the inverse")
    return ["roundtrip", c["dtype"], str(c["win"]), "dims%d" % len(c["batch"])]


@st.composite
def dt_case(draw):
    return dict(n_fft=draw(st.sampled_from([8, 16, 32])), default=draw(st.sampled_from(
        ["f32", "f64"])), how=draw(st.sampled_from(["default", "double", "float", "dict"])),
        seed=draw(seeds), hop=draw(st.sampled_from([None, 4])))


def check_dt(c):
    """the engine follows the default type, .double()/.float(), and state dictionaries"""
    old = torch.get_default_dtype()
    try:
        torch.set_default_dtype(torch.float64 if c["default"] == "f64" else torch.float32)
        eng = call(torchiva.STFT, c["n_fft"], hop_length=c["hop"])
        want = torch.get_default_dtype()
        if c["how"] == "double":
            eng, want = eng.double(), torch.float64
        elif c["how"] == "float":
            eng, want = eng.float(), torch.float32
        elif c["how"] == "dict":
            e2 = torchiva.STFT(c["n_fft"], hop_length=c["hop"], window="hamming")
            call(e2.load_state_dict, eng.state_dict())
            eng = e2
            expect_close(eng.window, np_window("hann", c["n_fft"]), 1e-6, "restored window")
        expect_dtype(eng.window, want, "window")
        x = T(real_signal(c["seed"], (2, 6 * c["n_fft"]))).to(want)
        X = call(eng, x)
        expect_dtype(X, torch.complex128 if want == torch.float64 else torch.complex64, "STFT")
        y = call(eng.inv, X)
        expect_dtype(y, want, "inverse")
        expect_close(y, tonp(x)[..., : y.shape[-1]], 1e-8 if want == torch.float64 else 2e-4,
                     "round trip")
    finally:
        torch.set_default_dtype(old)
    return [c["how"], c["default"]]


FACETS = [
    Facet("definition", case(), check_def, cases=(6400, 40000)),
    Facet("inverse", case(), check_inv, cases=(6400, 40000),
          rule="window and hop satisfy the overlap-add condition"),
    Facet("definition-large", large_case(), check_def, cases=(320, 4000), weight=4),
    Facet("inverse-large", large_case(), check_inv, cases=(480, 4000), weight=4,
          rule="window and hop satisfy the overlap-add condition"),
    Facet("dtype", dt_case(), check_dt, cases=(600, 1500)),
]
