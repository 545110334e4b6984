"""C17: fftconvolve is linear convolution, truncated as documented."""
from hypothesis import strategies as st

import torchiva
from vlib.boot import np, torch
from vlib.harness import Facet, Violation, call, expect_close, expect_dtype, tonp
from vlib.signals import T, real_signal, rng_of, seeds

RULE = ("Random lengths (including 1, equal, second longer), modes, axis, broadcast leading "
        "dimensions; compared with direct summation, and algebraic identities")
ASSUMPTIONS = []


@st.composite
def case(draw):
    n1, n2 = draw(st.integers(1, 40)), draw(st.integers(1, 40))
    nd = draw(st.integers(1, 3))
    b1 = [draw(st.sampled_from([1, 2, 3])) for _ in range(nd - 1)]
    b2 = [draw(st.sampled_from([1, b])) for b in b1]
    if draw(st.booleans()):
        b1, b2 = b2, b1
    return dict(n1=n1, n2=n2, b1=b1, b2=b2, axis=draw(st.integers(0, nd - 1)),
                neg=draw(st.booleans()), mode=draw(st.sampled_from(["full", "same", "valid"])),
                dtype=draw(st.sampled_from(["f32", "f64"])), seed=draw(seeds),
                flavour=draw(st.sampled_from(["noise", "noise", "impulse", "ramp"])))


@st.composite
def large_case(draw):
    c = draw(case())
    c["n1"] = draw(st.one_of(st.integers(41, 6000), st.integers(6000, 60000),
                          st.sampled_from([1024, 2048, 4096, 65536])))
    c["n2"] = draw(st.one_of(st.integers(1, 1200), st.sampled_from([512, 1024])))
    if draw(st.booleans()):
        c["n1"], c["n2"] = c["n2"], c["n1"]
    return c


def direct(a, b):
    """convolution along the last axis, by summation"""
    n1, n2 = a.shape[-1], b.shape[-1]
    if n2 > n1:
        return direct(b, a)
    shape = np.broadcast_shapes(a.shape[:-1], b.shape[:-1])
    out = np.zeros(shape + (n1 + n2 - 1,))
    for k in range(n2):
        out[..., k:k + n1] += a * b[..., k:k + 1]
    return out


def crop(y, n1, n2, mode):
    n = n1 + n2 - 1
    if mode == "full":
        return y
    m = n1 if mode == "same" else max(n1, n2) - min(n1, n2) + 1
    s = (n - m) // 2
    return y[..., s:s + m]


def check(c):
    nd = len(c["b1"]) + 1
    dt = torch.float64 if c["dtype"] == "f64" else torch.float32
    a = real_signal(c["seed"], tuple(c["b1"]) + (c["n1"],), c["flavour"])
    b = real_signal(c["seed"] + 1, tuple(c["b2"]) + (c["n2"],))
    want = crop(direct(a, b), c["n1"], c["n2"], c["mode"])
    ax = c["axis"]
    # the function exchanges the axis with the last one
    dim = ax - nd if c["neg"] else ax
    ta = T(np.swapaxes(a, ax, -1), dt)
    tb = T(np.swapaxes(b, ax, -1), dt)
    keep = ta.clone(), tb.clone()
    y = call(torchiva.fftconvolve, ta, tb, mode=c["mode"], dim=dim)
    expect_dtype(y, dt, "fftconvolve")
    tol = 1e-10 if dt == torch.float64 else 1e-4
    expect_close(y, np.swapaxes(want, ax, -1), tol, "fftconvolve", floor=1e-3)
    if not (torch.equal(ta, keep[0]) and torch.equal(tb, keep[1])):
        raise Violation("fftconvolve changed its input")
    if c["mode"] == "full":
        y2 = call(torchiva.fftconvolve, tb, ta, mode="full", dim=dim)
        expect_close(y2, tonp(y), tol * 10, "commuted fftconvolve", floor=1e-3)
    if nd == 1 or ax == nd - 1:
        y3 = call(torchiva.fftconvolve, ta, tb, mode=c["mode"])
        expect_close(y3, tonp(y), tol, "default axis", floor=1e-3)
    return [c["mode"], "dim%d" % nd, "longer-second" if c["n2"] > c["n1"] else "longer-first"]


def check_bad(c):
    try:
        torchiva.fftconvolve(torch.zeros(5), torch.zeros(3), mode=c["mode"])
    except ValueError:
        return ["rejected"]
    raise Violation("mode %r was accepted" % c["mode"])


FACETS = [
    Facet("direct", case(), check, cases=(16000, 100000),
          nontrivial=lambda c, l: c["n1"] > 1 and c["n2"] > 1, rule="both signals longer than 1"),
    Facet("large", large_case(), check, cases=(800, 6000), weight=4,
          nontrivial=lambda c, l: c["n1"] > 1 and c["n2"] > 1, rule="both signals longer than 1"),
    Facet("bad-mode", st.fixed_dictionaries(dict(mode=st.text(max_size=6).filter(
        lambda s: s not in ("full", "same", "valid")))), check_bad, cases=(240, 500)),
]
