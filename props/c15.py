"""C15: what an output can depend on - linear filter of the (delayed) channels, no preferred order of
bins, frames or channels, no leak between bins."""
from hypothesis import strategies as st

import torchiva
from vlib import algos, refs
from vlib.bf import FixedMasks, n_masks_of
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_close, relerr, tonp
from vlib.signals import T, flavours, rng_of, seeds, stft_like

RULE = ("Random configuration and data; the input is permuted along bins, frames or channels, or "
        "changed in one bin, and the output compared with the correspondingly permuted output")
ASSUMPTIONS = ["double precision", "FIVE discards the DC bin by construction: it is left in place",
               "cases whose output amplifies a 1e-9 relative change of the input by more than 1e5 "
               "are outside the domain"]


def base_case(draw, cfg, F=(2, 5)):
    c = draw(cfg)
    nm = algos.min_frames(c)
    c.update(F=draw(st.integers(*F)), N=draw(st.integers(nm, nm + 25)), seed=draw(seeds),
             flavour=draw(flavours), pseed=draw(st.integers(0, 10**6)))
    return c


def masks_of(c, X):
    if c["algo"] not in ("mvdr", "mwf", "gev"):
        return None
    return algos.MaskNet(c["n_src"], n_masks_of(c), seed=c["mseed"])(T(X[c["ref"]])).detach()


def run(c, X, masks=None):
    m = FixedMasks(masks) if masks is not None else None
    return tonp(call(algos.build(c, model=m), T(X)))


def sens(c, X, Y, masks):
    rng = rng_of(c["seed"], 3)
    D = rng.standard_normal(X.shape) + 1j * rng.standard_normal(X.shape)
    amp = relerr(run(c, X * (1 + 1e-9 * D), masks), Y) / 1e-9
    if not amp < 1e5:
        raise Skip("ill conditioned")
    return max(1.0, amp)


# ------------------------------------------------------------------ linear filter
@st.composite
def span_case(draw):
    return base_case(draw, algos.iva_config(models=("laplace", "gauss", "invpow", "nmf"))
                     if draw(st.booleans()) else
                     algos.bf_config(algos=("mvdr", "mwf", "gev")))


def check_span(c):
    if c["algo"] == "mwf":
        c["ti"] = True
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"])
    Y = run(c, X, masks_of(c, X))
    taps = c.get("n_taps", 0)
    Xb = refs.delayed(X, taps, c.get("n_delay", 0)) if taps else None
    for f in range(c["F"]):
        B = X[:, f]
        if taps:
            B = np.concatenate((B, Xb[:, f].reshape(c["C"] * taps, -1)))
        G = np.linalg.lstsq(B.T, Y[:, f].T, rcond=None)[0].T
        r = np.linalg.norm(G @ B - Y[:, f], axis=-1)
        n = np.linalg.norm(Y[:, f], axis=-1) + 1e-9 * np.linalg.norm(X[:, f])
        if not np.all(r <= 1e-6 * n):
            raise Violation("bin %d is not a linear combination of the same bin of the channels at "
                            "lags 0 and delay+1..delay+taps (relative residual %.3g)"
                            % (f, (r / n).max()))
        if c["algo"] == "wpe":
            # dereverberation subtracts a prediction: the current frame passes unchanged
            s = np.linalg.svd(B, compute_uv=False)
            if s[-1] > 1e-3 * s[0] and np.linalg.norm(G[:, : c["C"]] - np.eye(c["C"])) > 1e-5:
                raise Violation("WPE changes the direct path")
    return [algos.label(c)]


# ------------------------------------------------------------------ permutations
@st.composite
def perm_case(draw):
    what = draw(st.sampled_from(["bins", "frames", "channels"]))
    if what == "channels":
        cfg = st.one_of(algos.iva_config(algos=("ip2", "five", "wpe"), models=("laplace", "gauss")),
                        algos.bf_config())
    elif what == "frames":
        cfg = st.one_of(algos.iva_config(algos=("tiss", "ip", "ip2", "five"), max_taps=0),
                        algos.bf_config())
    else:
        cfg = st.one_of(algos.iva_config(models=("laplace", "gauss")), algos.bf_config())
    c = base_case(draw, cfg)
    c["perm"] = what
    return c


def check_perm(c):
    if c["algo"] in ("ip2", "five") and c["ref"] is None:
        c["ref"] = 0
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"])
    masks = masks_of(c, X)
    Y = run(c, X, masks)
    amp = sens(c, X, Y, masks)
    rng = rng_of(c["pseed"], 9)
    c2 = dict(c)
    if c["perm"] == "bins":
        p = rng.permutation(c["F"])
        if c["algo"] == "five":
            p = np.concatenate(([0], 1 + rng.permutation(c["F"] - 1)))
        X2, want = X[:, p], Y[:, p]
        m2 = masks[..., p, :] if masks is not None else None
    elif c["perm"] == "frames":
        p = rng.permutation(c["N"])
        X2, want = X[..., p], Y[..., p]
        m2 = masks[..., p] if masks is not None else None
    else:
        p = rng.permutation(c["C"])
        X2, m2 = X[p], masks
        want = Y[p] if c["algo"] in ("ip2", "wpe") else Y
        if c.get("ref") is not None:
            c2["ref"] = int(np.flatnonzero(p == c["ref"])[0])
        if c["algo"] == "mvdr" and c["kind"] in ("power", "three") and c.get("n_power_iter"):
            raise Skip("power iteration starts from the first channel")
        if c["algo"] == "five" and c["n_power_iter"] is not None:
            raise Skip("power iteration starts from a fixed vector")
    if m2 is not None:
        m2 = m2.contiguous()
    Y2 = run(c2, X2, m2)
    # float32 constants may hide in the source models; 1e-8 times the amplification is ample
    expect_close(Y2, want, 1e-8 * amp, "output for permuted " + c["perm"])
    return [algos.label(c), c["perm"]]


# ------------------------------------------------------------------ bins are independent
@st.composite
def leak_case(draw):
    cfg = st.one_of(algos.iva_config(algos=("wpe",)), algos.bf_config(),
                    algos.iva_config(algos=("five",), models=("invpow",)))
    c = base_case(draw, cfg)
    c["bin"] = draw(st.integers(0, c["F"] - 1))
    return c


def check_leak(c):
    """with bin-wise weights or masks, a bin of the output depends on that bin of the input only"""
    if c["algo"] == "five" and c["ref"] is None:
        c["ref"] = 0
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"])
    masks = masks_of(c, X)
    Y = run(c, X, masks)
    X2 = X.copy()
    X2[:, c["bin"]] = stft_like(c["pseed"] + 1, c["C"], 1, c["N"], "noise", 3.0)[:, 0]
    Y2 = run(c, X2, masks)
    others = [f for f in range(c["F"]) if f != c["bin"]]
    amp = sens(c, X, Y, masks)
    expect_close(Y2[:, others], Y[:, others], 1e-9 * amp, "other bins after changing one bin")
    return [algos.label(c)]


# ------------------------------------------------------------------ causality of dereverberation
@st.composite
def zero_case(draw):
    C = draw(st.integers(1, 3))
    taps = draw(st.integers(1, 3))
    d = draw(st.integers(0, 4))
    n = 6 * C * taps + d + 10
    return dict(C=C, taps=taps, delay=d, F=draw(st.integers(1, 3)), N=draw(st.integers(n, n + 30)),
                seed=draw(seeds), flavour=draw(st.sampled_from(["mix", "noise", "inst"])),
                n_iter=draw(st.integers(1, 3)), model=draw(st.sampled_from(["none", "wpew"])))


def check_zero(c):
    """the first delay+1 frames have no past to be predicted from: WPE leaves them alone"""
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"])
    Y = tonp(call(torchiva.WPE(n_iter=c["n_iter"], n_taps=c["taps"], n_delay=c["delay"],
                               model=algos.WpeWeights() if c["model"] == "wpew" else None), T(X)))
    k = c["delay"] + 1
    expect_close(Y[..., :k], X[..., :k], 1e-9, "first %d frames" % k)
    if not relerr(Y[..., k:], X[..., k:]) > 1e-6:
        raise Violation("WPE leaves the whole signal unchanged")
    return ["delay%d" % c["delay"]]


@st.composite
def large_perm(draw):
    return algos.enlarge(draw, draw(perm_case()), ("bins", "frames"))


@st.composite
def large_span(draw):
    return algos.enlarge(draw, draw(span_case()), ("bins", "frames"))


@st.composite
def large_leak(draw):
    c = algos.enlarge(draw, draw(leak_case()), ("bins", "frames"))
    c["bin"] = draw(st.integers(0, c["F"] - 1))
    return c


FACETS = [
    Facet("span", span_case(), check_span, cases=(3000, 25000)),
    Facet("permutation", perm_case(), check_perm, cases=(4800, 40000), weight=2,
          rule="amplification below 1e5"),
    Facet("leak", leak_case(), check_leak, cases=(2400, 20000), rule="amplification below 1e5"),
    Facet("direct-path", zero_case(), check_zero, cases=(1200, 10000)),
    Facet("large-span", large_span(), check_span, cases=(320, 4000), weight=4),
    Facet("large-permutation", large_perm(), check_perm, cases=(480, 6000), weight=4,
          rule="amplification below 1e5"),
    Facet("large-leak", large_leak(), check_leak, cases=(320, 4000), weight=4,
          rule="amplification below 1e5"),
]
