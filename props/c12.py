"""C12: GEV (max-SNR) beamformer."""
from hypothesis import strategies as st

from vlib import bf, refs
from vlib.boot import np
from vlib.diff import sensitivity
from vlib.harness import Facet, Skip, Violation, expect_close
from vlib.signals import rng_of

RULE = "Random STFT data, masks, channels, sources and reference, over a wide range of levels"
ASSUMPTIONS = ["double precision", "a repeated principal eigenvalue is outside the domain"]


def check_ref(c):
    X, m = bf.setup(c)
    Y0, amp = sensitivity(lambda Z: refs.gev(Z, m.numpy(), c["ref"]), X)
    if amp > 1e5:
        raise Skip("ill conditioned")
    Y = bf.run(c, X, m)
    expect_close(Y, Y0, 1e-8 * max(1, amp) + bf.closed_form(c, X, m), "GEV output", axis=(-1,), floor=1e-9 * c["gain"])
    return ["C%d" % c["C"], "gain%g" % c["gain"]]


def check_opt(c):
    """no filter has a larger ratio of target to noise output power"""
    X, m = bf.setup(c)
    Y = bf.run(c, X, m)
    W = bf.filters(Y, X)
    Rt, Rn = (refs.weighted_cov(m.numpy()[:, i], X) for i in range(2))
    rng = rng_of(c["seed"], 5)
    q = lambda w, R: np.real(w.conj() @ R @ w)
    for s in range(c["n_src"]):
        for f in range(c["F"]):
            if np.linalg.cond(Rn[s, f]) > 1e4:
                continue
            w = W[s, f]
            snr = q(w, Rt[s, f]) / q(w, Rn[s, f])
            best = refs.gevd(Rt[s, f], Rn[s, f])[0][-1]
            if not snr >= best * (1 - 1e-5):
                raise Violation("output SNR %.8g below the maximum %.8g" % (snr, best))
            for _ in range(6):
                u = rng.standard_normal(c["C"]) + 1j * rng.standard_normal(c["C"])
                if q(u, Rt[s, f]) / q(u, Rn[s, f]) > snr * (1 + 1e-5):
                    raise Violation("a random filter has a larger SNR")
    return ["C%d" % c["C"]]


def check_repeated(c):
    """masks that are multiples of each other (or nearly): every filter has the same SNR, the output
    still is a filter scaled to the reference microphone"""
    X, m = bf.setup(c)
    m = m.clone()
    m[:, 1] = m[:, 0] * c["ratio"] * (1 + c["tilt"] * (m[:, 1] / c["mscale"] - 0.5))
    Y = bf.run(c, X, m)
    if not np.isfinite(Y).all():
        raise Violation("output is not finite")
    W = bf.filters(Y, X)
    Rn = refs.weighted_cov(m.numpy()[:, 1], X)
    for s in range(c["n_src"]):
        for f in range(c["F"]):
            k = np.linalg.cond(Rn[s, f])
            if k > 1e6:
                continue
            # w = v (R v)_ref^* / (v^H R v), whichever v
            w = W[s, f]
            Rw = Rn[s, f] @ w
            p = np.real(w.conj() @ Rw)
            if not abs(Rw[c["ref"]] - p) <= 1e-9 * k * np.real(np.trace(Rn[s, f])):
                raise Violation("the filter is not scaled to the reference microphone: %s, not %.8g"
                                % (Rw[c["ref"]], p))
    return ["C%d" % c["C"], "ratio%g" % c["ratio"]]


@st.composite
def repeated_case(draw):
    c = draw(bf.bf_case(("gev",)))
    c["tilt"] = draw(st.sampled_from([0.0, 0.0, 1e-9, 1e-6, 1e-3]))
    c["ratio"] = draw(st.sampled_from([1.0, 1.0, 0.25, 3.0]))
    return c


FACETS = [
    Facet("reference", bf.bf_case(("gev",)), check_ref, cases=(6400, 40000),
          rule="the reference is well conditioned"),
    Facet("optimal", bf.bf_case(("gev",)), check_opt, cases=(3200, 20000),
          rule="noise covariance condition number below 1e4"),
    Facet("repeated", repeated_case(), check_repeated, cases=(1600, 10000)),
    Facet("large", bf.large_case(("gev",)), check_ref, cases=(1200, 10000), weight=4,
          rule="the reference is well conditioned"),
]
