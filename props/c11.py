"""C11: multichannel Wiener filter."""
from vlib import bf, refs
from vlib.boot import np
from vlib.diff import sensitivity
from vlib.harness import Facet, Skip, call, expect_close, expect_shape
from vlib.signals import T

RULE = "Random STFT data, masks, channels, sources, reference, time-invariant and time-varying"
ASSUMPTIONS = ["double precision"]


def check_ref(c):
    X, m = bf.setup(c)
    eps = 1e-5 if c["eps"] is None else c["eps"]
    Y0, amp = sensitivity(lambda Z: refs.mwf(Z, m.numpy(), c["ref"], c["ti"], eps), X)
    if amp > 1e5:
        raise Skip("ill conditioned")
    Y = bf.run(c, X, m)
    expect_close(Y, Y0, 1e-8 * max(1, amp), "MWF output", axis=(-1,), floor=1e-9 * c["gain"])
    return ["ti" if c["ti"] else "tv", "C%d" % c["C"], "gain%g" % c["gain"]]


def check_partition(c):
    """the filters for target and for noise (masks exchanged) add up to the reference channel"""
    c = dict(c, eps=None)
    X, m = bf.setup(c)
    Y = bf.run(c, X, m)
    perm = [1, 0] if c["ti"] else [1, 0, 3, 2]
    Z = bf.run(c, X, m[:, perm])
    R = refs.weighted_cov(m.numpy()[:, 0], X) + refs.weighted_cov(m.numpy()[:, 1], X)
    k = np.linalg.cond(R).max()
    if k > 1e4:
        raise Skip("ill conditioned covariance")
    load = 1e-5  # relative to the largest entry
    tot = Y + Z
    want = np.broadcast_to(X[c["ref"]], tot.shape)
    expect_close(tot, want, 3.0 * load * k * c["C"] + 1e-8, "target + noise estimates", axis=(-1,),
                 floor=1e-9 * c["gain"])
    return ["ti" if c["ti"] else "tv"]


def check_function(c):
    """compute_mwf_bf: without a reference microphone, all the filters"""
    from torchiva.beamformer import compute_mwf_bf
    X, m = bf.setup(c)
    R = [refs.weighted_cov(m.numpy()[:, i], X) for i in range(2)]
    k = np.linalg.cond(R[0] + R[1]).max()
    if k > 1e6:
        raise Skip("ill conditioned covariance")
    kw = {} if c["eps"] is None else dict(eps=c["eps"])
    eps = 1e-5 if c["eps"] is None else c["eps"]
    W = call(compute_mwf_bf, T(R[0]), T(R[1]), **kw)
    expect_shape(W, R[0].shape, "matrix of all the filters")
    for r in range(c["C"]):
        w = call(compute_mwf_bf, T(R[0]), T(R[1]), ref_mic=r, **kw)
        expect_shape(w, R[0].shape[:-1], "filter of one microphone")
        want = np.array([[refs.mwf_filter(a, b, r, eps) for a, b in zip(*p)] for p in zip(*R)])
        expect_close(w, want, 1e-8 + 1e-13 * k, "filter of microphone %d" % r, axis=(-1,))
        expect_close(W[..., r], want, 1e-8 + 1e-13 * k, "column %d of the filters" % r, axis=(-1,))
    return ["eps-%s" % c["eps"]]


FACETS = [
    Facet("reference", bf.bf_case(("mwf",)), check_ref, cases=(4800, 30000),
          rule="the reference is well conditioned"),
    Facet("partition", bf.bf_case(("mwf",)), check_partition, cases=(3200, 20000),
          rule="covariance condition number below 1e4"),
    Facet("function", bf.bf_case(("mwf",)), check_function, cases=(1600, 10000),
          rule="covariance condition number below 1e6"),
    Facet("large", bf.large_case(("mwf",)), check_ref, cases=(800, 10000), weight=4,
          rule="the reference is well conditioned"),
]
