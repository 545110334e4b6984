"""C10: MVDR beamformer."""
from vlib import bf, refs
from vlib.boot import np
from vlib.diff import sensitivity
from vlib.harness import Facet, Skip, Violation, expect_close
from vlib.signals import rng_of

RULE = "Random STFT data, masks, channels, sources, reference, type, over a wide range of levels"
ASSUMPTIONS = ["double precision", "covariances with a repeated principal eigenvalue are outside "
               "the domain of the relative-transfer-function variants"]


def reference(c, m):
    return lambda Z: refs.mvdr(Z, m.numpy(), c["kind"], c["ref"], c.get("n_power_iter"),
                               1e-5 if c["eps"] is None else c["eps"])


def check_ref(c):
    X, m = bf.setup(c)
    Y0, amp = sensitivity(reference(c, m), X)
    if amp > 1e5:
        raise Skip("ill conditioned")
    Y = bf.run(c, X, m)
    expect_close(Y, Y0, 1e-8 * max(1, amp) + bf.closed_form(c, X, m), "MVDR output", axis=(-1,), floor=1e-9 * c["gain"])
    return [c["kind"], "C%d" % c["C"], "gain%g" % c["gain"],
            "gevd" if c.get("n_power_iter") is None else "power"]


def check_opt(c):
    """distortionless toward the steering vector, minimum noise output among such filters"""
    c = dict(c, eps=None)
    X, m = bf.setup(c)
    _, amp = sensitivity(reference(c, m), X)
    if amp > 1e4:
        raise Skip("ill conditioned")
    Y = bf.run(c, X, m)
    W = bf.filters(Y, X)
    M = m.numpy()
    R = [refs.weighted_cov(M[:, i], X) for i in range(M.shape[1])]
    rng = rng_of(c["seed"], 5)
    for s in range(c["n_src"]):
        for f in range(c["F"]):
            Rt, Rn = R[0][s, f], R[1][s, f]
            k = np.linalg.cond(Rn)
            if k > 1e3:
                continue
            a = refs.rtf(Rt, R[2][s, f] if M.shape[1] == 3 else Rn, c["ref"],
                         c.get("n_power_iter"))
            w = W[s, f]
            g = np.vdot(w, a)
            if abs(g - 1) > 1e-3:
                raise Violation("response toward the steering vector is %s, not 1" % g)
            p = np.real(w.conj() @ Rn @ w)
            for _ in range(4):
                d = rng.standard_normal(c["C"]) + 1j * rng.standard_normal(c["C"])
                d = d - a * np.vdot(a, d) / np.vdot(a, a)
                for t in (0.03, 1.0):
                    u = w + t * np.linalg.norm(w) * d / np.linalg.norm(d)
                    if np.real(u.conj() @ Rn @ u) < p * (1 - 1e-3):
                        raise Violation("another distortionless filter has lower noise power")
    return [c["kind"], "C%d" % c["C"]]


FACETS = [
    Facet("reference", bf.bf_case(("mvdr",)), check_ref, cases=(8000, 50000),
          rule="the reference is well conditioned"),
    Facet("optimal", bf.bf_case(("mvdr",)).filter(lambda c: c["kind"] != "scm"), check_opt,
          cases=(3200, 20000), rule="the reference is well conditioned"),
    Facet("large", bf.large_case(("mvdr",)), check_ref, cases=(1200, 10000), weight=4,
          rule="the reference is well conditioned"),
]
