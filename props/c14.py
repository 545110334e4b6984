"""C14: every iteration decreases the negative log-likelihood (or leaves it)."""
from hypothesis import strategies as st

import torchiva
from vlib import algos, refs
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, tonp
from vlib.signals import T, flavours, seeds, stft_like

RULE = ("Random data; the objective, computed from input and output only, after k and k+1 "
        "iterations for k = 0 .. n-1")
ASSUMPTIONS = ["double precision", "increases below the effect of the diagonal loading "
               "(1e-3 of a nat per bin) are not violations"]


@st.composite
def case(draw):
    c = draw(algos.iva_config(algos=("tiss", "tiss", "ip", "ip2"), max_chan=4,
                              models=("laplace", "gauss")))
    if "n_src" in c:
        c["n_src"] = None
    c["ref"] = None
    nm = 2 * algos.min_frames(c)
    c.update(F=draw(st.integers(1 if c['model'] == 'laplace' else 3, 6)), N=draw(st.integers(nm, nm + 40)), seed=draw(seeds),
             flavour=draw(st.sampled_from(["mix", "noise", "corr", "dyn", "inst", "realdc"])),
             gain=draw(st.sampled_from([1.0, 1.0, 0.3, 10.0])), iters=draw(st.integers(2, 7)))
    return c


def filters(c, X, Y):
    """demixing matrices (F, C, C) from input and output"""
    taps = c.get("n_taps", 0)
    W = []
    for f in range(c["F"]):
        B = X[:, f]
        if taps:
            B = np.concatenate((B, refs.delayed(X, taps, c["n_delay"])[:, f].reshape(
                c["C"] * taps, -1)))
        s = np.linalg.svd(B, compute_uv=False)
        if s[-1] < 1e-3 * s[0]:
            raise Skip("rank-deficient data")
        G = np.linalg.lstsq(B.T, Y[:, f].T, rcond=None)[0].T
        if np.linalg.norm(G @ B - Y[:, f]) > 1e-6 * np.linalg.norm(Y[:, f]):
            raise Violation("the sources are not linear in the (delayed) channels")
        W.append(G[:, : c["C"]])
    return np.stack(W)


def objective(c, X, Y):
    W = filters(c, X, Y)
    _, ld = np.linalg.slogdet(W)
    P = np.abs(Y) ** 2
    if c["model"] == "laplace":
        r = np.sqrt(P.sum(axis=-2))  # (S, N)
        con = 2 * c["F"] * np.log(r.mean(axis=-1)).sum()
    else:
        r = P.mean(axis=-2)
        if r.min() < 1e-4:
            raise Skip("power below the clamp of the Gauss model")
        con = c["F"] * np.log(r).mean(axis=-1).sum()
    # IP solves (W V_k) w = e_k by loaded normal equations: exact only when well conditioned
    worst = 1.0
    if c["algo"] == "ip":
        for k in range(c["C"]):
            wt = 1.0 / np.maximum(r[k], 1e-9)
            for f in range(c["F"]):
                M = W[f] @ ((X[:, f] * wt) @ X[:, f].conj().T)
                worst = max(worst, np.linalg.cond(M / np.linalg.norm(M, axis=1, keepdims=True)))
    return con - 2 * ld.sum(), worst


def check(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    J = []
    for k in range(c["iters"] + 1):
        Y = tonp(call(algos.build(dict(c, n_iter=k)), T(X)))
        if k == 0 and not np.allclose(Y, X):
            raise Violation("zero iterations do not return the input")
        j, cond = objective(c, X, Y)
        J.append(j)
        if cond > 30:
            break
    if len(J) < 2:
        raise Skip("ill conditioned")
    if cond > 30:
        J = J[:-1]
    tol = 1e-3 * c["F"]
    for k in range(len(J) - 1):
        if not J[k + 1] <= J[k] + tol:
            raise Violation("the negative log-likelihood went from %.9g to %.9g in iteration %d"
                            % (J[k], J[k + 1], k + 1))
    lab = [algos.label(c), c["model"]]
    if J[-1] < J[0] - 0.1:
        lab.append("progress")
    return lab


@st.composite
def long_case(draw):
    c = draw(case())
    c["iters"] = draw(st.integers(8, 25))
    c["F"] = max(c["F"], draw(st.integers(1, 20)))
    return c


# ------------------------------------------------------------------ FIVE
@st.composite
def five_case(draw):
    C = draw(st.integers(2, 4))
    return dict(C=C, F=draw(st.integers(2, 5)), N=draw(st.integers(15 * C, 15 * C + 50)),
                seed=draw(seeds), flavour=draw(flavours), iters=draw(st.integers(2, 6)),
                power=draw(st.sampled_from([None])))


def check_five(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"])
    prev = None
    first = None
    for k in range(1, c["iters"] + 1):
        alg = torchiva.FIVE(n_iter=k, model=torchiva.models.LaplaceModel(), proj_back_mic=None,
                            n_power_iter=c["power"])
        Y = tonp(call(alg, T(X)))[0]
        r = np.sqrt((np.abs(Y) ** 2).sum(axis=0)).mean()
        if first is None:
            first = r
        if prev is not None and not r <= prev * (1 + 1e-4):
            raise Violation("the mean magnitude of the whitened target grew from %.9g to %.9g in "
                            "iteration %d" % (prev, r, k))
        prev = r
    return ["five"] + (["progress"] if prev < 0.999 * first else [])


# ------------------------------------------------------------------ WPE
@st.composite
def wpe_case(draw):
    C = draw(st.integers(2, 4))
    taps = draw(st.integers(1, 3))
    d = draw(st.integers(0, 3))
    n = 8 * C * taps + d + 12
    return dict(C=C, taps=taps, delay=d, F=draw(st.integers(1, 3)), N=draw(st.integers(n, n + 40)),
                seed=draw(seeds), iters=draw(st.integers(2, 5)), flavour=draw(
                    st.sampled_from(["mix", "noise", "corr", "dyn", "inst"])),
                gain=draw(st.sampled_from([1.0, 10.0, 100.0])))


def check_wpe(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"], c["gain"])
    # a reverberant tail to predict
    from vlib.signals import rng_of
    rng = rng_of(c["seed"], 5)
    for lag in range(c["delay"] + 1, c["delay"] + c["taps"] + 1):
        a = 0.4 * (rng.standard_normal((c["C"], c["F"], 1)) +
                   1j * rng.standard_normal((c["C"], c["F"], 1)))
        X[:, :, lag:] = X[:, :, lag:] + a * X[:, :, :-lag]
    J = []
    for k in range(c["iters"] + 1):
        Y = X if k == 0 else tonp(call(torchiva.WPE(n_iter=k, n_taps=c["taps"],
                                                    n_delay=c["delay"]), T(X)))
        p = (np.abs(Y) ** 2).mean(axis=0)
        if k > 0 and ((1 / np.maximum(p, 1e-5)) > 0.3 * (1 / np.maximum(p, 1e-5)).sum(
                axis=-1, keepdims=True)).any():
            break  # the weights degenerate to a single frame: the likelihood is singular there
        J.append(np.log(p).mean(axis=-1))  # (F,)
    if len(J) < 3:
        raise Skip("singular likelihood")
    for k in range(len(J) - 1):
        if not np.all(J[k + 1] <= J[k] + 1e-3):
            raise Violation("the log-likelihood cost of WPE went from %s to %s in iteration %d"
                            % (J[k], J[k + 1], k + 1))
    return ["wpe"] + (["progress"] if np.any(J[-1] < J[0] - 0.01) else [])


FACETS = [
    Facet("iva", case(), check, cases=(2400, 15000), weight=4,
          nontrivial=lambda c, l: "progress" in l,
          rule="the objective fell by more than 0.1 over the run"),
    Facet("five", five_case(), check_five, cases=(1600, 8000), weight=2,
          nontrivial=lambda c, l: "progress" in l, rule="the objective fell by 0.1 percent"),
    Facet("wpe", wpe_case(), check_wpe, cases=(1600, 8000), weight=2,
          nontrivial=lambda c, l: "progress" in l, rule="the objective fell by more than 0.01"),
    Facet("iva-long", long_case(), check, cases=(240, 2000), weight=8,
          nontrivial=lambda c, l: "progress" in l,
          rule="the objective fell by more than 0.1 over the run"),
]
