"""C18: Hermitian eigen-decompositions."""
from hypothesis import strategies as st

import torchiva
from vlib.boot import np, torch
from vlib.harness import (Facet, Skip, Violation, call, expect_close, expect_dtype, expect_shape,
                          tonp)
from vlib.signals import T, rng_of, seeds

RULE = ("Random Hermitian / symmetric matrices and positive definite second matrices with random "
        "spectra, levels, structure (diagonal, real, correlated) and leading dimensions; residual, "
        "order, normalisation and spectrum against numpy")
ASSUMPTIONS = ["second matrix positive definite, condition number up to 4e2 in "
               "single and 1e4 in double precision; tolerance 200 units of rounding times this "
               "condition number (ten times the largest error seen)"]


@st.composite
def case(draw):
    n = draw(st.sampled_from([2, 2, 2, 3, 4, 5]))
    return dict(n=n, batch=draw(st.sampled_from([[], [1], [3], [2, 2]])),
                kind=draw(st.sampled_from(["random", "diag", "real", "corr", "triangle0",
                                           "negative", "close", "zero"])),
                near=draw(st.sampled_from([0.0, 1e-14, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-3,
                                           1e-2])),
                bkind=draw(st.sampled_from(["random", "diag", "real", "corr", "identity",
                                            "weak"])),
                fn=draw(st.sampled_from(["eigh", "eigh", "eigh_2x2"])) if n == 2 else "eigh",
                dtype=draw(st.sampled_from(["c128", "c128", "c64", "f64"])),
                level=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e2, 1e-7, 1e7])),
                blevel=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e3, 1e-8, 1e8])),
                cpu=draw(st.booleans()), seed=draw(seeds))


@st.composite
def large_case(draw):
    c = draw(case())
    c["batch"] = draw(st.sampled_from([[33], [65], [130], [5, 17], [300], [2, 513], [1100]]))
    if draw(st.booleans()):
        c["n"], c["fn"], c["batch"] = draw(st.integers(6, 16)), "eigh", draw(
            st.sampled_from([[], [2], [5]]))
    return c


def herm_matrix(rng, n, kind, spd):
    if kind == "identity":
        return np.eye(n, dtype=complex)
    if kind == "diag":
        d = np.exp(rng.uniform(-2, 2, size=n))
        if not spd:
            d = d * rng.choice([-1, 1], size=n)
        return np.diag(d).astype(complex)
    M = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
    if kind == "real":
        M = M.real
    q, _ = np.linalg.qr(M)
    lo = {"corr": -3.0, "weak": -8.0}.get(kind, -1.0)
    d = np.exp(rng.uniform(lo, 1.5, size=n))
    if not spd:
        if kind == "negative":
            d = -d
        else:
            d = d * rng.choice([-1, 1], size=n)
    A = (q * d) @ q.conj().T
    A = 0.5 * (A + A.conj().T)
    if kind == "triangle0" and not spd:
        A[0, 1] = A[1, 0] = 0.0
    return A.astype(complex)


def dtypes(c):
    return dict(c128=torch.complex128, c64=torch.complex64, f64=torch.float64)[c["dtype"]]


def make(c, kind, spd, salt):
    n = int(np.prod(c["batch"], dtype=int))
    A = np.stack([herm_matrix(rng_of(c["seed"], salt, i), c["n"], kind, spd) for i in range(n)])
    A = A.reshape(tuple(c["batch"]) + A.shape[-2:])
    if c["dtype"] == "f64":
        A = A.real
        if spd:
            # the real part of an HPD matrix is positive definite
            pass
    return A


def tolerance(c):
    return 2e-3 if c["dtype"] == "c64" else 1e-7


def unit(c):
    return 6e-8 if c["dtype"] == "c64" else 1.1e-16


def first(c, B):
    """the first matrix; "close": a multiple of the second one (eigenvalues close to each other),
    "zero": zero"""
    if c["kind"] == "zero":
        return np.zeros_like(B)
    if c["kind"] != "close":
        return c["level"] * make(c, c["kind"], False, 1)
    B = B / np.abs(B).max(axis=(-2, -1), keepdims=True)
    return c["level"] * (3.0 * B + c["near"] * make(c, "random", False, 1))


def check_gevd(c):
    B = c["blevel"] * make(c, c["bkind"], True, 2)
    A = first(c, B)
    dt = dtypes(c)
    tA, tB = T(A, dt), T(B, dt)
    A, B = (t.numpy().astype(A.dtype) for t in (tA, tB))
    cond = np.linalg.cond(B)
    u = unit(c)
    if cond.max() ** 2 * u > 1e-2:
        raise Skip("condition number of B too large for single precision")
    # exact spectrum
    L = np.linalg.cholesky(B)
    Li = np.linalg.inv(L)
    M = Li @ A @ np.conj(np.swapaxes(Li, -1, -2))
    lam = np.linalg.eigvalsh(0.5 * (M + np.conj(np.swapaxes(M, -1, -2))))
    peak = np.abs(lam).max(axis=-1)
    fn = getattr(torchiva.linalg, c["fn"])
    kw = dict(use_eigh_cpu=c["cpu"]) if c["fn"] == "eigh" else {}
    keep = tA.clone(), tB.clone()
    w, V = call(fn, tA, B=tB, **kw)
    if not (torch.equal(tA, keep[0]) and torch.equal(tB, keep[1])):
        raise Violation("the input was modified")
    expect_shape(w, A.shape[:-1], "eigenvalues")
    expect_shape(V, A.shape, "eigenvectors")
    expect_dtype(V, dt, "eigenvectors")
    expect_dtype(w, torch.float32 if c["dtype"] == "c64" else torch.float64, "eigenvalues")
    w, V = tonp(w), tonp(V)
    if not (np.isfinite(w).all() and np.isfinite(V).all()):
        raise Violation("the decomposition is not finite")
    tol = 200 * u * cond  # of every matrix
    n = np.linalg.norm(V, axis=-2)
    if not np.abs(n - 1).max() <= 1e3 * u:
        raise Violation("the norms of the eigenvectors are %s" % n.ravel()[:8])
    if not np.all(np.diff(w, axis=-1) >= -tol[..., None] * peak[..., None]):
        raise Violation("the eigenvalues are not in ascending order")
    e = (np.abs(w - lam).max(axis=-1) / np.maximum(peak, 1e-300) / tol).max()
    if not e <= 1:
        raise Violation("the generalised eigenvalues differ from the exact ones by %.3g times the "
                        "tolerance" % e)
    R = np.linalg.norm(A @ V - (B @ V) * w[..., None, :], axis=-2)
    scale = np.linalg.norm(A, axis=(-2, -1)) + peak * np.linalg.norm(B, axis=(-2, -1))
    r = (R.max(axis=-1) / np.maximum(scale, 1e-300) / tol).max()
    if not r <= 1:
        raise Violation("A v = lambda B v holds only to %.3g times the tolerance" % r)
    # B-orthogonality of the eigenvectors
    G = np.conj(np.swapaxes(V, -1, -2)) @ B @ V
    d = np.sqrt(np.abs(np.einsum("...kk->...k", G)))
    G = G / d[..., :, None] / d[..., None, :]
    off = (np.abs(G - np.eye(c["n"])).max(axis=(-2, -1)) / tol).max()
    if not off <= 1:
        raise Violation("the eigenvectors are B-orthogonal only to %.3g times the tolerance" % off)
    gap = (np.diff(lam, axis=-1).min(axis=-1) / np.maximum(peak, 1e-300)).min()
    return [c["fn"], "n%d" % c["n"], c["dtype"], c["kind"], "B-" + c["bkind"],
            "close" if gap < 1e-4 else "separated"]


def evd_any(c, A, dt):
    tA = T(A, dt)
    A = tA.numpy().astype(A.dtype)
    lam = np.linalg.eigvalsh(A)
    w, V = call(torchiva.linalg.eigh, tA, use_eigh_cpu=c["cpu"])
    expect_shape(w, A.shape[:-1], "eigenvalues")
    expect_shape(V, A.shape, "eigenvectors")
    expect_dtype(V, dt, "eigenvectors")
    w, V = tonp(w), tonp(V)
    tol = 200 * unit(c)
    peak = np.maximum(np.abs(lam).max(axis=-1), 1e-300)
    if not (np.abs(w - lam) / peak[..., None]).max() <= tol:
        raise Violation("eigenvalues %s, expected %s" % (w.ravel()[:8], lam.ravel()[:8]))
    R = np.linalg.norm(A @ V - V * w[..., None, :], axis=-2) / peak[..., None]
    if not R.max() <= tol:
        raise Violation("A v = lambda v holds only to %.3g" % R.max())
    G = np.conj(np.swapaxes(V, -1, -2)) @ V - np.eye(c["n"])
    if not np.abs(G).max() <= tol:
        raise Violation("the eigenvectors are orthonormal only to %.3g" % np.abs(G).max())
    gap = (np.diff(lam, axis=-1).min(axis=-1) / peak).min()
    return ["eigh", "n%d" % c["n"], c["dtype"], c["kind"], "close" if gap < 1e-4 else "separated"]


def check_evd(c):
    if c["fn"] == "eigh_2x2" and not 1e-2 <= c["level"] <= 1e2:
        raise Skip("eigh_2x2 without a second matrix has an absolute threshold")
    if c["fn"] == "eigh_2x2" and c["kind"] in ("close", "zero"):
        raise Skip("eigh_2x2 without a second matrix, nearly repeated eigenvalues")
    A = first(c, np.broadcast_to(np.eye(c["n"]), tuple(c["batch"]) + (c["n"], c["n"])))
    dt = dtypes(c)
    if c["fn"] == "eigh":
        return evd_any(c, A, dt)
    lam = np.linalg.eigvalsh(A)
    gap = np.diff(lam, axis=-1).min() / np.abs(lam).max()
    if gap < (0.05 if c["dtype"] == "c64" else 1e-3):
        raise Skip("eigh_2x2 without a second matrix, nearly repeated eigenvalues")
    fn = getattr(torchiva.linalg, c["fn"])
    kw = dict(use_eigh_cpu=c["cpu"]) if c["fn"] == "eigh" else {}
    w, V = call(fn, T(A, dt), **kw)
    expect_shape(w, A.shape[:-1], "eigenvalues")
    expect_shape(V, A.shape, "eigenvectors")
    w, V = tonp(w), tonp(V)
    tol = tolerance(c)
    expect_close(w, lam, tol * 10, "eigenvalues, ascending", axis=(-1,))
    if c["fn"] == "eigh_2x2":
        # known finding C18-1: the eigenvectors are those of conj(A); a degenerate (diagonal) A
        # gives vectors that are not normalised. Everything else is checked.
        if np.abs(A[..., 0, 1]).min() < 1e-6 * c["level"]:
            return ["eigh_2x2", "values-only"]
        if np.linalg.norm(A.conj() @ V - V * w[..., None, :]) < np.linalg.norm(
                A @ V - V * w[..., None, :]):
            A = A.conj()
    R = A @ V - V * w[..., None, :]
    r = (np.linalg.norm(R, axis=-2) / np.linalg.norm(A, axis=(-2, -1))[..., None]).max()
    if not r <= tol * 100 / max(gap, 1e-2):
        raise Violation("A v = lambda v holds only to %.3g" % r)
    expect_close(np.linalg.norm(V, axis=-2), np.ones(V.shape[:-2] + V.shape[-1:]),
                 1e-4 if c["dtype"] == "c64" else 1e-9, "norms of the eigenvectors")
    G = np.conj(np.swapaxes(V, -1, -2)) @ V
    if not np.abs(G - np.eye(c["n"])).max() <= tol * 100 / gap:
        raise Violation("the eigenvectors are not orthonormal")
    return [c["fn"], "n%d" % c["n"], c["dtype"], c["kind"]]


def probe_conj(case):
    A = torch.tensor([[2.0, 0.5 + 1.0j], [0.5 - 1.0j, 1.0]], dtype=torch.complex128)
    w, V = torchiva.linalg.eigh_2x2(A)
    return not bool(torch.allclose(A @ V, V * w, atol=1e-6))


KNOWN_PROBES = {"eigh_2x2_conj": probe_conj}


# ------------------------------------------------------------------ rank-deficient first matrix
@st.composite
def rank_case(draw):
    return dict(n=draw(st.sampled_from([2, 3, 4])), seed=draw(seeds),
                batch=draw(st.sampled_from([[], [2]])), level=draw(st.sampled_from([1.0, 100.0])),
                blevel=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6])))


def check_rank1(c):
    """A = a a^H: principal generalised eigenvector is B^-1 a, eigenvalue a^H B^-1 a"""
    n = c["n"]
    rng = rng_of(c["seed"], 6)
    sh = tuple(c["batch"])
    a = rng.standard_normal(sh + (n,)) + 1j * rng.standard_normal(sh + (n,))
    B = np.stack([herm_matrix(rng_of(c["seed"], 7, i), n, "random", True)
                  for i in range(int(np.prod(sh, dtype=int)))]).reshape(sh + (n, n))
    B = c["blevel"] * B
    A = c["level"] * a[..., :, None] * a[..., None, :].conj()
    w, V = call(torchiva.linalg.eigh, T(A), B=T(B))
    w, V = tonp(w), tonp(V)
    u = np.linalg.solve(B, a[..., None])[..., 0]
    lam = c["level"] * np.real(np.einsum("...c,...c->...", a.conj(), u))
    expect_close(w[..., -1], lam, 1e-7, "principal eigenvalue", axis=())
    u = u / np.linalg.norm(u, axis=-1, keepdims=True)
    cs = np.abs(np.einsum("...c,...c->...", u.conj(), V[..., :, -1]))
    if not np.all(np.abs(cs - 1) < 1e-7):
        raise Violation("the principal eigenvector is not B^-1 a (cosine %.9g)" % cs.min())
    return ["n%d" % n]


FACETS = [
    Facet("gevd", case(), check_gevd, cases=(12000, 80000), rule="decomposition checked"),
    Facet("evd", case(), check_evd, cases=(8000, 50000), rule="decomposition checked"),
    Facet("rank-one", rank_case(), check_rank1, cases=(2400, 10000)),
    Facet("gevd-large", large_case(), check_gevd, cases=(960, 8000), weight=3,
          rule="decomposition checked"),
    Facet("evd-large", large_case(), check_evd, cases=(640, 6000), weight=3,
          rule="decomposition checked"),
]
