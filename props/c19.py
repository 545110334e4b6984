"""C19: the linear-algebra building blocks mean what they say."""
from hypothesis import strategies as st

import torchiva
from torchiva import linalg
from torchiva import dtypes as tdtypes
from vlib import refs
from vlib.boot import np, torch
from vlib.harness import (Facet, Skip, Violation, call, expect_close, expect_dtype, expect_shape,
                          relerr, tonp)
from vlib.signals import T, crandn, rng_of, seeds

RULE = "Random matrices, right-hand sides, levels, leading dimensions and memory layouts"
ASSUMPTIONS = ["matrices of condition number below 1e3 for the solvers"]

DT = dict(c128=torch.complex128, c64=torch.complex64, f64=torch.float64, f32=torch.float32)
TOL = dict(c128=1e-9, c64=2e-3, f64=1e-9, f32=2e-3)


def data(rng, shape, dtype):
    return crandn(rng, *shape) if dtype.startswith("c") else rng.standard_normal(tuple(shape))


def relayout(t, mode):
    """same values, other strides"""
    if mode == "plain" or t.ndim < 2:
        return t
    if mode == "conj":
        return t.conj().resolve_conj().conj() if t.is_complex() else t
    if mode == "transposed":
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    if mode == "strided":
        big = t.new_zeros(t.shape[:-1] + (2 * t.shape[-1],))
        big[..., ::2] = t
        return big[..., ::2]
    if mode == "offset":
        big = t.new_zeros((t.shape[0] + 2,) + t.shape[1:])
        big[2:] = t
        return big[2:]
    raise KeyError(mode)


@st.composite
def case(draw, ns=(1, 2, 3, 4, 5)):
    return dict(n=draw(st.sampled_from(list(ns))), k=draw(st.integers(1, 3)),
                batch=draw(st.sampled_from([[], [1], [3], [2, 2]])),
                dtype=draw(st.sampled_from(["c128", "c128", "c64", "f64"])),
                level=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e3])),
                layout=draw(st.sampled_from(["plain", "plain", "transposed", "strided", "offset", "conj"])),
                load=draw(st.sampled_from([None, 1e-3, 1e-8])),
                which=draw(st.sampled_from(["solve_loaded", "solve_loaded_general", "inv_loaded"])),
                kind=draw(st.sampled_from(["general", "hermitian"])),
                seed=draw(seeds))


def matrix(c, rng):
    sh = tuple(c["batch"])
    n = c["n"]
    q = np.linalg.qr(data(rng, sh + (n, n), c["dtype"]))[0]
    p = np.linalg.qr(data(rng, sh + (n, n), c["dtype"]))[0]
    d = np.exp(rng.uniform(-1.5, 1.5, size=sh + (n, 1)))
    if c["kind"] == "hermitian":
        p = np.conj(np.swapaxes(q, -1, -2))
    return c["level"] * (q @ (d * p))


def each(fn, *arrs):
    sh = arrs[0].shape[:-2]
    flat = [a.reshape((-1,) + a.shape[-2:]) for a in arrs]
    out = np.stack([fn(*[f[i] for f in flat]) for i in range(flat[0].shape[0])])
    return out.reshape(sh + out.shape[-2:])


def check_solve(c):
    rng = rng_of(c["seed"], 1)
    A = matrix(c, rng)
    b = data(rng, tuple(c["batch"]) + (c["n"], c["k"]), c["dtype"])
    dt = DT[c["dtype"]]
    tA, tb = relayout(T(A, dt), c["layout"]), relayout(T(b, dt), c["layout"])
    keep = tA.clone(), tb.clone()
    kw = {} if c["load"] is None else dict(load=c["load"])
    if c["which"] == "inv_loaded":
        x = call(linalg.inv_loaded, tA, **kw)
        load = 1e-6 if c["load"] is None else c["load"]
        want = each(lambda M: refs.loaded_solve(M, np.eye(c["n"]), load), A)
    else:
        x = call(getattr(linalg, c["which"]), tA, tb, **kw)
        if c["which"] == "solve_loaded":
            load = 1e-6 if c["load"] is None else c["load"]
            want = each(lambda M, r: refs.loaded_solve(M, r, load), A, b)
        else:
            load = 1e-5 if c["load"] is None else c["load"]
            want = each(lambda M, r: refs.loaded_solve_normal(M, r, load), A, b)
    expect_dtype(x, dt, c["which"])
    if not (torch.equal(tA, keep[0]) and torch.equal(tb, keep[1])):
        raise Violation("%s changed its input" % c["which"])
    tol = TOL[c["dtype"]] * 10
    expect_close(x, want, tol, c["which"], axis=(-2, -1))
    return [c["which"], c["dtype"], c["kind"], c["layout"], "n%d" % c["n"]]


def check_inv2(c):
    rng = rng_of(c["seed"], 1)
    A = matrix(c, rng)
    dt = DT[c["dtype"]]
    x = call(linalg.inv_2x2, relayout(T(A, dt), c["layout"]))
    det = np.linalg.det(A)
    if np.abs(det).min() < 1e-5:
        raise Skip("determinant below the clamp")
    expect_close(x, np.linalg.inv(A), TOL[c["dtype"]], "inv_2x2", axis=(-2, -1))
    expect_dtype(x, dt, "inv_2x2")
    return [c["dtype"], c["layout"]]


@st.composite
def bad2_case(draw):
    return dict(r=draw(st.integers(1, 4)), c=draw(st.integers(1, 4)))


def check_bad2(c):
    if c["r"] == 2 and c["c"] == 2:
        raise Skip("valid")
    try:
        linalg.inv_2x2(torch.ones(c["r"], c["c"]))
    except ValueError:
        return ["rejected"]
    raise Violation("inv_2x2 accepted a %dx%d matrix" % (c["r"], c["c"]))


# ------------------------------------------------------------------ products and magnitudes
@st.composite
def alg_case(draw):
    return dict(m=draw(st.integers(1, 4)), n=draw(st.integers(1, 4)), k=draw(st.integers(1, 4)),
                batch=draw(st.sampled_from([[], [1], [3], [2, 2]])),
                d1=draw(st.sampled_from(["c128", "c64", "f64", "f32"])),
                mixed=draw(st.booleans()),
                layout=draw(st.sampled_from(["plain", "plain", "transposed", "strided", "conj"])),
                level=draw(st.sampled_from([1.0, 1e-3, 1e3])),
                eps=draw(st.sampled_from([None, 1e-3])), zero=draw(st.booleans()),
                seed=draw(seeds))


def check_alg(c):
    rng = rng_of(c["seed"], 2)
    d1 = c["d1"]
    d2 = d1
    if c["mixed"]:
        d2 = {"c128": "f64", "c64": "f32", "f64": "c128", "f32": "c64"}[d1]
    sh = tuple(c["batch"])
    a = c["level"] * data(rng, sh + (c["m"], c["n"]), d1)
    b = data(rng, sh + (c["m"], c["n"]), d2)
    if c["zero"]:
        b.flat[0] = 0
    ta, tb = relayout(T(a, DT[d1]), c["layout"]), relayout(T(b, DT[d2]), c["layout"])
    a, b = tonp(ta), tonp(tb)
    tol = 1e-12 if "64" in d1 and d1 != "c64" or d1 == "c128" else 1e-5
    y = call(linalg.multiply, ta, tb)
    expect_close(y, a * b, tol, "multiply")
    expect_dtype(y, (ta * tb).dtype, "multiply")
    expect_close(call(linalg.multiply, tb, ta), a * b, tol, "multiply, exchanged")
    # broadcasting of a real factor
    if not d2.startswith("c"):
        expect_close(call(linalg.multiply, ta, tb[..., :1]), a * b[..., :1], tol,
                     "multiply, broadcast")
    expect_close(call(linalg.mag_sq, ta), np.abs(a) ** 2, tol, "mag_sq")
    expect_close(call(linalg.mag, ta), np.abs(a), tol, "mag")
    for t, what in ((linalg.mag_sq(ta), "mag_sq"), (linalg.mag(ta), "mag")):
        expect_dtype(t, torch.float32 if d1 in ("c64", "f32") else torch.float64, what)
    h = call(linalg.hermite, ta)
    expect_close(h, np.conj(np.swapaxes(a, -1, -2)), 0.0, "hermite")
    if len(sh) >= 1:
        expect_close(call(linalg.hermite, ta, dim1=0, dim2=-1), np.conj(np.swapaxes(a, 0, -1)),
                     0.0, "hermite of other axes")
    den = np.abs(b)
    e = 1e-7 if c["eps"] is None else c["eps"]
    kw = {} if c["eps"] is None else dict(eps=c["eps"])
    expect_close(call(linalg.divide, ta, tb.abs(), **kw), a / np.maximum(den, e), tol * 10,
                 "divide")
    if d1.startswith("c"):
        b2 = data(rng, sh + (c["n"], c["k"]), d1)
        expect_close(call(linalg.bmm, ta, T(b2, DT[d1])), a @ b2, tol * 10, "bmm", floor=1e-3)
    if c["m"] == c["n"]:
        d = data(rng, sh + (c["n"],), d1)
        want = a + np.einsum("...k,kl->...kl", d, np.eye(c["n"]))
        expect_close(call(linalg.diagonal_loading, ta, T(d, DT[d1])), want, tol,
                     "diagonal_loading")
    return [d1, "mixed" if c["mixed"] else "same", c["layout"]]


# ------------------------------------------------------------------ Hankel view
@st.composite
def hankel_case(draw):
    n = draw(st.integers(1, 20))
    return dict(n=n, rows=draw(st.integers(1, n)), batch=draw(st.sampled_from(
        [[], [1], [3], [2, 2], [2, 3, 2]])), dtype=draw(st.sampled_from(["c128", "f32"])),
        layout=draw(st.sampled_from(["plain", "transposed", "strided", "offset", "conj", "flipdim"])),
        seed=draw(seeds))


def check_hankel(c):
    rng = rng_of(c["seed"], 3)
    x = data(rng, tuple(c["batch"]) + (c["n"],), c["dtype"])
    t = T(x, DT[c["dtype"]])
    x = tonp(t)
    if c["layout"] == "flipdim":
        if t.ndim >= 2:
            t = t.transpose(0, -1).contiguous().transpose(0, -1)
    elif t.ndim >= 2:
        t = relayout(t, c["layout"])
    h = call(linalg.hankel_view, t, c["rows"])
    cols = c["n"] - c["rows"] + 1
    expect_shape(h, tuple(c["batch"]) + (c["rows"], cols), "hankel_view")
    want = np.stack([x[..., r:r + cols] for r in range(c["rows"])], axis=-2)
    expect_close(h, want, 0.0, "hankel_view")
    return [c["layout"], "rows%d" % min(c["rows"], 3)]


# ------------------------------------------------------------------ larger sizes
@st.composite
def large_solve(draw):
    c = draw(case())
    if draw(st.booleans()):
        c["n"], c["k"] = draw(st.integers(6, 20)), draw(st.integers(1, 20))
    else:
        c["batch"] = draw(st.sampled_from([[33], [65], [130], [5, 17], [2, 3, 2], [300], [2, 513],
                                           [1100]]))
    return c


@st.composite
def large_alg(draw):
    c = draw(alg_case())
    c.update(m=draw(st.integers(5, 24)), n=draw(st.integers(5, 24)), k=draw(st.integers(5, 24)))
    if draw(st.booleans()):
        c["m"] = c["n"]
    c["batch"] = draw(st.sampled_from([c["batch"], [33], [5, 17], [2, 3, 2], [300]]))
    return c


@st.composite
def large_hankel(draw):
    c = draw(hankel_case())
    c["n"] = draw(st.one_of(st.integers(21, 700), st.sampled_from([1024, 2050, 4100])))
    c["rows"] = draw(st.one_of(st.integers(1, 20), st.integers(max(1, c["n"] - 20), c["n"])))
    return c


# ------------------------------------------------------------------ types
def check_types(c):
    t = DT[c["t"]]
    x = torch.zeros(2, dtype=t) if c["tensor"] else t
    cpx = c["t"].startswith("c")
    if call(tdtypes.is_complex_type, x) != cpx:
        raise Violation("is_complex_type(%s)" % t)
    want = torch.complex128 if c["t"] in ("c128", "f64") else torch.complex64
    if call(tdtypes.dtype_f2cpx, x) != want:
        raise Violation("dtype_f2cpx(%s)" % t)
    want = torch.float64 if c["t"] in ("c128", "f64") else torch.float32
    if call(tdtypes.dtype_cpx2f, x) != want:
        raise Violation("dtype_cpx2f(%s)" % t)
    return [c["t"]]


FACETS = [
    Facet("solve", case(), check_solve, cases=(9000, 80000)),
    Facet("inv_2x2", case(ns=(2,)), check_inv2, cases=(2400, 20000),
          rule="determinant above the clamp"),
    Facet("inv_2x2-shape", bad2_case(), check_bad2, cases=(120, 100)),
    Facet("algebra", alg_case(), check_alg, cases=(4800, 40000)),
    Facet("hankel", hankel_case(), check_hankel, cases=(2400, 20000)),
    Facet("solve-large", large_solve(), check_solve, cases=(960, 8000), weight=2),
    Facet("algebra-large", large_alg(), check_alg, cases=(480, 4000), weight=2),
    Facet("hankel-large", large_hankel(), check_hankel, cases=(480, 4000), weight=2),
    Facet("types", st.fixed_dictionaries(dict(t=st.sampled_from(sorted(DT)),
                                              tensor=st.booleans())), check_types, cases=(120, 100)),
]
