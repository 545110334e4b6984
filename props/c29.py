"""C29: selection of the most energetic signals, and construction by name."""
from hypothesis import strategies as st

import torchiva
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_close, expect_dtype, expect_shape, tonp
from vlib.signals import T, crandn, rng_of, seeds

RULE = "Random shapes, axes (positive and negative), levels, number to select; real and complex"
ASSUMPTIONS = ["powers of distinct signals differ by more than rounding, or are exactly equal"]


@st.composite
def case(draw):
    nd = draw(st.integers(2, 4))
    shape = [draw(st.integers(1, 5)) for _ in range(nd)]
    dim = draw(st.integers(0, nd - 1))
    red = draw(st.integers(0, nd - 1).filter(lambda r: r != dim))
    return dict(shape=shape, dim=dim, red=red, neg1=draw(st.booleans()), neg2=draw(st.booleans()),
                num=draw(st.integers(1, shape[dim] + 1)),
                dtype=draw(st.sampled_from(["f64", "f32", "c128", "c64"])),
                equal=draw(st.sampled_from(["no", "no", "copy", "zero"])),
                layout=draw(st.sampled_from(["std", "trans"])), seed=draw(seeds))


@st.composite
def large_case(draw):
    c = draw(case())
    ax = draw(st.sampled_from(["dim", "red", "other"]))
    if ax == "other":
        free = [i for i in range(len(c["shape"])) if i not in (c["dim"], c["red"])]
        if not free:
            ax = "red"
        else:
            c["shape"][free[0]] = draw(st.integers(6, 70))
    if ax == "dim":
        c["shape"][c["dim"]] = draw(st.one_of(st.integers(6, 40), st.integers(41, 300)))
    elif ax == "red":
        c["shape"][c["red"]] = draw(st.integers(6, 5000))
    c["num"] = draw(st.integers(1, c["shape"][c["dim"]] + 1))
    return c


DT = dict(c128=torch.complex128, c64=torch.complex64, f64=torch.float64, f32=torch.float32)


def check(c):
    rng = rng_of(c["seed"], 3)
    sh = tuple(c["shape"])
    x = crandn(rng, *sh) if c["dtype"][0] == "c" else rng.standard_normal(sh)
    lev = np.exp(rng.normal(0, 2, size=[n if i != c["red"] else 1 for i, n in enumerate(sh)]))
    x = x * lev
    xm = np.moveaxis(x, c["dim"], 0)
    if c["equal"] == "copy":
        xm[-1] = xm[0]
    elif c["equal"] == "zero":
        xm[0] = 0
        xm[-1] = 0
    t = T(x).to(DT[c["dtype"]])
    if c["layout"] == "trans" and t.dim() > 1:
        t = t.transpose(0, -1).contiguous().transpose(0, -1)
    x = tonp(t)
    nd = len(sh)
    dim = c["dim"] - nd if c["neg1"] else c["dim"]
    red = c["red"] - nd if c["neg2"] else c["red"]
    kw = dict(dim=dim, dim_reduc=red)
    if c["dim"] == nd - 2 and c["red"] == nd - 1 and c["neg1"] and c["neg2"]:
        kw = {}  # the documented defaults
    y = call(torchiva.select_most_energetic, t, num=c["num"], **kw)
    k = min(c["num"], sh[c["dim"]])
    want = list(sh)
    want[c["dim"]] = k
    expect_shape(y, want, "selection")
    expect_dtype(y, DT[c["dtype"]], "selection")
    # bring to (rest, dim, red)
    A = np.moveaxis(x, [c["dim"], c["red"]], [-2, -1]).reshape(-1, sh[c["dim"]], sh[c["red"]])
    B = np.moveaxis(tonp(y), [c["dim"], c["red"]], [-2, -1]).reshape(-1, k, sh[c["red"]])
    for a, b in zip(A, B):
        p = (np.abs(a) ** 2).mean(axis=-1)
        q = (np.abs(b) ** 2).mean(axis=-1)
        if not np.allclose(np.sort(p)[::-1][:k], q, rtol=1e-4, atol=0):
            raise Violation("selected powers %s, the largest are %s" % (q, np.sort(p)[::-1][:k]))
        used = [0] * len(a)
        for r in b:
            hit = [i for i in range(len(a)) if np.array_equal(a[i], r)]
            if not hit:
                raise Violation("an output is not one of the inputs")
            free = [i for i in hit if not used[i]]
            if not free:
                raise Violation("a signal was selected twice")
            used[free[0]] = 1
    return ["nd%d" % nd, c["dtype"], "all" if k == sh[c["dim"]] else "some", "equal-" + c["equal"]]


NAMES = [("os.path", "join"), ("torch.nn.functional", "relu"), ("torchiva.models.glu", "GLUMask"),
         ("torchiva.utils", "import_name"), ("xml.dom.minidom", "Document"), ("torchiva", ""),
         ("json", ""), ("torchiva.linalg", "hankel_view"), ("email.mime.text", "MIMEText"),
         ("logging.handlers", "QueueHandler")]


@st.composite
def inst_case(draw):
    return dict(a=draw(st.integers(-5, 5)), b=draw(st.integers(-5, 5)),
                how=draw(st.sampled_from(["args", "kwargs", "both", "tuple", "none", "missing",
                                          "nomodule"])),
                num=draw(st.integers(0, 9)))


def check_inst(c):
    from torchiva.utils import import_name, instantiate
    how = c["how"]
    if how in ("missing", "nomodule"):
        name = "fractions.NoSuch%d" % c["num"] if how == "missing" else "no_such_module%d.X" % c["num"]
        for f in (import_name, instantiate):
            try:
                f(name)
            except ImportError:
                continue
            raise Violation("%s(%r) did not raise ImportError" % (f.__name__, name))
        return [how]
    import fractions
    if call(import_name, "fractions.Fraction") is not fractions.Fraction:
        raise Violation("import_name returned something else")
    import importlib
    mod, obj = NAMES[c["num"] % len(NAMES)]
    m = importlib.import_module(mod)
    got = call(import_name, mod + "." + obj if obj else mod)
    if got is not (getattr(m, obj) if obj else m):
        raise Violation("import_name(%r) is %r" % ((mod, obj), got))
    den = c["b"] or 7
    if how == "args":
        r = call(instantiate, "fractions.Fraction", [c["a"], den])
    elif how == "tuple":
        r = call(instantiate, "fractions.Fraction", args=(c["a"], den))
    elif how == "kwargs":
        r = call(instantiate, "fractions.Fraction", kwargs=dict(numerator=c["a"], denominator=den))
    elif how == "both":
        r = call(instantiate, "fractions.Fraction", args=[c["a"]], kwargs=dict(denominator=den))
    else:
        r = call(instantiate, name="fractions.Fraction")
        if r != fractions.Fraction():
            raise Violation("instantiate without arguments gave %r" % (r,))
        return [how]
    if r != fractions.Fraction(c["a"], den):
        raise Violation("instantiate gave %r" % (r,))
    return [how]


FACETS = [
    Facet("select", case(), check, cases=(16000, 100000),
          nontrivial=lambda c, l: c["shape"][c["dim"]] > 1, rule="something to choose from"),
    Facet("instantiate", inst_case(), check_inst, cases=(1200, 3000)),
    Facet("select-large", large_case(), check, cases=(1600, 10000), weight=2,
          nontrivial=lambda c, l: c["shape"][c["dim"]] > 1, rule="something to choose from"),
]
