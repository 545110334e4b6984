"""C02: a call depends on its arguments only - not on earlier calls, nor on memory layout - and
leaves its inputs and the object's settings alone."""
import copy
import pickle

from hypothesis import strategies as st

import torchiva
from props import c01
from vlib import algos
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_close, relerr, tonp
from vlib.signals import T, flavours, rng_of, seeds, stft_like, real_signal

RULE = ("Random histories of calls on one object: other inputs and shapes, per-call overrides "
        "(including 0 and False), failing calls, gradient and no-gradient mode; the last call is "
        "compared with the same call on a fresh object")
ASSUMPTIONS = ["the global random generator is re-seeded before each compared call (NMF draws its "
               "initial state from it)"]

MODELS = ["laplace", "gauss", "invpow", "nmf"]


class Boom(Exception):
    pass


class Failing(torch.nn.Module):
    def __init__(self, after):
        super().__init__()
        self.n, self.after = 0, after
        self.inner = torchiva.LaplaceModel()

    def forward(self, X):
        self.n += 1
        if self.n > self.after:
            raise Boom()
        return self.inner(X)


OVERRIDES = {
    "tiss": dict(n_iter=[0, 1, 3], n_taps=[0, 2], n_delay=[0, 2], n_src=[1, 2],
                 proj_back_mic=[0, 1], use_dmc=[False, True], eps=[1e-3, 1e-8],
                 model=["gauss", "invpow", "nmf"]),
    "ip": dict(n_iter=[0, 1, 3], n_src=[1, 2], proj_back_mic=[0, 1], eps=[1e-3, 1e-8],
               model=["gauss", "invpow", "nmf"]),
    "ip2": dict(n_iter=[0, 1, 3], proj_back_mic=[0, 1], eps=[1e-3], model=["gauss", "invpow", "nmf"]),
    "five": dict(n_iter=[0, 1, 3], proj_back_mic=[0, 1], eps=[1e-3], model=["gauss", "invpow", "nmf"],
                 n_power_iter=[1, 4]),
    "wpe": dict(n_iter=[0, 1, 2], n_taps=[1, 2], n_delay=[0, 2], eps=[1e-3, 1e-8],
                model=["wpew"]),
    "mvdr": dict(ref_mic=[0, 1], eps=[1e-2], mvdr_type=["rtf", "scm"], n_power_iter=[1, 3],
                 mask_model=["other"]),
    "mwf": dict(ref_mic=[0, 1], eps=[1e-2], time_invariant=[False, True], mask_model=["other"]),
    "gev": dict(ref_mic=[0, 1], eps=[1e-2], mask_model=["other"]),
}


def draw_overrides(draw, algo):
    ov = OVERRIDES[algo]
    keys = draw(st.lists(st.sampled_from(sorted(ov)), unique=True, max_size=3))
    return {k: draw(st.sampled_from(ov[k])) for k in keys}


@st.composite
def config(draw):
    c = draw(st.one_of(algos.iva_config(models=MODELS, max_chan=3, max_iter=3, max_taps=2),
                       algos.bf_config(max_chan=3)))
    if c["C"] < 2:
        c["C"] = 2
    if c["algo"] == "mwf":
        c["ti"] = draw(st.booleans())
    return c


@st.composite
def case(draw):
    c = draw(config())
    hist = []
    for _ in range(draw(st.integers(1, 4))):
        hist.append(dict(
            kind=draw(st.sampled_from(["call", "call", "call", "fail-model", "fail-shape",
                                       "no-grad", "backward"])),
            ov=draw_overrides(draw, c["algo"]), batch=draw(st.sampled_from([[], [2]])),
            single=draw(st.sampled_from([False, False, True])),
            F=draw(st.integers(2, 4)), dN=draw(st.integers(0, 12)), seed=draw(seeds)))
    c.update(hist=hist, last=draw_overrides(draw, c["algo"]), F=draw(st.integers(2, 4)),
             dN=draw(st.integers(0, 12)), seed=draw(seeds),
             batch=draw(st.sampled_from([[], [], [2]])))
    return c


def resolve(ov, c, pool=None):
    """pool: the models given in the calls are the same objects every time"""
    kw = {}
    for k, v in ov.items():
        if k == "model":
            name = v
            v = algos.WpeWeights() if v == "wpew" else algos.make_model(v)
            if pool is not None:
                v = pool.setdefault(name, v)
        elif k == "mask_model":
            v = masknet(c, 123)
        kw[k] = v
    return kw


def masknet(c, seed):
    # 4 masks work with every beamformer except MVDR (2)
    return algos.MaskNet(c["n_src"], 4 if c["algo"] == "mwf" else
                         (3 if c.get("kind") == "three" else 2), seed=seed)


def fresh(c):
    if c["algo"] in ("mvdr", "mwf", "gev"):
        return algos.build(c, model=masknet(c, c["mseed"]))
    return algos.build(c)


def data(c, h):
    nm = algos.min_frames(dict(c, n_taps=2, n_delay=2))
    n = int(np.prod(h["batch"])) if h["batch"] else 1
    xs = [stft_like(h["seed"] + i, c["C"], h["F"], nm + h["dN"]) for i in range(n)]
    return np.stack(xs).reshape(tuple(h["batch"]) + xs[0].shape)


SETTINGS = ["n_iter", "n_taps", "n_delay", "n_src", "proj_back_mic", "use_dmc", "eps", "ref_mic",
            "mvdr_type", "n_power_iter", "time_invariant"]


def settings_of(alg):
    d = {}
    for k in SETTINGS:
        if hasattr(alg, k):
            d[k] = getattr(alg, k)
    for k in ("model", "mask_model"):
        if hasattr(alg, k):
            d[k] = id(getattr(alg, k))
    return d


def run(alg, X, kw):
    torch.manual_seed(1234)
    t = X if isinstance(X, torch.Tensor) else T(X)
    keep = t.clone()
    y = call(alg, t, **kw)
    if not torch.equal(t, keep):
        raise Violation("the input tensor was modified")
    return y


def check(c):
    alg = fresh(c)
    before = settings_of(alg)
    labels = [c["algo"]]
    pool = {}
    for h in c["hist"]:
        X = data(c, h)
        kw = resolve(h["ov"], c, pool)
        labels.append(h["kind"])
        if h["kind"] == "fail-model":
            k = "mask_model" if c["algo"] in ("mvdr", "mwf", "gev") else "model"
            kw[k] = Failing(h["seed"] % 2)
            try:
                alg(T(X), **kw)
            except Boom:
                pass
            except Exception:  # noqa: BLE001 - e.g. Laplace output is not a set of masks
                pass
        elif h["kind"] == "fail-shape":
            try:
                alg(T(X[..., 0, :]))
            except Exception:  # noqa: BLE001
                pass
        elif h["kind"] == "no-grad":
            with torch.no_grad():
                run(alg, X, kw)
        elif h["kind"] == "backward":
            torch.manual_seed(1)
            t = T(X).requires_grad_()
            y = call(alg, t, **kw)
            if y.requires_grad:
                try:
                    y.abs().sum().backward()
                except RuntimeError:  # NMF with checkpointing: its state is part of the graph
                    pass
        elif h.get("single") and c["algo"] not in ("mvdr", "mwf", "gev"):
            run(alg, T(X).to(torch.complex64), kw)
        else:
            run(alg, X, kw)
        after = settings_of(alg)
        if after != before:
            raise Violation("settings changed by a call: %s -> %s" % (before, after))
    X = data(c, c)
    kw = resolve(c["last"], c, pool)
    y = tonp(run(alg, X, kw))
    z = tonp(run(fresh(c), X, resolve(c["last"], c)))
    expect_close(y, z, 1e-7, "result after a history, compared to a fresh object")
    return labels


# ------------------------------------------------------------ overrides == constructor settings
CTOR = dict(ref_mic="ref_mic", proj_back_mic="proj_back_mic")


@st.composite
def ov_case(draw):
    c = draw(config())
    ov = {}
    while not ov:
        ov = draw_overrides(draw, c["algo"])
    c.update(ov=ov, F=draw(st.integers(2, 4)), dN=draw(st.integers(0, 12)), seed=draw(seeds),
             batch=[])
    return c


def construct(c, kw):
    """the same object with the overrides given to the constructor"""
    a = c["algo"]
    if a in ("mvdr", "mwf", "gev"):
        base = dict(mask_model=masknet(c, c["mseed"]), ref_mic=c["ref"])
        if a == "mvdr":
            base.update(mvdr_type="scm" if c["kind"] == "scm" else "rtf",
                        n_power_iter=c.get("n_power_iter"))
        if a == "mwf":
            base.update(time_invariant=c["ti"])
        base.update(kw)
        return {"mvdr": torchiva.MVDRBeamformer, "mwf": torchiva.MWFBeamformer,
                "gev": torchiva.GEVBeamformer}[a](**base)
    if a == "wpe":
        base = dict(n_iter=c["n_iter"], n_taps=c["n_taps"], n_delay=c["n_delay"],
                    model=None if c["model"] == "none" else algos.WpeWeights())
    else:
        base = dict(n_iter=c["n_iter"], model=algos.make_model(c["model"]),
                    proj_back_mic=c["ref"])
    if a in ("tiss", "ip"):
        base["n_src"] = c["n_src"]
    if a == "tiss":
        base.update(n_taps=c["n_taps"], n_delay=c["n_delay"])
    if a == "five":
        base["n_power_iter"] = c["n_power_iter"]
    base.update(kw)
    return {"wpe": torchiva.WPE, "tiss": torchiva.T_ISS, "ip": torchiva.AuxIVA_IP,
            "ip2": torchiva.AuxIVA_IP2, "five": torchiva.FIVE}[a](**base)


def check_ov(c):
    X = data(c, c)
    y = tonp(run(fresh(c), X, resolve(c["ov"], c)))
    z = tonp(run(construct(c, resolve(c["ov"], c)), X, {}))
    expect_close(y, z, 1e-7, "per-call override %s, compared to the same constructor setting"
                 % c["ov"])
    return [c["algo"]] + ["ov-" + k for k in c["ov"]] + \
        ["falsy" for v in c["ov"].values() if v is not None and not v]


# ------------------------------------------------------------ memory layout
@st.composite
def lay_case(draw):
    c = draw(config())
    c.update(lay=draw(st.sampled_from(["perm", "slice", "flip-free", "offset", "expand",
                                       "fortran", "conj", "broadcast"])),
             F=draw(st.integers(2, 4)), dN=draw(st.integers(0, 12)), seed=draw(seeds),
             batch=draw(st.sampled_from([[], [2]])))
    return c


def relayout(x, how):
    """a tensor with the same values, other strides"""
    if how == "perm":
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if how == "slice":
        big = torch.full(x.shape[:-1] + (2 * x.shape[-1],), 7.0, dtype=x.dtype)
        big[..., ::2] = x
        return big[..., ::2]
    if how == "offset":
        big = torch.full(x.shape[:-1] + (x.shape[-1] + 5,), 7.0, dtype=x.dtype)
        big[..., 3:-2] = x
        return big[..., 3:-2]
    if how == "expand":
        return x[None].expand((2,) + tuple(x.shape))[1]
    if how == "conj":
        return x.conj().resolve_conj().conj() if x.is_complex() else x
    if how == "broadcast":
        return x[:1].expand(x.shape) if x.ndim > 3 else x
    if how == "fortran":
        d = list(range(x.ndim))
        return x.permute(d[::-1]).contiguous().permute(d[::-1])
    return x.transpose(-3, -1).contiguous().transpose(-3, -1)


def check_lay(c):
    X = data(c, c)
    if c["lay"] == "broadcast" and c["batch"]:
        X = np.repeat(X[:1], X.shape[0], axis=0)
    alg = fresh(c)
    torch.manual_seed(5)
    y = tonp(call(alg, T(X)))
    v = relayout(T(X), c["lay"])
    keep = v.clone()
    torch.manual_seed(5)
    z = tonp(call(alg, v))
    if not torch.equal(v, keep):
        raise Violation("the input tensor was modified")
    rng = rng_of(3, 3)
    D = rng.standard_normal(X.shape)
    torch.manual_seed(5)
    amp = relerr(tonp(call(alg, T(X * (1 + 1e-10 * D)))), y) / 1e-10
    if not amp < 1e6:
        raise Skip("ill conditioned")
    expect_close(z, y, 1e-10 * max(1, amp) + 1e-9, "result for a %s view of the input" % c["lay"])
    return [c["algo"], c["lay"]]


@st.composite
def flay_case(draw):
    c = draw(c01.fun_case())
    if draw(st.integers(0, 4)) == 0:
        c["fn"] = "separator-" + draw(st.sampled_from(["tiss", "ip2", "five", "mvdr", "mwf", "gev"]))
    c.update(lay=draw(st.sampled_from(["perm", "slice", "flip-free", "offset", "expand", "fortran",
                                       "conj", "broadcast", "grad"])),
             batch=draw(st.sampled_from([[], [2], [2, 2]])))
    return c


def separator(c):
    algo = c["fn"][10:]
    bf = algo in ("mvdr", "mwf", "gev")
    model = algos.MaskNet(1 + c["k"] % 2, 2, seed=3) if bf else torchiva.LaplaceModel()
    sep = torchiva.nn.BSSSeparator(16, n_iter=c["k"] % 3, hop_length=4, n_taps=c["k"] // 2,
                                   algo=algo, source_model=model).double()
    C = 2 if algo == "ip2" else max(2, c["C"])
    return sep, lambda i: [T(real_signal(c["seed"] + i, (C, 200 + c["N"])))]


def check_flay(c):
    f, make = separator(c) if c["fn"].startswith("separator-") else c01.function(c)
    n = int(np.prod(c["batch"]))
    its = [make(1000 * i * (c["lay"] != "broadcast")) for i in range(n)]
    args = [torch.stack([it[j] for it in its]).reshape(tuple(c["batch"]) + its[0][j].shape)
            for j in range(len(its[0]))]
    with torch.no_grad():
        y = tonp(call(f, *args))
    if c["lay"] == "grad":
        got = [a.clone().requires_grad_() for a in args]
    elif c["lay"] == "broadcast":
        got = [a[:1].expand(a.shape) if c["batch"] else a for a in args]
    else:
        got = [relayout(a, c["lay"]) if c["lay"] != "flip-free" or a.ndim > 2 else a for a in args]
    z = tonp(call(f, *got))
    for a, b in zip(args, got):
        if not torch.equal(a, b):
            raise Violation("%s modified its input" % c["fn"])
    expect_close(z, y, 1e-7, "%s of a %s view of the input" % (c["fn"], c["lay"]))
    return [c["fn"], c["lay"]]


# ------------------------------------------------------------ BSSSeparator with a stateful model
@st.composite
def bss_case(draw):
    algo = draw(st.sampled_from(["tiss", "tiss", "ip2", "five", "mvdr", "mwf", "gev"]))
    return dict(algo=algo, C=2 if algo == "ip2" else draw(st.sampled_from([2, 2, 3])),
                model=draw(st.sampled_from(["nmf", "nmf", "laplace"])),
                hist=draw(st.lists(st.fixed_dictionaries(dict(
                    L=st.integers(120, 200), single=st.sampled_from([False, False, True]),
                    batch=st.sampled_from([[], [], [2]]), dC=st.sampled_from([0, 0, 0, 1]),
                    kind=st.sampled_from(["call", "call", "call", "fail", "no-grad",
                                          "backward"]))), min_size=1, max_size=3)),
                L=draw(st.integers(120, 200)), batch=draw(st.sampled_from([[], [], [2]])),
                seed=draw(seeds), n_iter=draw(st.integers(1, 3)))


def check_bss(c):
    bf = c["algo"] in ("mvdr", "mwf", "gev")

    def mk():
        m = (algos.MaskNet(1, 4 if c["algo"] == "mwf" else 2, seed=5) if bf
             else algos.make_model(c["model"]))
        return torchiva.nn.BSSSeparator(16, n_iter=c["n_iter"], hop_length=8, algo=c["algo"],
                                        source_model=m).double()

    def sig(h, i, C):
        n = 2 if h["batch"] else 1
        x = np.stack([real_signal(c["seed"] + 7 * i + k, (C, h["L"])) for k in range(n)])
        return T(x if h["batch"] else x[0])

    sep = mk()
    labels = [c["algo"], "mask" if bf else c["model"]]
    for i, h in enumerate(c["hist"]):
        x = sig(h, i + 1, 2 if c["algo"] == "ip2" else c["C"] + h["dC"])
        labels.append(h["kind"])
        torch.manual_seed(3 + i)
        if h["kind"] == "fail" or h["single"]:
            try:
                # the module is in double precision: whether it takes this is not the question
                sep(x[..., :3] if h["kind"] == "fail" else x.float())
            except Exception:  # noqa: BLE001
                pass
        elif h["kind"] == "no-grad":
            with torch.no_grad():
                call(sep, x)
        elif h["kind"] == "backward":
            x.requires_grad_()
            y = call(sep, x)
            if y.requires_grad:
                y.abs().sum().backward()
        else:
            keep = x.clone()
            torch.manual_seed(11)
            y = tonp(call(sep, x))
            if not torch.equal(x, keep):
                raise Violation("the input tensor was modified")
            torch.manual_seed(11)
            z = tonp(call(mk(), x))
            expect_close(y, z, 1e-7, "signal %d in a row, compared to a fresh separator" % i)
    x = sig(c, 0, c["C"])
    keep = x.clone()
    torch.manual_seed(11)
    y = call(sep, x)
    if not torch.equal(x, keep):
        raise Violation("the input tensor was modified")
    torch.manual_seed(11)
    z = call(mk(), x)
    if y.dtype != z.dtype:
        raise Violation("the output is %s after a history, %s for a fresh separator"
                        % (y.dtype, z.dtype))
    expect_close(y, z, 1e-7, "result after a history, compared to a fresh separator")
    return labels


# ------------------------------------------------------------ STFT engine, source and mask models
@st.composite
def mod_case(draw):
    kind = draw(st.sampled_from(["stft", "stft", "laplace", "gauss", "nmf", "glu", "blstm",
                                 "support", "simple"]))
    hist = st.fixed_dictionaries(dict(
        N=st.integers(4, 12), batch=st.sampled_from([[], [], [2], [1, 3]]), seed=seeds,
        other=st.sampled_from([False, False, True]),
        kind=st.sampled_from(["call", "call", "call", "fail", "no-grad", "backward", "inverse"])))
    return dict(module=kind, double=draw(st.booleans()), F=draw(st.sampled_from([9, 17])),
                opt=draw(st.booleans()), N=draw(st.integers(4, 12)),
                batch=draw(st.sampled_from([[], [], [2]])), seed=draw(seeds),
                hist=draw(st.lists(hist, min_size=1, max_size=4)))


def make_module(c):
    torch.manual_seed(17)
    M, F, o = torchiva.models, c["F"], c["opt"]
    if c["module"] == "stft":
        m = torchiva.STFT(2 * (F - 1), hop_length=F // 2 if o else None,
                          window="hamming" if o else None,
                          dtype=torch.float64 if c["double"] else None)
    elif c["module"] in ("laplace", "gauss", "nmf"):
        m = algos.make_model(c["module"])
    elif c["module"] == "glu":
        m = M.GLUMask(F, 4, mag_spec=o)
    elif c["module"] == "blstm":
        m = M.BLSTMMask(F, 4, n_hidden=3, log_spec=o)
    elif c["module"] == "support":
        m = M.MaskMVDRSupport(n_input=F, n_hidden=3, n_layers=1, n_masks=2 + o)
    else:
        m = M.SimpleModel(n_freq=F, n_mels=4)
    return (m.double() if c["double"] else m).eval()


def check_mod(c):
    def sig(h, double):
        if c["module"] == "stft":
            x = real_signal(h["seed"], tuple(h["batch"]) + (c["F"] * h["N"],))
        else:
            n = int(np.prod(h["batch"])) if h["batch"] else 1
            x = stft_like(h["seed"], n, c["F"], h["N"])
            x = x.reshape(tuple(h["batch"]) + x.shape[1:]) if h["batch"] else x[0]
        x = T(x)
        return x if double else x.to(torch.float32 if c["module"] == "stft" else torch.complex64)

    def run(m, x):
        torch.manual_seed(23)
        if hasattr(m, "reset"):
            m.reset()  # the state of the NMF model is its purpose
        keep = x.clone()
        y = call(m, x)
        if not torch.equal(x, keep):
            raise Violation("the input tensor was modified")
        return y

    m = make_module(c)
    labels = [c["module"]]
    for h in c["hist"]:
        labels.append(h["kind"])
        x = sig(h, c["double"] != h["other"])
        try:
            if h["kind"] == "fail":
                m(x[..., : c["F"] - 2, :] if x.is_complex() else x[..., :3])
            elif h["kind"] == "no-grad":
                with torch.no_grad():
                    m(x)
            elif h["kind"] == "backward":
                m(x.requires_grad_()).abs().sum().backward()
            elif h["kind"] == "inverse" and c["module"] == "stft":
                m.inv(m(x))
            else:
                m(x)
        except Exception:  # noqa: BLE001 - failures are part of the histories
            pass
    x = sig(c, c["double"])
    f = make_module(c)
    y, z = run(m, x), run(f, x)
    if y.dtype != z.dtype:
        raise Violation("the output is %s after a history, %s for a fresh object"
                        % (y.dtype, z.dtype))
    expect_close(y, z, 1e-9 if c["double"] else 1e-5,
                 "%s after a history, compared to a fresh object" % c["module"])
    if c["module"] == "stft":
        expect_close(call(m.inv, y), call(f.inv, z), 1e-9 if c["double"] else 1e-5,
                     "inverse STFT after a history, compared to a fresh object")
    a, b = m.state_dict(), f.state_dict()
    for k in b:
        if k not in a or a[k].dtype != b[k].dtype or not torch.equal(a[k], b[k]):
            raise Violation("the stored state %s was changed by calls" % k)
    return labels


# ------------------------------------------------------------ streams: one buffer, changed in place
@st.composite
def buf_case(draw):
    c = draw(st.one_of(
        algos.iva_config(models=["laplace", "param"], max_chan=3, max_iter=3, max_taps=2),
        algos.bf_config(max_chan=3)))
    if c["C"] < 2:
        c["C"] = 2
    c.update(F=draw(st.integers(2, 4)), dN=draw(st.integers(0, 12)), seed=draw(seeds),
             batch=draw(st.sampled_from([[], [], [2]])),
             steps=draw(st.lists(st.fixed_dictionaries(dict(
                 seed=seeds, scribble=st.booleans(),
                 how=st.sampled_from(["fill", "fill", "one-bin", "same"]),
                 model=st.sampled_from(["keep", "keep", "train", "replace", "copy", "pickle"]),
                 attr=st.sampled_from([None, None, 0, 1, 2]))),
                 min_size=1, max_size=4)))
    return c


def buf_model(c, seed):
    if c["algo"] in ("mvdr", "mwf", "gev"):
        return masknet(c, seed)
    if c["algo"] == "wpe":
        return None if c["model"] == "none" else algos.WpeWeights()
    return algos.make_model(c["model"], seed)


def settable(c, k):
    """a plain attribute of the object, changed between two calls"""
    if k is None:
        return {}
    if c["algo"] == "mvdr":
        # two masks
        return [dict(n_power_iter=2), dict(n_power_iter=None), dict(
            mvdr_type="scm" if c["kind"] != "three" else "rtf")][k]
    if c["algo"] == "five":
        return [dict(n_power_iter=2), dict(n_power_iter=None), dict(n_power_iter=4)][k]
    return {}


def check_buf(c):
    # an object that keeps results with their graphs cannot be copied
    with torch.set_grad_enabled(all(h["model"] not in ("copy", "pickle") for h in c["steps"])):
        return run_buf(c)


def run_buf(c):
    bf = c["algo"] in ("mvdr", "mwf", "gev")
    name = "mask_model" if bf else "model"
    alg = algos.build(c, model=buf_model(c, c["seed"] % 1000))
    t = T(data(c, c)).clone()
    labels, outs, now = [c["algo"]], [], {}
    y = run(alg, t, {})
    for h in c["steps"]:
        labels += [h["how"], "model-" + h["model"]]
        if y.untyped_storage().data_ptr() == t.untyped_storage().data_ptr():
            y = y.clone()  # nothing to do on this input: the output is the input
        if h["scribble"]:
            with torch.no_grad():
                y.detach().fill_(3.0)  # the caller may do what it wants with a result
        else:
            outs.append((y, y.detach().clone()))
        new = T(data(c, dict(c, seed=h["seed"])))
        with torch.no_grad():
            if h["how"] == "fill":
                t.copy_(new)
            elif h["how"] == "one-bin":
                t[..., -1, :] = new[..., -1, :]
            model = getattr(alg, name)
            if h["model"] == "train":
                for q in (model.parameters() if model is not None else ()):
                    q.mul_(0.8).add_(0.1)
            elif h["model"] == "replace" and buf_model(c, 0) is not None:
                setattr(alg, name, buf_model(c, h["seed"] % 1000))
            elif h["model"] == "copy":
                alg = copy.deepcopy(alg)
            elif h["model"] == "pickle":
                alg = pickle.loads(pickle.dumps(alg))
        attrs = settable(c, h.get("attr"))
        for k, v in attrs.items():
            try:
                setattr(alg, k, v)
            except AttributeError:
                continue  # not made to be set
            labels.append("attribute-" + k)
            now[k] = v
        y = run(alg, t, {})
        ref = algos.build(c, model=buf_model(c, 0))
        for k, v in now.items():
            setattr(ref, k, v)
        setattr(ref, name, copy.deepcopy(getattr(alg, name)))
        z = run(ref, t.clone(), {})
        expect_close(tonp(y), tonp(z), 1e-7, "result for a buffer that is filled again, compared "
                     "to a fresh object and tensor")
    for a, b in outs:
        if not torch.equal(a.detach(), b):
            raise Violation("a later call changed the output of an earlier one")
    return labels


FACETS = [
    Facet("buffer", buf_case(), check_buf, cases=(1200, 16000), weight=2,
          nontrivial=lambda c, l: any(h["how"] != "same" or h["model"] != "keep"
                                      for h in c["steps"]),
          rule="the data or the model change in place between two calls"),
    Facet("history", case(), check, cases=(1600, 40000), weight=3,
          nontrivial=lambda c, l: len(c["hist"]) > 0, rule="at least one earlier call"),
    Facet("override", ov_case(), check_ov, cases=(1600, 30000), rule="at least one override"),
    Facet("layout", lay_case(), check_lay, cases=(1200, 20000), rule="a non-standard layout"),
    Facet("function-layout", flay_case(), check_flay, cases=(1600, 16000),
          rule="a non-standard layout"),
    Facet("separator-history", bss_case(), check_bss, cases=(480, 6000), weight=2,
          rule="more than one signal"),
    Facet("module-history", mod_case(), check_mod, cases=(1200, 16000),
          rule="at least one earlier call"),
]
