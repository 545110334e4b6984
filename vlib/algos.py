"""Strategies for, and construction of, every separator of the library from a JSON-able
configuration; the generic properties (batching, histories, dtypes, ...) quantify over these."""
from hypothesis import strategies as st

import torchiva

from .boot import np, torch
from .signals import InvPow, ParamModel, rng_of


# ------------------------------------------------------------------ mask and weight models
class MaskNet(torch.nn.Module):
    """(..., F, N) -> (..., n_src, n_masks, F, N): smooth positive masks, different for every
    source/mask, varying over time and frequency and with the input's log power"""

    def __init__(self, n_src=2, n_masks=2, seed=0, depth=3.0):
        super().__init__()
        rng = rng_of(seed, 77)
        self.n_src, self.n_masks = n_src, n_masks
        k = n_src * n_masks
        mk = lambda v: torch.nn.Parameter(torch.from_numpy(np.asarray(v)).to(torch.float64))
        self.ph = mk(rng.uniform(0, 2 * np.pi, size=(k, 1, 1)))
        self.wn = mk(rng.uniform(0.3, 2.5, size=(k, 1, 1)))
        self.wf = mk(rng.uniform(0.2, 1.5, size=(k, 1, 1)))
        self.al = mk(rng.uniform(-0.5, 0.5, size=(k, 1, 1)))
        self.depth = depth

    def forward(self, X):
        p = X.real.square() + X.imag.square()
        F, N = X.shape[-2:]
        dt = p.dtype
        n = torch.arange(N, dtype=torch.float64)[None, None, :]
        f = torch.arange(F, dtype=torch.float64)[None, :, None]
        osc = (self.depth * torch.sin(self.wn * n + self.wf * f + self.ph)).to(dt)
        m = torch.sigmoid(osc + self.al.to(dt) * torch.log1p(p)[..., None, :, :])
        m = 0.02 + 0.98 * m
        return m.reshape(p.shape[:-2] + (self.n_src, self.n_masks, F, N))


class WpeWeights(torch.nn.Module):
    """(..., C, F, N) -> (..., F, N)"""

    def forward(self, Y):
        p = (Y.real.square() + Y.imag.square()).mean(dim=-3)
        return 1.0 / (0.3 + p)


def np_wpe_weights(Y):
    return 1.0 / (0.3 + (np.abs(Y) ** 2).mean(axis=0))


def make_model(name, seed=0, dtype=torch.float64):
    if name == "laplace":
        return torchiva.models.LaplaceModel()
    if name == "gauss":
        return torchiva.models.GaussModel()
    if name == "nmf":
        return torchiva.models.NMFModel(n_basis=2)
    if name == "invpow":
        return InvPow()
    if name == "param":
        return ParamModel(seed, dtype=dtype)
    raise KeyError(name)


# ------------------------------------------------------------------ configurations
def enlarge(draw, c, kinds=("chan", "bins", "frames", "iter")):
    """one dimension well beyond the usual small sizes (block-wise processing, periodic steps of
    the iterations, thresholds on sizes); c: a drawn case, modified in place"""
    kind = draw(st.sampled_from([k for k in kinds if k != "taps" or c.get("taps") is not None]))
    c["large"] = kind
    if kind == "chan":
        C = draw(st.sampled_from([5, 6, 7, 8, 9]))
        for k in ("n_src", "ref"):
            if c.get(k) is not None:
                c[k] = draw(st.integers(0 if k == "ref" else 1, C - 1 if k == "ref" else C))
        c["C"], c["N"] = C, c["N"] + 12 * C
        if c.get("taps"):
            c["taps"] = min(c["taps"], 2)
            c["N"] += 4 * C * c["taps"]
    elif kind == "bins":
        c["F"] = draw(st.sampled_from([17, 33, 64, 65, 129, 257, 257, 513, 1025]))
    elif kind == "frames":
        c["N"] = draw(st.sampled_from([150, 257, 500, 512, 700, 1030, 1500, 2600, 4100]))
    elif kind == "iter":
        c["n_iter"] = draw(st.one_of(st.integers(8, 25), st.integers(26, 60)))
        c["N"] *= 3
    elif kind == "taps":
        c["taps"] = draw(st.sampled_from([5, 6, 7, 8, 9, 10, 12, 16]))
        c["delay"] = draw(st.integers(0, 9))
        c["N"] = 30 + 5 * c["C"] * c["taps"] + c["delay"]
    return c


IVA_MODELS = ["laplace", "gauss", "invpow"]


@st.composite
def iva_config(draw, algos=("tiss", "tiss", "ip", "ip2", "five", "wpe"), max_chan=4,
               max_iter=4, models=tuple(IVA_MODELS), max_taps=3, min_iter=1):
    a = draw(st.sampled_from(list(algos)))
    c = dict(algo=a, n_iter=draw(st.integers(min_iter, max_iter)),
             model=draw(st.sampled_from(list(models))))
    if a == "ip2":
        c["C"] = 2
    elif a == "five":
        c["C"] = draw(st.integers(2, max_chan))
    else:
        c["C"] = draw(st.integers(1 if a in ("tiss", "wpe") else 2, max_chan))
    if a in ("tiss", "ip"):
        c["n_src"] = draw(st.sampled_from([None] + list(range(1, c["C"] + 1))))
    if a == "tiss":
        c["n_taps"] = draw(st.integers(0, max_taps))
        c["n_delay"] = draw(st.integers(0, 2))
        c["dmc"] = False
    if a == "wpe":
        c["n_taps"] = draw(st.integers(1, max_taps))
        c["n_delay"] = draw(st.integers(0, 3))
        c["model"] = draw(st.sampled_from(["none", "wpew"]))
    if a == "five":
        c["n_power_iter"] = draw(st.sampled_from([None, None, 1, 3]))
    if a != "wpe":
        c["ref"] = draw(st.sampled_from([None] + list(range(c["C"])) * 2))
    return c


@st.composite
def bf_config(draw, algos=("mvdr", "mvdr", "mwf", "gev"), max_chan=4):
    a = draw(st.sampled_from(list(algos)))
    c = dict(algo=a, C=draw(st.integers(2, max_chan)), n_src=draw(st.integers(1, 3)),
             mseed=draw(st.integers(0, 10**6)))
    c["ref"] = draw(st.integers(0, c["C"] - 1))
    if a == "mvdr":
        c["kind"] = draw(st.sampled_from(["rtf", "scm", "power", "three"]))
        if c["kind"] in ("power", "three"):
            c["n_power_iter"] = draw(st.sampled_from([1, 2, 5])) if c["kind"] == "power" \
                else draw(st.sampled_from([None, 2]))
    if a == "mwf":
        c["ti"] = draw(st.booleans())
    return c


def build(c, model=None, dtype=torch.float64, use_dmc=None):
    """the torch module for a configuration"""
    a = c["algo"]
    if a in ("mvdr", "mwf", "gev"):
        n_masks = 2
        if a == "mvdr" and c["kind"] == "three":
            n_masks = 3
        if a == "mwf" and not c["ti"]:
            n_masks = 4
        mm = model or MaskNet(c["n_src"], n_masks, seed=c["mseed"])
        kw = {} if c.get("eps") is None else dict(eps=c["eps"])
        if a == "mvdr":
            return torchiva.MVDRBeamformer(
                mm, **kw, ref_mic=c["ref"], mvdr_type="scm" if c["kind"] == "scm" else "rtf",
                n_power_iter=c.get("n_power_iter"))
        if a == "mwf":
            return torchiva.MWFBeamformer(mm, **kw, ref_mic=c["ref"], time_invariant=c["ti"])
        return torchiva.GEVBeamformer(mm, **kw, ref_mic=c["ref"])
    if a == "wpe":
        m = model or (None if c["model"] == "none" else WpeWeights())
        return torchiva.WPE(n_iter=c["n_iter"], n_taps=c["n_taps"], n_delay=c["n_delay"],
                            model=m)
    m = model or make_model(c["model"], c.get("mseed", 0), dtype)
    if a == "tiss":
        return torchiva.T_ISS(n_iter=c["n_iter"], n_taps=c["n_taps"], n_delay=c["n_delay"],
                              n_src=c["n_src"], model=m, proj_back_mic=c["ref"],
                              use_dmc=c.get("dmc", False) if use_dmc is None else use_dmc)
    if a == "ip":
        return torchiva.AuxIVA_IP(n_iter=c["n_iter"], n_src=c["n_src"], model=m,
                                  proj_back_mic=c["ref"])
    if a == "ip2":
        return torchiva.AuxIVA_IP2(n_iter=c["n_iter"], model=m, proj_back_mic=c["ref"])
    if a == "five":
        return torchiva.FIVE(n_iter=c["n_iter"], model=m, proj_back_mic=c["ref"],
                             n_power_iter=c.get("n_power_iter"))
    raise KeyError(a)


def n_out(c):
    a = c["algo"]
    if a == "five":
        return 1
    if a in ("tiss", "ip"):
        return c["C"] if c["n_src"] is None else c["n_src"]
    if a in ("ip2", "wpe"):
        return c["C"]
    return c["n_src"]


def min_frames(c):
    """enough frames for the statistics of this configuration to be well conditioned"""
    return 12 * c["C"] + 4 * c["C"] * c.get("n_taps", 0) + c.get("n_delay", 0) + 8


def label(c):
    a = c["algo"]
    if a == "tiss":
        over = c["n_src"] is not None and c["n_src"] < c["C"]
        return "tiss-%s-%s-%s" % ("over" if over else "det", "taps" if c["n_taps"] else "notaps",
                                  "none" if c["ref"] is None else "pb")
    if a == "ip":
        over = c["n_src"] is not None and c["n_src"] < c["C"]
        return "ip-%s-%s" % ("over" if over else "det", "none" if c["ref"] is None else "pb")
    if a == "mvdr":
        return "mvdr-" + c["kind"]
    if a == "mwf":
        return "mwf-" + ("ti" if c["ti"] else "tv")
    if a == "five":
        return "five-" + ("eigh" if c["n_power_iter"] is None else "power")
    return a


# eigenvector phases/signs of the un-projected outputs are not determined
def gauge_free(c):
    """the output is a well defined function of the input (no arbitrary eigenvector phase)"""
    return not (c["algo"] in ("ip2", "five") and c["ref"] is None)
