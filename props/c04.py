"""C04: back-propagated gradients are the derivatives of the outputs."""
from hypothesis import strategies as st

import torchiva
from vlib import algos
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_close, relerr, tonp
from vlib.signals import ParamModel, T, real_signal, rng_of, seeds, stft_like

RULE = ("Random algorithm, configuration, data and random smooth loss; directional derivative in a "
        "random direction of the input and of the source-model parameters, against central "
        "differences at two step sizes")
ASSUMPTIONS = ["double precision", "cases where the two step sizes disagree are outside the domain",
               "tolerance 5e-3 of the typical directional derivative; 0.1 for the algorithms that use "
               "the loaded solver, which by design does not differentiate its row normalisation (an "
               "effect of the order of the diagonal loading times the conditioning)"]


@st.composite
def case(draw):
    c = draw(st.one_of(algos.iva_config(models=("param", "laplace", "gauss"), max_chan=3,
                                        max_iter=3, max_taps=2),
                       algos.bf_config(max_chan=3)))
    nm = algos.min_frames(c)
    c.update(F=draw(st.integers(2, 3)), N=draw(st.integers(nm, nm + 10)), seed=draw(seeds),
             mseed=draw(st.integers(0, 1000)),
             wrt=draw(st.sampled_from(["both", "input", "params"])),
             flavour=draw(st.sampled_from(["mix", "noise", "inst"])),
             dmc=draw(st.booleans()))
    return c


class WpeParam(torch.nn.Module):
    def __init__(self, seed):
        super().__init__()
        self.core = ParamModel(seed)

    def forward(self, Y):
        return self.core(Y).mean(dim=-3)


def model_of(c):
    if c["algo"] == "wpe":
        return WpeParam(c["mseed"]) if c["model"] == "wpew" else None
    if c["algo"] in ("mvdr", "mwf", "gev"):
        return None
    return algos.make_model(c["model"], c["mseed"])


def loss_fn(c, Y, R):
    if algos.gauge_free(c) or c["algo"] not in ("ip2", "five"):
        return (torch.view_as_real(Y) * R).sum() + torch.log(Y.abs().square().sum())
    # without projection back the phase is arbitrary: only phase-blind losses make sense
    return (torch.log(0.1 + Y.real.square() + Y.imag.square()) * R[..., 0]).sum()


def directional(fun, c, leaves, dirs):
    for l in leaves:
        l.requires_grad_()
        l.grad = None
    loss = call(fun)
    call(loss.backward)
    g = [l.grad for l in leaves]
    ad, g2, d2, n = 0.0, 0.0, 0.0, 0
    for gi, d in zip(g, dirs):
        n += d.numel()
        d2 += float(d.abs().square().sum())
        if gi is None:
            continue
        g2 += float(gi.abs().square().sum())
        if not bool(torch.isfinite(gi.abs()).all()):
            raise Violation("gradient is not finite")
        ad += float((gi.conj() * d).sum().real) if gi.is_complex() else float((gi * d).sum())
    # typical size of a directional derivative for a gradient of this norm
    return ad, (g2 * d2 / n) ** 0.5


def fd(fun, leaves, dirs, h):
    with torch.no_grad():
        keep = [l.detach().clone() for l in leaves]
        vals = []
        for s in (1, -1):
            for l, k, d in zip(leaves, keep, dirs):
                l.copy_(k + s * h * d)
            vals.append(float(call(fun)))
        for l, k in zip(leaves, keep):
            l.copy_(k)
    return (vals[0] - vals[1]) / (2 * h)


def compare(fun, leaves, dirs, what, c, tol=5e-3, floor=1e-6):
    ad, typical = directional(fun, c, leaves, dirs)
    d1, d2 = fd(fun, leaves, dirs, 1e-5), fd(fun, leaves, dirs, 2e-6)
    scale = max(abs(d1), abs(d2))
    ref = max(scale, typical, floor)
    if not np.isfinite(scale) or abs(d1 - d2) > 2e-4 * ref:
        raise Skip("not smooth at this point")
    if not abs(ad - d2) <= tol * ref:
        raise Violation("%s: autograd gives a directional derivative of %.8g, finite differences "
                        "%.8g" % (what, ad, d2))


def check(c):
    X = stft_like(c["seed"], c["C"], c["F"], c["N"], c["flavour"])
    m = model_of(c)
    alg = algos.build(c, model=m)
    rng = rng_of(c["seed"], 8)
    R = T(rng.standard_normal((algos.n_out(c), c["F"], c["N"], 2))) * 0.3
    x = T(X)
    leaves, dirs = [], []
    if c["wrt"] in ("both", "input"):
        leaves.append(x)
        dirs.append(T(rng.standard_normal(X.shape) + 1j * rng.standard_normal(X.shape)) * 0.1)
    if c["wrt"] in ("both", "params"):
        for n, p in alg.named_parameters():
            if "fake" in n:
                continue
            leaves.append(p)
            dirs.append(T(np.asarray(rng.standard_normal(tuple(p.shape)))) * 0.1)
    if not leaves:
        raise Skip("no trainable parameter")
    fun = lambda: loss_fn(c, alg(x), R)
    # the loaded solver does not differentiate its row normalisation: its error is relative to the
    # change of the terms, not of their (possibly cancelling) sum
    with torch.no_grad():
        Y = call(alg, x)
        floor = 0.01 * max(1.0, 0.3 * float(Y.abs().square().sum().sqrt()))
    lab = algos.label(c)
    loose = lab.startswith(("ip-", "tiss-over")) or (lab.startswith("tiss") and c["ref"] is not None)
    compare(fun, leaves, dirs, lab, c, tol=0.1 if loose else 5e-3, floor=floor)
    return [algos.label(c), "wrt-" + c["wrt"]]


# ------------------------------------------------------------------ end to end and helpers
@st.composite
def e2e_case(draw):
    a = draw(st.sampled_from(["tiss", "ip2", "five", "mvdr", "mwf", "gev", "stft", "fftconvolve",
                              "mdp", "phase", "projback"]))
    return dict(algo=a, n_iter=draw(st.integers(1, 2)), seed=draw(seeds),
                L=draw(st.integers(150, 220)), mseed=draw(st.integers(0, 1000)))


def check_e2e(c):
    a = c["algo"]
    rng = rng_of(c["seed"], 8)
    if a in ("tiss", "ip2", "five", "mvdr", "mwf", "gev"):
        bf = a in ("mvdr", "mwf", "gev")
        model = algos.MaskNet(2, 2, seed=c["mseed"]) if bf else ParamModel(c["mseed"])
        sep = torchiva.nn.BSSSeparator(16, n_iter=c["n_iter"], hop_length=8, algo=a,
                                       source_model=model).double()
        x = T(real_signal(c["seed"], (2, c["L"])))
        leaves = [x] + list(model.parameters())
        n_out = 1 if a == "five" else 2
        R = T(rng.standard_normal((n_out, c["L"])))
        fun = lambda: (sep(x) * R).sum()
    elif a == "stft":
        s = torchiva.STFT(16, 4).double()
        x = T(real_signal(c["seed"], (2, c["L"])))
        leaves = [x]
        R = T(rng.standard_normal((2, 9, c["L"] // 4 + 1)))
        # x -> STFT -> nonlinearity -> inverse
        fun = lambda: (s.inv(s(x) * torch.sigmoid(s(x).abs()))).square().sum() \
            + (s(x).real * R).sum()
    elif a == "fftconvolve":
        x, h = T(real_signal(c["seed"], (2, 40))), T(real_signal(c["seed"] + 1, (2, 9)))
        leaves = [x, h]
        fun = lambda: sum(torchiva.fftconvolve(x, h, mode=m).pow(3).sum()
                          for m in ("full", "same", "valid"))
    else:
        x = T(stft_like(c["seed"], 2, 4, 30))
        ref = T(stft_like(c["seed"] + 1, 1, 4, 30)[0])
        leaves = [x, ref]
        f = dict(mdp=torchiva.minimum_distortion, phase=torchiva.minimum_distortion_l2_phase,
                 projback=torchiva.projection_back)[a]
        fun = lambda: torch.log1p(f(x, ref).abs().square()).sum()
    dirs = [T(np.asarray(rng.standard_normal(tuple(l.shape)))) * 0.1 for l in leaves]
    compare(fun, leaves, dirs, a, c)
    return [a]


FACETS = [
    Facet("separators", case(), check, cases=(2400, 30000), weight=2,
          rule="the two finite-difference step sizes agree"),
    Facet("end-to-end", e2e_case(), check_e2e, cases=(800, 8000), weight=2,
          rule="the two finite-difference step sizes agree"),
]
