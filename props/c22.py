"""C22: the neural mask models."""
from hypothesis import strategies as st

import torchiva
from vlib.boot import np, torch
from vlib.harness import (Facet, Skip, Violation, call, expect_close, expect_dtype, expect_finite,
                          expect_shape, tonp)
from vlib.signals import T, flavours, rng_of, seeds, stft_like

RULE = ("Random architecture options, random weights and batch-normalisation statistics, random "
        "complex spectrograms with silence and wide dynamics; non-trivial: evaluated")
ASSUMPTIONS = ["odd kernel sizes (an even one does not keep the number of frames)",
               "evaluation mode for everything but range and shape"]

F_SIZES = [17, 24, 33]


@st.composite
def case(draw, kinds=("glu", "glu", "blstm", "mvdr", "simple")):
    k = draw(st.sampled_from(list(kinds)))
    c = dict(kind=k, F=draw(st.sampled_from(F_SIZES)), N=draw(st.integers(1, 14)),
             batch=draw(st.sampled_from([[], [1], [2], [3], [2, 2], [2, 3]])),
             double=draw(st.booleans()), flavour=draw(flavours), seed=draw(seeds),
             zero=draw(st.sampled_from(["none", "none", "none", "frame", "bin", "all", "item"])),
             gain=draw(st.sampled_from([1.0, 1.0, 30.0, 1e-2, 1e3])))
    if k == "glu":
        c.update(bott=draw(st.sampled_from([4, 8])), pool=draw(st.sampled_from([1, 2, 3])),
                 kernel=draw(st.sampled_from([1, 3, 5])), mag=draw(st.booleans()),
                 log=draw(st.booleans()), sub=draw(st.integers(1, 3)))
    elif k == "blstm":
        c.update(bott=draw(st.sampled_from([3, 5])), hidden=draw(st.sampled_from([3, 6])),
                 mag=draw(st.booleans()), log=draw(st.booleans()))
    elif k == "mvdr":
        c.update(n_src=draw(st.integers(1, 3)), n_masks=draw(st.integers(2, 4)),
                 hidden=draw(st.sampled_from([3, 6])), layers=draw(st.integers(1, 2)),
                 eps=draw(st.sampled_from([1e-3, 1e-2, 0.0])))
    else:
        c.update(mels=draw(st.sampled_from([3, 6])), hidden=draw(st.sampled_from([None, 5])))
    return c


def build(c):
    torch.manual_seed(c["seed"] % (2**31))
    M = torchiva.models
    k = c["kind"]
    if k == "glu":
        m = M.GLUMask(c["F"], c["bott"], pool_size=c["pool"], kernel_size=c["kernel"],
                      mag_spec=c["mag"], log_spec=c["log"], n_sublayers=c["sub"])
    elif k == "blstm":
        m = M.BLSTMMask(c["F"], c["bott"], n_hidden=c["hidden"], mag_spec=c["mag"],
                        log_spec=c["log"])
    elif k == "mvdr":
        m = M.MaskMVDRSupport(n_src=c["n_src"], n_masks=c["n_masks"], n_input=c["F"],
                              n_hidden=c["hidden"], n_layers=c["layers"], eps=c["eps"])
    else:
        m = M.SimpleModel(n_freq=c["F"], n_mels=c["mels"], n_hidden=c["hidden"])
    rng = rng_of(c["seed"], 3)
    for mod in m.modules():
        if isinstance(mod, torch.nn.BatchNorm1d):
            n = mod.num_features
            mod.running_mean.copy_(torch.from_numpy(rng.normal(0, 0.3, n)))
            mod.running_var.copy_(torch.from_numpy(rng.uniform(0.5, 2.0, n)))
            with torch.no_grad():
                mod.weight.copy_(torch.from_numpy(rng.uniform(0.5, 1.5, n)))
                mod.bias.copy_(torch.from_numpy(rng.normal(0, 0.3, n)))
    return (m.double() if c["double"] else m).eval()


def data(c):
    n = int(np.prod(c["batch"])) if c["batch"] else 1
    X = stft_like(c["seed"], n, c["F"], max(c["N"], 1), c["flavour"])
    if c["zero"] == "frame":
        X[..., rng_of(c["seed"], 1).integers(0, c["N"])] = 0
    elif c["zero"] == "bin":
        X[:, rng_of(c["seed"], 1).integers(0, c["F"])] = 0
    elif c["zero"] == "all":
        X[:] = 0
    elif c["zero"] == "item":
        X[0] = 0
    X = c["gain"] * X
    return T(X.reshape(tuple(c["batch"]) + X.shape[1:])).to(
        torch.complex128 if c["double"] else torch.complex64)


def tol(c):
    return 1e-9 if c["double"] else 2e-3


def labels(c):
    return [c["kind"], "double" if c["double"] else "single", "zero-" + c["zero"]] + \
        (["mag%d-log%d" % (c["mag"], c["log"])] if "mag" in c else [])


def out_shape(c):
    mid = (c["n_src"], c["n_masks"]) if c["kind"] == "mvdr" else ()
    return tuple(c["batch"]) + mid + (c["F"], c["N"])


def low(c):
    return {"mvdr": c.get("eps", 0), "simple": 0.0}.get(c["kind"], 1e-5)


def check_range(c):
    m = build(c)
    X = data(c)
    X0 = X.clone()
    for mode in ("eval", "train"):
        if mode == "train":
            if c["kind"] == "glu" and int(np.prod(c["batch"] or [1])) * c["N"] < 2:
                continue  # batch statistics need two values
            m.train()
        Y = call(m, X)
        expect_shape(Y, out_shape(c), "mask")
        if not torch.is_floating_point(Y):
            raise Violation("the mask is not real valued")
        expect_dtype(Y, torch.float64 if c["double"] else torch.float32, "mask")
        expect_finite(Y, "mask")
        lo, hi = float(Y.min()), float(Y.max())
        if not (lo >= low(c) * (1 - 1e-3) and lo >= 0 and hi <= 1 + 1e-6):
            raise Violation("the mask leaves [%g, 1]: %g .. %g in %s mode" % (low(c), lo, hi, mode))
    if not torch.equal(X, X0):
        raise Violation("the model changed its input")
    return labels(c)


def check_batch(c):
    m = build(c)
    X = data(c)
    with torch.no_grad():
        Y = call(m, X)
        Y2 = call(m, X)
        expect_shape(Y, out_shape(c), "mask")
        if not torch.equal(Y, Y2):
            raise Violation("two evaluations in evaluation mode differ")
        nb = len(c["batch"])
        for idx in np.ndindex(*c["batch"]):
            y = call(m, X[idx])
            expect_close(y, Y[idx], tol(c), "mask of item %s computed alone" % (idx,))
            y = call(m, X[idx][(None,) * (nb + 1)])
            expect_close(y.reshape(Y[idx].shape), Y[idx], tol(c), "mask with extra dimensions")
    return labels(c)


def check_inv(c):
    m = build(c)
    X = data(c)
    rng = rng_of(c["seed"], 8)
    with torch.no_grad():
        Y = call(m, X)
        done = []
        if c["kind"] in ("mvdr", "simple") or c["mag"]:
            ph = np.exp(2j * np.pi * rng.uniform(size=X.shape))
            expect_close(call(m, X * T(ph).to(X.dtype)), Y, max(tol(c), 1e-8),
                         "mask after changing the phases")
            done.append("phase")
        if c["kind"] == "glu":
            p = (X.real ** 2 + X.imag ** 2).mean(dim=(-2, -1))
            if bool((p > 1e-2).all()):
                s = torch.from_numpy(rng.choice([0.125, 4.0, 64.0], size=c["batch"]))
                s = s.reshape(tuple(c["batch"]) + (1, 1)).to(X.real.dtype)
                if bool((p[..., None, None] * s ** 2 > 1e-4).all()):
                    expect_close(call(m, X * s), Y, max(tol(c), 1e-8),
                                 "mask after changing the level of every item")
                    done.append("level")
    if not done:
        raise Skip("no invariance applies")
    return labels(c) + done


# --------------------------------------------------------- an independent forward pass
def sig(x):
    return 1.0 / (1.0 + np.exp(-np.clip(x, -60, 60)))


def conv(x, w, b, transposed):
    """x (C, N); odd kernel, output of the same length"""
    if transposed:  # w (in, out, k): transposed convolution is convolution
        w = np.flip(np.swapaxes(w, 0, 1), axis=-1)
    k = w.shape[-1]
    p = k // 2
    xp = np.pad(x, ((0, 0), (p, p)))
    N = x.shape[1]
    y = np.zeros((w.shape[0], N))
    for j in range(k):
        y += w[:, :, j] @ xp[:, j:j + N]
    return y + b[:, None]


def bn(x, sd, pre):
    s = sd[pre + ".weight"] / np.sqrt(sd[pre + ".running_var"] + 1e-5)
    return (x - sd[pre + ".running_mean"][:, None]) * s[:, None] + sd[pre + ".bias"][:, None]


def np_glu(c, sd, X):
    P = np.abs(X) ** 2
    g = max(P.mean(), 1e-5)
    if c["mag"]:
        h = P / g
    else:
        h = X / np.sqrt(g)
        h = np.concatenate([h.real, h.imag])
    if c["log"]:
        h = np.log10(np.abs(h) + 1e-7)

    def block(h, i, n_in, n_out, nsub):
        tr = n_in < n_out
        for s in range(nsub):
            pre = "layers.%d." % i
            G = sig(bn(conv(h, sd[pre + "gate_layers.%d.weight" % s],
                            sd[pre + "gate_layers.%d.bias" % s], tr), sd,
                       pre + "gate_bn_layers.%d" % s))
            L = bn(conv(h, sd[pre + "lin_layers.%d.weight" % s],
                        sd[pre + "lin_layers.%d.bias" % s], tr), sd,
                   pre + "lin_bn_layers.%d" % s)
            h = G * L
            h = h.reshape(h.shape[0] // c["pool"], c["pool"], -1).max(axis=1)
        return h

    n_in = c["F"] if c["mag"] else 2 * c["F"]
    h = block(h, 0, n_in, c["bott"], 1)
    h = block(h, 1, c["bott"], c["bott"], c["sub"])
    h = block(h, 3, c["bott"], c["bott"], c["sub"])
    h = conv(h, sd["layers.4.weight"], sd["layers.4.bias"], True)
    return sig(h) * (1 - 1e-5) + 1e-5


def np_lstm(h, sd, pre, layers):
    """h (N, D); bidirectional"""
    for l in range(layers):
        outs = []
        for suf in ("", "_reverse"):
            wi, wh = sd["%sweight_ih_l%d%s" % (pre, l, suf)], sd["%sweight_hh_l%d%s" % (pre, l, suf)]
            b = sd["%sbias_ih_l%d%s" % (pre, l, suf)] + sd["%sbias_hh_l%d%s" % (pre, l, suf)]
            H = wh.shape[1]
            hh, cc = np.zeros(H), np.zeros(H)
            o = np.zeros((h.shape[0], H))
            seq = range(h.shape[0]) if suf == "" else range(h.shape[0] - 1, -1, -1)
            for n in seq:
                z = wi @ h[n] + wh @ hh + b
                i, f, g, q = sig(z[:H]), sig(z[H:2 * H]), np.tanh(z[2 * H:3 * H]), sig(z[3 * H:])
                cc = f * cc + i * g
                hh = q * np.tanh(cc)
                o[n] = hh
            outs.append(o)
        h = np.concatenate(outs, axis=1)
    return h


def np_mel(sd, P):
    return sd["mel_layer.fb"].T @ P


def np_model(c, sd, X):
    k = c["kind"]
    if k == "glu":
        return np_glu(c, sd, X)
    if k == "blstm":
        if c["mag"]:
            h = np_mel(sd, np.abs(X) ** 2)
            if c["log"]:
                h = np.log(h + 1e-7)
        else:
            h = np.concatenate([np_mel(sd, X.real), np_mel(sd, X.imag)])
        h = np_lstm(h.T, sd, "blstm.", 3)
        y = sd["output_layer.weight"][:, :, 0] @ h.T + sd["output_layer.bias"][:, None]
        return sig(y) * (1 - 1e-5) + 1e-5
    if k == "mvdr":
        h = np_lstm(np.log(1 + np.abs(X)).T, sd, "blstm.", c["layers"])
        h = np.maximum(h @ sd["ff1.weight"].T + sd["ff1.bias"], 0)
        h = sig(h @ sd["ff2.weight"].T + sd["ff2.bias"]).T
        h = (1 - c["eps"]) * h + c["eps"]
        return h.reshape(c["n_src"], c["n_masks"], c["F"], -1)
    h = 10 * np.log10(1e-6 + np_mel(sd, np.abs(X) ** 2)).T
    h = h @ sd["hidden.weight"].T + sd["hidden.bias"]
    h = h @ sd["output_mapping.weight"].T + sd["output_mapping.bias"]
    return sig(1e-6 + (1 - 1e-6) * h).T


def check_ref(c):
    c = dict(c, double=True)
    m = build(c)
    X = data(c)
    sd = {k: v.numpy().astype(float) for k, v in m.state_dict().items()}
    with torch.no_grad():
        Y = tonp(call(m, X))
    for idx in np.ndindex(*c["batch"]):
        try:
            ref = np_model(c, sd, X[idx].numpy())
        except KeyError as e:
            raise Violation("the parameters of a checkpoint are not those of the model: no %s" % e)
        expect_close(Y[idx], ref, 1e-7, "mask from the stored parameters")
    return labels(c)


@st.composite
def large_case(draw):
    c = draw(case())
    what = draw(st.sampled_from(["batch", "bins", "frames"]))
    if what == "batch":
        c["batch"] = draw(st.sampled_from([[7], [17], [3, 4], [33], [70]]))
    elif what == "bins":
        c["F"] = draw(st.sampled_from([65, 129, 257, 257, 513]))
    else:
        c["N"] = draw(st.sampled_from([64, 150, 257, 512, 800, 1100]))
    return c


FACETS = [
    Facet("range", case(), check_range, cases=(2400, 15000)),
    Facet("batch", case(), check_batch, cases=(2000, 12000),
          nontrivial=lambda c, l: int(np.prod(c["batch"] or [1])) > 1, rule="more than one item"),
    Facet("invariance", case(), check_inv, cases=(2000, 12000)),
    Facet("reference", case(), check_ref, cases=(2000, 12000),
          nontrivial=lambda c, l: c["zero"] != "all", rule="a non-silent spectrogram"),
    Facet("batch-large", large_case(), check_batch, cases=(160, 1500), weight=6,
          nontrivial=lambda c, l: int(np.prod(c["batch"] or [1])) > 1, rule="more than one item"),
    Facet("reference-large", large_case(), check_ref, cases=(240, 2000), weight=6,
          nontrivial=lambda c, l: c["zero"] != "all", rule="a non-silent spectrogram"),
]
