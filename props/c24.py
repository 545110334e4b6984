"""C24: a stored separator loads back to the same separator."""
import os
import shutil
import tempfile
from pathlib import Path

import yaml
from hypothesis import strategies as st

import torchiva
from torchiva.nn import BSSSeparator
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, expect_close, expect_shape, tonp
from vlib.signals import T, rng_of, seeds

RULE = ("Random separator configuration and random weights, stored as the two documented files in a "
        "scratch folder, loaded back with random overrides; output on a random signal")
ASSUMPTIONS = ["configuration values that YAML can represent"]


@st.composite
def case(draw):
    n_fft = draw(st.sampled_from([16, 32, 64]))
    kind = draw(st.sampled_from(["glu", "glu", "blstm", "simple", "mvdr"]))
    C = draw(st.integers(2, 3))
    opt = dict(algo=draw(st.sampled_from(["tiss", "tiss", "five"] + (["ip2"] if C == 2 else []))
                         if kind != "mvdr" else st.sampled_from(["mvdr", "gev", "mwf"])),
               n_iter=draw(st.integers(1, 3)), hop_length=draw(st.sampled_from([n_fft // 2,
                                                                                 n_fft // 4])),
               n_taps=draw(st.integers(0, 2)), n_delay=draw(st.integers(0, 2)),
               n_src=draw(st.sampled_from([None, 1, C])), proj_back_mic=draw(st.integers(0, C - 1)),
               use_dmc=False)
    over = {}
    for k, s in (("n_iter", st.integers(0, 4)), ("proj_back_mic", st.integers(0, C - 1)),
                 ("n_src", st.sampled_from([1, C])), ("n_taps", st.integers(0, 2)),
                 ("use_dmc", st.booleans()), ("n_delay", st.integers(0, 3)),
                 ("eps", st.sampled_from([1e-5, 1e-2, 0.1])),
                 ("window", st.sampled_from(["hann", "hamming", "blackman"])), ("hop_length", st.sampled_from([n_fft // 2,
                                                                             n_fft // 4]))):
        if draw(st.integers(0, 2)) == 0:
            over[k] = draw(s)
    return dict(n_fft=n_fft, kind=kind, C=C, opt=opt, over=over, L=draw(st.integers(500, 900)),
                how=draw(st.sampled_from(["dir", "dirslash", "files", "filesPath"])),
                gone=draw(st.sampled_from([None] * 14 + ["ckpt", "yaml", "dir", "notdir",
                                           "wrong", "missing-key"])),
                later=draw(st.sampled_from([None, "weights", "weights", "config", "both", "moved",
                                            "gone"])),
                ambient=draw(st.sampled_from(["f32", "f32", "f64"])), seed=draw(seeds))


def model_spec(c):
    F = c["n_fft"] // 2 + (0 if c["opt"]["algo"] == "five" else 1)  # FIVE leaves the DC bin out
    return {
        "glu": dict(name="torchiva.models.GLUMask",
                    kwargs=dict(n_freq=F, n_bottleneck=4, n_sublayers=1, pool_size=2)),
        "blstm": dict(name="torchiva.models.BLSTMMask",
                      kwargs=dict(n_freq=F, n_bottleneck=3, n_hidden=3)),
        "simple": dict(name="torchiva.models.SimpleModel", kwargs=dict(n_freq=F, n_mels=3)),
        "mvdr": dict(name="torchiva.models.MaskMVDRSupport",
                     kwargs=dict(n_src=2, n_masks=2, n_input=F, n_hidden=3, n_layers=1)),
    }[c["kind"]]


def make(c, **over):
    o = dict(c["opt"])
    o.update(over)
    return BSSSeparator(c["n_fft"], source_model=model_spec(c), **o)


def check(c):
    torch.manual_seed(c["seed"] % 2**31)
    d = tempfile.mkdtemp(prefix="verif-c24-")
    old = torch.get_default_dtype()
    try:
        # models made by programs that work in double precision are stored in it
        torch.set_default_dtype(torch.float64 if c["ambient"] == "f64" else torch.float32)
        return _check(c, d)
    finally:
        torch.set_default_dtype(old)
        shutil.rmtree(d, ignore_errors=True)


def _check(c, d):
    rng = rng_of(c["seed"], 2)
    sep = call(make, c)
    # training leaves statistics behind that belong to the model
    for mod in sep.modules():
        if isinstance(mod, torch.nn.BatchNorm1d):
            mod.running_mean.copy_(torch.from_numpy(rng.normal(0, 0.3, mod.num_features)))
            mod.running_var.copy_(torch.from_numpy(rng.uniform(0.5, 2, mod.num_features)))
    cfg = dict(c["opt"], n_fft=c["n_fft"], source_model=model_spec(c))
    folder = os.path.join(d, "some model")
    os.mkdir(folder)
    ck, ym = os.path.join(folder, "model_weights.ckpt"), os.path.join(folder, "model_config.yaml")
    sd = sep.state_dict()
    torch.save(sd, ck)
    with open(ym, "w") as f:
        yaml.safe_dump(cfg, f)
    x = T(rng.standard_normal((c["C"], c["L"]))).to(torch.get_default_dtype())

    path = {"dir": folder, "dirslash": folder + "/"}.get(c["how"])

    def load(**kw):
        if path is not None:
            return torchiva.load_separator(path, **kw)
        if c["how"] == "files":
            return torchiva.load_separator_model(ck, ym, **kw)
        return torchiva.load_separator_model(Path(ck), Path(ym), **kw)

    if c["gone"]:
        g = c["gone"]
        if g == "ckpt":
            os.unlink(ck)
        elif g == "yaml":
            os.unlink(ym)
        elif g in ("dir", "notdir"):
            if path is None:
                raise Skip("explicit files")
            shutil.rmtree(folder)
            if g == "notdir":
                if c["how"] == "dirslash":
                    raise Skip("not a path")
                with open(folder, "w") as f:
                    f.write("x")
        elif g == "wrong":
            bad = {k: (torch.zeros(v.shape + (2,)) if v.dim() else v) for k, v in sd.items()}
            torch.save(bad, ck)
        elif g == "missing-key":
            ks = [q for q in sorted(sd) if "num_batches" not in q]  # optional for torch
            k = ks[int(rng.integers(0, len(ks)))]
            torch.save({q: v for q, v in sd.items() if q != k}, ck)
        try:
            load(**c["over"])
        except (ValueError, RuntimeError) as e:
            if g in ("ckpt", "yaml", "dir", "notdir") and not isinstance(e, ValueError):
                raise Violation("%s: raised %s instead of ValueError" % (g, type(e).__name__))
            return ["error-" + g]
        except Exception as e:  # noqa: BLE001
            raise Violation("%s: raised %s" % (g, type(e).__name__))
        raise Violation("loading succeeded although the stored model is broken: " + g)

    before = {f: open(os.path.join(folder, f), "rb").read() for f in os.listdir(folder)}
    got = call(load, **c["over"])
    if not isinstance(got, BSSSeparator):
        raise Violation("load_separator returned a %s" % type(got).__name__)
    after = {f: open(os.path.join(folder, f), "rb").read() for f in os.listdir(folder)}
    if before != after:
        raise Violation("loading changed the stored model")
    sd2 = got.state_dict()
    if sorted(sd2) != sorted(sd):
        raise Violation("the loaded parameters are not the stored ones")
    for k in sd:
        if "window" in c["over"] and k.endswith("_window"):
            continue
        if sd[k].dtype != sd2[k].dtype or not torch.equal(sd[k], sd2[k]):
            raise Violation("parameter %s differs from the stored one" % k)
    want = make(c, **c["over"])
    win = want.stft.window.clone()
    want.load_state_dict(sd)
    if "window" in c["over"]:
        with torch.no_grad():
            want.stft.window.copy_(win)
    with torch.no_grad():
        a, b = call(got.eval(), x), call(want.eval(), x)
    expect_close(a, b, 1e-4, "output of the loaded separator")
    # a second load is independent of what happened to the first
    with torch.no_grad():
        for p in got.parameters():
            p.add_(1.0)
        again = call(load)
        ref = sep.eval()
        expect_close(call(again.eval(), x), call(ref, x), 1e-4, "output of a second load")
    later(c, d, folder, cfg, sep, x, load)
    return [c["kind"], c["opt"]["algo"], c["how"], c["ambient"], "override%d" % len(c["over"])]


def later(c, d, folder, cfg, sep, x, load):
    """the same place holds another model, or none, afterwards"""
    what = c.get("later")
    if not what:
        return
    ck, ym = os.path.join(folder, "model_weights.ckpt"), os.path.join(folder, "model_config.yaml")
    rng = rng_of(c["seed"], 3)
    dst, o2 = sep, {}
    if what == "moved":
        # a second folder of the same name with another model, then the first one again
        os.rename(folder, folder + " old")
        os.mkdir(folder)
    if what == "gone":
        shutil.rmtree(folder)
        try:
            load()
        except ValueError:
            return
        raise Violation("a model that was deleted was loaded")
    if what in ("config", "both", "moved"):
        o2 = dict(n_iter=c["opt"]["n_iter"] + 1, proj_back_mic=(c["opt"]["proj_back_mic"] + 1) % c["C"])
    dst = make(c, **o2)
    dst.load_state_dict(sep.state_dict())
    sd = dst.state_dict()
    if what != "config":
        with torch.no_grad():
            for p in dst.parameters():
                p.add_(torch.from_numpy(rng.uniform(0.1, 0.3, tuple(p.shape))).to(p.dtype))
        # in the same second, by a program that keeps times
        times = os.stat(ck) if os.path.exists(ck) else None
        torch.save(sd, ck)
        if times is not None and rng.uniform() < 0.5:
            os.utime(ck, ns=(times.st_atime_ns, times.st_mtime_ns))
    if what != "weights":
        with open(ym, "w") as f:
            yaml.safe_dump(dict(cfg, **o2), f)
    got = call(load)
    with torch.no_grad():
        expect_close(call(got.eval(), x), call(dst.eval(), x), 1e-4,
                     "output after the stored %s changed" % what)
    sd2 = got.state_dict()
    for k in sd:
        if not torch.equal(sd[k], sd2[k]):
            raise Violation("parameter %s is not the one stored last" % k)


FACETS = [Facet("round-trip", case(), check, cases=(1000, 12000),
                nontrivial=lambda c, l: c["gone"] is None, rule="the stored model is intact")]
