"""C26: the separation command - what it writes, and what it never writes over."""
import hashlib
import io
import os
import shutil
import sys
import tempfile

import torchaudio
import yaml
from hypothesis import strategies as st

import torchiva
from torchiva import separate
from torchiva.nn import BSSSeparator
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call, tonp
from vlib.signals import T, rng_of, seeds

RULE = ("Random wav files (channels, rate, length, level), options and folder trees in a scratch "
        "folder; every written file is compared with the library's result, every other file with "
        "its bytes before the command")
ASSUMPTIONS = ["16 bit output files", "wav files of at least half an FFT length"]
QUANT = 4.0 / 32768.0


@st.composite
def options(draw, C):
    kind = draw(st.sampled_from(["laplace", "laplace", "gauss", "nmf", "nn", "nn"]))
    mic = draw(st.integers(1, 4))
    o = dict(kind=kind, mic=mic, src=draw(st.integers(1, mic)), n_iter=draw(st.integers(0, 4)),
             nfft=draw(st.sampled_from([32, 64, 128])), hop=draw(st.sampled_from([None, 16])),
             win=draw(st.sampled_from([None, "hann", "hamming"])),
             taps=draw(st.integers(0, 2)), delay=draw(st.integers(0, 2)), quiet=draw(st.booleans()),
             eps=draw(st.sampled_from([None, 1e-4])),
             model_eps=draw(st.sampled_from([None, None, 1e-2, 1.0])),
             n_basis=draw(st.sampled_from([None, 1, 3])))
    algo = draw(st.sampled_from([None, None, "tiss", "five"] + (["ip2"] if mic == 2 else []) +
                                (["mvdr", "gev", "mwf"] if kind == "nn" else [])))
    o["algo"] = algo
    # what the configuration of the stored model says, unless the command says otherwise
    o["stored"] = draw(st.sampled_from([None, "tiss", "five", "ip2"])) if kind == "nn" else None
    if o["stored"] in ("ip2", "five") and algo is None:
        o["stored"] = "tiss"
    o["bf"] = kind == "nn" and algo in ("mvdr", "gev", "mwf")
    o["mseed"] = draw(st.integers(0, 50))
    return o


@st.composite
def wavs(draw, opt, n):
    """channel counts compatible with the options"""
    lo = 2 if opt["algo"] in ("ip2", "five") or opt["bf"] else 1
    if opt["algo"] == "ip2":
        cs = [2, 2, 3]
    else:
        lo = max(lo, opt["src"])
        cs = list(range(lo, 5)) * 3 + [5, 7]
    return [dict(C=draw(st.sampled_from(cs)), L=draw(st.integers(400, 1500)),
                 fs=draw(st.sampled_from([8000, 16000, 11025, 44100, 48000])),
                 bits=draw(st.sampled_from([None, None, None, 8, 16, 24, 32, "f32"])),
                 amp=draw(st.sampled_from([0.3, 0.05])), seed=draw(seeds)) for _ in range(n)]


def usable(o):
    m = o["mic"]
    return not ((o["algo"] in ("five", "ip2") or o["bf"]) and m < 2)


@st.composite
def file_case(draw):
    o = draw(options(0).filter(usable))
    w = draw(wavs(o, 1))[0]
    ref = draw(st.integers(0, min(o["mic"], w["C"]) - 1))
    return dict(opt=dict(o, ref=ref), wav=w, out=draw(st.sampled_from(["file", "dir", "existing"])))


@st.composite
def long_case(draw):
    """recordings of seconds to minutes, the usual sizes of the transform"""
    c = draw(file_case())
    c["wav"].update(L=draw(st.sampled_from([2, 10, 40, 70])) * 8000 + draw(st.integers(0, 8000)),
                    fs=draw(st.sampled_from([8000, 16000])))
    c["opt"].update(nfft=draw(st.sampled_from([256, 512, 2048])), hop=None,
                    n_iter=draw(st.integers(0, 2)), taps=min(c["opt"]["taps"], 1))
    return c


@st.composite
def folder_case(draw):
    o = draw(options(0).filter(usable))
    w = draw(wavs(o, draw(st.integers(1, 4))))
    names = draw(st.lists(st.sampled_from(["a.wav", "b.wav", "s/a.wav", "s/b.wav", "s/t/a.wav",
                                           "u/a.wav", "with space.wav", "a.b.wav", ".wav.wav",
                                           "\u00fcn\u00ef.wav", "r.wav/a.wav", "r.wav/r.wav",
                                           "a"*80 + ".wav", "s/t/v/w/x/a.wav"]),
                          min_size=len(w), max_size=len(w), unique=True))
    return dict(opt=dict(o, ref=0), wavs=w, names=names,
                out=draw(st.sampled_from(["new", "deep", "existing", "inside"])),
                junk=draw(st.booleans()))


def write_wav(path, w):
    rng = rng_of(w["seed"], 9)
    x = rng.standard_normal((w["C"], w["L"])) * np.exp(
        rng.normal(0, 0.6, size=(w["C"], w["L"] // 50 + 1))).repeat(50, axis=-1)[:, :w["L"]]
    A = np.eye(w["C"]) + 0.3 * rng.standard_normal((w["C"], w["C"]))
    x = A @ x
    x = w["amp"] * x / np.abs(x).max()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    kw = {} if w.get("bits") is None else dict(
        encoding="PCM_F" if w["bits"] == "f32" else "PCM_U" if w["bits"] == 8 else "PCM_S",
        bits_per_sample=32 if w["bits"] == "f32" else w["bits"])
    torchaudio.save(path, torch.from_numpy(x).to(torch.float32), w["fs"], **kw)


def store_model(o, d):
    """a trained model in a local folder"""
    F = o["nfft"] // 2 + (0 if o["algo"] == "five" else 1)
    torch.manual_seed(o["mseed"])
    if o["bf"]:
        spec = dict(name="torchiva.models.MaskMVDRSupport",
                    kwargs=dict(n_src=o["src"], n_masks=2, n_input=F, n_hidden=4, n_layers=2))
    else:
        spec = dict(name="torchiva.models.GLUMask",
                    kwargs=dict(n_freq=F, n_bottleneck=4, n_sublayers=1, dropout_p=0.5))
    cfg = dict(n_fft=o["nfft"], n_iter=3, n_taps=o["taps"], n_delay=o["delay"], proj_back_mic=0,
               use_dmc=False, source_model=spec)
    if o["hop"]:
        cfg["hop_length"] = o["hop"]
    if o.get("stored"):
        cfg["algo"] = o["stored"]
    if o["bf"]:
        cfg["algo"] = o["algo"]  # a checkpoint of a beamformer has other keys
    sep = BSSSeparator(**cfg)
    os.makedirs(d)
    torch.save(sep.state_dict(), os.path.join(d, "model_weights.ckpt"))
    with open(os.path.join(d, "model_config.yaml"), "w") as f:
        yaml.safe_dump(cfg, f)
    return cfg, sep.state_dict()


def argv(o, model_dir):
    a = ["--mic", o["mic"], "--src", o["src"], "--n_iter", o["n_iter"], "--ref", o["ref"]]
    if o["kind"] == "nn":
        a += ["--model-type", "nn", "--model-path", model_dir]
    else:
        a += ["--model-type", o["kind"], "--nfft", o["nfft"], "--taps", o["taps"],
              "--delay", o["delay"]]
        if o["hop"]:
            a += ["--hop", o["hop"]]
        if o["win"]:
            a += ["--win", o["win"]]
        if o["eps"]:
            a += ["--eps", o["eps"]]
        if o.get("model_eps"):
            a += ["--model-eps", o["model_eps"]]
        if o["kind"] == "nmf" and o.get("n_basis"):
            a += ["--n-basis", o["n_basis"]]
    if o["algo"]:
        a += ["--algo", o["algo"]]
    if o["quiet"]:
        a += ["-q"]
    return [str(v) for v in a]


def expected(o, path, model_dir, seed=None):
    """the library's own answer for one file"""
    x, fs = torchaudio.load(path)
    x = x[: o["mic"]]
    src = 1 if o["algo"] == "five" else o["src"]
    if o["kind"] == "nn":
        kw = dict(n_iter=o["n_iter"], n_src=src, proj_back_mic=o["ref"], use_dmc=False)
        if o["algo"]:
            kw["algo"] = o["algo"]
        sep = torchiva.load_separator(model_dir, **kw)
    else:
        m = dict(laplace=torchiva.models.LaplaceModel, gauss=torchiva.models.GaussModel,
                 nmf=torchiva.models.NMFModel)[o["kind"]]
        kw = {} if o.get("model_eps") is None else dict(eps=o["model_eps"])
        if o["kind"] == "nmf" and o.get("n_basis"):
            kw["n_basis"] = o["n_basis"]
        m = m(**kw)
        sep = BSSSeparator(o["nfft"], n_iter=o["n_iter"], hop_length=o["hop"], window=o["win"],
                           n_taps=o["taps"], n_delay=o["delay"], n_src=src, algo=o["algo"] or "tiss",
                           source_model=m, proj_back_mic=o["ref"], eps=o["eps"])
    sep.eval()
    if seed is not None:
        torch.manual_seed(seed)
    with torch.no_grad():
        y = sep(x)
    y = tonp(y).astype(float)
    if y.shape[0] > src:
        p = (y ** 2).mean(axis=-1)
        y = y[np.argsort(-p, kind="stable")[:src]]
    return y, fs, x.numpy().astype(float)


def run_main(args):
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        p = separate.get_parser()
        return separate.main(p.parse_args(args))
    finally:
        sys.stdout = old


def snapshot(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            if os.path.islink(p) and not os.path.exists(p):
                continue
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = hashlib.sha1(fh.read()).hexdigest()
    return out


def compare_out(o, path_out, path_in, model_dir, what, seed=None):
    y, fs = torchaudio.load(path_out)
    src = 1 if o["algo"] == "five" else o["src"]
    x_len = torchaudio.load(path_in)[0].shape[-1]
    if tuple(y.shape) != (src, x_len):
        raise Violation("%s has shape %s, expected %s" % (what, tuple(y.shape), (src, x_len)))
    fs_in = torchaudio.load(path_in)[1]
    if fs != fs_in:
        raise Violation("%s has rate %s, the input %s" % (what, fs, fs_in))
    if o["kind"] == "nmf" and seed is None:
        return "nmf"  # randomly initialised
    want, _, x = expected(o, path_in, model_dir, seed)
    y = y.numpy().astype(float)
    if o["n_iter"] == 0 and src < x.shape[0]:
        pass
    err = np.abs(np.clip(want, -1, 1) - y).max()
    if not err <= QUANT + 2e-3 * np.abs(want).max():
        raise Violation("%s differs from the library's result by %.3g (peak %.3g)"
                        % (what, err, np.abs(want).max()))
    return "compared"


def scratch(fn):
    def g(c):
        d = os.path.realpath(tempfile.mkdtemp(prefix="verif-c26-"))
        cwd = os.getcwd()
        try:
            return fn(c, d)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
    return g


@scratch
def check_file(c, d):
    o = c["opt"]
    src = os.path.join(d, "in", "mix.wav")
    write_wav(src, c["wav"])
    md = os.path.join(d, "model")
    if o["kind"] == "nn":
        store_model(o, md)
    out = os.path.join(d, "out")
    if c["out"] == "dir":
        os.mkdir(out)
        target = os.path.join(out, "mix.wav")
        arg = out
    else:
        os.mkdir(out)
        target = arg = os.path.join(out, "sep.wav")
        if c["out"] == "existing":
            with open(target, "wb") as f:
                f.write(b"old")
    before = snapshot(d)
    torch.manual_seed(c["wav"]["seed"] % 1000)
    call(run_main, [src, arg] + argv(o, md))
    after = snapshot(d)
    rel = os.path.relpath(target, d)
    if rel not in after:
        raise Violation("no output file %s" % rel)
    extra = {k for k in after if before.get(k) != after[k]} | (set(before) - set(after))
    if extra != {rel}:
        raise Violation("the command changed %s" % sorted(extra - {rel}))
    how = compare_out(o, target, src, md, "the output", c["wav"]["seed"] % 1000)
    return [o["kind"], str(o["algo"]), how, "src<mic" if o["src"] < min(o["mic"], c["wav"]["C"])
            else "src=mic", "mic<C" if o["mic"] < c["wav"]["C"] else "mic>=C"]


@scratch
def check_folder(c, d):
    o = c["opt"]
    din = os.path.join(d, "in")
    os.mkdir(din)
    for w, n in zip(c["wavs"], c["names"]):
        write_wav(os.path.join(din, n), w)
    if c["junk"]:
        for n in ("notes.txt", "s2/readme.md", "x.wav.bak"):
            os.makedirs(os.path.dirname(os.path.join(din, n)), exist_ok=True)
            with open(os.path.join(din, n), "w") as f:
                f.write("junk")
    md = os.path.join(d, "model")
    if o["kind"] == "nn":
        store_model(o, md)
    out = {"new": "out", "deep": "o1/o2", "existing": "out", "inside": "in/out"}[c["out"]]
    out = os.path.join(d, out)
    if c["out"] == "existing":
        os.mkdir(out)
        with open(os.path.join(out, "keep.txt"), "w") as f:
            f.write("keep")
    before = snapshot(d)
    torch.manual_seed(3)
    call(run_main, [din, out] + argv(o, md))
    after = snapshot(d)
    want = {os.path.relpath(os.path.join(out, n), d) for n in c["names"]}
    changed = {k for k in after if before.get(k) != after[k]} | (set(before) - set(after))
    if changed != want:
        raise Violation("written files %s, expected %s" % (sorted(changed), sorted(want)))
    how = [compare_out(o, os.path.join(out, n), os.path.join(din, n), md, "the output for " + n)
           for n in c["names"]]
    return [o["kind"], str(o["algo"]), "files%d" % len(c["names"]), c["out"]] + how


# ------------------------------------------------------------------ refusing to overwrite
@st.composite
def refuse_case(draw):
    return dict(kind=draw(st.sampled_from(["same", "dot", "dotdot", "relative", "symlink-out",
                                           "symlink-dir", "parent-dir", "folder-same", "folder-dot",
                                           "folder-link", "folder-up", "folder-file-link",
                                           "folder-down", "rerun-inside", "hard-link",
                                           "hard-link-dir", "folder-hard-link"])),
                n=draw(st.integers(1, 2)), nested=draw(st.booleans()), seed=draw(seeds))


@scratch
def check_refuse(c, d):
    din = os.path.join(d, "in")
    names = ["mix.wav", "s/mix.wav"][: c["n"]]
    for i, n in enumerate(names):
        write_wav(os.path.join(din, n), dict(C=2, L=600 + 10 * i, fs=8000, amp=0.3,
                                             seed=c["seed"] + i))
    base = ["--mic", "2", "--src", "2", "--n_iter", "1", "--nfft", "32", "--model-type", "laplace"]
    f = os.path.join(din, "mix.wav")
    k = c["kind"]
    before = snapshot(din)
    must_refuse = True
    if k == "same":
        a = [f, f]
    elif k == "dot":
        a = [f, os.path.join(din, ".", "mix.wav")]
    elif k == "dotdot":
        os.mkdir(os.path.join(d, "q"))
        a = [f, os.path.join(d, "q", "..", "in", "mix.wav")]
    elif k == "relative":
        os.chdir(din)
        a = ["mix.wav", f] if c["nested"] else [f, "mix.wav"]
    elif k == "symlink-out":
        os.symlink(f, os.path.join(d, "o.wav"))
        a = [f, os.path.join(d, "o.wav")]
    elif k == "symlink-dir":
        os.symlink(din, os.path.join(d, "lnk"))
        a = [f, os.path.join(d, "lnk") + ("/mix.wav" if c["nested"] else "")]
    elif k == "parent-dir":
        a = [f, din]
    elif k == "folder-same":
        a = [din, din]
    elif k == "folder-dot":
        os.chdir(d)
        a = [din, "./in/"]
    elif k == "folder-link":
        os.symlink(din, os.path.join(d, "lnk"))
        a = [din, os.path.join(d, "lnk")]
    elif k == "folder-up":
        # the output folder is an ancestor; in/in/mix.wav -> in/mix.wav
        write_wav(os.path.join(d, "top", "mix.wav"), dict(C=2, L=500, fs=8000, amp=0.3,
                                                          seed=c["seed"] + 7))
        write_wav(os.path.join(d, "top", "sub", "mix.wav"), dict(C=2, L=520, fs=8000, amp=0.3,
                                                                 seed=c["seed"] + 8))
        write_wav(os.path.join(d, "top", "sub", "sub", "mix.wav"),
                  dict(C=2, L=540, fs=8000, amp=0.3, seed=c["seed"] + 9))
        din = os.path.join(d, "top", "sub")
        before = snapshot(din)
        # sub/sub/mix.wav would be written to top/sub/mix.wav, an input
        a = [din, os.path.join(d, "top")]
    elif k == "folder-file-link":
        o = os.path.join(d, "out")
        os.mkdir(o)
        os.symlink(f, os.path.join(o, "mix.wav"))
        a = [din, o]
    elif k == "hard-link":
        os.link(f, os.path.join(d, "o.wav"))
        a = [f, os.path.join(d, "o.wav")]
    elif k in ("hard-link-dir", "folder-hard-link"):
        # another name of an input lies where the output goes
        o = os.path.join(d, "out")
        os.makedirs(os.path.join(o, "s"))
        os.link(os.path.join(din, names[-1]),
                os.path.join(o, names[0] if k == "hard-link-dir" else names[-1 - c["nested"] % c["n"]]))
        a = [f if k == "hard-link-dir" and c["n"] == 1 else din, o]
    elif k == "folder-down":
        a = [din, os.path.join(din, "s")]
        must_refuse = False
        if c["n"] == 2:
            # in/s already holds inputs; mix.wav -> in/s/mix.wav: an input or an earlier output
            pass
    else:  # running twice with the output inside the input folder
        o = os.path.join(din, "out")
        call(run_main, [din, o] + base)
        mid = snapshot(din)
        call(run_main, [din, o] + base)
        end = snapshot(din)
        for n, h in before.items():
            if end.get(n) != h:
                raise Violation("the input %s was changed" % n)
        if set(end) != set(mid):
            raise Violation("running the command twice separates its own output: %s"
                            % sorted(set(end) - set(mid)))
        return [k]
    err = None
    try:
        run_main(a + base)
    except SystemExit as e:
        err = e
    except Exception as e:  # noqa: BLE001
        err = e
    after = snapshot(din)
    inputs = before
    if k == "folder-down":
        # files below the output folder count as output
        inputs = {n: h for n, h in before.items() if not n.startswith("s/")}
    for n, h in inputs.items():
        if after.get(n) != h:
            raise Violation("%s: the input %s was overwritten%s"
                            % (k, n, "" if err is None else " (then %s)" % type(err).__name__))
    if must_refuse and err is None:
        raise Violation("%s: the command neither refused nor wrote elsewhere" % k)
    return [k, "refused" if err is not None else "ran"]


# ------------------------------------------------------------------ the installed command
@st.composite
def proc_case(draw):
    return dict(folder=draw(st.booleans()), kind=draw(st.sampled_from(["laplace", "nn"])),
                seed=draw(seeds))


@scratch
def check_proc(c, d):
    import subprocess
    o = dict(kind=c["kind"], mic=3, src=2, n_iter=2, nfft=64, hop=None, win=None, taps=1, delay=1,
             quiet=False, eps=None, algo=None, bf=False, mseed=1, ref=1)
    src = os.path.join(d, "in", "mix.wav")
    write_wav(src, dict(C=3, L=900, fs=8000, amp=0.3, seed=c["seed"]))
    md = os.path.join(d, "model")
    if o["kind"] == "nn":
        store_model(o, md)
    a = [os.path.dirname(src), os.path.join(d, "out")] if c["folder"] else \
        [src, os.path.join(d, "sep.wav")]
    target = os.path.join(d, "out", "mix.wav") if c["folder"] else a[1]
    from vlib.boot import REPO
    env = dict(os.environ, PYTHONPATH=REPO, HOME=d, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-m", "torchiva.separate"] + a + argv(o, md), cwd=d, env=env,
                       capture_output=True, text=True, timeout=240)
    if r.returncode != 0 or not os.path.exists(target):
        raise Violation("python -m torchiva.separate failed (%s): %s"
                        % (r.returncode, r.stderr[-300:]))
    compare_out(o, target, src, md, "the output")
    return [c["kind"]]


FACETS = [
    Facet("file", file_case(), check_file, cases=(500, 12000), weight=2,
          nontrivial=lambda c, l: "compared" in l, rule="compared with the library's result"),
    Facet("file-long", long_case(), check_file, cases=(24, 400), weight=30,
          nontrivial=lambda c, l: "compared" in l, rule="the output was compared"),
    Facet("folder", folder_case(), check_folder, cases=(240, 6000), weight=4,
          nontrivial=lambda c, l: len(c["names"]) > 1, rule="more than one file"),
    Facet("refuse", refuse_case(), check_refuse, cases=(160, 2000)),
    Facet("process", proc_case(), check_proc, cases=(2, 24), weight=100),
]
