"""C32: calls that run at the same time do not interfere."""
import threading

from hypothesis import strategies as st
from torch.overrides import TorchFunctionMode

import torchiva
from torchiva.nn import BSSSeparator
from vlib import algos
from vlib.boot import np, torch
from vlib.harness import Facet, HarnessError, Violation, call, expect_close, tonp
from vlib.signals import T, flavours, gains, real_signal, rng_of, seeds, stft_like

RULE = ("Two to four calls on one object (other inputs, options, shapes) run in threads of which exactly one runs at a "
        "time; a generated schedule says after how many torch operations the next one takes over. Non-trivial when "
        "two calls were really interleaved")
ASSUMPTIONS = ["source models without state (not NMF) and without dropout",
               "threads change at torch operations and calls of the source model only"]


class Turns:
    """cooperative threads: the schedule decides who runs and for how many operations"""

    def __init__(self, n, schedule):
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.order = []
        self.schedule = list(schedule)
        self.k = 0
        self.left = 0

    def pick(self):
        alive = [i for i, d in enumerate(self.done) if not d]
        if not alive:
            return
        who, ops = self.schedule[self.k % len(self.schedule)]
        # the schedule is followed a limited number of times, then everyone runs to its end
        self.left = ops if self.k < 40 * len(self.schedule) else 10 ** 9
        self.k += 1
        # 0: the next one in turn
        last = self.order[-1] if self.order else -1
        i = sorted(alive, key=lambda q: (q - last - 1) % len(self.done))[who % len(alive)]
        if not self.order or self.order[-1] != i:
            self.order.append(i)
        self.sem[i].release()

    def step(self, me):
        self.left -= 1
        if self.left <= 0:
            self.pick()
            self.sem[me].acquire()

    def finish(self, me):
        self.done[me] = True
        self.pick()


class Switch(TorchFunctionMode):
    def __init__(self, turns, me):
        super().__init__()
        self.turns, self.me = turns, me

    def __torch_function__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.turns.step(self.me)
        return out


def together(jobs, schedule):
    """results of the jobs, run in interleaved threads"""
    turns = Turns(len(jobs), schedule)
    res = [None] * len(jobs)
    err = [None] * len(jobs)

    def work(i):
        turns.sem[i].acquire()
        try:
            with Switch(turns, i):
                res[i] = jobs[i]()
        except BaseException as e:  # noqa: BLE001
            err[i] = e
        finally:
            turns.finish(i)

    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in ts:
        t.start()
    turns.pick()
    for t in ts:
        t.join(120)
        if t.is_alive():
            raise HarnessError("a thread did not come to its end")
    for e in err:
        if e is not None:
            raise e
    return res, turns.order


schedules = st.lists(st.tuples(st.integers(0, 3), st.sampled_from([1, 2, 3, 5, 8, 13, 21, 34, 55])),
                     min_size=2, max_size=8)

KINDS = ["sep", "sep", "sep", "bf", "bss", "stft", "net"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(KINDS))
    c = dict(kind=kind, schedule=[list(v) for v in draw(schedules)], seed=draw(seeds),
             F=draw(st.integers(2, 5)), shared=draw(st.sampled_from([True, True, True, False])))
    if kind in ("sep", "bss"):
        c["cfg"] = draw(algos.iva_config(max_chan=3, max_iter=3, max_taps=2))
        if c["cfg"]["algo"] == "tiss":
            c["cfg"]["dmc"] = draw(st.booleans())
        if kind == "bss" and c["cfg"]["algo"] not in ("tiss", "ip2", "five"):
            c["kind"] = "sep"
        c["F"] = 9 if kind == "bss" else c["F"]
    elif kind == "bf":
        c["cfg"] = draw(algos.bf_config(max_chan=3))
    else:
        c["cfg"] = dict(C=2, algo=draw(st.sampled_from(["laplace", "gauss", "glu", "blstm", "simple"]))
                        if kind == "net" else "stft")
        c["F"] = 9
    c["jobs"] = [dict(seed=draw(seeds), flavour=draw(flavours), N=draw(st.integers(0, 25)),
                      gain=draw(st.sampled_from([1.0, 0.1, 10.0])), batch=draw(st.sampled_from([[], [], [2]])),
                      grad=draw(st.sampled_from([None, None, "off", "back"])),
                      ov=draw(st.sampled_from([None, "n_iter", "ref", "n_src", "eps"])),
                      v=draw(st.integers(0, 2)))
                 for _ in range(draw(st.integers(2, 4)))]
    return c


def make(c):
    cfg = c["cfg"]
    if c["kind"] in ("sep", "bf"):
        return algos.build(cfg)
    if c["kind"] == "bss":
        kw = {}
        if cfg["algo"] == "tiss":
            kw = dict(n_src=cfg["n_src"], n_taps=cfg["n_taps"], n_delay=cfg["n_delay"], use_dmc=cfg["dmc"])
        if cfg["algo"] == "five":
            kw = dict(n_power_iter=cfg["n_power_iter"])
        return BSSSeparator(16, n_iter=cfg["n_iter"], algo=cfg["algo"], proj_back_mic=cfg["ref"],
                            source_model=algos.make_model(cfg["model"]), **kw).double()
    if c["kind"] == "stft":
        return torchiva.STFT(16).double()
    torch.manual_seed(c["seed"] % 1000)
    m = dict(laplace=lambda: torchiva.LaplaceModel(), gauss=lambda: torchiva.GaussModel(),
             glu=lambda: torchiva.models.GLUMask(9, 4), simple=lambda: torchiva.models.SimpleModel(9, n_mels=4),
             blstm=lambda: torchiva.models.BLSTMMask(9, 3, n_hidden=4))[cfg["algo"]]()
    return m.double().eval()


def overrides(c, j):
    cfg, a = c["cfg"], c["cfg"]["algo"]
    if c["kind"] == "bf":
        return dict(ref_mic=j["v"] % cfg["C"]) if j["ov"] == "ref" else dict(eps=1e-3) if j["ov"] == "eps" else {}
    if c["kind"] != "sep":
        return {}
    if j["ov"] == "n_iter":
        return dict(n_iter=j["v"])
    if j["ov"] == "ref" and a != "wpe" and cfg["ref"] is not None:
        return dict(proj_back_mic=j["v"] % cfg["C"])
    if j["ov"] == "n_src" and a in ("tiss", "ip"):
        return dict(n_src=1 + j["v"] % cfg["C"])
    if j["ov"] == "eps":
        return dict(eps=1e-4)
    return {}


def job(c, obj, j):
    C = c["cfg"]["C"]
    n = int(np.prod(j["batch"])) if j["batch"] else 1
    # silence has no gradient
    flavour = "mix" if j["flavour"] == "bursts" and j["grad"] == "back" else j["flavour"]
    N = (algos.min_frames(c["cfg"]) if c["kind"] in ("sep", "bss") else 30) + j["N"]
    if c["kind"] in ("bss", "stft"):
        x = real_signal(j["seed"], tuple(j["batch"]) + (C, 8 * N)) * j["gain"]
    else:
        x = np.stack([stft_like(j["seed"] + i, C, c["F"], N, flavour, j["gain"]) for i in range(n)])
        x = x.reshape(tuple(j["batch"]) + x.shape[1:])
    x = T(x)
    kw = overrides(c, j)

    def run():
        if c["kind"] == "stft":
            return [call(obj.inv, call(obj, x))]
        if j["grad"] == "off":
            with torch.no_grad():
                return [call(obj, x, **kw)]
        # the phase of un-projected eigenvectors has no gradient
        if j["grad"] == "back" and (c["kind"] not in ("sep", "bss") or algos.gauge_free(c["cfg"])):
            t = x.clone().requires_grad_()
            y = call(obj, t, **kw)
            if y.requires_grad:
                call((y * y.conj()).real.sum().backward)
            return [y] + ([] if t.grad is None else [t.grad])
        return [call(obj, x, **kw)]
    return run


def check(c):
    obj = make(c)
    got, order = together([job(c, obj if c["shared"] else make(c), j) for j in c["jobs"]], c["schedule"])
    for i, j in enumerate(c["jobs"]):
        want = job(c, make(c), j)()
        if len(want) != len(got[i]):
            raise Violation("call %d of %d at the same time gives other outputs" % (i, len(got)))
        for k, (a, b) in enumerate(zip(got[i], want)):
            expect_close(tonp(a), tonp(b), 1e-7, "%s of call %d of %d at the same time, compared to the call alone"
                         % (["the output", "the gradient"][k], i, len(got)))
    mixed = len(order) > len(c["jobs"])
    return [c["kind"], algos.label(c["cfg"]) if c["kind"] in ("sep", "bf") else c["cfg"]["algo"],
            "one object" if c["shared"] else "several objects", "interleaved" if mixed else "one after the other", "calls%d" % len(c["jobs"])]


FACETS = [Facet("interleaved", case(), check, cases=(2400, 40000), weight=3,
                nontrivial=lambda c, l: "interleaved" in l, rule="the calls were really interleaved")]
