"""C25: loading from a URL - faults, crashes and concurrency never poison the local model cache."""
import hashlib
import http.server
import io
import os
import resource
import shutil
import signal
import socket
import struct
import sys
import tempfile
import threading
import time

import yaml
from hypothesis import strategies as st

import torchiva
from torchiva.nn import BSSSeparator
from vlib.boot import np, torch
from vlib.harness import Facet, Skip, Violation, call
from vlib.signals import rng_of, seeds

RULE = ("Random histories of loads from a loopback HTTP server: several URLs (also of the same final "
        "name), per-request faults (404, 500, refused, connection dropped after a random number of "
        "bytes, process killed while downloading or before its n-th file operation, no space left), offline loads, two processes at once; HOME is a "
        "scratch folder. Non-trivial: the history has at least one fault that hit, or two URLs")
ASSUMPTIONS = ["the server announces the length of the files (as static file hosting does)"]


# ------------------------------------------------------------------ models and server
_BLOBS = {}


def blobs(k):
    """the two published files of model number k, and its weights"""
    if k not in _BLOBS:
        g = torch.Generator().manual_seed(1000 + k)
        cfg = dict(n_fft=32, n_iter=1 + k, algo="tiss",
                   source_model=dict(name="torchiva.models.SimpleModel",
                                     kwargs=dict(n_freq=17, n_mels=3, n_hidden=400 + 7 * k)))
        sep = BSSSeparator(**cfg)
        with torch.no_grad():
            for p in sep.parameters():
                p.copy_(torch.randn(p.shape, generator=g))
        sd = {q: v.clone() for q, v in sep.state_dict().items()}
        b = io.BytesIO()
        torch.save(sd, b)
        _BLOBS[k] = ({"model_weights.ckpt": b.getvalue(),
                      "model_config.yaml": (yaml.safe_dump(cfg) + "# " + "x" * 3000 + "\n").encode()},
                     sd, cfg)
    return _BLOBS[k]


PATHS = ["/a/tiss", "/b/tiss", "/c/other", "/tiss"]


class Server:
    def __init__(self):
        self.plan = {}
        self.log = []
        self.kill_target = None
        self.lock = threading.Lock()
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_HEAD(self):
                self.do_GET()

            def do_GET(self):
                outer.handle(self)

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *a):
                pass

        self.httpd = S(("127.0.0.1", 0), H)
        self.port = self.httpd.server_address[1]
        self.th = threading.Thread(target=self.httpd.serve_forever, args=(0.005,), daemon=True)
        self.th.start()

    def url(self, k, slash=False):
        return "http://127.0.0.1:%d%s%s" % (self.port, PATHS[k], "/" if slash else "")

    def handle(self, h):
        p = h.path.split("?")[0]
        base, _, name = p.rpartition("/")
        base = "/" + base.strip("/")
        if base not in PATHS or name not in ("model_weights.ckpt", "model_config.yaml"):
            self.log.append((p, "unknown"))
            h.send_error(404)
            return
        k = PATHS.index(base)
        data = blobs(k)[0][name]
        with self.lock:
            fault = self.plan.get(name, "ok")
        self.log.append((p, fault))
        kind, _, frac = fault.partition(":")
        if kind in ("404", "500"):
            h.send_error(int(kind))
            return
        if kind == "reset":
            h.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            h.connection.close()
            return
        h.send_response(200)
        h.send_header("Content-Length", str(len(data)))
        h.end_headers()
        if h.command == "HEAD":
            return
        if kind in ("cut", "kill"):
            n = int(float(frac) * len(data))
            n = min(max(n, 0), len(data) - 1)
            h.wfile.write(data[:n])
            h.wfile.flush()
            if kind == "kill" and self.kill_target is not None:
                time.sleep(0.03)
                try:
                    os.kill(self.kill_target, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            h.connection.shutdown(socket.SHUT_RDWR)
            h.connection.close()
            return
        if kind == "slow":
            for i in range(0, len(data), len(data) // 4 + 1):
                h.wfile.write(data[i:i + len(data) // 4 + 1])
                h.wfile.flush()
                time.sleep(0.01)
            return
        h.wfile.write(data)

    def stop(self):
        self.httpd.shutdown()
        self.httpd.server_close()


faults = st.one_of(
    st.sampled_from(["ok", "ok", "ok", "404", "500", "reset", "slow"]),
    st.sampled_from([0.0, 0.02, 0.3, 0.9, 0.999]).map(lambda f: "cut:%g" % f))


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["load", "load", "load", "load", "offline", "kill", "pair", "age",
                                    "full", "crash", "crash", "crash-pair"]))
        o = dict(op=kind, k=draw(st.sampled_from([0, 0, 1, 1, 2, 3])), slash=draw(st.booleans()))
        if kind == "load":
            o["ckpt"], o["yaml"] = draw(faults), draw(faults)
        if kind == "age":
            o = dict(op="age", days=draw(st.sampled_from([1, 40, 400, 4000])))
        if kind in ("crash", "crash-pair"):
            o["n"] = draw(st.integers(0, 24))
        if kind == "full":
            o["at"] = draw(st.sampled_from([0, 1, 500, 4000, 20000]))
        if kind == "kill":
            o["which"] = draw(st.sampled_from(["ckpt", "yaml"]))
            o["at"] = draw(st.sampled_from([0.0, 0.1, 0.5, 0.9]))
        ops.append(o)
    return dict(ops=ops, days=draw(st.sampled_from([0, 0, 2, 60, 500])), over=draw(st.sampled_from([None, None, 0, 3])))


def same(sep, k):
    sd = sep.state_dict()
    want = blobs(k)[1]
    return sorted(sd) == sorted(want) and all(
        sd[q].shape == want[q].shape and torch.equal(sd[q], want[q]) for q in want)


def quiet(fn, *a, **kw):
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return fn(*a, **kw)
    finally:
        sys.stdout = old


STEPS = ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink",
         "os.truncate", "os.chmod", "os.utime", "socket.connect", "urllib.Request")


def die_at(n):
    """this process is killed just before its n-th file or network operation"""
    left = [n]

    def hook(event, args):
        if event not in STEPS and not event.startswith(("shutil.", "tempfile.")):
            return
        if event == "open" and ".torchiva_models" not in str(args[0]):
            return
        left[0] -= 1
        if left[0] < 0:
            os.kill(os.getpid(), signal.SIGKILL)

    sys.addaudithook(hook)


def fork_load(url, home, over, space=None, crash=None):
    """load in another process; exit status 0 loaded, 1 raised. space: files can not grow
    beyond that many bytes (as when the disk is full); crash: the file operation before which
    the process is killed"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.environ["HOME"] = home
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            if space is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (space, space))
            if crash is not None:
                die_at(crash)
            sep = torchiva.load_separator(url, **over)
            code = 10
            for k in range(len(PATHS)):
                if same(sep, k):
                    code = 20 + k
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    return pid


def wait(pid, limit=40):
    t0 = time.time()
    while time.time() - t0 < limit:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(s)
        time.sleep(0.003)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return None


def check(c):
    home = tempfile.mkdtemp(prefix="verif-c25-")
    marker = os.path.join(home, "other.txt")
    with open(marker, "w") as f:
        f.write("keep")
    old_home = os.environ.get("HOME")
    os.environ["HOME"] = home
    no_proxy = os.environ.get("no_proxy")
    os.environ["no_proxy"] = "127.0.0.1"
    srv = Server()
    try:
        return run(c, home, srv)
    finally:
        srv.stop()
        if old_home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = old_home
        if no_proxy is None:
            os.environ.pop("no_proxy", None)
        else:
            os.environ["no_proxy"] = no_proxy
        shutil.rmtree(home, ignore_errors=True)


def run(c, home, srv):
    labels = set()
    over = {} if c["over"] is None else dict(n_iter=c["over"])
    cached = set()
    hist = []

    def verify(sep, k, how):
        if not isinstance(sep, BSSSeparator):
            raise Violation("load_separator returned a %s" % type(sep).__name__)
        if not same(sep, k):
            which = [j for j in range(len(PATHS)) if same(sep, j)]
            raise Violation("%s of %s returned %s, not the published weights; history: %s"
                            % (how, PATHS[k], "the model of " + PATHS[which[0]] if which else
                               "other weights", hist))
        want = blobs(k)[2]["n_iter"] if c["over"] is None else c["over"]
        if sep.n_iter != want:
            raise Violation("n_iter is %s, expected %s" % (sep.n_iter, want))

    def age(days):
        """time passes: what is stored in the folder of the models is that much older"""
        for r, ds, fs in os.walk(os.path.join(home, ".torchiva_models")):
            for n in fs + ds:
                p = os.path.join(r, n)
                t = os.stat(p).st_mtime - 86400 * days
                os.utime(p, (t, t))

    for o in c["ops"]:
        if o["op"] == "age":
            age(o["days"])
            hist.append(o)
            continue
        k = o["k"]
        url = srv.url(k, o["slash"])
        hist.append(o)
        if o["op"] == "kill":
            srv.plan = {("model_weights.ckpt" if o["which"] == "ckpt" else "model_config.yaml"):
                        "kill:%g" % o["at"]}
            pid = fork_load(url, home, over)
            srv.kill_target = pid
            rc = wait(pid)
            srv.kill_target = None
            if rc is None:
                raise Skip("child did not end")
            if rc >= 10 and rc != 20 + k:
                raise Violation("a process loaded something else than the model of %s; history: %s"
                                % (PATHS[k], hist))
            if rc < 0:
                labels.add("killed")
            elif rc >= 20:
                cached.add(k)
        elif o["op"] == "full":
            srv.plan = {}
            rc = wait(fork_load(url, home, over, o["at"]))
            if rc is None:
                raise Skip("child did not end")
            if rc >= 10 and rc != 20 + k:
                raise Violation("without space on the disk, a process that loads %s ended with "
                                "%s (20 + model number expected); history: %s"
                                % (PATHS[k], rc, hist))
            if rc >= 20:
                cached.add(k)
            else:
                labels.add("disk full")
        elif o["op"] in ("crash", "crash-pair"):
            pair = o["op"] == "crash-pair"
            srv.plan = {"model_weights.ckpt": "slow"} if pair else {}
            pids = [fork_load(url, home, over, crash=o["n"])]
            if pair:
                pids.append(fork_load(url, home, over))
            rcs = [wait(p) for p in pids]
            if None in rcs:
                raise Skip("child did not end")
            for i, rc in enumerate(rcs):
                # the process that is not killed loads the model
                if rc != 20 + k and (i or rc >= 0):
                    raise Violation("a process loading %s, %s, ended with %s (20 + model number "
                                    "expected); history: %s"
                                    % (PATHS[k], "next to one that is killed" if i else
                                       "which could be killed", rc, hist))
            if rcs[0] < 0:
                labels.add("crash at operation %d" % o["n"])
            if max(rcs) >= 20:
                cached.add(k)
        elif o["op"] == "pair":
            srv.plan = {"model_weights.ckpt": "slow", "model_config.yaml": "ok"}
            pids = [fork_load(url, home, over) for _ in range(2)]
            rcs = [wait(p) for p in pids]
            if None in rcs:
                raise Skip("child did not end")
            for rc in rcs:
                if rc != 20 + k:
                    raise Violation("two processes loading %s at the same time ended with %s "
                                    "(20 + model number expected); history: %s"
                                    % (PATHS[k], rcs, hist))
            cached.add(k)
            labels.add("concurrent")
        else:
            off = o["op"] == "offline"
            srv.plan = {"model_weights.ckpt": "reset" if off else o["ckpt"],
                        "model_config.yaml": "reset" if off else o["yaml"]}
            n0 = len(srv.log)
            err = None
            try:
                sep = quiet(torchiva.load_separator, url, **over)
            except Exception as e:  # noqa: BLE001
                err = e
            hit = [f for _, f in srv.log[n0:] if f not in ("ok", "slow")]
            labels.update("fault-" + f.split(":")[0] for f in hit)
            if err is None:
                verify(sep, k, "a load")
                cached.add(k)
                if hit:
                    labels.add("recovered")
            else:
                if k in cached:
                    raise Violation("a model that was loaded before does not load again (%s: %s); "
                                    "history: %s" % (type(err).__name__, str(err)[:80], hist))
                if not hit:
                    raise Violation("loading %s raised %s (%s) although the server answered every "
                                    "request; history: %s"
                                    % (PATHS[k], type(err).__name__, str(err)[:100], hist))
                labels.add("raised")
    # whatever happened, with a working network every model loads, and then loads again offline
    srv.plan = {}
    for k in sorted({o.get("k", 0) for o in c["ops"]}):
        try:
            sep = quiet(torchiva.load_separator, srv.url(k), **over)
        except Exception as e:  # noqa: BLE001
            raise Violation("after the history, loading %s with a working network raised %s (%s); "
                            "history: %s" % (PATHS[k], type(e).__name__, str(e)[:100], hist))
        verify(sep, k, "a load after the history")
    age(c["days"])
    srv.plan = {"model_weights.ckpt": "reset", "model_config.yaml": "reset"}
    for k in sorted({o.get("k", 0) for o in c["ops"]}):
        try:
            sep = quiet(torchiva.load_separator, srv.url(k), **over)
        except Exception as e:  # noqa: BLE001
            raise Violation("a cached model does not load without network: %s (%s); history: %s"
                            % (type(e).__name__, str(e)[:100], hist))
        verify(sep, k, "an offline load")
    # nothing else in HOME is touched
    left = sorted(os.listdir(home))
    if left != [".torchiva_models", "other.txt"] or open(os.path.join(home, "other.txt")).read() \
            != "keep":
        raise Violation("files outside $HOME/.torchiva_models were written: %s" % left)
    if len({o.get("k", 0) for o in c["ops"]}) > 1:
        labels.add("several models")
    return labels


FACETS = [Facet("history", case(), check, cases=(800, 8000), weight=8,
                examples=[dict(ops=[dict(op="load", k=0, slash=False, ckpt="cut:0.5", yaml="ok"),
                                    dict(op="load", k=0, slash=False, ckpt="ok", yaml="ok")],
                               over=None, days=0),
                          dict(ops=[dict(op="load", k=0, slash=False, ckpt="ok", yaml="ok"),
                                    dict(op="load", k=1, slash=False, ckpt="ok", yaml="ok")],
                               over=None, days=0)],
                nontrivial=lambda c, l: bool(set(l) - {"raised"}),
                rule="a fault, a kill or a concurrent load hit, or several models were loaded")]
