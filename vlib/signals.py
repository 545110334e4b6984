"""Generators. A case is a JSON-able dict of small integers and names; the tensor data is a pure
function of the case (numpy PCG64 seeded from the drawn integer), so that a case replays and
shrinks as a whole."""
from hypothesis import strategies as st

from .boot import np, torch

FLAVOURS = ["mix", "noise", "corr", "realdc", "bursts", "dyn", "inst"]

seeds = st.integers(0, 2**31 - 1)
flavours = st.sampled_from(FLAVOURS)
gains = st.sampled_from([1.0, 1.0, 0.25, 3.0, 0.03, 0.01, 30.0, 300.0, 1e-3, 1e4])

BATCHES = [[], [1], [2], [3], [2, 2], [1, 3], [2, 1, 2]]


def rng_of(*key):
    return np.random.Generator(np.random.PCG64(np.random.SeedSequence([int(k) for k in key])))


def crandn(rng, *shape):
    return (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)) / np.sqrt(2.0)


def mixing(rng, n_freq, n_chan, spread):
    """one invertible matrix per bin, of moderate condition number"""
    q, _ = np.linalg.qr(crandn(rng, n_freq, n_chan, n_chan))
    p, _ = np.linalg.qr(crandn(rng, n_freq, n_chan, n_chan))
    s = np.exp(rng.uniform(-spread, spread, size=(n_freq, n_chan, 1)))
    return q @ (s * p)


def stft_like(seed, n_chan, n_freq, n_frames, flavour="mix", gain=1.0):
    """(n_chan, n_freq, n_frames) complex128"""
    rng = rng_of(seed, 17)
    env = np.exp(rng.normal(0.0, 1.0, size=(n_chan, 1, n_frames)))
    src = env * crandn(rng, n_chan, n_freq, n_frames)
    A = mixing(rng, n_freq, n_chan, 0.7)
    if flavour == "noise":
        X = crandn(rng, n_chan, n_freq, n_frames)
    elif flavour == "inst":
        A1 = mixing(rng, 1, n_chan, 0.7)
        X = np.einsum("fcd,dfn->cfn", np.broadcast_to(A1, (n_freq, n_chan, n_chan)), src)
    else:
        if flavour == "corr":
            A = mixing(rng, n_freq, n_chan, 1.6)
        X = np.einsum("fcd,dfn->cfn", A, src)
    if flavour == "realdc":
        X = X.copy()
        X[:, 0, :] = X[:, 0, :].real * np.sqrt(2)
        X[:, -1, :] = X[:, -1, :].real * np.sqrt(2)
    elif flavour == "bursts":
        # silent frames, at the edges as after zero padding and in the middle, but never so
        # many that the statistics are rank deficient
        keep = rng.uniform(size=n_frames) < 0.8
        e = n_frames // 10
        keep[:e] = False
        keep[n_frames - e:] = False
        if keep.sum() < 0.6 * n_frames:
            idx = np.flatnonzero(~keep)
            keep[idx[: int(0.6 * n_frames - keep.sum()) + 1]] = True
        X = X * keep
    elif flavour == "dyn":
        X = X * np.exp(rng.uniform(-1.5, 1.5, size=(1, n_freq, 1)))
    return gain * X


def real_signal(seed, shape, flavour="noise"):
    rng = rng_of(seed, 23)
    x = rng.standard_normal(tuple(shape))
    if flavour == "impulse":
        y = np.zeros(tuple(shape))
        if y.shape[-1]:
            idx = rng.integers(0, y.shape[-1], size=y.shape[:-1] + (1,))
            np.put_along_axis(y, idx, 1.0, axis=-1)
        x = y
    elif flavour == "ramp":
        x = np.broadcast_to(np.arange(shape[-1]) / max(1, shape[-1]), tuple(shape)) + 0.1 * x
    elif flavour == "silence":
        x = np.zeros(tuple(shape))
    return x


def T(x, dtype=None):
    t = torch.from_numpy(np.array(x, copy=True, order="C"))
    return t.to(dtype) if dtype is not None else t


# ------------------------------------------------------------------- source models
class InvPow(torch.nn.Module):
    """a bin-wise weight (no coupling between bins): 1 / (c_f + |X|^2)"""

    def __init__(self, c=0.5):
        super().__init__()
        self.c = c

    def forward(self, X):
        p = X.real.square() + X.imag.square()
        f = torch.arange(X.shape[-2], dtype=p.dtype)[:, None]
        return 1.0 / (self.c + 0.1 * f + p)


class ParamModel(torch.nn.Module):
    """a smooth trainable weight model, bounded away from 0 and infinity"""

    def __init__(self, seed=0, dtype=torch.float64):
        super().__init__()
        rng = rng_of(seed, 91)
        self.a = torch.nn.Parameter(torch.tensor(rng.uniform(0.3, 1.0), dtype=dtype))
        self.b = torch.nn.Parameter(torch.tensor(rng.uniform(0.2, 0.8, size=3), dtype=dtype))

    def forward(self, X):
        p = X.real.square() + X.imag.square()
        e = p.mean(dim=-2, keepdim=True)
        return torch.sigmoid(self.b[2] - self.b[0] * torch.log1p(p)) + self.a / (self.b[1] + e)


def np_laplace(eps=1e-5):
    def f(Y):
        r = 2.0 * np.sqrt((np.abs(Y) ** 2).sum(axis=-2, keepdims=True))
        return np.broadcast_to(1.0 / np.maximum(r, eps), Y.shape)

    return f


def np_gauss(eps=1e-5):
    def f(Y):
        r = (np.abs(Y) ** 2).mean(axis=-2, keepdims=True)
        return np.broadcast_to(1.0 / np.maximum(r, eps), Y.shape)

    return f


def np_invpow(c=0.5):
    def f(Y):
        fr = np.arange(Y.shape[-2])[:, None]
        return 1.0 / (c + 0.1 * fr + np.abs(Y) ** 2)

    return f
