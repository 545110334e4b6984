"""Reference models: plain float64 numpy, one item (no batch), one bin at a time, written from the
update equations of the papers cited in the documentation with the documented regularisation.
Nothing here calls the code under test."""
from .boot import np


def herm(a):
    return np.conj(np.swapaxes(a, -1, -2))


def loaded_solve_normal(A, b, load=1e-5, eps=1e-5):
    """argmin ||D(Ax-b)||^2 + load ||x||^2 with D the inverse row norms of A"""
    d = 1.0 / np.maximum(np.linalg.norm(A, axis=-1, keepdims=True), eps)
    A2, b2 = A * d, b * d
    return np.linalg.solve(herm(A2) @ A2 + load * np.eye(A.shape[-1]), herm(A2) @ b2)


def loaded_solve(A, b, load=1e-6):
    lf = max(load * np.abs(A).max(), load)
    return np.linalg.solve(A + lf * np.eye(A.shape[-1]), b)


def delayed(X, n_taps, n_delay):
    """(C, F, T, N): tap t is X delayed by n_delay + n_taps - t frames, i.e. lags
    n_delay + 1 ... n_delay + n_taps, zeros before the start"""
    C, F, N = X.shape
    out = np.zeros((C, F, n_taps, N), dtype=X.dtype)
    for t in range(n_taps):
        lag = n_delay + n_taps - t
        if lag < N:
            out[:, :, t, lag:] = X[:, :, : N - lag]
    return out


def source_scale(Y, eps):
    return np.maximum((np.abs(Y) ** 2).mean(axis=(-2, -1), keepdims=True), eps)


# --------------------------------------------------------------------------- T-ISS
def tiss(X, n_iter, n_taps=0, n_delay=0, n_src=None, weight_fn=None, ref_mic=0, eps=1e-5):
    C, F, N = X.shape
    S = C if n_src is None else n_src
    over = S < C
    Xb = delayed(X, n_taps, n_delay)
    W = np.zeros((F, S, C), dtype=complex)
    W[:] = np.eye(S, C)
    H = np.zeros((F, S, C, n_taps), dtype=complex)
    Cxx = np.einsum("cfn,dfn->fcd", X, X.conj()) / N
    Cbx = np.einsum("cftn,dfn->fctd", Xb, X.conj()) / N

    def background(W, H, e):
        # E[Y X^H] with Y = W X - H Xbar;   J s.t. E[Y (J X_1 - X_2)^H] = 0
        J = np.zeros((F, C - S, S), dtype=complex)
        for f in range(F):
            M = W[f] @ Cxx[f] - np.einsum("sct,ctd->sd", H[f], Cbx[f])
            J[f] = herm(loaded_solve_normal(M[:, :S], M[:, S:], load=e, eps=e))
        return J

    J = background(W, H, eps) if over else None
    Y = X[:S].astype(complex).copy()
    for _ in range(n_iter):
        wt = np.array(weight_fn(Y), dtype=float)
        g = source_scale(Y, eps)
        gs = np.maximum(np.sqrt(g), eps)  # (S,1,1)
        Y = Y / gs
        W = W / gs.transpose(1, 0, 2)
        H = H / gs.transpose(1, 0, 2)[..., None]
        wt = wt * g
        if over:
            J = background(W, H, 1e-3)
        for f in range(F):
            Yf, Wf, Hf, wf, Xf = Y[:, f].copy(), W[f].copy(), H[f].copy(), wt[:, f], X[:, f]
            for s in range(S):
                v = np.zeros(S, dtype=complex)
                for c in range(S):
                    den = (wf[c] * np.abs(Yf[s]) ** 2).mean()
                    if c == s:
                        v[c] = 1.0 - 1.0 / np.sqrt(max(den, eps))
                    else:
                        v[c] = (wf[c] * Yf[c] * Yf[s].conj()).mean() / max(den, eps)
                y_s, w_s, h_s = Yf[s].copy(), Wf[s].copy(), Hf[s].copy()
                for c in range(S):
                    Yf[c] = Yf[c] - v[c] * y_s
                    Wf[c] = Wf[c] - v[c] * w_s
                    Hf[c] = Hf[c] - v[c] * h_s
            if over:
                Z = J[f] @ Xf[:S] - Xf[S:]
                for b in range(C - S):
                    for c in range(S):
                        den = (wf[c] * np.abs(Z[b]) ** 2).sum()
                        v = (wf[c] * Yf[c] * Z[b].conj()).sum() / max(den, eps)
                        Yf[c] = Yf[c] - v * Z[b]
                        Wf[c, :S] = Wf[c, :S] - v * J[f, b]
                        Wf[c, S + b] = Wf[c, S + b] + v
            for d in range(C):
                for t in range(n_taps):
                    z = Xb[d, f, t]
                    for c in range(S):
                        den = (wf[c] * np.abs(z) ** 2).sum()
                        v = (wf[c] * Yf[c] * z.conj()).sum() / max(den, eps)
                        Yf[c] = Yf[c] - v * z
                        Hf[c, d, t] = Hf[c, d, t] + v
            Y[:, f], W[f], H[f] = Yf, Wf, Hf
    if ref_mic is not None and n_iter > 0:
        Y = Y * project_back_filters(W, J, ref_mic).T[:, :, None]
    return Y


def project_back_filters(W, J, ref_mic):
    """(F, S): entries of row ref_mic of the inverse of the full demixing matrix that multiply
    the target sources; the full matrix is [[W1, W2], [J, -I]]"""
    F, S, C = W.shape
    a = np.zeros((F, S), dtype=complex)
    for f in range(F):
        if S == C:
            L, r = W[f].T, np.eye(C)[:, ref_mic]
        else:
            L = (W[f][:, :S] + W[f][:, S:] @ J[f]).T
            r = np.eye(S)[:, ref_mic] if ref_mic < S else J[f][ref_mic - S, :]
        a[f] = loaded_solve_normal(L, r[:, None].astype(complex))[:, 0]
    return a


# --------------------------------------------------------------------------- AuxIVA-IP
def auxiva_ip(X, n_iter, n_src=None, weight_fn=None, ref_mic=0, eps=1e-5):
    C, F, N = X.shape
    S = C if n_src is None else n_src
    Cx = np.einsum("cfn,dfn->fcd", X, X.conj()) / N
    W = np.zeros((F, S, C), dtype=complex)
    W[:] = np.eye(S, C)
    Y = X[:S].astype(complex).copy()

    def background(Wf, Cf):
        M = Wf @ Cf
        return herm(loaded_solve_normal(M[:, :S], M[:, S:], load=eps, eps=eps))

    J = np.stack([background(W[f], Cx[f]) for f in range(F)]) if S < C else None
    for _ in range(n_iter):
        wt = np.array(weight_fn(Y), dtype=float)
        g = source_scale(Y, eps)
        W = W / np.maximum(np.sqrt(g), eps).transpose(1, 0, 2)
        wt = wt * g
        for f in range(F):
            Wf = W[f].copy()
            for k in range(S):
                V = (X[:, f] * wt[k, f]) @ X[:, f].conj().T
                if S < C:
                    J[f] = background(Wf, Cx[f])
                    full = np.concatenate(
                        (Wf, np.concatenate((J[f], -np.eye(C - S)), axis=1)), axis=0)
                else:
                    full = Wf
                e = np.eye(C)[:, [k]].astype(complex)
                w = loaded_solve_normal(full @ V, e, load=eps, eps=eps)[:, 0]
                # demixing row is w^H with w^H V w = 1
                sc = np.real(w.conj() @ V @ w)
                Wf[k] = w.conj() / np.sqrt(max(sc, eps))
            W[f] = Wf
        Y = np.einsum("fsc,cfn->sfn", W, X)
    if ref_mic is not None:
        Y = Y * project_back_filters(W, J, ref_mic).T[:, :, None]
    return Y


# --------------------------------------------------------------------------- IP2
def gevd(A, B):
    """generalised eigen decomposition via Cholesky; eigenvalues ascending"""
    L = np.linalg.cholesky(B)
    Li = np.linalg.inv(L)
    M = Li @ A @ herm(Li)
    w, u = np.linalg.eigh(0.5 * (M + herm(M)))
    return w, herm(Li) @ u


def auxiva_ip2(X, n_iter, weight_fn, ref_mic=0, eps=1e-5):
    C, F, N = X.shape
    assert C == 2
    Y = X.astype(complex).copy()
    W = None
    cond = 1.0
    for _ in range(n_iter):
        wt = np.array(weight_fn(Y), dtype=float)
        wt = wt * source_scale(Y, 1e-5)
        W = np.zeros((F, 2, 2), dtype=complex)
        Yn = np.zeros_like(Y)
        for f in range(F):
            V = [(X[:, f] * wt[k, f]) @ X[:, f].conj().T / N for k in range(2)]
            lam, U = gevd(V[1], V[0])
            cond = max(cond, lam[1] / max(lam[1] - lam[0], 1e-300))
            U = U[:, ::-1]  # largest of (V1, V0) first: it minimises source 0
            for k in range(2):
                u = U[:, k]
                u = u / np.linalg.norm(u)
                sc = np.real(u.conj() @ V[k] @ u)
                U[:, k] = u / max(np.sqrt(max(sc, 1e-7)), eps)
            W[f] = herm(U)
            Yn[:, f] = W[f] @ X[:, f]
        Y = Yn
    if ref_mic is not None and n_iter > 0:
        A = np.linalg.inv(W)
        Y = Y * A[:, ref_mic, :].T[:, :, None]
    return Y, cond


# --------------------------------------------------------------------------- FIVE
def five(X, n_iter, weight_fn, ref_mic=0, starts=None):
    """the DC bin of the output is zero. Returns (Y (1,F,N), cond); starts: list that receives the
    share of the first coordinate in every extracted filter (where a power iteration starts)"""
    C, F, N = X.shape
    Xd = X[:, 1:]
    Xw = np.zeros_like(Xd, dtype=complex)
    Qi = np.zeros((F - 1, C, C), dtype=complex)
    Y = np.zeros((F - 1, N), dtype=complex)
    gap = np.inf
    for f in range(F - 1):
        Cx = Xd[:, f] @ Xd[:, f].conj().T / N
        lam, U = np.linalg.eigh(0.5 * (Cx + herm(Cx)))
        lam, U = lam[::-1], U[:, ::-1]
        if C > 1:
            gap = min(gap, (lam[0] - lam[1]) / lam[0])
        s = np.sqrt(np.maximum(lam, 1e-5))
        Xw[:, f] = (herm(U) @ Xd[:, f]) / s[:, None]
        Qi[f] = U * s[None, :]
        Y[f] = Xw[0, f]
        if ref_mic is not None:
            Y[f] = Y[f] * (np.vdot(Xw[0, f], Xd[ref_mic, f]) / N)
    for _ in range(n_iter):
        wt = np.array(weight_fn(Y), dtype=float)
        Yn = np.zeros_like(Y)
        for f in range(F - 1):
            V = (Xw[:, f] * wt[f]) @ Xw[:, f].conj().T
            lam, U = np.linalg.eigh(0.5 * (V + herm(V)))
            if C > 1:
                gap = min(gap, (lam[1] - lam[0]) / lam[-1])
            u = U[:, 0]
            if starts is not None:
                starts.append(abs(u[0]))
            z = 1.0 if ref_mic is None else Qi[f][ref_mic] @ u
            Yn[f] = z * (u.conj() @ Xw[:, f])
        Y = Yn
    out = np.concatenate((np.zeros((1, N)), Y), axis=0)[None]
    return out, 1.0 / max(gap, 1e-300)


# --------------------------------------------------------------------------- WPE
def wpe(X, n_iter, n_taps, n_delay, weight_fn=None, eps=1e-5):
    C, F, N = X.shape
    Xb = delayed(X, n_taps, n_delay)
    Y = X.astype(complex).copy()
    for _ in range(n_iter):
        if weight_fn is None:
            wt = 1.0 / np.maximum((np.abs(Y) ** 2).mean(axis=0), eps)
            wt = wt / wt.sum(axis=-1, keepdims=True)
        else:
            wt = np.asarray(weight_fn(Y), dtype=float)
        Yn = np.zeros_like(Y)
        for f in range(F):
            B = Xb[:, f].reshape(C * n_taps, N)
            R = (B * wt[f]) @ B.conj().T
            P = (B * wt[f]) @ X[:, f].conj().T
            G = loaded_solve(R, P, load=eps)
            Yn[:, f] = X[:, f] - G.conj().T @ B
        Y = Yn
    return Y


# --------------------------------------------------------------------------- linear filters
def weighted_cov(mask, X):
    """mask (S,F,N), X (C,F,N) -> (S,F,C,C)"""
    S, F, N = mask.shape
    C = X.shape[0]
    R = np.zeros((S, F, C, C), dtype=complex)
    for s in range(S):
        for f in range(F):
            R[s, f] = (X[:, f] * mask[s, f]) @ X[:, f].conj().T
    return R


def rtf(Rt, Rn, ref_mic, n_power=None):
    C = Rt.shape[-1]
    if n_power is None:
        _, U = gevd(Rt, Rn)
        v = U[:, -1]
    else:
        sc = np.mean(np.real(np.diag(Rn)))
        Phi = loaded_solve(Rn / sc, Rt / sc, load=1e-5)
        v = Phi[:, 0]
        for _ in range(n_power - 1):
            v = Phi @ v
            v = v / np.linalg.norm(v)
    a = Rn @ v
    return a / a[ref_mic]


def mvdr_filter(Rn, a, eps=1e-5):
    Rn = Rn / np.mean(np.real(np.diag(Rn)))
    b = loaded_solve(Rn, a[:, None], load=eps)[:, 0]
    return b / max(np.real(np.vdot(a, b)), eps)


def mvdr(X, masks, kind, ref_mic, n_power=None, eps=1e-5):
    """masks (S, M, F, N)"""
    S, M, F, N = masks.shape
    R = [weighted_cov(masks[:, i], X) for i in range(M)]
    Y = np.zeros((S, F, N), dtype=complex)
    for s in range(S):
        for f in range(F):
            Rt, Rn = R[0][s, f], R[1][s, f]
            if kind == "scm":
                G = np.linalg.solve(Rn, Rt)
                w = G[:, ref_mic] / np.trace(G)
            else:
                a = rtf(Rt, R[2][s, f] if M == 3 else Rn, ref_mic, n_power)
                w = mvdr_filter(Rn, a, eps)
            Y[s, f] = w.conj() @ X[:, f]
    return Y


def mwf_filter(Rt, Rn, ref_mic, eps=1e-5):
    """(Rt + Rn)^-1 Rt e_ref, loaded by eps times the largest entry"""
    sc = np.real(np.trace(Rt + Rn)) / len(Rt)
    return loaded_solve((Rt + Rn) / sc, Rt[:, [ref_mic]] / sc, load=eps)[:, 0]


def mwf(X, masks, ref_mic, time_invariant=True, eps=1e-5):
    S, M, F, N = masks.shape
    Rt, Rn = weighted_cov(masks[:, 0], X), weighted_cov(masks[:, 1], X)
    Y = np.zeros((S, F, N), dtype=complex)
    for s in range(S):
        for f in range(F):
            if time_invariant:
                w = mwf_filter(Rt[s, f], Rn[s, f], ref_mic, eps)
                Y[s, f] = w.conj() @ X[:, f]
            else:
                for n in range(N):
                    T_ = Rt[s, f] * masks[s, 2, f, n]
                    N_ = Rn[s, f] * masks[s, 3, f, n]
                    w = mwf_filter(T_, N_, ref_mic, eps)
                    Y[s, f, n] = w.conj() @ X[:, f, n]
    return Y


def gev(X, masks, ref_mic):
    S, M, F, N = masks.shape
    Rt, Rn = weighted_cov(masks[:, 0], X), weighted_cov(masks[:, 1], X)
    Y = np.zeros((S, F, N), dtype=complex)
    for s in range(S):
        for f in range(F):
            _, U = gevd(Rt[s, f], Rn[s, f])
            v = U[:, -1]
            a = Rn[s, f] @ v / np.real(v.conj() @ Rn[s, f] @ v)
            Y[s, f] = a[ref_mic] * (v.conj() @ X[:, f])
    return Y
