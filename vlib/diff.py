"""Differential comparison with a reference model, with a tolerance that follows the conditioning
of the problem: the reference is also run on an input perturbed by 1e-10, and a case whose output
amplifies that perturbation too much is outside the domain."""
from .boot import np, torch
from .harness import Skip, Violation, call, expect_close, relerr, tonp
from .signals import rng_of

PERT = 1e-10


def sensitivity(ref, X, key=0):
    """-> (reference output, amplification of a relative input perturbation)"""
    rng = rng_of(key, 404)
    D = rng.standard_normal(X.shape) + 1j * rng.standard_normal(X.shape)
    try:
        with np.errstate(all="ignore"):
            Y0 = ref(X)
            Y1 = ref(X * (1.0 + PERT * D))
    except np.linalg.LinAlgError:
        raise Skip("reference model is singular")
    if not np.all(np.isfinite(Y0)) or not np.all(np.isfinite(Y1)):
        raise Skip("reference model is not finite")
    return Y0, relerr(Y1, Y0) / PERT


def compare_with_reference(run, ref, X, what, base=2e-9, max_amp=1e5, axis=None):
    Y0, amp = sensitivity(ref, X)
    if amp > max_amp:
        raise Skip("ill conditioned")
    Y = call(run)
    return expect_close(tonp(Y, what), Y0, base * max(1.0, amp), what, axis=axis)
