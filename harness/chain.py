"""Dense semantics of tensors, used to read the state out of real objects."""
import numpy as np
from lib import Bad

TOL = 1e-7

def cx(x):
    """JSON of Gaussian integers (nested, innermost [re, im]) -> complex array."""
    a = np.array(x, dtype=float)
    re, im = a[..., 0], a[..., 1]
    # callers' arrays are not all complex and contiguous: what they hold decides their kind
    kind = int(np.sum(np.abs(re)*(1 + np.arange(re.size).reshape(re.shape) % 5)) + np.sum(np.abs(im))) % 4
    out = re.copy() if kind % 2 and not im.any() else re + 1j*im
    return np.asfortranarray(out) if kind > 1 else out

def tensors(js):
    return [cx(t) for t in js]

def dense(As):
    """amplitudes of a chain of (d, Dl, Dr) tensors, site 0 most significant."""
    v = np.ones((1, 1), dtype=complex)
    for A in As:
        A = np.asarray(A)
        if A.ndim != 3:
            raise Bad('site-tensor-rank', 'a site tensor has shape %r' % (A.shape,))
        v = np.einsum('na,sab->nsb', v, A).reshape(-1, A.shape[2])
    if v.shape[1] != 1:
        raise Bad('open-end', 'the chain ends in a bond of dimension %d' % v.shape[1])
    return v[:, 0]

def ray_residual(v, w):
    """0 iff v and w are on the same ray (both nonzero)."""
    v, w = np.asarray(v, dtype=complex).reshape(-1), np.asarray(w, dtype=complex).reshape(-1)
    if v.shape != w.shape:
        return float('inf')
    nv, nw = np.linalg.norm(v), np.linalg.norm(w)
    if not np.isfinite(nv) or nv == 0 or nw == 0:
        return float('inf')
    v, w = v/nv, w/nw
    return float(np.linalg.norm(v - w*np.vdot(w, v)))

def same_ray(key, v, w, where='', tol=TOL):
    r = ray_residual(v, w)
    if not r <= tol:
        raise Bad(key, '%s: represented state left the ray of the model, residual %.3g' % (where, r))

def close(key, got, want, where='', tol=TOL):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Bad(key, '%s: shape %r, expected %r' % (where, got.shape, want.shape))
    if got.size == 0:
        return
    scale = max(1.0, float(np.max(np.abs(want))))
    err = np.max(np.abs(got - want)) if np.all(np.isfinite(got)) else float('inf')
    if not err <= tol*scale:
        raise Bad(key, '%s: got %s, expected %s (difference %.3g)' % (where, str(got)[:400], str(want)[:400], err))

def left_iso(A):
    return float(np.max(np.abs(np.einsum('sab,sac->bc', A.conj(), A) - np.eye(A.shape[2]))))

def right_iso(A):
    return float(np.max(np.abs(np.einsum('sab,scb->ac', A, A.conj()) - np.eye(A.shape[1]))))

def bonds(As):
    return [A.shape[1] for A in As] + [As[-1].shape[2]]

def kron(*ms):
    out = np.eye(1)
    for m in ms:
        out = np.kron(out, m)
    return out

def site_op(O, k, L, d):
    return kron(np.eye(d**k), O, np.eye(d**(L-k-1)))

def arrays(x):
    """every array a result is made of"""
    if isinstance(x, np.ndarray):
        return [x] if x.dtype != object else [a for y in x.reshape(-1) for a in arrays(y)]
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in arrays(y)]
    return arrays(x.data) if isinstance(getattr(x, 'data', None), (list, np.ndarray)) else []

def own(key, f, where=''):
    """what a call returns is the caller's: changing it changes no later answer of the same call"""
    first = f()
    kept = [a.copy() for a in arrays(first)]
    for a in arrays(first):
        if a.flags.writeable:
            a[...] = 7
    again = arrays(f())
    if len(again) != len(kept) or any(a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12) for a, b in zip(again, kept)):
        raise Bad(key + ':shared', where + ': a result changed by its caller comes back in the next answer')

class Watch:
    """arguments made here are compared, when asked, with what they were: calls that return values change no argument"""
    def __init__(self):
        self.seen = []
    def cx(self, x):
        a = cx(x)
        self.seen.append((a, a.copy()))
        return a
    def tensors(self, js):
        return [self.cx(t) for t in js]
    def check(self, where):
        if any(not np.array_equal(a, b) for a, b in self.seen):
            raise Bad('argument', where + ': an array given to a call was changed by it')
        self.seen = []
