"""Spin operators in chains and the chains built of them (ManyBody.tla)."""
import numpy as np
from lib import Bad
from chain import cx, close, kron, own

def full(x):
    return np.asarray(x.full() if hasattr(x, 'full') else x)

def total(terms, N):
    return sum(np.kron(np.kron(np.eye(2**k), t), np.eye(2**(N-k-2))) for k, t in enumerate(terms))

def contracted(mpo):
    """an mpo with indices (up, down, left, right)"""
    M = np.asarray(mpo[0])
    if M.shape[2] != 1:
        raise Bad('mpo:left', str(M.shape))
    for W in mpo[1:]:
        M = np.einsum('abij,cdjk->acbdik', M, W)
        a, c, b, d, i, k = M.shape
        M = M.reshape(a*c, b*d, i, k)
    if M.shape[3] != 1:
        raise Bad('mpo:right', str(M.shape))
    return M[:, :, 0, 0]

def replay(case):
    from xmps import qmb
    ini, N = case['ini'], case['ini']['N']
    p = ini['p']
    h, J, Jz, g = p['h'], p['J'], p['Jz'], p['g']
    v = np.zeros(2**N, complex)
    v[ini['start']] = 1
    for k, w in enumerate(case['word']):
        wh = 'seed %s N=%d step %d: %s at %d' % (case['seed'], N, k, w['op'], w['at'])
        f = getattr(qmb, w['op'])
        M = full(f(w['at'], N))
        want = np.zeros(2**N, complex)
        want[w['num']] = complex(*w['coef'])
        v = M@v
        close('word', v, want, wh)
        parts = f(w['at'], N, tensorise=False)
        if len(parts) != N:
            raise Bad('parts', wh)
        close('parts', kron(*[np.asarray(x) for x in parts]), M, wh)
        v = want
    wh = 'seed %s N=%d h=%d J=%d Jz=%d g=%d' % (case['seed'], N, h, J, Jz, g)
    try:
        qmb.Sz(N, N)
    except Exception:
        pass
    else:
        raise Bad('outside', wh)
    heis, ising, half = (cx(ini[k])/2 for k in ('heis', 'ising', 'half'))
    close('heisenberg', full(qmb.anisotropic_heisenberg(h, J, Jz, N)), heis, wh)
    close('heisenberg:mpo', contracted(qmb.anisotropic_heisenberg_mpo(h, J, Jz, N)), heis, wh)
    terms = qmb.local_anisotropic_heisenbergs(h, J, Jz, N)
    if len(terms) != N-1:
        raise Bad('terms', wh)
    close('heisenberg:terms', total(terms, N), heis, wh)
    close('heisenberg:bond', qmb.local_anisotropic_heisenberg(h, J, Jz)*1., terms[0] if N > 2 else terms[0] + h*np.diag([1., -1, 1, -1]), wh)
    for key, f in (('heisenberg', qmb.anisotropic_heisenberg), ('heisenberg:mpo', qmb.anisotropic_heisenberg_mpo), ('heisenberg:terms', qmb.local_anisotropic_heisenbergs)):
        own(key, lambda: f(h, J, Jz, N), wh)
    own('ising:terms', lambda: qmb.local_isings(J, g, N), wh)
    terms = qmb.local_isings(J, g, N)
    if len(terms) != N-1:
        raise Bad('terms:ising', wh)
    close('ising:terms', total(terms, N), ising, wh)
    close('ising:bond', total([qmb.local_ising(J, g)]*(N-1), N), half, wh)
    return len(case['word']) + 6

def run(ctx):
    rows = ctx.tlc('ManyBody', dict(ctx.seeds(120, 3000), Depth=6), invariants=['Sums', 'Conserved', 'Units', 'EmitAtEnd'], properties=['Dead'], timeout=1500)
    ctx.replay(replay, rows, kind='manybody', limit=120)
