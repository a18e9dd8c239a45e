import numpy as np
from lib import Bad
from chain import *
from checks.c12 import assembled

def tangents(As):
    """dense tangent vectors of a chain, one per tensor entry"""
    out = []
    for k, A in enumerate(As):
        left = np.ones((1, 1), dtype=complex)
        for B in As[:k]:
            left = np.einsum('na,sab->nsb', left, B).reshape(-1, B.shape[2])
        right = np.ones((1, 1), dtype=complex)
        for B in As[k+1:][::-1]:
            right = np.einsum('sab,bn->asn', B, right).reshape(B.shape[1], -1)
        d = A.shape[0]
        # <n s m | t_{s' a b}> = left[n,a] delta_ss' right[b,m]
        t = np.einsum('na,st,bm->tabnsm', left, np.eye(d), right)
        out.append(t.reshape(A.size, -1))
    return np.concatenate(out)

def velocity(As, dA, where):
    """the dense vector a list of derivative tensors stands for"""
    if [np.shape(b) for b in dA] != [np.shape(a) for a in As]:
        raise Bad('dA:shapes', '%s: %s against %s' % (where, [np.shape(b) for b in dA], [np.shape(a) for a in As]))
    return sum(dense([dA[n] if m == n else A for m, A in enumerate(As)]) for n in range(len(As)))

def replay_tangent(case):
    from xmps.fMPS import fMPS
    i = case['init']; d, L = i['d'], i['L']
    As = tensors(i['tensors'])
    psi = cx(i['psi'])
    # the tangent space from the model's tensors, orthonormalised
    T = tangents(As)
    U, s, Vh = np.linalg.svd(T/np.linalg.norm(T, axis=1)[:, None].clip(1e-300), full_matrices=False)
    cond = [np.linalg.svd(psi.reshape(d**k, -1)/np.linalg.norm(psi), compute_uv=False) for k in range(1, L)]
    low = min([1.] + [x[B.shape[1]-1] for x, B in zip(cond, As[1:])])
    m = fMPS([np.array(A) for A in As])
    if low < 3e-3:
        return 0
    tol = 1e-9/low**3
    n, done = 0, []
    dim = None
    for h in case['hist']:
        op = h['op']
        done.append(op)
        where = 'seed %s (%s)' % (case['seed'], ' '.join(done))
        if op == 'lcan': m = m.left_canonicalise()
        elif op == 'rcan': m = m.right_canonicalise()
        elif op == 'gauge': m = fMPS(tensors(h['As']))
        elif op == 'pack':
            # lossless both ways and norm preserving
            sh = m.tangent_space_dims()
            if sum(a*b for a, b in sh) != h['dim']:
                raise Bad('pack:dim', '%s: %s, expected %d in all' % (where, sh, h['dim']))
            if h['dim'] == 0:
                continue
            x = cx(h['x'])
            dA = m.import_tangent_vector(x)
            v = velocity(m.data, dA.data, where)
            close('pack:norm', np.array(np.linalg.norm(v)), np.array(np.linalg.norm(x)), where, tol=tol)
            close('pack:lossless', m.extract_tangent_vector(dA), x, where, tol=tol)
            inside(v, T, psi, where, tol, 'pack')
            n += 3
            # complete orthonormal sets of directions
            for kind in ('eye', 'rand'):
                B = np.asarray(m.tangent_space_basis(kind))
                close('basis:' + kind, B@B.conj().T, np.eye(h['dim']), where)
            # one site's directions alone, as a chain of its own
            l, r = m.get_envs()
            vLs, off = [m.left_null_projector(k, l, get_vL=True)[1] for k in range(L)], 0
            for k, (a, b) in enumerate(sh):
                if a*b:
                    y = np.zeros_like(x)
                    y[off:off+a*b] = x[off:off+a*b]
                    off += a*b
                    t = m.tangent_state(x[off-a*b:off].reshape(a, b), k, envs=(l, r) if k % 2 else None, vL=vLs[k] if k % 3 else None)
                    want = velocity(m.data, m.import_tangent_vector(y).data, where)
                    close('tangent_state', dense(t.data), want, where + ' site %d' % k, tol=tol*max(1, np.linalg.norm(x)))
                    n += 1
            n += 2
        elif op == 'velocity':
            ts = [cx(t) for t in h['ts']]
            want = -1j*cx(h['G'])/h['n']**(1 if h['raw'] else 1.5)
            scale = max(1., np.linalg.norm(want))
            phase = np.vdot(psi, dense(m.data)); phase /= abs(phase)
            if h['raw']:
                close('velocity:vector', dense(m.data), psi, where, tol=1e-9*np.linalg.norm(psi))
            want = want*phase
            vs = []
            for kind in ('list', 'full'):
                dA = m.dA_dt([t.reshape([d]*4) for t in ts] if case['seed'] % 2 else ts) if kind == 'list' else m.dA_dt(assembled(ts, d, L), fullH=True)
                v = velocity(m.data, dA.data, where)
                vs.append(v)
                inside(v, T, psi, where + ' ' + kind, tol*scale, 'velocity:' + kind)
                # normal equations against every tangent vector of the model
                e = np.max(np.abs(T.conj()@(want - v))/np.linalg.norm(T, axis=1).clip(1e-300))
                if not e <= tol*scale:
                    raise Bad('velocity:%s:projection' % kind, '%s: remainder overlaps a tangent vector by %.3g (velocity %.3g)' % (where, e, np.linalg.norm(v)))
                if np.linalg.matrix_rank(T, tol=1e-9) == len(psi):
                    close('velocity:%s:exact' % kind, v, want, where, tol=tol)
                    n += 1
                n += 2
                # packing the velocity
                if m.tangent_space_dims() and sum(a*b for a, b in m.tangent_space_dims()):
                    x = m.extract_tangent_vector(dA)
                    close('velocity:pack:norm', np.array(np.linalg.norm(x)), np.array(np.linalg.norm(v)), where, tol=tol*scale)
                    back = m.import_tangent_vector(x)
                    close('velocity:pack:lossless', velocity(m.data, back.data, where), v, where, tol=tol*scale)
                    for a, b in zip(back.data, dA.data):
                        close('velocity:pack:tensors', a, b, where, tol=tol*scale)
                    n += 2
            close('velocity:list=full', vs[0], vs[1], where, tol=tol*scale)
            same_ray('velocity:ray', dense(m.data), psi, where)
            n += 1
    return n

def inside(v, T, psi, where, tol, key):
    """in the tangent space, and orthogonal to the state"""
    q, s, _ = np.linalg.svd(T.T, full_matrices=False)
    q = q[:, s > 1e-9*s[0]]
    r = np.linalg.norm(v - q@(q.conj().T@v))
    if not r <= tol:
        raise Bad(key + ':inside', '%s: %.3g of it is outside the tangent space' % (where, r))
    r = abs(np.vdot(psi, v))/np.linalg.norm(psi)
    if not r <= tol:
        raise Bad(key + ':norm-change', '%s: overlap with the state %.3g' % (where, r))

def run(ctx):
    s = ctx.seeds(500, 6000)
    rows = ctx.tlc('Tangent', dict(s, Depth=7, MinL=2, MaxL=5, MaxD=3), invariants=['RightSpace', 'Perp', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_tangent, rows, kind='tangent', limit=120)
    s = ctx.seeds(400, 4000)
    rows = ctx.tlc('Tangent', dict(SeedLo=s['SeedLo']+50000, SeedHi=s['SeedHi']+50000, Depth=4, MinL=6, MaxL=8, MaxD=2), invariants=['Perp', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_tangent, rows, kind='longer-chains', limit=120)
