import numpy as np
from lib import Bad
from chain import *
from checks.walk import step, build, scales

def weights(G, den):
    w = np.linalg.eigvalsh(cx(G)/den)[::-1]
    return np.clip(w.real, 0, None)

def prepare(case):
    m = build(case)
    for h in case['hist'][:-1]:
        if h['op'] == 'gauge':
            # an arbitrary invertible change of basis on one bond
            k = h['k']
            if k + 1 < len(m.data):
                D = m.data[k].shape[2]
                rs = np.random.RandomState(case['seed'] % 2**31)
                g = np.eye(D) + 0.4*(rs.randn(D, D) + 1j*rs.randn(D, D))/np.sqrt(2*D)
                m[k] = m[k] @ g
                m[k+1] = np.linalg.inv(g) @ m[k+1]
        else:
            m, _ = step(m, h, None, None)
    return m

def replay_cuts(case):
    h = case['hist'][-1]
    L = len(case['init']['tensors'])
    W = [weights(G, h['den']) for G in h['grams']]
    S = [float(-sum(x*np.log(x) for x in w if x > 1e-14)) for w in W]
    n = 0
    psi = cx(case['init']['psi'])
    for way in ('lcan', 'rcan'):
        m = prepare(case)
        same_ray('prep:ray', dense(m.data), psi, 'seed %s' % case['seed'])
        m = m.left_canonicalise() if way == 'lcan' else m.right_canonicalise()
        where = 'seed %s %s after %s' % (case['seed'], way, [x['op'] for x in case['hist'][:-1]])
        if len(m.Ls) != L+1:
            raise Bad('Ls:count', '%s: %d weights, %d cuts' % (where, len(m.Ls), L+1))
        for k in range(L+1):
            Lk = np.asarray(m.Ls[k])
            w = np.real(np.diag(Lk)) if Lk.ndim == 2 else np.real(Lk).reshape(-1)
            if not np.all(w >= -1e-9):
                raise Bad('Ls:negative', '%s cut %d: %s' % (where, k, w))
            got = np.sort(w)[::-1]
            n0 = max(len(got), len(W[k]))
            g = np.zeros(n0); g[:len(got)] = got
            t = np.zeros(n0); t[:len(W[k])] = W[k]
            close('Ls:weights', g, t, '%s cut %d' % (where, k))
            if Lk.ndim == 2 and not np.max(np.abs(Lk - np.diag(np.diag(Lk)))) <= TOL:
                raise Bad('Ls:diagonal', where)
            bond = bonds(m.data)[k]
            if bond < h['ranks'][k]:
                raise Bad('Ls:rank', '%s cut %d: bond %d below the Schmidt rank %d' % (where, k, bond, h['ranks'][k]))
            n += 1
        # the stored weights are the environment of the sites on the other side
        env = np.ones((1, 1), dtype=complex)
        if way == 'lcan':
            for k in range(L-1, -1, -1):
                env = np.einsum('sab,bc,sdc->ad', m.data[k], env, m.data[k].conj())
                close('Ls:environment', env, np.asarray(m.Ls[k]).reshape(env.shape), '%s cut %d' % (where, k))
        else:
            for k in range(L):
                env = np.einsum('sab,ac,scd->bd', m.data[k].conj(), env, m.data[k])
                close('Ls:environment', env, np.asarray(m.Ls[k+1]).reshape(env.shape), '%s cut %d' % (where, k+1))
    m = prepare(case)
    order = list(range(L+1))
    np.random.RandomState(case['seed'] % 1000).shuffle(order)
    for k in order:
        e = m.entanglement_entropy(k)
        close('entropy', np.real(np.asarray(e)).reshape(-1), np.array([S[k]]), 'seed %s cut %d' % (case['seed'], k), tol=1e-6)
        n += 1
    return n

def fidelity(v, w):
    return abs(np.vdot(v, w))**2/np.linalg.norm(v)**2/np.linalg.norm(w)**2

def replay_trunc(case):
    from xmps.fMPS import fMPS
    h = case['hist'][-1]
    L, D = len(case['init']['tensors']), h['D']
    psi = cx(case['init']['psi'])
    W = [weights(G, h['den']) for G in h['grams']]
    true_ranks = [int(np.sum(w > 1e-12)) for w in W]
    lost = [float(np.sum(w[D:])) for w in W]
    m = prepare(case)
    same_ray('prep:ray', dense(m.data), psi, 'seed %s' % case['seed'])
    where = 'seed %s %s(D=%d) after %s' % (case['seed'], h['dir'], D, [x['op'] for x in case['hist'][:-1]])
    canonical = h['side'] in ('left', 'right')
    how = h['how']
    if how == 3 and h['side'] == 'right':
        m = fMPS(list(m.data), D=D)              # constructor truncates with right canonicalisation
        where += ' constructor'
    elif how == 2 and h['side'] == 'right':
        m = m.mixed_canonicalise(h['k'], D)
        where += ' mixed %d' % h['k']
    elif how == 1:
        m = (m.right_canonicalise if h['dir'] == 'rcan' else m.left_canonicalise)(D, sweep_back=False)
        where += ' no sweep back'
    else:
        m = (m.right_canonicalise if h['dir'] == 'rcan' else m.left_canonicalise)(D)
    v = dense(m.data)
    b = bonds(m.data)
    if max(b) > D:
        raise Bad('trunc:bond', '%s: bonds %s' % (where, b))
    if m.D > D or m.bond_dimension > D:
        raise Bad('trunc:D', '%s: D=%s' % (where, m.D))
    if not abs(np.linalg.norm(v) - 1) <= TOL:
        raise Bad('trunc:norm', '%s: norm %.9g' % (where, np.linalg.norm(v)))
    F = fidelity(psi, v)
    n = 3
    if max(true_ranks) <= D and canonical:
        same_ray('trunc:exact', v, psi, where)
        n += 1
    best = min(1 - x for x in lost)
    if not F <= best + 1e-7:
        raise Bad('trunc:impossible', '%s: fidelity %.9g above the best possible %.9g' % (where, F, best))
    if canonical:
        over = [k for k in range(L+1) if true_ranks[k] > D]
        if len(over) == 1:
            if not abs(F - (1 - lost[over[0]])) <= 1e-7:
                raise Bad('trunc:weights', '%s: fidelity %.9g, the %d largest weights sum to %.9g' % (where, F, D, 1 - lost[over[0]]))
            n += 1
        elif over:
            if not F >= 1 - sum(lost) - 1e-7:
                raise Bad('trunc:bound', '%s: fidelity %.9g below 1 - sum of discarded weights %.9g' % (where, F, 1 - sum(lost)))
            n += 1
    return n

def cases(ctx, mode, n, MaxL=5, MaxD=3, fams='<- Families', seed0=0):
    s = ctx.seeds(n)
    return ctx.tlc('Truncate', dict(SeedLo=s['SeedLo']+seed0, SeedHi=s['SeedHi']+seed0, MaxL=MaxL, MaxD=MaxD, Fams=fams, Mode=mode),
                   invariants=['TracesAgree', 'RankLaws', 'EmitAtEnd'])
