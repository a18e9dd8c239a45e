from checks.uniform import *

def cut_weights(grams):
    out = []
    for G in grams:
        w = np.sort(np.linalg.eigvalsh(cx(G)))[::-1]
        out.append(w/w.sum())
    return out

def check_vidal(key, v, psi, grams, d, where):
    """data is a list of (weights on the bond to the left, site matrices)"""
    W = cut_weights(grams)
    data = v.data
    if len(data) != len(grams) - 1:
        raise Bad(key+':length', where)
    Ls = [np.asarray(x[0]) for x in data]
    Gs = [np.asarray(x[1]) for x in data]
    for k, (L, G) in enumerate(zip(Ls, Gs)):
        if G.ndim != 3 or L.shape != (G.shape[1],)*2:
            raise Bad(key+':shapes', '%s site %d: weights %s, matrices %s' % (where, k, L.shape, G.shape))
    for k, L in enumerate(Ls):
        if L.ndim != 2 or np.max(np.abs(L - np.diag(np.diag(L)))) > 1e-12*np.max(np.abs(L)):
            raise Bad(key+':diagonal', '%s bond %d' % (where, k))
        if k == 0:
            continue                       # the outer bond carries no weight
        w = np.sort(np.diag(L).real**2)[::-1]
        w = np.concatenate([w, np.zeros(max(0, len(W[k]) - len(w)))])
        full = np.concatenate([W[k], np.zeros(max(0, len(w) - len(W[k])))])
        close(key+':weights', w, full, '%s bond %d' % (where, k), tol=1e-6)
    tiny = min(np.min(np.abs(np.diag(L))) for L in Ls)
    if tiny > 1e-4:
        for k, G in enumerate(Gs):
            LG = Ls[k]@G
            if k > 0:
                close(key+':left', sum(g.conj().T@g for g in LG), np.eye(G.shape[2]), '%s site %d' % (where, k), tol=1e-5)
            if k+1 < len(Gs):
                GL = G@Ls[k+1]
                close(key+':right', sum(g@g.conj().T for g in GL), np.eye(G.shape[1]), '%s site %d' % (where, k), tol=1e-5)
    same_ray(key+':state', dense([L@G for L, G in zip(Ls, Gs)]), psi, where, tol=1e-6)

def replay_finite(case):
    from xmps.fMPS import fMPS, vfMPS
    m = fMPS(tensors(case['tensors']))
    d = case['d']
    psi, grams = cx(case['psi0']), case['grams0']
    done, n = [], 0
    for h in case['hist']:
        op = h['op']
        done.append(op)
        where = 'seed %s %s (%s)' % (case['seed'], case['fam'], ' '.join(done))
        if op == 'edit':
            m[h['k']] = np.einsum('st,tab->sab', cx(h['O']), m[h['k']])
            psi, grams = cx(h['psi']), h['grams']
        elif op == 'left':
            m.left_canonicalise()
        elif op == 'right':
            m.right_canonicalise()
        elif op == 'copy':
            m = m.copy()
        elif op == 'look':
            v = vfMPS().from_fMPS(m.copy())
            check_vidal('look', v, psi, grams, d, where)
            n += 1
        elif op == 'turn':
            v = vfMPS().from_fMPS(m)
            check_vidal('turn', v, psi, grams, d, where)
            same_ray('turn:argument', dense(m.data), psi, where, tol=1e-6)
            m = v.to_fMPS()
            if (m.L, m.d) != (case['L'], d):
                raise Bad('turn:meta', where)
            n += 1
        same_ray(op + ':state', dense(m.data), psi, where, tol=1e-6)
    return n

def replay_infinite(case):
    """bond-weight forms built from any tensor: brought to canonical form, measured, converted"""
    from xmps.iMPS import iMPS, ivMPS
    C = Class(case)
    if C.ratio > 0.97 or C.w2[-1] < 1e-6:
        return 0
    A = C.A.copy()
    for h in case['hist']:
        if h['op'] == 'gauge':
            A = moved(A, C.gauge(h))
        elif h['op'] == 'scale':
            A = complex(*h['by'])*A
    where = 'seed %s %s D=%d' % (case['seed'], [f['kind'] for f in C.fs], C.D)
    W = np.diag(2.0**-np.arange(C.D)) if case['seed'] % 2 else np.eye(C.D)
    v = ivMPS([(A@np.linalg.inv(W), W.copy())])
    m0 = v.to_iMPS()
    close('to_iMPS', m0.data[0], A, where)
    def ok(key, v):
        G, L = v.data[0]
        close(key+':weights', np.diag(L).real**2, C.w2, where, tol=1e-6)
        close(key+':norm', np.sum(L*L), 1, where)
        close(key+':left', sum((L@g).conj().T@(L@g) for g in G), np.eye(C.D), where, tol=1e-6)
        close(key+':right', sum((g@L)@(g@L).conj().T for g in G), np.eye(C.D), where, tol=1e-6)
        close(key+':E', [v.E(O) for O in C.ops], C.vals, where, tol=1e-6)
        m = v.to_iMPS()
        close(key+':plain', [m.E(O) for O in C.ops], C.vals, where, tol=1e-6)
        close(key+':plain-values', values(m.data[0], C.ops), C.vals, where, tol=1e-6)
    for i in range(2):
        v.canonicalise()
        ok('canonicalise%d' % i, v)
    ok('from-plain', iMPS([A.copy()]).canonicalise(to_vidal=True))
    for hand in 'lrm':
        m = iMPS([A.copy()]).canonicalise(hand)
        ok('from-' + hand, m.canonicalise(to_vidal=True))
        ok('again-' + hand, m.canonicalise(hand, to_vidal=True))
    return 8

from checks import words

def run(ctx):
    q = ctx.quick
    s = ctx.seeds(500, 6000)
    rows = ctx.tlc('Weights', dict(s, Depth=5), invariants=['TypeOK', 'Normed', 'Hermitians', 'EmitAtEnd'], properties=['UnitaryFrame'], timeout=1500)
    ctx.replay(replay_finite, rows, kind='finite')
    ctx.replay(replay_infinite, classes(ctx, 200 if q else 3000, 4, seed0=40000), kind='infinite')
    ctx.replay(words.replay_vidal, words.words(ctx, 150, 2500, 'AnyCall', seed0=40000), kind='words-on-long-chains')
