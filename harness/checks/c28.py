"""Infinite-chain time evolution and imaginary-time descent, along the orbits of Quench.tla and Descent.tla."""
from checks.uniform import *
from scipy.linalg import expm

def angle(r):
    return float(np.arctan2(r[1], r[0]))

def ising(chi, V, th, ph):
    """tensor of  prod exp(-i th V V) exp(-i ph V) chi"""
    c, s = np.cos(th), np.sin(th)
    u = expm(-1j*ph*V)@chi/np.linalg.norm(chi)
    O = [c*np.eye(len(V)), -1j*s*V]
    P = [np.eye(len(V)), V]
    return np.array([[(P[a]@O[b]@u) for b in range(2)] for a in range(2)]).transpose(2, 0, 1)

def product(chi, V, ph):
    u = expm(-1j*ph*V)@chi/np.linalg.norm(chi)
    return u.reshape(-1, 1, 1)

def read(tr, k, d, D):
    from xmps.iMPS import iMPS
    return iMPS().deserialize(tr.mps_history[k], d, D, real=True)

def overlap(A, B):
    T = np.einsum('sab,scd->acbd', A, B.conj()).reshape(A.shape[1]*B.shape[1], -1)
    w = np.max(np.abs(np.linalg.eigvals(T)))
    return w**2/(abs(envs(A)[2])*abs(envs(B)[2]))

def distance(A, B):
    return np.sqrt(max(0.0, 1 - overlap(A, B)))

def gap(A):
    T = np.einsum('sab,scd->acbd', A, A.conj()).reshape(A.shape[1]**2, -1)
    w = np.sort(np.abs(np.linalg.eigvals(T)))[::-1]
    return (w[1]/w[0]) if len(w) > 1 else 0.0

def weights(A):
    l, r, _ = envs(A)
    w = np.abs(np.linalg.eigvals(l@r))
    return np.min(w)/np.sum(w)

def replay_quench(case):
    from xmps.iMPS import iMPS
    from xmps.iTDVP import Trajectory
    ini = case['ini']
    d, V, chi = ini['d'], cx(ini['V']), cx(ini['chi'])
    ops, h = [cx(O) for O in ini['O']], cx(ini['h'])
    mean = case['kind'] == 'mean'
    D = 1 if mean else 2
    tens = (lambda th, ph: product(chi, V, ph)) if mean else (lambda th, ph: ising(chi, V, th, ph))
    rng = np.random.default_rng(case['seed'])
    one = np.eye(d)
    where = 'seed %s %s d=%d' % (case['seed'], case['kind'], d)
    th, ph = angle(ini['th']), 0.0
    A0 = tens(th, ph)
    close('harness', values(A0, ops), [frac(x) for x in ini['vals']['E1']], where)
    G = rng.normal(size=(d, d)) + 1j*rng.normal(size=(d, d)); G = (G + G.conj().T)/4
    # any gauge and scale to start from
    S = np.eye(D) + 0.3*(rng.normal(size=(D, D)) + 1j*rng.normal(size=(D, D)))
    start = moved(A0, S)*(1.3 - 0.4j)
    vbar = frac(ini['v'])
    n = 0

    def term(e):
        """the two-site term and the total time of a run"""
        a, b = angle(e['r']), angle(e['f'])
        if mean:
            # (2 v J + field) T = angle of f
            J = 0.7
            T = abs(b)
            field = b/T - 2*vbar*J
        else:
            T = abs(a) + abs(b)
            J, field = a/T, b/T
        x = rng.random()
        Hm = J*np.kron(V, V) + field*(x*np.kron(V, one) + (1-x)*np.kron(one, V)) + np.kron(G, one) - np.kron(one, G)
        return Hm, T, (lambda t: (0.0, b*t/T) if mean else (a*t/T, b*t/T))

    # how well conditioned the orbit is
    segs, x, y = [], th, ph
    for e in case['hist']:
        segs.append((e, x, y) + term(e))
        a, b = segs[-1][5](segs[-1][4])
        x, y = x+a, y+b
    end = x, y
    if not mean:
        for e, x, y, Hm, T, f in segs:
            for t in np.linspace(0, T, 9):
                A = tens(x+f(t)[0], y+f(t)[1])
                if gap(A) > 0.9 or weights(A) < 0.02:
                    return 0
    close('harness:orbit', values(tens(*end), ops), [frac(v) for v in case['hist'][-1]['vals']['E1']], where)

    def go(how, N, grid=1.0, only=None):
        """all the runs with one trajectory; the largest distance from the orbit"""
        tr = Trajectory(iMPS([start.copy()]), [segs[0][3]])
        err, count = 0.0, 0
        for i, (e, x, y, Hm, T, f) in enumerate(segs[:only]):
            tr.H = [Hm]
            ts = T*np.linspace(0, 1, N+1)**grid
            getattr(tr, how + 'int')(ts)
            if len(tr.mps_history) != count + len(ts):
                raise Bad(how + ':count', '%s run %d: %d records of %d times' % (where, i, len(tr.mps_history)-count, len(ts)))
            for k, t in enumerate(ts):
                B = read(tr, count+k, d, D).data[0]
                err = max(err, distance(B, tens(x+f(t)[0], y+f(t)[1])))
                if k > 0:
                    close(how + ':isometry', sum(b.conj().T@b for b in B), np.eye(D), '%s run %d time %d' % (where, i, k), tol=1e-6)
            count += len(ts)
            if distance(tr.mps.data[0], read(tr, count-1, d, D).data[0]) > 1e-6:
                raise Bad(how + ':current', '%s run %d' % (where, i))
        close(how + ':start', distance(read(tr, 0, d, D).data[0], A0), 0, where, tol=1e-6)
        return tr, err
    how = case['hist'][0]['op']
    per = 8*max(1, int(np.ceil(max(s[4] for s in segs))))
    runs = [go('rk4', per*k) for k in (1, 2, 4)]
    e = [r[1] for r in runs]
    if not (e[2] < 1e-6 or e[1]/e[2] > 2**3.2 or e[0]/e[2] > 2**6.8):
        raise Bad('rk4:order', '%s: errors %s' % (where, e))
    if e[2] > 1e-3:
        raise Bad('rk4:error', '%s: errors %s' % (where, e))
    n += 3
    # the values reached, at the end of every run
    tr = runs[2][0]
    count = 0
    for i, s in enumerate(segs):
        count += 4*per + 1
        m = read(tr, count-1, d, D)
        want = [frac(v) for v in s[0]['vals']['E1']]
        close('rk4:values', [np.real(m.E(O)) for O in ops], want, '%s run %d' % (where, i), tol=1e-4)
        if s[0]['vals']['E2'][1]:
            close('rk4:energy', m.energy([h]), frac(s[0]['vals']['E2']), '%s run %d' % (where, i), tol=1e-4)
        n += 1
    # the rate function
    ls = np.array([np.squeeze(x) for x in tr.loschmidts()])
    if ls.shape != (len(tr.mps_history),):
        raise Bad('loschmidts:count', where)
    first = read(tr, 0, d, D).data[0]
    for k in range(0, len(ls), per):
        o = overlap(read(tr, k, d, D).data[0], first)
        if o > 1e-3:
            close('loschmidts', ls[k], -np.log(o), '%s time %d' % (where, k), tol=1e-5)
    # uneven times
    if case['seed'] % 2:
        err = go('rk4', 4*per, 1.5, 1)[1]
        if err > 1e-3:
            raise Bad('rk4:uneven', '%s: error %.3g' % (where, err))
    else:
        es = [go('euler', 4*per*k, only=1)[1] for k in (1, 4)]
        if not (es[1] < 1e-5 or es[0]/es[1] > 2.6 or es[1] < es[0]*0.3):
            raise Bad('euler:order', '%s: errors %s' % (where, es))
        if es[1] > 0.12:
            raise Bad('euler:error', '%s: errors %s' % (where, es))
        if es[1] > 1e-3 and es[1] < 3*e[2]:
            raise Bad('euler:rk4', where)
    return n + 2

def replay_descent(case):
    from xmps.iOptimize import find_ground_state
    H, e0 = cx(case['h']), float(case['e0'])
    w = np.linalg.eigvalsh(H)
    width = w[-1] - w[0]
    where = 'seed %s (%s)' % (case['seed'], ' '.join(case['hist']))
    # the known energies
    from xmps.iMPS import iMPS
    for o in case['others']:
        if o['E'][1]:
            v = cx(o['w']); A = (v/np.linalg.norm(v)).reshape(2, 1, 1)
            close('product', iMPS([A]).energy([H]), frac(o['E']), where)
    chi = cx(case['chi'])
    close('chi', iMPS([chi.reshape(2, 1, 1)]).energy([H]), e0, where)
    D = 1 + case['seed'] % 2
    eps = 0.05/max(1.0, width)
    def descend(k):
        np.random.seed(case['seed'] % 2**31)
        return find_ground_state(H.copy(), D, ϵ=eps, maxiters=k, tol=1e-12)
    K = 25
    states = []
    for k in range(4):
        m, es = descend(k)
        if len(es) != k:
            raise Bad('descent:count', where)
        states.append(m.data[0])
    m, es = descend(K)
    es = np.real(np.array(es).reshape(-1))
    if not 1 <= len(es) <= K:
        raise Bad('descent:count', where)
    for k in range(min(4, len(es))):
        close('descent:energies', es[k], value2(states[k], H), '%s step %d' % (where, k), tol=1e-6)
    last = value2(m.data[0], H)
    # (a step through an ill-conditioned state is not small)
    fine = [D == 1 or (k < 4 and weights(states[k]) > 0.02) for k in range(len(es))]
    if np.any((np.diff(np.append(es, last)) > 1e-9*max(1, width)) & fine):
        raise Bad('descent:lowers', '%s D=%d: %s' % (where, D, es))
    if min(es.min(), last) < e0 - 1e-7*max(1, width):
        raise Bad('descent:below', '%s: %s < %s' % (where, es.min(), e0))
    close('descent:isometry', sum(a.conj().T@a for a in m.data[0]), np.eye(D), where, tol=1e-6)
    # one-site terms only, product states: the descent is a known curve
    if 'bond' not in case['hist'] and D == 1:
        m, es = descend(150)
        p = (np.trace(H).real - 4*e0)/2           # energy of the state opposite to chi
        x = np.real(es[0]) - e0
        f = x/(p-x)*np.exp(-2*p*eps*np.arange(len(es)+1))
        want = e0 + p*f/(1+f)
        got = np.append(np.real(np.array(es).reshape(-1)), value2(m.data[0], H))
        if np.max(np.abs(got - want)) > 0.08*p:
            raise Bad('descent:curve', '%s: %s, exact %s' % (where, got[::10], want[::10]))
        return 3
    return 2

def run(ctx):
    q = ctx.quick
    rows = ctx.tlc('Quench', dict(ctx.seeds(100, 1500), Depth=2), invariants=['TypeOK', 'Normed', 'Conserved', 'Local', 'Marginal', 'Back', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_quench, rows, kind='quench', limit=120)
    rows = ctx.tlc('Descent', dict(ctx.seeds(60, 1500), Depth=4), invariants=['Hermitian', 'Energy', 'Lower', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_descent, rows, kind='descent', limit=120)
