from checks.uniform import *

def deriv(A, B, f):
    """symmetric difference, extrapolated once"""
    t = 3e-4*np.linalg.norm(A)/max(np.linalg.norm(B), 1e-9)
    g = lambda e: (np.array(f(A+e*B)) - np.array(f(A-e*B)))/(2*e)
    return (4*g(t/2) - g(t))/3

def replay_dynamics(case):
    from xmps.iMPS import iMPS, Map
    C = Class(case)
    ini = C.ini
    if C.ratio > 0.9 or C.w2[-1] < 1e-4:
        return 0
    m, hand = iMPS([C.A.copy()]), None
    for h in case['hist']:
        if h['op'] == 'gauge':
            m[0], hand = moved(m[0], C.gauge(h)), None
        elif h['op'] == 'scale':
            m[0], hand = complex(*h['by'])*m[0], None
        elif h['op'] == 'canon':
            m.canonicalise(h['hand'])
            hand = h['hand']
    where = 'seed %s %s D=%d %s' % (case['seed'], [f['kind'] for f in C.fs], C.D, [h['op'] for h in case['hist']])
    A = np.array(m.data[0])
    lam = envs(A)[2].real
    # environments
    for name, (eta, l, r) in [('eigs', m.eigs())]:
        eta = np.squeeze(eta)
        close('env:eta', eta, lam, where, tol=1e-8)
        close('env:left', sum(a.conj().T@l@a for a in A)/lam, l, where, tol=1e-6)
        close('env:right', sum(a@r@a.conj().T for a in A)/lam, r, where, tol=1e-6)
        close('env:pairing', np.trace(l@r), 1, where)
        close('env:hermitian', [l, r], [l.conj().T, r.conj().T], where, tol=1e-6)
    l2, r2 = m.get_envs()
    close('env:get_envs', [l2, r2], [l, r], where, tol=1e-6)
    # energies
    close('energy', m.energy([C.h]), C.e, where, tol=1e-7)
    fh = [cx(f) for f in ini['F']]
    gs = [cx(g) for g in ini['G']]
    one = [np.eye(d) for d in C.ds]
    place = lambda ops, i: kron(*[ops[i] if j == i else one[j] for j in range(len(one))])
    F = sum(place(fh, i) for i in range(len(fh)))
    G = sum(place(gs, i) for i in range(len(gs)))
    I = np.eye(C.d)
    field = np.kron(F, I) + np.kron(I, F)
    tele = np.kron(G, I) - np.kron(I, G)
    ef = 2*sum(frac(x) for x in ini['RF'])
    close('energy:field', m.energy([field+tele]), ef, where, tol=1e-7)
    # overlap with another state: a root of the exact characteristic polynomial
    if ini['ov']['poly']:
        B = cx(ini['ov']['B'])
        roots = np.roots(cx(ini['ov']['poly']))
        top = max(np.abs(roots)) if len(roots) else 0.0
        want = top**2/(C.N*ini['ov']['N'])
        mods = np.sort(np.abs(roots))[::-1]
        if want > 1e-6:
            got = np.squeeze(m.overlap(iMPS([B])))
            close('overlap', got, want, where, tol=1e-6)
            close('overlap:order', np.squeeze(iMPS([B]).overlap(m)), want, where, tol=1e-6)
    if not np.array_equal(m.data[0], A):
        raise Bad('operand', where + ': the tensor was changed')
    # projectors onto the null spaces of the environments
    _, l, r = m.eigs()
    pr, vL = m.left_null_projector(True)
    if C.D < C.D*C.d:
        k = C.D*(C.d-1)
        P = np.einsum('satc,cb->satb', pr, l).reshape(C.d*C.D, -1)   # P l is a projector
        close('null:left', [np.max(np.abs(P@P-P)), np.trace(P).real], [0, k], where, tol=1e-6)
        close('null:left-orthogonal', np.einsum('sxa,xy,sytc->atc', A.conj(), l, pr), np.zeros((C.D, C.d, C.D)), where, tol=1e-6)
        pr, vR = m.right_null_projector(True)
        P = np.einsum('sbtc,xc->sbtx', pr, r).reshape(C.d*C.D, -1)
        close('null:right', [np.max(np.abs(P@P-P)), np.trace(P).real], [0, k], where, tol=1e-6)
        close('null:right-orthogonal', np.einsum('sab,cb,sctd->atd', A.conj(), r, pr), np.zeros((C.D, C.d, C.D)), where, tol=1e-6)
    # dynamics that stays among these states: every rate of change is exact
    B = m.dA_dt([field+tele])
    close('dA_dt:energy', np.real(m.e), ef, where, tol=1e-7)
    B = B.data[0]
    E1s = [[frac(E[q]) for E in ini['E1']] for q in range(3)]
    R1s = [[frac(R[q]) for R in ini['R1']] for q in range(3)]
    want = [2*sum(R[i]*np.prod([e for j, e in enumerate(E) if j != i]) for i in range(len(E))) for E, R in zip(E1s, R1s)]
    sc = max(np.linalg.norm(F, 2)*max(np.linalg.norm(O, 2) for O in C.ops), 1)
    close('dA_dt:rates', deriv(A, B, lambda a: values(a, C.ops))/sc, np.array(want)/sc, where, tol=2e-5)
    # moving local terms along the chain is no dynamics at all
    B0 = m.dA_dt([tele]).data[0]
    close('dA_dt:telescope', B0/np.linalg.norm(A), 0*B0, where, tol=1e-6*np.linalg.norm(G)*np.linalg.cond(l)*np.linalg.cond(r))
    n = 4
    # any dynamics: the projection is the gradient of the energy in the metric of the tangent space
    hn = C.h/np.linalg.norm(C.h, 2)
    B = m.dA_dt([hn]).data[0]
    close('dA_dt:e', np.real(m.e), C.e/np.linalg.norm(C.h, 2), where, tol=1e-7)
    Bt = m.dA_dt([hn + tele/10]).data[0]
    close('dA_dt:shifted', Bt/np.linalg.norm(A), B/np.linalg.norm(A), where, tol=1e-6*np.linalg.cond(l)*np.linalg.cond(r))
    # sums over all terms to the left and to the right
    d, h4, An = C.d, hn.reshape([C.d]*4), A/np.sqrt(lam)
    hAA = np.einsum('uvst,sab,tbc->uvac', h4, An, An)
    left = np.einsum('xa,uvab,uxy,vyc->cb', l, hAA, An.conj(), An.conj(), optimize=True)
    right = np.einsum('uvab,bc,uxy,vyc->ax', hAA, r, An.conj(), An.conj(), optimize=True)
    amp = np.linalg.cond(l)*np.linalg.cond(r)/(1-C.ratio)
    K = m.Lh([hn])
    close('Lh', K - sum(a.conj().T@K@a for a in An), left - l*np.trace(left@r), where, tol=1e-6*amp)
    close('Lh:gauge', np.trace(K@r), 0, where, tol=1e-6*amp)
    if C.D <= 3:
        K = m.Rh([hn])
        close('Rh', K - sum(a@K@a.conj().T for a in An), right - r*np.trace(l@right), where, tol=1e-6*amp)
        close('Rh:gauge', np.trace(l@K), 0, where, tol=1e-6*amp)
        # the equation itself: its residue at the solution, and only there
        for name, sum_ in (('Lh', m.Lh), ('Rh', m.Rh)):
            f, l3, r3, K = sum_([hn], testing=True)
            close(name+':told', [l3, r3], [l, r], where, tol=1e-6)
            pack = lambda K: np.concatenate([K.real.reshape(-1), K.imag.reshape(-1)])
            out = np.asarray(f(pack(K)))
            if out.shape != (2*C.D**2,) or np.iscomplexobj(out):
                raise Bad(name+':residue', where + ': %s %s' % (out.shape, out.dtype))
            close(name+':residue', out, 0*out, where, tol=1e-6*amp)
            off = np.asarray(f(pack(K + np.eye(C.D)*(1+1j))))
            if np.linalg.norm(off) < 1e-3:
                raise Bad(name+':residue-elsewhere', where)
        close('Lh:ways', m.Lh([hn], method='hybr'), m.Lh([hn]), where, tol=1e-6*amp)
    pr, _ = m.left_null_projector(True)
    rng = np.random.RandomState(case['seed'] % 2**31)
    for _ in range(2):
        V = np.einsum('satc,tcb->sab', pr, rng.randn(*A.shape) + 1j*rng.randn(*A.shape))
        V *= np.linalg.norm(A)/np.linalg.norm(V)
        slope = deriv(A, V, lambda a: value2(a, hn))
        inner = sum(np.trace(v.conj().T@l@(1j*b)@r) for v, b in zip(V, B)).real*2/lam
        size = sum(np.trace(v.conj().T@l@v@r) for v in V).real/lam
        if not abs(slope - inner) <= 2e-5*max(1.0, np.sqrt(size)):
            raise Bad('dA_dt:gradient', '%s: slope of the energy %.8g, of the derivative %.8g' % (where, slope, inner))
    if not np.array_equal(m.data[0], A):
        raise Bad('operand', where + ': the tensor was changed')
    return n

def run(ctx):
    q = ctx.quick
    ctx.replay(replay_dynamics, classes(ctx, 350 if q else 5000, 4, seed0=20000), kind='rates')
